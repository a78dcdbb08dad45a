//! The argument block of one call: raw plane buffers plus scalar arguments, with accessors that
//! build the crate's image structures exactly as a user of the public API would.
use std::fmt::Debug;
use std::mem::ManuallyDrop;
use yuv::*;

#[derive(Clone, Copy)]
pub struct Buf {
    pub ptr: *mut u8,
    /// elements
    pub len: usize,
    pub stride: u32,
}

pub struct Ctx {
    pub w: u32,
    pub h: u32,
    /// dimensions given with the destination image, for calls that take two images
    pub dw: u32,
    pub dh: u32,
    pub src: Vec<Buf>,
    pub dst: Vec<Buf>,
    pub rg: i64,
    pub mx: i64,
    pub kr: i64,
    pub kb: i64,
    pub md: i64,
    pub bo: i64,
    pub pm: i64,
    pub bd: i64,
    pub op: i64,
    /// images own their buffers, and sources are views of mutable images
    pub ow: bool,
}

fn sl<T>(b: &Buf) -> &'static [T] {
    unsafe { std::slice::from_raw_parts(b.ptr as *const T, b.len) }
}

fn slm<T>(b: &Buf) -> &'static mut [T] {
    unsafe { std::slice::from_raw_parts_mut(b.ptr as *mut T, b.len) }
}

impl Ctx {
    /// The buffer as the crate's shared storage type: borrowed, or (`ow`) owned.  The vector is made
    /// over the guarded memory; ManuallyDrop in the constructors below keeps it from being freed.
    fn store<T: Copy + Debug + 'static>(&self, b: &Buf) -> BufferStoreMut<'static, T> {
        if self.ow {
            BufferStoreMut::Owned(unsafe { Vec::from_raw_parts(b.ptr as *mut T, b.len, b.len) })
        } else {
            BufferStoreMut::Borrowed(slm(b))
        }
    }
    pub fn src_slice<T>(&self) -> &'static [T] {
        sl(&self.src[0])
    }
    pub fn dst_slice<T>(&self) -> &'static mut [T] {
        slm(&self.dst[0])
    }
    pub fn src_stride(&self) -> u32 {
        self.src[0].stride
    }
    pub fn dst_stride(&self) -> u32 {
        self.dst[0].stride
    }
    pub fn premul(&self) -> bool {
        self.pm != 0
    }
    pub fn range(&self) -> YuvRange {
        if self.rg == 0 {
            YuvRange::Limited
        } else {
            YuvRange::Full
        }
    }
    pub fn matrix(&self) -> YuvStandardMatrix {
        match self.mx {
            0 => YuvStandardMatrix::Bt601,
            1 => YuvStandardMatrix::Bt709,
            2 => YuvStandardMatrix::Bt2020,
            3 => YuvStandardMatrix::Smpte240,
            4 => YuvStandardMatrix::Bt470_6,
            5 => YuvStandardMatrix::Fcc,
            _ => YuvStandardMatrix::Custom(self.kr as f32 / 10000., self.kb as f32 / 10000.),
        }
    }
    pub fn mode(&self) -> YuvConversionMode {
        match self.md {
            0 => YuvConversionMode::Balanced,
            1 => YuvConversionMode::Fast,
            _ => YuvConversionMode::Professional,
        }
    }
    pub fn byte_order(&self) -> Rgb30ByteOrder {
        if self.bo == 0 {
            Rgb30ByteOrder::Host
        } else {
            Rgb30ByteOrder::Network
        }
    }
    pub fn rotation(&self) -> RotationMode {
        match self.op {
            0 => RotationMode::Rotate90,
            1 => RotationMode::Rotate180,
            _ => RotationMode::Rotate270,
        }
    }
    pub fn mirror(&self) -> MirrorMode {
        if self.op == 0 {
            MirrorMode::Vertical
        } else {
            MirrorMode::Horizontal
        }
    }
    pub fn gamma(&self) -> SharpYuvGammaTransfer {
        match self.op {
            0 => SharpYuvGammaTransfer::Srgb,
            1 => SharpYuvGammaTransfer::Rec709,
            2 => SharpYuvGammaTransfer::Gamma2p2,
            _ => SharpYuvGammaTransfer::Gamma2p8,
        }
    }
    pub fn p3<T: Default + Copy + Debug + 'static>(&self) -> YuvPlanarImage<'static, T> {
        if self.ow {
            let m: &'static _ = Box::leak(Box::new(self.p3_mut_src::<T>()));
            return m.to_fixed();
        }
        let s = &self.src;
        YuvPlanarImage {
            y_plane: sl(&s[0]),
            y_stride: s[0].stride,
            u_plane: sl(&s[1]),
            u_stride: s[1].stride,
            v_plane: sl(&s[2]),
            v_stride: s[2].stride,
            width: self.w,
            height: self.h,
        }
    }
    pub fn p3a<T: Copy + Debug + 'static>(&self) -> YuvPlanarImageWithAlpha<'static, T> {
        let s = &self.src;
        YuvPlanarImageWithAlpha {
            y_plane: sl(&s[0]),
            y_stride: s[0].stride,
            u_plane: sl(&s[1]),
            u_stride: s[1].stride,
            v_plane: sl(&s[2]),
            v_stride: s[2].stride,
            a_plane: sl(&s[3]),
            a_stride: s[3].stride,
            width: self.w,
            height: self.h,
        }
    }
    pub fn nv<T: Default + Copy + Debug + 'static>(&self) -> YuvBiPlanarImage<'static, T> {
        if self.ow {
            let m: &'static _ = Box::leak(Box::new(self.nv_mut_src::<T>()));
            return m.to_fixed();
        }
        let s = &self.src;
        YuvBiPlanarImage {
            y_plane: sl(&s[0]),
            y_stride: s[0].stride,
            uv_plane: sl(&s[1]),
            uv_stride: s[1].stride,
            width: self.w,
            height: self.h,
        }
    }
    pub fn y<T: Copy + Debug + 'static>(&self) -> YuvGrayImage<'static, T> {
        if self.ow {
            let m: &'static _ = Box::leak(Box::new(self.y_mut_src::<T>()));
            return m.to_fixed();
        }
        let s = &self.src;
        YuvGrayImage {
            y_plane: sl(&s[0]),
            y_stride: s[0].stride,
            width: self.w,
            height: self.h,
        }
    }
    pub fn ya<T: Copy + Debug + 'static>(&self) -> YuvGrayAlphaImage<'static, T> {
        let s = &self.src;
        YuvGrayAlphaImage {
            y_plane: sl(&s[0]),
            y_stride: s[0].stride,
            a_plane: sl(&s[1]),
            a_stride: s[1].stride,
            width: self.w,
            height: self.h,
        }
    }
    pub fn pk<T: Copy + Debug + 'static>(&self) -> YuvPackedImage<'static, T> {
        if self.ow {
            let m: &'static _ = Box::leak(Box::new(self.pk_mut_src::<T>()));
            return m.to_fixed();
        }
        let s = &self.src;
        YuvPackedImage {
            yuy: sl(&s[0]),
            yuy_stride: s[0].stride,
            width: self.w,
            height: self.h,
        }
    }
    fn p3_of<T: Copy + Debug + 'static>(&self, b: &[Buf], w: u32, h: u32) -> ManuallyDrop<YuvPlanarImageMut<'static, T>> {
        ManuallyDrop::new(YuvPlanarImageMut {
            y_plane: self.store(&b[0]),
            y_stride: b[0].stride,
            u_plane: self.store(&b[1]),
            u_stride: b[1].stride,
            v_plane: self.store(&b[2]),
            v_stride: b[2].stride,
            width: w,
            height: h,
        })
    }
    fn nv_of<T: Copy + Debug + 'static>(&self, b: &[Buf], w: u32, h: u32) -> ManuallyDrop<YuvBiPlanarImageMut<'static, T>> {
        ManuallyDrop::new(YuvBiPlanarImageMut {
            y_plane: self.store(&b[0]),
            y_stride: b[0].stride,
            uv_plane: self.store(&b[1]),
            uv_stride: b[1].stride,
            width: w,
            height: h,
        })
    }
    fn y_of<T: Copy + Debug + 'static>(&self, b: &[Buf], w: u32, h: u32) -> ManuallyDrop<YuvGrayImageMut<'static, T>> {
        ManuallyDrop::new(YuvGrayImageMut {
            y_plane: self.store(&b[0]),
            y_stride: b[0].stride,
            width: w,
            height: h,
        })
    }
    fn pk_of<T: Copy + Debug + 'static>(&self, b: &[Buf], w: u32, h: u32) -> ManuallyDrop<YuvPackedImageMut<'static, T>> {
        ManuallyDrop::new(YuvPackedImageMut {
            yuy: self.store(&b[0]),
            yuy_stride: b[0].stride,
            width: w,
            height: h,
        })
    }
    pub fn p3_mut<T: Copy + Debug + 'static>(&self) -> ManuallyDrop<YuvPlanarImageMut<'static, T>> {
        self.p3_of(&self.dst, self.dw, self.dh)
    }
    pub fn nv_mut<T: Copy + Debug + 'static>(&self) -> ManuallyDrop<YuvBiPlanarImageMut<'static, T>> {
        self.nv_of(&self.dst, self.dw, self.dh)
    }
    pub fn y_mut<T: Copy + Debug + 'static>(&self) -> ManuallyDrop<YuvGrayImageMut<'static, T>> {
        self.y_of(&self.dst, self.dw, self.dh)
    }
    pub fn pk_mut<T: Copy + Debug + 'static>(&self) -> ManuallyDrop<YuvPackedImageMut<'static, T>> {
        self.pk_of(&self.dst, self.dw, self.dh)
    }
    pub fn p3_mut_src<T: Copy + Debug + 'static>(&self) -> ManuallyDrop<YuvPlanarImageMut<'static, T>> {
        self.p3_of(&self.src, self.w, self.h)
    }
    pub fn nv_mut_src<T: Copy + Debug + 'static>(&self) -> ManuallyDrop<YuvBiPlanarImageMut<'static, T>> {
        self.nv_of(&self.src, self.w, self.h)
    }
    pub fn y_mut_src<T: Copy + Debug + 'static>(&self) -> ManuallyDrop<YuvGrayImageMut<'static, T>> {
        self.y_of(&self.src, self.w, self.h)
    }
    pub fn pk_mut_src<T: Copy + Debug + 'static>(&self) -> ManuallyDrop<YuvPackedImageMut<'static, T>> {
        self.pk_of(&self.src, self.w, self.h)
    }

    /// What an allocated image is, as a row of numbers (spec/Props.tla, Facts)
    fn facts(&self, f: &[usize]) -> Result<(), YuvError> {
        let d = slm::<u16>(&self.dst[0]);
        for (k, v) in f.iter().enumerate() {
            d[k] = (*v).min(65535) as u16;
        }
        Ok(())
    }
    pub fn alloc_p3(&self, sub: YuvChromaSubsampling) -> Result<(), YuvError> {
        let mut m = YuvPlanarImageMut::<u16>::alloc(self.dw, self.dh, sub);
        let zero = [&m.y_plane, &m.u_plane, &m.v_plane].iter().all(|p| p.borrow().iter().all(|x| *x == 0));
        // what is written through the image is what its views show
        let mut n = 0;
        for p in [&mut m.y_plane, &mut m.u_plane, &mut m.v_plane] {
            for x in p.borrow_mut() {
                n += 1;
                *x = n as u16;
            }
        }
        let subs = SUBS.map(|s| m.check_constraints(s).is_ok() as usize);
        let f = m.to_fixed();
        let fixed = SUBS.map(|s| f.check_constraints(s).is_ok() as usize);
        let shown = f.y_plane.iter().chain(f.u_plane).chain(f.v_plane).enumerate().all(|(k, x)| *x == (k + 1) as u16);
        self.facts(&[
            f.width as usize, f.height as usize, f.y_stride as usize, f.y_plane.len(), f.u_stride as usize, f.u_plane.len(),
            f.v_stride as usize, f.v_plane.len(), subs[0], subs[1], subs[2], fixed[0], fixed[1], fixed[2], zero as usize, shown as usize,
        ])
    }
    pub fn alloc_nv(&self, sub: YuvChromaSubsampling) -> Result<(), YuvError> {
        let mut m = YuvBiPlanarImageMut::<u16>::alloc(self.dw, self.dh, sub);
        let zero = [&m.y_plane, &m.uv_plane].iter().all(|p| p.borrow().iter().all(|x| *x == 0));
        let mut n = 0;
        for p in [&mut m.y_plane, &mut m.uv_plane] {
            for x in p.borrow_mut() {
                n += 1;
                *x = n as u16;
            }
        }
        let subs = SUBS.map(|s| m.check_constraints(s).is_ok() as usize);
        let f = m.to_fixed();
        let g = YuvBiPlanarImage::from_mut(&m);
        let same = f.y_plane.as_ptr() == g.y_plane.as_ptr() && f.y_plane.len() == g.y_plane.len() && f.uv_plane.as_ptr() == g.uv_plane.as_ptr()
            && f.uv_plane.len() == g.uv_plane.len() && (f.width, f.height, f.y_stride, f.uv_stride) == (g.width, g.height, g.y_stride, g.uv_stride);
        let fixed = SUBS.map(|s| g.check_constraints(s).is_ok() as usize);
        let shown = f.y_plane.iter().chain(f.uv_plane).enumerate().all(|(k, x)| *x == (k + 1) as u16);
        self.facts(&[
            f.width as usize, f.height as usize, f.y_stride as usize, f.y_plane.len(), f.uv_stride as usize, f.uv_plane.len(),
            0, 0, subs[0], subs[1], subs[2], fixed[0], fixed[1], fixed[2], zero as usize, (shown && same) as usize,
        ])
    }
    pub fn alloc_y(&self) -> Result<(), YuvError> {
        let mut m = YuvGrayImageMut::<u16>::alloc(self.dw, self.dh);
        let zero = m.y_plane.borrow().iter().all(|x| *x == 0);
        for (k, x) in m.y_plane.borrow_mut().iter_mut().enumerate() {
            *x = (k + 1) as u16;
        }
        let a = m.check_constraints().is_ok() as usize;
        let f = m.to_fixed();
        let b = f.check_constraints().is_ok() as usize;
        let shown = f.y_plane.iter().enumerate().all(|(k, x)| *x == (k + 1) as u16);
        self.facts(&[
            f.width as usize, f.height as usize, f.y_stride as usize, f.y_plane.len(), 0, 0, 0, 0, a, a, a, b, b, b, zero as usize, shown as usize,
        ])
    }
}

const SUBS: [YuvChromaSubsampling; 3] = [YuvChromaSubsampling::Yuv420, YuvChromaSubsampling::Yuv422, YuvChromaSubsampling::Yuv444];
