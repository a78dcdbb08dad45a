//! Conformance driver: performs the calls listed in a scenario file (written by TLC from the
//! specification) against the real crate and records what can be observed through the public API.
//!
//!   yuvdrive run   SCENARIOS OUT SHARD NSHARDS [--rayon-threads N]
//!   yuvdrive merge SCENARIOS TRACE SHARD NSHARDS NAME=RESULT...
//!
//! Every scenario is executed twice.  The second execution differs in everything that the result
//! must not depend on: the previous contents of the destination, the padding of the source rows,
//! and the position of every buffer in memory (against the upper, then the lower guard page).
//! A destination cell is recorded as its value, as untouched, or as "undetermined" when the two
//! executions disagree.
#![feature(f16)]
mod call;
mod dispatch;
mod json;

use call::{Buf, Ctx};
use json::{Get, Obj};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Read, Write};
use std::os::raw::{c_int, c_void};
use yuv::YuvError;

extern "C" {
    fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, l: usize, p: c_int) -> c_int;
    fn fork() -> c_int;
    fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn alarm(s: u32) -> u32;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn prctl(o: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}

const PAGE: usize = 4096;
const NSLOT: usize = 8;
const UNTOUCHED: i32 = -2_000_000_001;
const UNDET: i32 = -2_000_000_002;

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[derive(Clone, Copy, PartialEq)]
enum Ty {
    U8,
    U16,
    I16,
    F16,
}

impl Ty {
    fn of(s: &str) -> Ty {
        match s {
            "u8" => Ty::U8,
            "u16" => Ty::U16,
            "i16" => Ty::I16,
            "f16" => Ty::F16,
            _ => panic!("type {s}"),
        }
    }
    fn size(self) -> usize {
        if self == Ty::U8 {
            1
        } else {
            2
        }
    }
    unsafe fn read(self, p: *const u8, i: usize) -> i32 {
        match self {
            Ty::U8 => *p.add(i) as i32,
            Ty::U16 => (p.add(2 * i) as *const u16).read_unaligned() as i32,
            Ty::I16 => (p.add(2 * i) as *const i16).read_unaligned() as i32,
            Ty::F16 => {
                let b = (p.add(2 * i) as *const u16).read_unaligned();
                f16_units(b)
            }
        }
    }
    unsafe fn write(self, p: *mut u8, i: usize, raw: u16) {
        match self {
            Ty::U8 => *p.add(i) = raw as u8,
            _ => (p.add(2 * i) as *mut u16).write_unaligned(raw),
        }
    }
    fn view(self, raw: u16) -> i32 {
        match self {
            Ty::U8 => raw as u8 as i32,
            Ty::U16 => raw as i32,
            Ty::I16 => raw as i16 as i32,
            Ty::F16 => f16_units(raw),
        }
    }
}

impl Ty {
    /// The raw sample behind a recorded one.
    fn unview(self, v: i32) -> u16 {
        match self {
            Ty::F16 => ((v as f64 / 16777216.0) as f16).to_bits(),
            _ => v as u16,
        }
    }
}

/// value of a half float in units of 2^-24 (exact up to 113, held there beyond), or a sentinel for NaN
fn f16_units(bits: u16) -> i32 {
    let v = f16::from_bits(bits) as f64 * 16777216.0;
    if v.is_nan() {
        -1_999_999_999
    } else {
        v.clamp(-1.9e9, 1.9e9) as i32
    }
}

#[derive(Clone)]
struct Plane {
    ty: Ty,
    stride: u32,
    len: usize,
    w: usize,
    rows: usize,
}

struct Scen {
    o: Obj,
    g: i64,
    src: Vec<Plane>,
    dst: Vec<Plane>,
}

fn planes(o: &Obj, t: &str, st: &str, ln: &str, w: &str, r: &str) -> Vec<Plane> {
    let ty = Ty::of(o.s(t));
    (0..o.a(st).len())
        .map(|k| Plane {
            ty,
            stride: o.a(st)[k] as u32,
            len: o.a(ln)[k] as usize,
            w: o.a(w)[k] as usize,
            rows: o.a(r)[k] as usize,
        })
        .collect()
}

fn load(path: &str) -> Vec<Scen> {
    BufReader::new(File::open(path).expect("scenario file"))
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .enumerate()
        .map(|(n, l)| {
            let o = json::parse_line(&l);
            Scen {
                g: o.io("g", n as i64),
                src: planes(&o, "st", "ss", "sl", "sw", "sr"),
                dst: planes(&o, "dt", "ds", "dl", "dv", "dr"),
                o,
            }
        })
        .collect()
}

/// The shard of every scenario: groups (call chains) stay together.
fn shard_of(s: &[Scen], n: usize) -> Vec<usize> {
    let mut out = Vec::with_capacity(s.len());
    let mut k = 0usize;
    let mut last = None;
    for x in s {
        if let Some(p) = last {
            if p != x.g {
                k += 1;
            }
        }
        last = Some(x.g);
        out.push(k % n);
    }
    out
}

/// Logical source sample -> raw stored bits, following the scenario's fill rule.
fn fill_value(o: &Obj, ty: Ty, plane: usize, col: usize, row: usize) -> u16 {
    let mut seed = o.io("seed", 1) as u64;
    let max = o.io("smax", 255) as u64;
    // the rows of a band are those of the whole picture
    let row = row + o.a("ro").get(plane).copied().unwrap_or(0) as usize;
    // a box of the picture (or all but a box) may come from another picture
    let bx = o.a("bx");
    if bx.len() == 6 {
        let n = o.a("sp").get(plane).copied().unwrap_or(1) as usize;
        let x = (col / n) as i64 * o.a("ph")[plane];
        let y = row as i64 * o.a("pv")[plane];
        let inside = x >= bx[0] && x < bx[2] && y >= bx[1] && y < bx[3];
        if inside == (bx[4] == 0) {
            seed = bx[5] as u64;
        }
    }
    // one sample of the picture may be given its own value
    let px = o.a("px");
    if px.len() == 4 && (px[0], px[1], px[2]) == (plane as i64, row as i64, col as i64) {
        return match ty {
            Ty::I16 => (px[3] / 4 - 4096) as i16 as u16,
            _ => store(o, px[3] as u64),
        };
    }
    // The same picture in another layout has the same samples: `sp` gives the number of interleaved
    // components per plane, `sc` their numbers.
    let sp = o.a("sp");
    let (plane, col) = if sp.is_empty() {
        (plane, col)
    } else {
        let first: i64 = sp[..plane].iter().sum();
        let n = sp[plane] as usize;
        (o.a("sc")[first as usize + col % n] as usize, col / n)
    };
    let h = mix(seed
        .wrapping_mul(0x1000193)
        .wrapping_add((plane as u64) << 56)
        .wrapping_add((row as u64) << 28)
        .wrapping_add(col as u64));
    if o.io("gz", 0) != 0 {
        // any bit pattern the type can hold
        return match h & 7 {
            0 => [0, 0xffff, 0x8000, 0x7fff, 0x7c00, 0xfc00, 0x7bff, 0xfbff][(h >> 8 & 7) as usize],
            _ => (h >> 8) as u16,
        };
    }
    if ty == Ty::F16 {
        let v = match h % 8 {
            0 => 0.0f32,
            1 => 1.0,
            2 => (h >> 8 & 0xff) as f32 / 255.,
            3 => (h >> 8 & 0x3ff) as f32 / 1023.,
            4 => (h >> 8 & 0xff) as f32 / 65536.,
            5 if h >> 8 & 7 == 0 => [-0.5f32, 1.5, 100., -0.0][(h >> 11 & 3) as usize],
            _ => (h >> 8 & 0xffff) as f32 / 65535.,
        };
        return (v as f16).to_bits();
    }
    if ty == Ty::I16 {
        // RemoteFX planes: signed 12.5 fixed point around zero
        let v: i64 = match h % 4 {
            0 => [-4096, 4095, 0, -1, 1, 4064, -4064, 2048][(h >> 8) as usize % 8],
            _ => (h >> 8) as i64 % 8192 - 4096,
        };
        return v as i16 as u16;
    }
    let half = (max + 1) / 2;
    let unit = ((max + 1) / 256).max(1);
    let logical = match o.so("fill") {
        "flat" => match plane {
            // one colour for the whole image
            _ => {
                let g = mix(seed.wrapping_add((plane as u64) << 40).wrapping_add(
                    // interleaved layouts repeat with the pixel period
                    (col as u64) % o.io("per", 1).max(1) as u64,
                ));
                pick(g, max, half, unit)
            }
        },
        "rnd" => {
            let lo = o.io("lo", 0) as u64;
            lo + (h >> 11) % (o.io("hi", max as i64) as u64 - lo + 1)
        }
        "mid" => {
            // values of 8x8 blocks stay close together
            let b = mix(seed ^ ((plane as u64) << 40) ^ ((row as u64 / 4) << 20) ^ (col as u64 / 8));
            let base = (b % (max + 1)) as i64;
            let d = (h % (16 * unit)) as i64 - 8 * unit as i64;
            (base + d).clamp(0, max as i64) as u64
        }
        _ => {
            // now and then a block of one extreme colour: white, black, a primary or a mixture of two
            let b = mix(seed ^ 0x5bd1e995 ^ ((row as u64 / 2) << 20) ^ (col as u64 / 2));
            if b & 7 == 0 {
                let corner = match b >> 8 & 7 {
                    0 | 1 | 2 => 15,
                    3 => 8,
                    _ => b >> 16 & 15,
                };
                if corner >> plane & 1 != 0 {
                    max
                } else {
                    0
                }
            } else if h & 7 < 3 {
                (h >> 11) % (max + 1)
            } else {
                pick(h >> 3, max, half, unit)
            }
        }
    };
    // samples kept in the high bits: the low bits may hold anything
    store(o, logical) ^ noise(o, h)
}

fn noise(o: &Obj, h: u64) -> u16 {
    if o.io("nz", 0) == 0 {
        return 0;
    }
    let v = (h >> 40) as u16 & ((1u32 << o.io("sshift", 0)) - 1) as u16;
    if o.io("sbe", 0) != 0 {
        v.swap_bytes()
    } else {
        v
    }
}

/// Logical value -> stored bits (samples in the high bits, big endian samples)
fn store(o: &Obj, logical: u64) -> u16 {
    let v = (logical << o.io("sshift", 0)) as u16;
    if o.io("sbe", 0) != 0 {
        v.swap_bytes()
    } else {
        v
    }
}

fn pick(h: u64, max: u64, half: u64, unit: u64) -> u64 {
    let k = (h >> 8) % 24;
    let v = match k {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max - 1,
        4 => half,
        5 => half - 1,
        6 => half + 1,
        7 => 16 * unit,
        8 => 16 * unit - 1,
        9 => 16 * unit + 1,
        10 => 235 * unit,
        11 => 235 * unit + 1,
        12 => 235 * unit - 1,
        13 => 240 * unit,
        14 => 240 * unit + 1,
        15 => 0,
        16 => max,
        _ => (h >> 20) % (max + 1),
    };
    v.min(max)
}

struct Slot {
    lo: *mut u8,
    size: usize,
}
// every thread writes to its own arena
unsafe impl Sync for Slot {}
unsafe impl Send for Slot {}

fn arena(max_bytes: usize) -> Vec<Slot> {
    let size = (max_bytes + PAGE - 1) / PAGE * PAGE + PAGE;
    (0..NSLOT)
        .map(|_| unsafe {
            let p = mmap(std::ptr::null_mut(), size + 2 * PAGE, 3, 0x22, -1, 0) as *mut u8;
            assert!(p as isize != -1, "mmap");
            mprotect(p as *mut c_void, PAGE, 0);
            mprotect(p.add(PAGE + size) as *mut c_void, PAGE, 0);
            Slot { lo: p.add(PAGE), size }
        })
        .collect()
}

fn verdict_code(r: &Result<(), YuvError>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

/// What an error says: its kind, its two numbers, and whether its message names both
#[allow(unreachable_patterns)]
fn told(r: &Result<(), YuvError>) -> [i32; 4] {
    let top = |x: usize| x.min(i32::MAX as usize) as i32;
    let e = match r {
        Ok(()) => return [0; 4],
        Err(e) => e,
    };
    let (kind, m) = match e {
        YuvError::DestinationSizeMismatch(m) => (1, Some(m)),
        YuvError::MinimumStrideSizeMismatch(m) => (2, Some(m)),
        YuvError::PointerOverflow => (3, None),
        YuvError::ZeroBaseSize => (4, None),
        YuvError::LumaPlaneSizeMismatch(m) => (5, Some(m)),
        YuvError::LumaPlaneMinimumSizeMismatch(m) => (6, Some(m)),
        YuvError::ChromaPlaneMinimumSizeMismatch(m) => (7, Some(m)),
        YuvError::ChromaPlaneSizeMismatch(m) => (8, Some(m)),
        YuvError::PackedFrameSizeMismatch(m) => (9, Some(m)),
        YuvError::ImagesSizesNotMatch => (10, None),
        YuvError::ImageDimensionsNotMatch => (11, None),
        _ => (12, None),
    };
    let text = e.to_string();
    let numbers: Vec<usize> = text.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    let said = match m {
        None => !text.is_empty(),
        Some(m) => match numbers.iter().position(|&x| x == m.expected) {
            Some(k) => numbers[k + 1..].contains(&m.received),
            None => false,
        },
    };
    [kind, m.map_or(0, |m| top(m.expected)), m.map_or(0, |m| top(m.received)), said as i32]
}

const V_NAMES: [&str; 8] = ["ok", "err", "panic", "crash", "hang", "oob", "nondet", "unsupported"];

#[derive(PartialEq)]
struct Outcome {
    verdict: u8,
    err: [i32; 4],
    /// per destination plane: raw contents
    dst: Vec<Vec<u8>>,
}

const CANARY: usize = 192;

unsafe fn exec(s: &Scen, slots: &[Slot], run: usize, chain: Option<&Vec<Vec<i32>>>, start: Option<&Gate>) -> Outcome {
    let mut bufs: Vec<Buf> = vec![];
    let ns = s.src.len();
    for (k, p) in s.src.iter().chain(s.dst.iter()).enumerate() {
        let bytes = p.len * p.ty.size();
        let sl = &slots[k];
        let ptr = if run == 0 {
            sl.lo.add(sl.size - bytes)
        } else {
            sl.lo
        };
        // canary on the side that has no guard page
        for j in 0..CANARY {
            if run == 0 {
                if bytes + j < sl.size {
                    *ptr.sub(j + 1) = 0xC5;
                }
            } else if bytes + j < sl.size {
                *ptr.add(bytes + j) = 0xC5;
            }
        }
        bufs.push(Buf { ptr, len: p.len, stride: p.stride });
    }
    // source padding, then visible samples
    for (k, p) in s.src.iter().enumerate() {
        let b = &bufs[k];
        let bytes = p.len * p.ty.size();
        let pad = if run == 0 { 0xA7u8 } else { 0x3C };
        for i in 0..bytes {
            *b.ptr.add(i) = pad ^ (i as u8).wrapping_mul(29);
        }
        if s.o.io("nd", 0) != 0 {
            // nothing is claimed of the result: any samples of the right depth
            let max = s.o.io("smax", 255) as u64;
            for i in 0..p.len {
                let v = match p.ty {
                    Ty::U16 => store(&s.o, mix((run * 7919 + i) as u64) % (max + 1)),
                    Ty::I16 => ((mix(i as u64) % 8192) as i64 - 4096) as i16 as u16,
                    Ty::F16 => 0x3800,
                    Ty::U8 => mix((run * 7919 + i) as u64) as u16,
                };
                p.ty.write(b.ptr, i, v);
            }
        } else {
            for r in 0..p.rows {
                for c in 0..p.w {
                    let i = r * p.stride as usize + c;
                    if i < p.len {
                        let raw = match chain {
                            Some(d) => p.ty.unview(d[k][r * p.w + c]),
                            None => fill_value(&s.o, p.ty, k, c, r),
                        };
                        p.ty.write(b.ptr, i, raw);
                    }
                }
            }
        }
    }
    for (k, p) in s.dst.iter().enumerate() {
        let b = &bufs[ns + k];
        for i in 0..p.len * p.ty.size() {
            *b.ptr.add(i) = prefill(run, i);
        }
    }
    let srcsum = src_sum(&s.src, &bufs);
    let o = &s.o;
    let c = Ctx {
        w: o.i("w") as u32,
        h: o.i("h") as u32,
        dw: o.io("dw", o.i("w")) as u32,
        dh: o.io("dh", o.i("h")) as u32,
        src: bufs[..ns].to_vec(),
        dst: bufs[ns..].to_vec(),
        rg: o.io("rg", 0),
        mx: o.io("mx", 0),
        kr: o.io("kr", 0),
        kb: o.io("kb", 0),
        md: o.io("md", 0),
        bo: o.io("bo", 0),
        pm: o.io("pm", 0),
        bd: o.io("bd", 8),
        op: o.io("op", 0),
        ow: o.io("ow", 0) != 0,
    };
    let name = o.s("fn").to_string();
    if let Some(g) = start {
        g.wait();
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch::dispatch(&name, &c)));
    let (mut verdict, err) = match r {
        Ok(Some(r)) => (verdict_code(&r), told(&r)),
        Ok(None) => (7, [0; 4]),
        Err(_) => (2, [0; 4]),
    };
    // canaries and source integrity
    let mut oob = src_sum(&s.src, &bufs) != srcsum;
    for (k, p) in s.src.iter().chain(s.dst.iter()).enumerate() {
        let bytes = p.len * p.ty.size();
        let sl = &slots[k];
        for j in 0..CANARY {
            if bytes + j < sl.size {
                let v = if run == 0 {
                    *bufs[k].ptr.sub(j + 1)
                } else {
                    *bufs[k].ptr.add(bytes + j)
                };
                oob |= v != 0xC5;
            }
        }
    }
    if oob && verdict < 2 {
        verdict = 5;
    }
    let dst = s
        .dst
        .iter()
        .enumerate()
        .map(|(k, p)| std::slice::from_raw_parts(bufs[ns + k].ptr, p.len * p.ty.size()).to_vec())
        .collect();
    Outcome { verdict, err, dst }
}

/// Lets threads start their next call together
struct Gate {
    n: usize,
    come: std::sync::atomic::AtomicUsize,
}

impl Gate {
    fn wait(&self) {
        use std::sync::atomic::Ordering::SeqCst;
        let k = self.come.fetch_add(1, SeqCst);
        let until = (k / self.n + 1) * self.n;
        let mut spins = 0u32;
        while self.come.load(SeqCst) < until {
            spins += 1;
            if spins % 4096 == 0 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

/// The call, several times, at the same time as itself and as other calls, in four threads.
/// Every call must have one result.
fn together(s: &Scen, others: &[&Scen], arenas: &[Vec<Slot>]) -> Res {
    const ROUNDS: usize = 4;
    let gate = Gate { n: arenas.len(), come: Default::default() };
    let mut all: Vec<Vec<Outcome>> = std::thread::scope(|sc| {
        let hs: Vec<_> = arenas
            .iter()
            .enumerate()
            .map(|(t, slots)| {
                let gate = &gate;
                let me = if t < 2 || others.is_empty() { s } else { others[t % others.len()] };
                sc.spawn(move || (0..ROUNDS).map(|r| unsafe { exec(me, slots, r % 2, None, Some(gate)) }).collect())
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let mut one = true;
    for (t, v) in all.iter().enumerate() {
        for (r, o) in v.iter().enumerate() {
            let first = if t < 2 || others.is_empty() { &all[0][r % 2] } else { &v[r % 2] };
            one &= o == first;
        }
    }
    let mut v = all.swap_remove(0);
    v.truncate(2);
    let b = v.pop().unwrap();
    let a = v.pop().unwrap();
    let mut res = combine(s, a, b);
    if !one && res.verdict < 2 {
        res.verdict = 6;
    }
    res
}

fn prefill(run: usize, i: usize) -> u8 {
    let v = (i as u8).wrapping_mul(37) ^ (i >> 8) as u8 ^ 0x5b;
    if run == 0 {
        v
    } else {
        !v
    }
}

unsafe fn src_sum(ps: &[Plane], bufs: &[Buf]) -> u64 {
    let mut h = 0u64;
    for (k, p) in ps.iter().enumerate() {
        let s = std::slice::from_raw_parts(bufs[k].ptr, p.len * p.ty.size());
        for &b in s {
            h = h.rotate_left(7) ^ (b as u64).wrapping_mul(0x9e3779b97f4a7c15);
        }
    }
    h
}

struct Res {
    verdict: u8,
    err: [i32; 4],
    /// per plane: runs of touched cells (start, length)
    foot: Vec<Vec<u32>>,
    /// per plane: visible cells
    vis: Vec<Vec<i32>>,
}

fn combine(s: &Scen, a: Outcome, b: Outcome) -> Res {
    let err = a.err;
    let verdict = if a.verdict == b.verdict && a.err == b.err {
        a.verdict
    } else if a.verdict >= 2 {
        a.verdict
    } else if b.verdict >= 2 {
        b.verdict
    } else {
        6
    };
    let mut foot = vec![];
    let mut vis = vec![];
    for (k, p) in s.dst.iter().enumerate() {
        let sz = p.ty.size();
        let mut cells = vec![UNTOUCHED; p.len];
        for i in 0..p.len {
            let mut un = true;
            let mut same = true;
            for j in i * sz..(i + 1) * sz {
                un &= a.dst[k][j] == prefill(0, j) && b.dst[k][j] == prefill(1, j);
                same &= a.dst[k][j] == b.dst[k][j];
            }
            cells[i] = if un {
                UNTOUCHED
            } else if same {
                unsafe { p.ty.read(a.dst[k].as_ptr(), i) }
            } else {
                UNDET
            };
        }
        let mut f = vec![];
        let mut i = 0;
        while i < p.len {
            if cells[i] != UNTOUCHED {
                let st = i;
                while i < p.len && cells[i] != UNTOUCHED {
                    i += 1;
                }
                f.push(st as u32);
                f.push((i - st) as u32);
            } else {
                i += 1;
            }
        }
        foot.push(f);
        let mut v = vec![];
        if s.o.io("nd", 0) == 0 {
            v.reserve(p.w * p.rows);
            for r in 0..p.rows {
                for c in 0..p.w {
                    let i = r * p.stride as usize + c;
                    v.push(if i < p.len { cells[i] } else { UNTOUCHED });
                }
            }
        }
        vis.push(v);
    }
    Res { verdict, err, foot, vis }
}

fn put(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_le_bytes());
}

fn encode(id: usize, r: &Res) -> Vec<u8> {
    let mut v = vec![];
    put(&mut v, id as u32);
    put(&mut v, r.verdict as u32);
    for x in r.err {
        put(&mut v, x as u32);
    }
    put(&mut v, r.foot.len() as u32);
    for k in 0..r.foot.len() {
        put(&mut v, r.foot[k].len() as u32);
        for &x in &r.foot[k] {
            put(&mut v, x);
        }
        put(&mut v, r.vis[k].len() as u32);
        for &x in &r.vis[k] {
            put(&mut v, x as u32);
        }
    }
    v
}

fn decode(b: &[u8], i: &mut usize) -> Option<(usize, Res)> {
    if *i >= b.len() {
        return None;
    }
    let mut get = || {
        let x = u32::from_le_bytes(b[*i..*i + 4].try_into().unwrap());
        *i += 4;
        x
    };
    let id = get() as usize;
    let verdict = get() as u8;
    let err = [get() as i32, get() as i32, get() as i32, get() as i32];
    let n = get() as usize;
    let mut foot = vec![];
    let mut vis = vec![];
    for _ in 0..n {
        let m = get() as usize;
        foot.push((0..m).map(|_| get()).collect());
        let m = get() as usize;
        vis.push((0..m).map(|_| get() as i32).collect());
    }
    Some((id, Res { verdict, err, foot, vis }))
}

fn run(args: &[String]) {
    let scen = load(&args[0]);
    let mut out = File::create(&args[1]).expect("result file");
    let (sh, n): (usize, usize) = (args[2].parse().unwrap(), args[3].parse().unwrap());
    let shard = shard_of(&scen, n);
    let mine: Vec<usize> = (0..scen.len()).filter(|&i| shard[i] == sh).collect();
    // calls to be made by a process that has made no other
    let (fresh, ids): (Vec<usize>, Vec<usize>) = mine.into_iter().partition(|&i| scen[i].o.io("fr", 0) != 0);
    let threads = if scen.iter().any(|s| s.o.io("th", 0) != 0) { 4 } else { 1 };
    let maxb = scen
        .iter()
        .flat_map(|s| s.src.iter().chain(s.dst.iter()))
        .map(|p| p.len * p.ty.size())
        .max()
        .unwrap_or(PAGE);
    let arenas: Vec<Vec<Slot>> = (0..threads).map(|_| arena(maxb)).collect();
    let slots = &arenas[0];
    if std::env::var_os("YUVDRIVE_LOUD").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let prog = unsafe { mmap(std::ptr::null_mut(), PAGE, 3, 0x21, -1, 0) as *mut u64 };
    for &id in &fresh {
        unsafe {
            let pid = fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                let null = File::options().write(true).open("/dev/null").unwrap();
                if std::env::var_os("YUVDRIVE_LOUD").is_none() {
                    dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 2);
                }
                alarm(30);
                let s = &scen[id];
                let a = exec(s, slots, 0, None, None);
                let b = exec(s, slots, 1, None, None);
                out.write_all(&encode(id, &combine(s, a, b))).unwrap();
                _exit(0);
            }
            let mut st: c_int = 0;
            waitpid(pid, &mut st, 0);
            if st != 0 {
                let r = Res { verdict: if (st & 0x7f) == 14 { 4 } else { 3 }, err: [0; 4], foot: vec![], vis: vec![] };
                out.write_all(&encode(id, &r)).unwrap();
            }
        }
    }
    let mut pos = 0usize;
    while pos < ids.len() {
        unsafe {
            *prog = pos as u64;
            let pid = fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                let null = File::options().write(true).open("/dev/null").unwrap();
                if std::env::var_os("YUVDRIVE_LOUD").is_none() {
                    dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 2);
                }
                let mut last: Option<(i64, Vec<Vec<i32>>)> = None;
                let mut p = pos;
                while p < ids.len() {
                    *prog = p as u64;
                    let id = ids[p];
                    let s = &scen[id];
                    alarm(30);
                    let chained = s.o.io("ch", 0) != 0;
                    let res = if chained && !matches!(&last, Some((g, d)) if *g == s.g && chain_ok(s, d)) {
                        Res { verdict: 7, err: [0; 4], foot: vec![], vis: vec![] }
                    } else if s.o.io("th", 0) != 0 {
                        let others: Vec<&Scen> = scen[..id]
                            .iter()
                            .rev()
                            .take_while(|x| x.g == s.g)
                            .filter(|x| x.o.io("eq", 0) == 0 && x.o.io("fr", 0) == 0)
                            .collect();
                        together(s, &others, &arenas)
                    } else {
                        let src = if chained { last.as_ref().map(|x| &x.1) } else { None };
                        let a = exec(s, slots, 0, src, None);
                        let b = exec(s, slots, 1, src, None);
                        combine(s, a, b)
                    };
                    alarm(0);
                    last = if res.verdict == 0 { Some((s.g, res.vis.clone())) } else { None };
                    out.write_all(&encode(id, &res)).unwrap();
                    p += 1;
                }
                *prog = p as u64;
                _exit(0);
            }
            let mut st: c_int = 0;
            waitpid(pid, &mut st, 0);
            pos = *prog as usize;
            if st != 0 && pos < ids.len() {
                let hang = (st & 0x7f) == 14;
                let r = Res { verdict: if hang { 4 } else { 3 }, err: [0; 4], foot: vec![], vis: vec![] };
                out.write_all(&encode(ids[pos], &r)).unwrap();
                pos += 1;
            } else if st != 0 {
                panic!("child failed outside a call");
            }
        }
    }
}

/// The previous result can feed this call: same number of planes and fully determined samples.
fn chain_ok(s: &Scen, d: &[Vec<i32>]) -> bool {
    s.src.len() <= d.len()
        && s.src
            .iter()
            .zip(d)
            .all(|(p, v)| v.len() == p.w * p.rows && v.iter().all(|&x| x > UNTOUCHED))
}

fn jarr<W: Write>(w: &mut W, a: &[i32]) {
    w.write_all(b"[").unwrap();
    let mut s = String::with_capacity(a.len() * 4);
    for (i, x) in a.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = std::fmt::Write::write_fmt(&mut s, format_args!("{x}"));
    }
    w.write_all(s.as_bytes()).unwrap();
    w.write_all(b"]").unwrap();
}

fn source_view(s: &Scen) -> Vec<Vec<i32>> {
    s.src
        .iter()
        .enumerate()
        .map(|(k, p)| {
            let mut v = vec![];
            for r in 0..p.rows {
                for c in 0..p.w {
                    v.push(p.ty.view(fill_value(&s.o, p.ty, k, c, r)));
                }
            }
            v
        })
        .collect()
}

fn merge(args: &[String]) {
    let scen = load(&args[0]);
    let mut w = BufWriter::new(File::create(&args[1]).expect("trace file"));
    let (sh, n): (usize, usize) = (args[2].parse().unwrap(), args[3].parse().unwrap());
    let shard = shard_of(&scen, n);
    let mut names = vec![];
    let mut all: Vec<std::collections::HashMap<usize, Res>> = vec![];
    for a in &args[4..] {
        let (nm, path) = a.split_once('=').unwrap();
        let mut b = vec![];
        File::open(path).expect("result").read_to_end(&mut b).unwrap();
        let mut m = std::collections::HashMap::new();
        let mut i = 0;
        while let Some((id, r)) = decode(&b, &mut i) {
            m.insert(id, r);
        }
        names.push(nm.to_string());
        all.push(m);
    }
    let mut id = 0;
    while id < scen.len() {
        // one group of consecutive scenarios
        let g = scen[id].g;
        let mut end = id + 1;
        while end < scen.len() && scen[end].g == g {
            end += 1;
        }
        if shard[id] == sh {
            // classes of backends with identical behaviour over the whole group
            let mut classes: Vec<Vec<usize>> = vec![];
            for k in 0..names.len() {
                let same = |a: usize, b: usize| {
                    (id..end).all(|i| match (all[a].get(&i), all[b].get(&i)) {
                        (Some(x), Some(y)) => x.verdict == y.verdict && x.err == y.err && x.foot == y.foot && x.vis == y.vis,
                        (None, None) => true,
                        _ => false,
                    })
                };
                match classes.iter_mut().find(|c| same(c[0], k)) {
                    Some(c) => c.push(k),
                    None => classes.push(vec![k]),
                }
            }
            let chain = end - id > 1;
            let parts: Vec<Vec<Vec<usize>>> = if chain {
                classes.into_iter().map(|c| vec![c]).collect()
            } else {
                vec![classes]
            };
            for part in parts {
                let mut prev: Option<Vec<Vec<i32>>> = None;
                for i in id..end {
                    let s = &scen[i];
                    write_event(&mut w, i, s, &part, &names, &all, prev.take(), chain, i > id);
                    if chain {
                        prev = all[part[0][0]].get(&i).map(|r| r.vis.clone());
                    }
                }
            }
        }
        id = end;
    }
    w.flush().unwrap();
}

#[allow(clippy::too_many_arguments)]
fn write_event<W: Write>(
    w: &mut W,
    id: usize,
    s: &Scen,
    classes: &[Vec<usize>],
    names: &[String],
    all: &[std::collections::HashMap<usize, Res>],
    prev: Option<Vec<Vec<i32>>>,
    chain: bool,
    later: bool,
) {
    let o = &s.o;
    write!(w, "{{\"id\":{id},\"step\":{}", if !chain { 0 } else if later { 2 } else { 1 }).unwrap();
    for k in ["fn", "tag"] {
        if !o.so(k).is_empty() {
            write!(w, ",\"{k}\":\"{}\"", o.so(k)).unwrap();
        }
    }
    for k in ["c", "w", "h", "dw", "dh", "rg", "mx", "kr", "kb", "md", "bo", "pm", "bd", "op", "nd", "ch", "eq"] {
        write!(w, ",\"{k}\":{}", o.io(k, if k == "dw" { o.i("w") } else if k == "dh" { o.i("h") } else { 0 })).unwrap();
    }
    for k in ["ss", "sl", "ds", "dl", "ro", "rd"] {
        let a: Vec<i32> = o.a(k).iter().map(|&x| x.min(2_147_483_647) as i32).collect();
        write!(w, ",\"{k}\":").unwrap();
        jarr(w, &a);
    }
    if o.io("nd", 0) == 0 {
        write!(w, ",\"src\":[").unwrap();
        let v = match prev {
            Some(p) if o.io("ch", 0) != 0 => p,
            _ => source_view(s),
        };
        for (k, p) in v.iter().enumerate() {
            if k > 0 {
                write!(w, ",").unwrap();
            }
            jarr(w, p);
        }
        write!(w, "]").unwrap();
    }
    write!(w, ",\"res\":[").unwrap();
    let mut first = true;
    for c in classes {
        let Some(r) = all[c[0]].get(&id) else { continue };
        if !first {
            write!(w, ",").unwrap();
        }
        first = false;
        let bs: Vec<String> = c.iter().map(|&k| format!("\"{}\"", names[k])).collect();
        write!(w, "{{\"b\":[{}],\"v\":\"{}\",\"ft\":[", bs.join(","), V_NAMES[r.verdict as usize]).unwrap();
        for (k, f) in r.foot.iter().enumerate() {
            if k > 0 {
                write!(w, ",").unwrap();
            }
            let f: Vec<i32> = f.iter().map(|&x| x as i32).collect();
            jarr(w, &f);
        }
        write!(w, "],\"er\":[{},{},{},{}],\"d\":[", r.err[0], r.err[1], r.err[2], r.err[3]).unwrap();
        if r.verdict == 0 {
            for (k, f) in r.vis.iter().enumerate() {
                if k > 0 {
                    write!(w, ",").unwrap();
                }
                jarr(w, f);
            }
        }
        write!(w, "]}}").unwrap();
    }
    writeln!(w, "]}}").unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "run" => run(&a[1..]),
        "merge" => merge(&a[1..]),
        _ => panic!("usage"),
    }
}
