// Generated by tools/gen_catalog.py: one arm per public conversion entry point.
use crate::call::Ctx;
use yuv::*;

pub fn dispatch(name: &str, c: &Ctx) -> Option<Result<(), YuvError>> {
    Some(match name {
        "ayuv_to_rgb" => ayuv_to_rgb(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.premul()),
        "ayuv_to_rgba" => ayuv_to_rgba(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.premul()),
        "vyua_to_rgb" => vyua_to_rgb(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.premul()),
        "vyua_to_rgba" => vyua_to_rgba(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.premul()),
        "gb10_to_rgb10" => gb10_to_rgb10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gb10_to_rgba10" => gb10_to_rgba10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gb12_to_rgb12" => gb12_to_rgb12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gb12_to_rgba12" => gb12_to_rgba12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gb14_to_rgb14" => gb14_to_rgb14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gb14_to_rgba14" => gb14_to_rgba14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gb16_to_rgb16" => gb16_to_rgb16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gb16_to_rgba16" => gb16_to_rgba16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gbr_to_bgr" => gbr_to_bgr(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "gbr_to_bgra" => gbr_to_bgra(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "gbr_to_rgb" => gbr_to_rgb(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "gbr_to_rgba" => gbr_to_rgba(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "gb10_alpha_to_rgba10" => gb10_alpha_to_rgba10(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gb12_alpha_to_rgba12" => gb12_alpha_to_rgba12(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gb14_alpha_to_rgba14" => gb14_alpha_to_rgba14(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gb16_alpha_to_rgba16" => gb16_alpha_to_rgba16(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "gbr_with_alpha_to_bgra" => gbr_with_alpha_to_bgra(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "gbr_with_alpha_to_rgba" => gbr_with_alpha_to_rgba(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "gb10_alpha_to_rgba_f16" => gb10_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb12_alpha_to_rgba_f16" => gb12_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb14_alpha_to_rgba_f16" => gb14_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb16_alpha_to_rgba_f16" => gb16_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb10_to_rgb_f16" => gb10_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb10_to_rgba_f16" => gb10_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb12_to_rgb_f16" => gb12_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb12_to_rgba_f16" => gb12_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb14_to_rgb_f16" => gb14_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb14_to_rgba_f16" => gb14_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb16_to_rgb_f16" => gb16_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "gb16_to_rgba_f16" => gb16_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range()),
        "y010_to_rgb10" => y010_to_rgb10(&c.y::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y010_to_rgba10" => y010_to_rgba10(&c.y::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y012_to_rgb12" => y012_to_rgb12(&c.y::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y012_to_rgba12" => y012_to_rgba12(&c.y::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y014_to_rgb14" => y014_to_rgb14(&c.y::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y014_to_rgba14" => y014_to_rgba14(&c.y::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y016_to_rgb16" => y016_to_rgb16(&c.y::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y016_to_rgba16" => y016_to_rgba16(&c.y::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y010_alpha_to_rgba10" => y010_alpha_to_rgba10(&c.ya::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y012_alpha_to_rgba12" => y012_alpha_to_rgba12(&c.ya::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y014_alpha_to_rgba14" => y014_alpha_to_rgba14(&c.ya::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "y016_alpha_to_rgba16" => y016_alpha_to_rgba16(&c.ya::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv400_to_bgr" => yuv400_to_bgr(&c.y::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv400_to_bgra" => yuv400_to_bgra(&c.y::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv400_to_rgb" => yuv400_to_rgb(&c.y::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv400_to_rgba" => yuv400_to_rgba(&c.y::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv400_alpha_to_bgra" => yuv400_alpha_to_bgra(&c.ya::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv400_alpha_to_rgba" => yuv400_alpha_to_rgba(&c.ya::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "icgc010_to_rgb10" => icgc010_to_rgb10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc010_to_rgba10" => icgc010_to_rgba10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc012_to_rgb12" => icgc012_to_rgb12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc012_to_rgba12" => icgc012_to_rgba12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc210_to_rgb10" => icgc210_to_rgb10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc210_to_rgba10" => icgc210_to_rgba10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc212_to_rgb12" => icgc212_to_rgb12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc212_to_rgba12" => icgc212_to_rgba12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc410_to_rgb10" => icgc410_to_rgb10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc410_to_rgba10" => icgc410_to_rgba10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc412_to_rgb12" => icgc412_to_rgb12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc412_to_rgba12" => icgc412_to_rgba12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "ycgco420_to_bgr" => ycgco420_to_bgr(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco420_to_bgra" => ycgco420_to_bgra(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco420_to_rgb" => ycgco420_to_rgb(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco420_to_rgba" => ycgco420_to_rgba(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco422_to_bgr" => ycgco422_to_bgr(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco422_to_bgra" => ycgco422_to_bgra(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco422_to_rgb" => ycgco422_to_rgb(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco422_to_rgba" => ycgco422_to_rgba(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco444_to_bgr" => ycgco444_to_bgr(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco444_to_bgra" => ycgco444_to_bgra(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco444_to_rgb" => ycgco444_to_rgb(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco444_to_rgba" => ycgco444_to_rgba(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "icgc010_alpha_to_rgba10" => icgc010_alpha_to_rgba10(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc012_alpha_to_rgba12" => icgc012_alpha_to_rgba12(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc210_alpha_to_rgba10" => icgc210_alpha_to_rgba10(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc212_alpha_to_rgba12" => icgc212_alpha_to_rgba12(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc410_alpha_to_rgba10" => icgc410_alpha_to_rgba10(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "icgc412_alpha_to_rgba12" => icgc412_alpha_to_rgba12(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range()),
        "ycgco420_alpha_to_bgra" => ycgco420_alpha_to_bgra(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco420_alpha_to_rgba" => ycgco420_alpha_to_rgba(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco422_alpha_to_bgra" => ycgco422_alpha_to_bgra(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco422_alpha_to_rgba" => ycgco422_alpha_to_rgba(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco444_alpha_to_bgra" => ycgco444_alpha_to_bgra(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "ycgco444_alpha_to_rgba" => ycgco444_alpha_to_rgba(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range()),
        "p010_to_ar30" => p010_to_ar30(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "p010_to_ra30" => p010_to_ra30(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "p012_to_ar30" => p012_to_ar30(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "p012_to_ra30" => p012_to_ra30(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "p210_to_ar30" => p210_to_ar30(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "p210_to_ra30" => p210_to_ra30(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "p212_to_ar30" => p212_to_ar30(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "p212_to_ra30" => p212_to_ra30(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "p010_to_bgr" => p010_to_bgr(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p010_to_bgra" => p010_to_bgra(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p010_to_rgb" => p010_to_rgb(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p010_to_rgba" => p010_to_rgba(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p210_to_bgr" => p210_to_bgr(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p210_to_bgra" => p210_to_bgra(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p210_to_rgb" => p210_to_rgb(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p210_to_rgba" => p210_to_rgba(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p410_to_bgr" => p410_to_bgr(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p410_to_bgra" => p410_to_bgra(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p410_to_rgb" => p410_to_rgb(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p410_to_rgba" => p410_to_rgba(&c.nv::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "p010_to_rgb10" => p010_to_rgb10(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p010_to_rgba10" => p010_to_rgba10(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p012_to_rgb12" => p012_to_rgb12(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p012_to_rgba12" => p012_to_rgba12(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p210_to_rgb10" => p210_to_rgb10(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p210_to_rgba10" => p210_to_rgba10(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p212_to_rgb12" => p212_to_rgb12(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p212_to_rgba12" => p212_to_rgba12(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p410_to_rgb10" => p410_to_rgb10(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p410_to_rgba10" => p410_to_rgba10(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p412_to_rgb12" => p412_to_rgb12(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "p412_to_rgba12" => p412_to_rgba12(&c.nv::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv_nv12_to_bgr" => yuv_nv12_to_bgr(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv12_to_bgra" => yuv_nv12_to_bgra(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv12_to_rgb" => yuv_nv12_to_rgb(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv12_to_rgba" => yuv_nv12_to_rgba(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv16_to_bgr" => yuv_nv16_to_bgr(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv16_to_bgra" => yuv_nv16_to_bgra(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv16_to_rgb" => yuv_nv16_to_rgb(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv16_to_rgba" => yuv_nv16_to_rgba(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv21_to_bgr" => yuv_nv21_to_bgr(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv21_to_bgra" => yuv_nv21_to_bgra(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv21_to_rgb" => yuv_nv21_to_rgb(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv21_to_rgba" => yuv_nv21_to_rgba(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv24_to_bgr" => yuv_nv24_to_bgr(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv24_to_bgra" => yuv_nv24_to_bgra(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv24_to_rgb" => yuv_nv24_to_rgb(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv24_to_rgba" => yuv_nv24_to_rgba(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv42_to_bgr" => yuv_nv42_to_bgr(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv42_to_bgra" => yuv_nv42_to_bgra(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv42_to_rgb" => yuv_nv42_to_rgb(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv42_to_rgba" => yuv_nv42_to_rgba(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv61_to_bgr" => yuv_nv61_to_bgr(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv61_to_bgra" => yuv_nv61_to_bgra(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv61_to_rgb" => yuv_nv61_to_rgb(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "yuv_nv61_to_rgba" => yuv_nv61_to_rgba(&c.nv::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.mode()),
        "i010_be_to_bgr" => i010_be_to_bgr(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_be_to_bgra" => i010_be_to_bgra(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_be_to_rgb" => i010_be_to_rgb(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_be_to_rgba" => i010_be_to_rgba(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_to_bgr" => i010_to_bgr(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_to_bgra" => i010_to_bgra(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_to_rgb" => i010_to_rgb(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_to_rgba" => i010_to_rgba(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_be_to_bgr" => i012_be_to_bgr(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_be_to_bgra" => i012_be_to_bgra(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_be_to_rgb" => i012_be_to_rgb(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_be_to_rgba" => i012_be_to_rgba(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_to_bgr" => i012_to_bgr(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_to_bgra" => i012_to_bgra(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_to_rgb" => i012_to_rgb(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_to_rgba" => i012_to_rgba(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_be_to_bgr" => i210_be_to_bgr(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_be_to_bgra" => i210_be_to_bgra(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_be_to_rgb" => i210_be_to_rgb(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_be_to_rgba" => i210_be_to_rgba(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_to_bgr" => i210_to_bgr(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_to_bgra" => i210_to_bgra(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_to_rgb" => i210_to_rgb(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_to_rgba" => i210_to_rgba(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_be_to_bgr" => i212_be_to_bgr(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_be_to_bgra" => i212_be_to_bgra(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_be_to_rgb" => i212_be_to_rgb(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_be_to_rgba" => i212_be_to_rgba(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_to_bgr" => i212_to_bgr(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_to_bgra" => i212_to_bgra(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_to_rgb" => i212_to_rgb(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_to_rgba" => i212_to_rgba(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_be_to_rgba" => i410_be_to_rgba(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_to_rgba" => i410_to_rgba(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_to_ar30" => i010_to_ar30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i010_to_ra30" => i010_to_ra30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i012_to_ar30" => i012_to_ar30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i012_to_ra30" => i012_to_ra30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i014_to_ar30" => i014_to_ar30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i014_to_ra30" => i014_to_ra30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i210_to_ar30" => i210_to_ar30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i210_to_ra30" => i210_to_ra30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i212_to_ar30" => i212_to_ar30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i212_to_ra30" => i212_to_ra30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i214_to_ar30" => i214_to_ar30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i214_to_ra30" => i214_to_ra30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i410_to_ar30" => i410_to_ar30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i410_to_ra30" => i410_to_ra30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i412_to_ar30" => i412_to_ar30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i412_to_ra30" => i412_to_ra30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i414_to_ar30" => i414_to_ar30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i414_to_ra30" => i414_to_ra30(&c.p3::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.range(), c.matrix()),
        "i010_alpha_to_rgba10" => i010_alpha_to_rgba10(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_be_alpha_to_rgba10" => i010_be_alpha_to_rgba10(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_alpha_to_rgba12" => i012_alpha_to_rgba12(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_be_alpha_to_rgba12" => i012_be_alpha_to_rgba12(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i014_alpha_to_rgba14" => i014_alpha_to_rgba14(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i014_be_alpha_to_rgba14" => i014_be_alpha_to_rgba14(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_alpha_be_to_rgba10" => i210_alpha_be_to_rgba10(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_alpha_to_rgba10" => i210_alpha_to_rgba10(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_alpha_to_rgba12" => i212_alpha_to_rgba12(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_be_alpha_to_rgba12" => i212_be_alpha_to_rgba12(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i214_alpha_to_rgba14" => i214_alpha_to_rgba14(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i214_be_alpha_to_rgba14" => i214_be_alpha_to_rgba14(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_alpha_to_rgba10" => i410_alpha_to_rgba10(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_be_alpha_to_rgba10" => i410_be_alpha_to_rgba10(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_alpha_to_rgba12" => i412_alpha_to_rgba12(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_be_alpha_to_rgba12" => i412_be_alpha_to_rgba12(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i414_alpha_to_rgba14" => i414_alpha_to_rgba14(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i414_be_alpha_to_rgba14" => i414_be_alpha_to_rgba14(&c.p3a::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_alpha_to_rgba" => i010_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_be_alpha_to_rgba" => i010_be_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_alpha_to_rgba" => i012_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_be_alpha_to_rgba" => i012_be_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_alpha_be_to_rgba" => i210_alpha_be_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_alpha_to_rgba" => i210_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_alpha_to_rgba" => i212_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_be_alpha_to_rgba" => i212_be_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_alpha_to_rgba" => i410_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_be_alpha_to_rgba" => i410_be_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_alpha_to_rgba" => i412_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_be_alpha_to_rgba" => i412_be_alpha_to_rgba(&c.p3a::<u16>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_to_rgb_f16" => i010_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_to_rgba_f16" => i010_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_to_rgb_f16" => i012_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_to_rgba_f16" => i012_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i014_to_rgb_f16" => i014_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i014_to_rgba_f16" => i014_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_to_rgb_f16" => i210_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_to_rgba_f16" => i210_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_to_rgb_f16" => i212_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_to_rgba_f16" => i212_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i214_to_rgb_f16" => i214_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i214_to_rgba_f16" => i214_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_to_rgb_f16" => i410_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_to_rgba_f16" => i410_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_to_rgb_f16" => i412_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_to_rgba_f16" => i412_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i414_to_rgb_f16" => i414_to_rgb_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i414_to_rgba_f16" => i414_to_rgba_f16(&c.p3::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_be_to_rgb10" => i010_be_to_rgb10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_be_to_rgba10" => i010_be_to_rgba10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_to_rgb10" => i010_to_rgb10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i010_to_rgba10" => i010_to_rgba10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_be_to_rgb12" => i012_be_to_rgb12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_be_to_rgba12" => i012_be_to_rgba12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_to_rgb12" => i012_to_rgb12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_to_rgba12" => i012_to_rgba12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i014_be_to_rgb14" => i014_be_to_rgb14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i014_be_to_rgba14" => i014_be_to_rgba14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i014_to_rgb14" => i014_to_rgb14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i014_to_rgba14" => i014_to_rgba14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i016_be_to_rgb16" => i016_be_to_rgb16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i016_be_to_rgba16" => i016_be_to_rgba16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i016_to_rgb16" => i016_to_rgb16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i016_to_rgba16" => i016_to_rgba16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_be_to_rgb10" => i210_be_to_rgb10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_be_to_rgba10" => i210_be_to_rgba10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_to_rgb10" => i210_to_rgb10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_to_rgba10" => i210_to_rgba10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_be_to_rgb12" => i212_be_to_rgb12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_be_to_rgba12" => i212_be_to_rgba12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_to_rgb12" => i212_to_rgb12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_to_rgba12" => i212_to_rgba12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i214_be_to_rgb14" => i214_be_to_rgb14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i214_be_to_rgba14" => i214_be_to_rgba14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i214_to_rgb14" => i214_to_rgb14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i214_to_rgba14" => i214_to_rgba14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i216_be_to_rgb16" => i216_be_to_rgb16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i216_be_to_rgba16" => i216_be_to_rgba16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i216_to_rgb16" => i216_to_rgb16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i216_to_rgba16" => i216_to_rgba16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_be_to_rgb10" => i410_be_to_rgb10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_be_to_rgba10" => i410_be_to_rgba10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_to_rgb10" => i410_to_rgb10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_to_rgba10" => i410_to_rgba10(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_be_to_rgb12" => i412_be_to_rgb12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_be_to_rgba12" => i412_be_to_rgba12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_to_rgb12" => i412_to_rgb12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_to_rgba12" => i412_to_rgba12(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i414_be_to_rgb14" => i414_be_to_rgb14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i414_be_to_rgba14" => i414_be_to_rgba14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i414_to_rgb14" => i414_to_rgb14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i414_to_rgba14" => i414_to_rgba14(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i416_be_to_rgb16" => i416_be_to_rgb16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i416_be_to_rgba16" => i416_be_to_rgba16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i416_to_rgb16" => i416_to_rgb16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i416_to_rgba16" => i416_to_rgba16(&c.p3::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv420_to_bgr" => yuv420_to_bgr(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv420_to_bgra" => yuv420_to_bgra(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv420_to_rgb" => yuv420_to_rgb(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv420_to_rgba" => yuv420_to_rgba(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv422_to_bgr" => yuv422_to_bgr(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv422_to_bgra" => yuv422_to_bgra(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv422_to_rgb" => yuv422_to_rgb(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv422_to_rgba" => yuv422_to_rgba(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv444_to_bgr" => yuv444_to_bgr(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv444_to_bgra" => yuv444_to_bgra(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv444_to_rgb" => yuv444_to_rgb(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv444_to_rgba" => yuv444_to_rgba(&c.p3::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuv420_alpha_to_bgra" => yuv420_alpha_to_bgra(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.premul()),
        "yuv420_alpha_to_rgba" => yuv420_alpha_to_rgba(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.premul()),
        "yuv422_alpha_to_bgra" => yuv422_alpha_to_bgra(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.premul()),
        "yuv422_alpha_to_rgba" => yuv422_alpha_to_rgba(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.premul()),
        "yuv444_alpha_to_bgra" => yuv444_alpha_to_bgra(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.premul()),
        "yuv444_alpha_to_rgba" => yuv444_alpha_to_rgba(&c.p3a::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix(), c.premul()),
        "i010_alpha_to_rgba_f16" => i010_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i012_alpha_to_rgba_f16" => i012_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i014_alpha_to_rgba_f16" => i014_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i210_alpha_to_rgba_f16" => i210_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i212_alpha_to_rgba_f16" => i212_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i214_alpha_to_rgba_f16" => i214_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i410_alpha_to_rgba_f16" => i410_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i412_alpha_to_rgba_f16" => i412_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "i414_alpha_to_rgba_f16" => i414_alpha_to_rgba_f16(&c.p3a::<u16>(), c.dst_slice::<f16>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "uyvy422_to_bgr" => uyvy422_to_bgr(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "uyvy422_to_bgra" => uyvy422_to_bgra(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "uyvy422_to_rgb" => uyvy422_to_rgb(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "uyvy422_to_rgba" => uyvy422_to_rgba(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "vyuy422_to_bgr" => vyuy422_to_bgr(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "vyuy422_to_bgra" => vyuy422_to_bgra(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "vyuy422_to_rgb" => vyuy422_to_rgb(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "vyuy422_to_rgba" => vyuy422_to_rgba(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuyv422_to_bgr" => yuyv422_to_bgr(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuyv422_to_bgra" => yuyv422_to_bgra(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuyv422_to_rgb" => yuyv422_to_rgb(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yuyv422_to_rgba" => yuyv422_to_rgba(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yvyu422_to_bgr" => yvyu422_to_bgr(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yvyu422_to_bgra" => yvyu422_to_bgra(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yvyu422_to_rgb" => yvyu422_to_rgb(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "yvyu422_to_rgba" => yvyu422_to_rgba(&c.pk::<u8>(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.range(), c.matrix()),
        "uyvy422_to_rgb_p16" => uyvy422_to_rgb_p16(&c.pk::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.bd as u32, c.range(), c.matrix()),
        "uyvy422_to_rgba_p16" => uyvy422_to_rgba_p16(&c.pk::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.bd as u32, c.range(), c.matrix()),
        "vyuy422_to_rgb_p16" => vyuy422_to_rgb_p16(&c.pk::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.bd as u32, c.range(), c.matrix()),
        "vyuy422_to_rgba_p16" => vyuy422_to_rgba_p16(&c.pk::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.bd as u32, c.range(), c.matrix()),
        "yuyv422_to_rgb_p16" => yuyv422_to_rgb_p16(&c.pk::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.bd as u32, c.range(), c.matrix()),
        "yuyv422_to_rgba_p16" => yuyv422_to_rgba_p16(&c.pk::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.bd as u32, c.range(), c.matrix()),
        "yvyu422_to_rgb_p16" => yvyu422_to_rgb_p16(&c.pk::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.bd as u32, c.range(), c.matrix()),
        "yvyu422_to_rgba_p16" => yvyu422_to_rgba_p16(&c.pk::<u16>(), c.dst_slice::<u16>(), c.dst_stride() as u32, c.bd as u32, c.range(), c.matrix()),
        "rgb10_to_i010" => rgb10_to_i010(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb10_to_i010_be" => rgb10_to_i010_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb10_to_i210" => rgb10_to_i210(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb10_to_i210_be" => rgb10_to_i210_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb10_to_i410" => rgb10_to_i410(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb10_to_i410_be" => rgb10_to_i410_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb12_to_i012" => rgb12_to_i012(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb12_to_i012_be" => rgb12_to_i012_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb12_to_i212" => rgb12_to_i212(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb12_to_i212_be" => rgb12_to_i212_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb12_to_i412" => rgb12_to_i412(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb12_to_i412_be" => rgb12_to_i412_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb14_to_i014" => rgb14_to_i014(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb14_to_i014_be" => rgb14_to_i014_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb14_to_i214" => rgb14_to_i214(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb14_to_i214_be" => rgb14_to_i214_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb14_to_i414" => rgb14_to_i414(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb14_to_i414_be" => rgb14_to_i414_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb16_to_i016" => rgb16_to_i016(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb16_to_i016_be" => rgb16_to_i016_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb16_to_i216" => rgb16_to_i216(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb16_to_i216_be" => rgb16_to_i216_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb16_to_i416" => rgb16_to_i416(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb16_to_i416_be" => rgb16_to_i416_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba10_to_i010" => rgba10_to_i010(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba10_to_i010_be" => rgba10_to_i010_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba10_to_i210" => rgba10_to_i210(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba10_to_i210_be" => rgba10_to_i210_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba10_to_i410" => rgba10_to_i410(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba10_to_i410_be" => rgba10_to_i410_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba12_to_i012" => rgba12_to_i012(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba12_to_i012_be" => rgba12_to_i012_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba12_to_i212" => rgba12_to_i212(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba12_to_i212_be" => rgba12_to_i212_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba12_to_i412" => rgba12_to_i412(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba12_to_i412_be" => rgba12_to_i412_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba14_to_i014" => rgba14_to_i014(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba14_to_i014_be" => rgba14_to_i014_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba14_to_i214" => rgba14_to_i214(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba14_to_i214_be" => rgba14_to_i214_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba14_to_i414" => rgba14_to_i414(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba14_to_i414_be" => rgba14_to_i414_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba16_to_i016" => rgba16_to_i016(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba16_to_i016_be" => rgba16_to_i016_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba16_to_i216" => rgba16_to_i216(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba16_to_i216_be" => rgba16_to_i216_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba16_to_i416" => rgba16_to_i416(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba16_to_i416_be" => rgba16_to_i416_be(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb10_to_p010" => rgb10_to_p010(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb10_to_p210" => rgb10_to_p210(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb10_to_p410" => rgb10_to_p410(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb12_to_p012" => rgb12_to_p012(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb12_to_p212" => rgb12_to_p212(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb12_to_p412" => rgb12_to_p412(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb16_to_p016" => rgb16_to_p016(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb16_to_p216" => rgb16_to_p216(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba10_to_p010" => rgba10_to_p010(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba10_to_p210" => rgba10_to_p210(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba10_to_p410" => rgba10_to_p410(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba12_to_p012" => rgba12_to_p012(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba12_to_p212" => rgba12_to_p212(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba12_to_p412" => rgba12_to_p412(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba16_to_p016" => rgba16_to_p016(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba16_to_p216" => rgba16_to_p216(&mut c.nv_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range(), c.matrix()),
        "bgr_to_yuv400" => bgr_to_yuv400(&mut c.y_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix()),
        "bgra_to_yuv400" => bgra_to_yuv400(&mut c.y_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgb_to_yuv400" => rgb_to_yuv400(&mut c.y_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix()),
        "rgba_to_yuv400" => rgba_to_yuv400(&mut c.y_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix()),
        "bgr_to_ycgco420" => bgr_to_ycgco420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "bgr_to_ycgco422" => bgr_to_ycgco422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "bgr_to_ycgco444" => bgr_to_ycgco444(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "bgra_to_ycgco420" => bgra_to_ycgco420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "bgra_to_ycgco422" => bgra_to_ycgco422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "bgra_to_ycgco444" => bgra_to_ycgco444(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "rgb_to_ycgco420" => rgb_to_ycgco420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "rgb_to_ycgco422" => rgb_to_ycgco422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "rgb_to_ycgco444" => rgb_to_ycgco444(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "rgba_to_ycgco420" => rgba_to_ycgco420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "rgba_to_ycgco422" => rgba_to_ycgco422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "rgba_to_ycgco444" => rgba_to_ycgco444(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "bgr_to_yuv_nv12" => bgr_to_yuv_nv12(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgr_to_yuv_nv16" => bgr_to_yuv_nv16(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgr_to_yuv_nv21" => bgr_to_yuv_nv21(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgr_to_yuv_nv24" => bgr_to_yuv_nv24(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgr_to_yuv_nv42" => bgr_to_yuv_nv42(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgr_to_yuv_nv61" => bgr_to_yuv_nv61(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgra_to_yuv_nv12" => bgra_to_yuv_nv12(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgra_to_yuv_nv16" => bgra_to_yuv_nv16(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgra_to_yuv_nv21" => bgra_to_yuv_nv21(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgra_to_yuv_nv24" => bgra_to_yuv_nv24(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgra_to_yuv_nv42" => bgra_to_yuv_nv42(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgra_to_yuv_nv61" => bgra_to_yuv_nv61(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgb_to_yuv_nv12" => rgb_to_yuv_nv12(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgb_to_yuv_nv16" => rgb_to_yuv_nv16(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgb_to_yuv_nv21" => rgb_to_yuv_nv21(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgb_to_yuv_nv24" => rgb_to_yuv_nv24(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgb_to_yuv_nv42" => rgb_to_yuv_nv42(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgb_to_yuv_nv61" => rgb_to_yuv_nv61(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgba_to_yuv_nv12" => rgba_to_yuv_nv12(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgba_to_yuv_nv16" => rgba_to_yuv_nv16(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgba_to_yuv_nv21" => rgba_to_yuv_nv21(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgba_to_yuv_nv24" => rgba_to_yuv_nv24(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgba_to_yuv_nv42" => rgba_to_yuv_nv42(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgba_to_yuv_nv61" => rgba_to_yuv_nv61(&mut c.nv_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgr_to_yuv420" => bgr_to_yuv420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgr_to_yuv422" => bgr_to_yuv422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgr_to_yuv444" => bgr_to_yuv444(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgra_to_yuv420" => bgra_to_yuv420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgra_to_yuv422" => bgra_to_yuv422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgra_to_yuv444" => bgra_to_yuv444(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgb_to_yuv420" => rgb_to_yuv420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgb_to_yuv422" => rgb_to_yuv422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgb_to_yuv444" => rgb_to_yuv444(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgba_to_yuv420" => rgba_to_yuv420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgba_to_yuv422" => rgba_to_yuv422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "rgba_to_yuv444" => rgba_to_yuv444(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.mode()),
        "bgr_to_gbr" => bgr_to_gbr(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "bgra_to_gbr" => bgra_to_gbr(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "rgb10_to_gb10" => rgb10_to_gb10(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range()),
        "rgb12_to_gb12" => rgb12_to_gb12(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range()),
        "rgb14_to_gb14" => rgb14_to_gb14(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range()),
        "rgb16_to_gb16" => rgb16_to_gb16(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range()),
        "rgb_to_gbr" => rgb_to_gbr(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "rgba10_to_gb10" => rgba10_to_gb10(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range()),
        "rgba12_to_gb12" => rgba12_to_gb12(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range()),
        "rgba14_to_gb14" => rgba14_to_gb14(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range()),
        "rgba16_to_gb16" => rgba16_to_gb16(&mut c.p3_mut::<u16>(), c.src_slice::<u16>(), c.src_stride() as u32, c.range()),
        "rgba_to_gbr" => rgba_to_gbr(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range()),
        "convert_plane_f16_to_planar" => convert_plane_f16_to_planar(c.src_slice::<f16>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize),
        "convert_plane_f16_to_planar16" => convert_plane_f16_to_planar16(c.src_slice::<f16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.bd as usize, c.w as usize, c.h as usize),
        "convert_rgb_f16_to_rgb" => convert_rgb_f16_to_rgb(c.src_slice::<f16>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize),
        "convert_rgb_f16_to_rgb16" => convert_rgb_f16_to_rgb16(c.src_slice::<f16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.bd as usize, c.w as usize, c.h as usize),
        "convert_rgba_f16_to_rgba" => convert_rgba_f16_to_rgba(c.src_slice::<f16>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize),
        "convert_rgba_f16_to_rgba16" => convert_rgba_f16_to_rgba16(c.src_slice::<f16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.bd as usize, c.w as usize, c.h as usize),
        "mirror_cbcr" => mirror_cbcr(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.mirror()),
        "mirror_cbcr16" => mirror_cbcr16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.mirror()),
        "mirror_plane" => mirror_plane(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.mirror()),
        "mirror_plane16" => mirror_plane16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.mirror()),
        "mirror_rgb" => mirror_rgb(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.mirror()),
        "mirror_rgb16" => mirror_rgb16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.mirror()),
        "mirror_rgba" => mirror_rgba(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.mirror()),
        "mirror_rgba16" => mirror_rgba16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.mirror()),
        "yuv420_to_uyvy422" => yuv420_to_uyvy422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv420_to_vyuy422" => yuv420_to_vyuy422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv420_to_yuyv422" => yuv420_to_yuyv422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv420_to_yvyu422" => yuv420_to_yvyu422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv422_to_uyvy422" => yuv422_to_uyvy422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv422_to_vyuy422" => yuv422_to_vyuy422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv422_to_yuyv422" => yuv422_to_yuyv422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv422_to_yvyu422" => yuv422_to_yvyu422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv444_to_uyvy422" => yuv444_to_uyvy422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv444_to_vyuy422" => yuv444_to_vyuy422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv444_to_yuyv422" => yuv444_to_yuyv422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv444_to_yvyu422" => yuv444_to_yvyu422(&mut c.pk_mut::<u8>(), &c.p3::<u8>()),
        "yuv420_to_uyvy422_p16" => yuv420_to_uyvy422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv420_to_vyuy422_p16" => yuv420_to_vyuy422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv420_to_yuyv422_p16" => yuv420_to_yuyv422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv420_to_yvyu422_p16" => yuv420_to_yvyu422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv422_to_uyvy422_p16" => yuv422_to_uyvy422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv422_to_vyuy422_p16" => yuv422_to_vyuy422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv422_to_yuyv422_p16" => yuv422_to_yuyv422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv422_to_yvyu422_p16" => yuv422_to_yvyu422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv444_to_uyvy422_p16" => yuv444_to_uyvy422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv444_to_vyuy422_p16" => yuv444_to_vyuy422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv444_to_yuyv422_p16" => yuv444_to_yuyv422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "yuv444_to_yvyu422_p16" => yuv444_to_yvyu422_p16(&mut c.pk_mut::<u16>(), &c.p3::<u16>()),
        "rgb10_to_ar30" => rgb10_to_ar30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u16>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgb10_to_ra30" => rgb10_to_ra30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u16>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgb12_to_ar30" => rgb12_to_ar30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u16>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgb12_to_ra30" => rgb12_to_ra30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u16>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgb8_to_ar30" => rgb8_to_ar30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u8>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgb8_to_ra30" => rgb8_to_ra30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u8>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgba10_to_ar30" => rgba10_to_ar30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u16>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgba10_to_ra30" => rgba10_to_ra30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u16>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgba12_to_ar30" => rgba12_to_ar30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u16>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgba12_to_ra30" => rgba12_to_ra30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u16>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgba8_to_ar30" => rgba8_to_ar30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u8>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rgba8_to_ra30" => rgba8_to_ra30(c.dst_slice::<u8>(), c.dst_stride() as u32, c.byte_order(), c.src_slice::<u8>(), c.src_stride() as u32, c.w as u32, c.h as u32),
        "rdp_yuv444_to_abgr" => rdp_yuv444_to_abgr(&c.p3::<i16>(), c.dst_slice::<u8>(), c.dst_stride() as u32),
        "rdp_yuv444_to_argb" => rdp_yuv444_to_argb(&c.p3::<i16>(), c.dst_slice::<u8>(), c.dst_stride() as u32),
        "rdp_yuv444_to_bgr" => rdp_yuv444_to_bgr(&c.p3::<i16>(), c.dst_slice::<u8>(), c.dst_stride() as u32),
        "rdp_yuv444_to_bgra" => rdp_yuv444_to_bgra(&c.p3::<i16>(), c.dst_slice::<u8>(), c.dst_stride() as u32),
        "rdp_yuv444_to_rgb" => rdp_yuv444_to_rgb(&c.p3::<i16>(), c.dst_slice::<u8>(), c.dst_stride() as u32),
        "rdp_yuv444_to_rgba" => rdp_yuv444_to_rgba(&c.p3::<i16>(), c.dst_slice::<u8>(), c.dst_stride() as u32),
        "rdp_abgr_to_yuv444" => rdp_abgr_to_yuv444(&mut c.p3_mut::<i16>(), c.src_slice::<u8>(), c.src_stride() as u32),
        "rdp_argb_to_yuv444" => rdp_argb_to_yuv444(&mut c.p3_mut::<i16>(), c.src_slice::<u8>(), c.src_stride() as u32),
        "rdp_bgr_to_yuv444" => rdp_bgr_to_yuv444(&mut c.p3_mut::<i16>(), c.src_slice::<u8>(), c.src_stride() as u32),
        "rdp_bgra_to_yuv444" => rdp_bgra_to_yuv444(&mut c.p3_mut::<i16>(), c.src_slice::<u8>(), c.src_stride() as u32),
        "rdp_rgb_to_yuv444" => rdp_rgb_to_yuv444(&mut c.p3_mut::<i16>(), c.src_slice::<u8>(), c.src_stride() as u32),
        "rdp_rgba_to_yuv444" => rdp_rgba_to_yuv444(&mut c.p3_mut::<i16>(), c.src_slice::<u8>(), c.src_stride() as u32),
        "rotate_cbcr" => rotate_cbcr(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.rotation()),
        "rotate_cbcr16" => rotate_cbcr16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.rotation()),
        "rotate_plane" => rotate_plane(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.rotation()),
        "rotate_plane16" => rotate_plane16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.rotation()),
        "rotate_rgb" => rotate_rgb(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.rotation()),
        "rotate_rgb16" => rotate_rgb16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.rotation()),
        "rotate_rgba" => rotate_rgba(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<u8>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.rotation()),
        "rotate_rgba16" => rotate_rgba16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<u16>(), c.dst_stride() as usize, c.w as usize, c.h as usize, c.rotation()),
        "bgr_to_sharp_yuv420" => bgr_to_sharp_yuv420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.gamma()),
        "bgr_to_sharp_yuv422" => bgr_to_sharp_yuv422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.gamma()),
        "bgra_to_sharp_yuv420" => bgra_to_sharp_yuv420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.gamma()),
        "bgra_to_sharp_yuv422" => bgra_to_sharp_yuv422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.gamma()),
        "rgb_to_sharp_yuv420" => rgb_to_sharp_yuv420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.gamma()),
        "rgb_to_sharp_yuv422" => rgb_to_sharp_yuv422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.gamma()),
        "rgba_to_sharp_yuv420" => rgba_to_sharp_yuv420(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.gamma()),
        "rgba_to_sharp_yuv422" => rgba_to_sharp_yuv422(&mut c.p3_mut::<u8>(), c.src_slice::<u8>(), c.src_stride() as u32, c.range(), c.matrix(), c.gamma()),
        "bgr_to_bgra" => bgr_to_bgra(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "bgr_to_rgb" => bgr_to_rgb(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "bgr_to_rgba" => bgr_to_rgba(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "bgra_to_bgr" => bgra_to_bgr(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "bgra_to_rgb" => bgra_to_rgb(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "bgra_to_rgba" => bgra_to_rgba(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "rgb_to_bgr" => rgb_to_bgr(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "rgb_to_bgra" => rgb_to_bgra(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "rgb_to_rgba" => rgb_to_rgba(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "rgba_to_bgr" => rgba_to_bgr(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "rgba_to_bgra" => rgba_to_bgra(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "rgba_to_rgb" => rgba_to_rgb(c.src_slice::<u8>(), c.src_stride() as u32, c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "convert_plane16_to_f16" => convert_plane16_to_f16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<f16>(), c.dst_stride() as usize, c.bd as usize, c.w as usize, c.h as usize),
        "convert_plane_to_f16" => convert_plane_to_f16(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<f16>(), c.dst_stride() as usize, c.w as usize, c.h as usize),
        "convert_rgb16_to_f16" => convert_rgb16_to_f16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<f16>(), c.dst_stride() as usize, c.bd as usize, c.w as usize, c.h as usize),
        "convert_rgb_to_f16" => convert_rgb_to_f16(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<f16>(), c.dst_stride() as usize, c.w as usize, c.h as usize),
        "convert_rgba16_to_f16" => convert_rgba16_to_f16(c.src_slice::<u16>(), c.src_stride() as usize, c.dst_slice::<f16>(), c.dst_stride() as usize, c.bd as usize, c.w as usize, c.h as usize),
        "convert_rgba_to_f16" => convert_rgba_to_f16(c.src_slice::<u8>(), c.src_stride() as usize, c.dst_slice::<f16>(), c.dst_stride() as usize, c.w as usize, c.h as usize),
        "uyvy422_to_yuv420" => uyvy422_to_yuv420(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "uyvy422_to_yuv422" => uyvy422_to_yuv422(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "uyvy422_to_yuv444" => uyvy422_to_yuv444(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "vyuy422_to_yuv420" => vyuy422_to_yuv420(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "vyuy422_to_yuv422" => vyuy422_to_yuv422(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "vyuy422_to_yuv444" => vyuy422_to_yuv444(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "yuyv422_to_yuv420" => yuyv422_to_yuv420(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "yuyv422_to_yuv422" => yuyv422_to_yuv422(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "yuyv422_to_yuv444" => yuyv422_to_yuv444(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "yvyu422_to_yuv420" => yvyu422_to_yuv420(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "yvyu422_to_yuv422" => yvyu422_to_yuv422(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "yvyu422_to_yuv444" => yvyu422_to_yuv444(&mut c.p3_mut::<u8>(), &c.pk::<u8>()),
        "uyvy422_to_yuv420_p16" => uyvy422_to_yuv420_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "uyvy422_to_yuv422_p16" => uyvy422_to_yuv422_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "uyvy422_to_yuv444_p16" => uyvy422_to_yuv444_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "vyuy422_to_yuv420_p16" => vyuy422_to_yuv420_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "vyuy422_to_yuv422_p16" => vyuy422_to_yuv422_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "vyuy422_to_yuv444_p16" => vyuy422_to_yuv444_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "yuyv422_to_yuv420_p16" => yuyv422_to_yuv420_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "yuyv422_to_yuv422_p16" => yuyv422_to_yuv422_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "yuyv422_to_yuv444_p16" => yuyv422_to_yuv444_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "yvyu422_to_yuv420_p16" => yvyu422_to_yuv420_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "yvyu422_to_yuv422_p16" => yvyu422_to_yuv422_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "yvyu422_to_yuv444_p16" => yvyu422_to_yuv444_p16(&mut c.p3_mut::<u16>(), &c.pk::<u16>()),
        "ab30_to_rgb8" => ab30_to_rgb8(c.src_slice::<u8>(), c.src_stride() as u32, c.byte_order(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "ar30_to_rgb8" => ar30_to_rgb8(c.src_slice::<u8>(), c.src_stride() as u32, c.byte_order(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "ar30_to_rgba8" => ar30_to_rgba8(c.src_slice::<u8>(), c.src_stride() as u32, c.byte_order(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "ba30_to_rgb8" => ba30_to_rgb8(c.src_slice::<u8>(), c.src_stride() as u32, c.byte_order(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "ra30_to_rgb8" => ra30_to_rgb8(c.src_slice::<u8>(), c.src_stride() as u32, c.byte_order(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "ra30_to_rgba8" => ra30_to_rgba8(c.src_slice::<u8>(), c.src_stride() as u32, c.byte_order(), c.dst_slice::<u8>(), c.dst_stride() as u32, c.w as u32, c.h as u32),
        "check_p3_420" => c.p3::<u8>().check_constraints(YuvChromaSubsampling::Yuv420),
        "check_p3_422" => c.p3::<u8>().check_constraints(YuvChromaSubsampling::Yuv422),
        "check_p3_444" => c.p3::<u8>().check_constraints(YuvChromaSubsampling::Yuv444),
        "check_p3_mut_420" => c.p3_mut_src::<u16>().check_constraints(YuvChromaSubsampling::Yuv420),
        "check_p3_mut_422" => c.p3_mut_src::<u16>().check_constraints(YuvChromaSubsampling::Yuv422),
        "check_p3_mut_444" => c.p3_mut_src::<u16>().check_constraints(YuvChromaSubsampling::Yuv444),
        "check_p3a_420" => c.p3a::<u16>().check_constraints(YuvChromaSubsampling::Yuv420),
        "check_p3a_422" => c.p3a::<u16>().check_constraints(YuvChromaSubsampling::Yuv422),
        "check_p3a_444" => c.p3a::<u16>().check_constraints(YuvChromaSubsampling::Yuv444),
        "check_nv_420" => c.nv::<u8>().check_constraints(YuvChromaSubsampling::Yuv420),
        "check_nv_422" => c.nv::<u8>().check_constraints(YuvChromaSubsampling::Yuv422),
        "check_nv_444" => c.nv::<u8>().check_constraints(YuvChromaSubsampling::Yuv444),
        "check_nv_mut_420" => c.nv_mut_src::<u16>().check_constraints(YuvChromaSubsampling::Yuv420),
        "check_nv_mut_422" => c.nv_mut_src::<u16>().check_constraints(YuvChromaSubsampling::Yuv422),
        "check_nv_mut_444" => c.nv_mut_src::<u16>().check_constraints(YuvChromaSubsampling::Yuv444),
        "check_y_400" => c.y::<u8>().check_constraints(),
        "check_y_mut_400" => c.y_mut_src::<u16>().check_constraints(),
        "check_ya_400" => c.ya::<u16>().check_constraints(),
        "check_pk_422" => c.pk::<u8>().check_constraints(),
        "check_pk_mut_422" => c.pk_mut_src::<u16>().check_constraints(),
        "check_pk_444" => c.pk::<u8>().check_constraints444(),
        "alloc_p3_420" => c.alloc_p3(YuvChromaSubsampling::Yuv420),
        "alloc_p3_422" => c.alloc_p3(YuvChromaSubsampling::Yuv422),
        "alloc_p3_444" => c.alloc_p3(YuvChromaSubsampling::Yuv444),
        "alloc_nv_420" => c.alloc_nv(YuvChromaSubsampling::Yuv420),
        "alloc_nv_422" => c.alloc_nv(YuvChromaSubsampling::Yuv422),
        "alloc_nv_444" => c.alloc_nv(YuvChromaSubsampling::Yuv444),
        "alloc_y_400" => c.alloc_y(),
        _ => return None,
    })
}
