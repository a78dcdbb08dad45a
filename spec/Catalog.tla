------------------------------ MODULE Catalog ------------------------------
(* Generated by tools/gen_catalog.py from the public API: one record per conversion entry point.
   fam: operation family; sl/dl: plane layout of source/destination; ssub/dsub: chroma sampling;
   sd/dd: bit depth (0 = a call argument); st/dt: sample type; sord/dord: channel order; sbe/dbe: big
   endian samples; smsb/dmsb: samples in the most significant bits; mx: colour transform; alpha: source
   carries alpha; premul/mode/bo/rg: takes a premultiply flag / conversion mode / byte order / range. *)
Catalog == <<
  [fn |-> "ayuv_to_rgb", fam |-> "dec", sl |-> "p444", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "ayuv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 1, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ayuv_to_rgb"],
  [fn |-> "ayuv_to_rgba", fam |-> "dec", sl |-> "p444", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "ayuv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 1, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ayuv_to_rgb"],
  [fn |-> "vyua_to_rgb", fam |-> "dec", sl |-> "p444", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vyua", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 1, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ayuv_to_rgb"],
  [fn |-> "vyua_to_rgba", fam |-> "dec", sl |-> "p444", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vyua", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 1, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ayuv_to_rgb"],
  [fn |-> "gb10_to_rgb10", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gb10_to_rgba10", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gb12_to_rgb12", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gb12_to_rgba12", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gb14_to_rgb14", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gb14_to_rgba14", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gb16_to_rgb16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gb16_to_rgba16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gbr_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gbr_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gbr_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gbr_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity"],
  [fn |-> "gb10_alpha_to_rgba10", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity_alpha"],
  [fn |-> "gb12_alpha_to_rgba12", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity_alpha"],
  [fn |-> "gb14_alpha_to_rgba14", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity_alpha"],
  [fn |-> "gb16_alpha_to_rgba16", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity_alpha"],
  [fn |-> "gbr_with_alpha_to_bgra", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "gbr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity_alpha"],
  [fn |-> "gbr_with_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "gbr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "from_identity_alpha"],
  [fn |-> "gb10_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_alpha_f16"],
  [fn |-> "gb12_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_alpha_f16"],
  [fn |-> "gb14_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_alpha_f16"],
  [fn |-> "gb16_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_alpha_f16"],
  [fn |-> "gb10_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_f16"],
  [fn |-> "gb10_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_f16"],
  [fn |-> "gb12_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_f16"],
  [fn |-> "gb12_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_f16"],
  [fn |-> "gb14_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_f16"],
  [fn |-> "gb14_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_f16"],
  [fn |-> "gb16_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_f16"],
  [fn |-> "gb16_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "from_identity_f16"],
  [fn |-> "y010_to_rgb10", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_to_rgb16"],
  [fn |-> "y010_to_rgba10", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_to_rgb16"],
  [fn |-> "y012_to_rgb12", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_to_rgb16"],
  [fn |-> "y012_to_rgba12", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_to_rgb16"],
  [fn |-> "y014_to_rgb14", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_to_rgb16"],
  [fn |-> "y014_to_rgba14", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_to_rgb16"],
  [fn |-> "y016_to_rgb16", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_to_rgb16"],
  [fn |-> "y016_to_rgba16", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_to_rgb16"],
  [fn |-> "y010_alpha_to_rgba10", fam |-> "dec", sl |-> "ya", ssub |-> 400, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_with_alpha_to_rgb16"],
  [fn |-> "y012_alpha_to_rgba12", fam |-> "dec", sl |-> "ya", ssub |-> 400, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_with_alpha_to_rgb16"],
  [fn |-> "y014_alpha_to_rgba14", fam |-> "dec", sl |-> "ya", ssub |-> 400, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_with_alpha_to_rgb16"],
  [fn |-> "y016_alpha_to_rgba16", fam |-> "dec", sl |-> "ya", ssub |-> 400, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_p16_with_alpha_to_rgb16"],
  [fn |-> "yuv400_to_bgr", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_to_rgb"],
  [fn |-> "yuv400_to_bgra", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_to_rgb"],
  [fn |-> "yuv400_to_rgb", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_to_rgb"],
  [fn |-> "yuv400_to_rgba", fam |-> "dec", sl |-> "y", ssub |-> 400, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_to_rgb"],
  [fn |-> "yuv400_alpha_to_bgra", fam |-> "dec", sl |-> "ya", ssub |-> 400, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_with_alpha_to_rgb"],
  [fn |-> "yuv400_alpha_to_rgba", fam |-> "dec", sl |-> "ya", ssub |-> 400, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "y_with_alpha_to_rgb"],
  [fn |-> "icgc010_to_rgb10", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc010_to_rgba10", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc012_to_rgb12", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc012_to_rgba12", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc210_to_rgb10", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc210_to_rgba10", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc212_to_rgb12", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc212_to_rgba12", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc410_to_rgb10", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc410_to_rgba10", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc412_to_rgb12", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc412_to_rgba12", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco420_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco420_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco420_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco420_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco422_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco422_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco422_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco422_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco444_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco444_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco444_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "ycgco444_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb"],
  [fn |-> "icgc010_alpha_to_rgba10", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "icgc012_alpha_to_rgba12", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "icgc210_alpha_to_rgba10", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "icgc212_alpha_to_rgba12", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "icgc410_alpha_to_rgba10", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "icgc412_alpha_to_rgba12", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "ycgco420_alpha_to_bgra", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "ycgco420_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "ycgco422_alpha_to_bgra", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "ycgco422_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "ycgco444_alpha_to_bgra", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "ycgco444_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "ycgco_to_rgb_alpha"],
  [fn |-> "p010_to_ar30", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_ar30"],
  [fn |-> "p010_to_ra30", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_ar30"],
  [fn |-> "p012_to_ar30", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_ar30"],
  [fn |-> "p012_to_ra30", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_ar30"],
  [fn |-> "p210_to_ar30", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_ar30"],
  [fn |-> "p210_to_ra30", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_ar30"],
  [fn |-> "p212_to_ar30", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_ar30"],
  [fn |-> "p212_to_ra30", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_ar30"],
  [fn |-> "p010_to_bgr", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p010_to_bgra", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p010_to_rgb", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p010_to_rgba", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p210_to_bgr", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p210_to_bgra", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p210_to_rgb", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p210_to_rgba", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p410_to_bgr", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p410_to_bgra", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p410_to_rgb", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p410_to_rgba", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p10_to_rgb"],
  [fn |-> "p010_to_rgb10", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p010_to_rgba10", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p012_to_rgb12", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p012_to_rgba12", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p210_to_rgb10", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p210_to_rgba10", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p212_to_rgb12", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p212_to_rgba12", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p410_to_rgb10", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p410_to_rgba10", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p412_to_rgb12", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "p412_to_rgba12", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 1, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_p16_to_rgb16"],
  [fn |-> "yuv_nv12_to_bgr", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv12_to_bgra", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv12_to_rgb", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv12_to_rgba", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv16_to_bgr", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv16_to_bgra", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv16_to_rgb", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv16_to_rgba", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv21_to_bgr", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv21_to_bgra", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv21_to_rgb", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv21_to_rgba", fam |-> "dec", sl |-> "nv", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv24_to_bgr", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv24_to_bgra", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv24_to_rgb", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv24_to_rgba", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv42_to_bgr", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv42_to_bgra", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv42_to_rgb", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv42_to_rgba", fam |-> "dec", sl |-> "nv", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv61_to_bgr", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv61_to_bgra", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv61_to_rgb", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "yuv_nv61_to_rgba", fam |-> "dec", sl |-> "nv", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vu", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_nv_to_rgba"],
  [fn |-> "i010_be_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i010_be_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i010_be_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i010_be_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i010_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i010_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i010_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i010_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i012_be_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i012_be_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i012_be_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i012_be_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i012_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i012_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i012_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i012_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i210_be_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i210_be_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i210_be_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i210_be_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i210_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i210_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i210_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i210_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i212_be_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i212_be_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i212_be_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i212_be_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i212_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i212_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i212_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i212_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i410_be_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p10_rgba"],
  [fn |-> "i410_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p10_rgba"],
  [fn |-> "i010_to_ar30", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i010_to_ra30", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i012_to_ar30", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i012_to_ra30", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i014_to_ar30", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i014_to_ra30", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i210_to_ar30", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i210_to_ra30", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i212_to_ar30", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i212_to_ra30", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i214_to_ar30", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i214_to_ra30", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i410_to_ar30", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i410_to_ra30", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i412_to_ar30", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i412_to_ra30", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i414_to_ar30", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i414_to_ra30", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 1, feat |-> "", file |-> "yuv_p16_ar30"],
  [fn |-> "i010_alpha_to_rgba10", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i010_be_alpha_to_rgba10", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i012_alpha_to_rgba12", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i012_be_alpha_to_rgba12", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i014_alpha_to_rgba14", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i014_be_alpha_to_rgba14", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 14, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i210_alpha_be_to_rgba10", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i210_alpha_to_rgba10", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i212_alpha_to_rgba12", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i212_be_alpha_to_rgba12", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i214_alpha_to_rgba14", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i214_be_alpha_to_rgba14", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 14, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i410_alpha_to_rgba10", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i410_be_alpha_to_rgba10", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i412_alpha_to_rgba12", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i412_be_alpha_to_rgba12", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i414_alpha_to_rgba14", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i414_be_alpha_to_rgba14", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 14, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba16_alpha"],
  [fn |-> "i010_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i010_be_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i012_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i012_be_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i210_alpha_be_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i210_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i212_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i212_be_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i410_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i410_be_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i412_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i412_be_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_alpha"],
  [fn |-> "i010_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i010_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i012_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i012_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i014_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i014_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i210_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i210_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i212_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i212_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i214_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i214_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i410_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i410_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i412_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i412_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i414_to_rgb_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i414_to_rgba_f16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuv_p16_rgba_f16"],
  [fn |-> "i010_be_to_rgb10", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i010_be_to_rgba10", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i010_to_rgb10", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i010_to_rgba10", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i012_be_to_rgb12", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i012_be_to_rgba12", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i012_to_rgb12", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i012_to_rgba12", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i014_be_to_rgb14", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 14, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i014_be_to_rgba14", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 14, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i014_to_rgb14", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i014_to_rgba14", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i016_be_to_rgb16", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 16, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i016_be_to_rgba16", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 16, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i016_to_rgb16", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i016_to_rgba16", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i210_be_to_rgb10", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i210_be_to_rgba10", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i210_to_rgb10", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i210_to_rgba10", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i212_be_to_rgb12", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i212_be_to_rgba12", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i212_to_rgb12", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i212_to_rgba12", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i214_be_to_rgb14", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 14, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i214_be_to_rgba14", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 14, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i214_to_rgb14", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i214_to_rgba14", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i216_be_to_rgb16", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 16, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i216_be_to_rgba16", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 16, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i216_to_rgb16", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i216_to_rgba16", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i410_be_to_rgb10", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i410_be_to_rgba10", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i410_to_rgb10", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i410_to_rgba10", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i412_be_to_rgb12", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i412_be_to_rgba12", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i412_to_rgb12", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i412_to_rgba12", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i414_be_to_rgb14", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i414_be_to_rgba14", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i414_to_rgb14", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i414_to_rgba14", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i416_be_to_rgb16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i416_be_to_rgba16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 1, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i416_to_rgb16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "i416_to_rgba16", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_p16_rgba_p16"],
  [fn |-> "yuv420_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv420_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv420_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv420_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv422_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv422_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv422_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv422_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv444_to_bgr", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv444_to_bgra", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv444_to_rgb", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv444_to_rgba", fam |-> "dec", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba"],
  [fn |-> "yuv420_alpha_to_bgra", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 1, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba_alpha"],
  [fn |-> "yuv420_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 1, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba_alpha"],
  [fn |-> "yuv422_alpha_to_bgra", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 1, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba_alpha"],
  [fn |-> "yuv422_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 1, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba_alpha"],
  [fn |-> "yuv444_alpha_to_bgra", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 1, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba_alpha"],
  [fn |-> "yuv444_alpha_to_rgba", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 1, premul |-> 1, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuv_to_rgba_alpha"],
  [fn |-> "i010_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuva_p16_rgba_f16"],
  [fn |-> "i012_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuva_p16_rgba_f16"],
  [fn |-> "i014_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 420, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuva_p16_rgba_f16"],
  [fn |-> "i210_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuva_p16_rgba_f16"],
  [fn |-> "i212_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuva_p16_rgba_f16"],
  [fn |-> "i214_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 422, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuva_p16_rgba_f16"],
  [fn |-> "i410_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuva_p16_rgba_f16"],
  [fn |-> "i412_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuva_p16_rgba_f16"],
  [fn |-> "i414_alpha_to_rgba_f16", fam |-> "dec", sl |-> "p3a", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "f16", mx |-> "kr", alpha |-> 1, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "f16", file |-> "yuva_p16_rgba_f16"],
  [fn |-> "uyvy422_to_bgr", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "uyvy422_to_bgra", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "uyvy422_to_rgb", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "uyvy422_to_rgba", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "vyuy422_to_bgr", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "vyuy422_to_bgra", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "vyuy422_to_rgb", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "vyuy422_to_rgba", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "yuyv422_to_bgr", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "yuyv422_to_bgra", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "yuyv422_to_rgb", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "yuyv422_to_rgba", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "yvyu422_to_bgr", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "yvyu422_to_bgra", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "yvyu422_to_rgb", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "yvyu422_to_rgba", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb"],
  [fn |-> "uyvy422_to_rgb_p16", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 0, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "i3", dsub |-> 444, dd |-> 0, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb_p16"],
  [fn |-> "uyvy422_to_rgba_p16", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 0, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "i4", dsub |-> 444, dd |-> 0, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb_p16"],
  [fn |-> "vyuy422_to_rgb_p16", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 0, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "i3", dsub |-> 444, dd |-> 0, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb_p16"],
  [fn |-> "vyuy422_to_rgba_p16", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 0, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "i4", dsub |-> 444, dd |-> 0, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb_p16"],
  [fn |-> "yuyv422_to_rgb_p16", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 0, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "i3", dsub |-> 444, dd |-> 0, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb_p16"],
  [fn |-> "yuyv422_to_rgba_p16", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 0, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "i4", dsub |-> 444, dd |-> 0, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb_p16"],
  [fn |-> "yvyu422_to_rgb_p16", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 0, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "i3", dsub |-> 444, dd |-> 0, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb_p16"],
  [fn |-> "yvyu422_to_rgba_p16", fam |-> "dec", sl |-> "y422", ssub |-> 422, sd |-> 0, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "i4", dsub |-> 444, dd |-> 0, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "yuy2_to_rgb_p16"],
  [fn |-> "rgb10_to_i010", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb10_to_i010_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 10, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb10_to_i210", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb10_to_i210_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 10, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb10_to_i410", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb10_to_i410_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 10, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb12_to_i012", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb12_to_i012_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 12, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb12_to_i212", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb12_to_i212_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 12, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb12_to_i412", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb12_to_i412_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 12, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb14_to_i014", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb14_to_i014_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 14, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb14_to_i214", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb14_to_i214_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 14, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb14_to_i414", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb14_to_i414_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 14, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb16_to_i016", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb16_to_i016_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 16, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb16_to_i216", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb16_to_i216_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 16, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb16_to_i416", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb16_to_i416_be", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba10_to_i010", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba10_to_i010_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 10, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba10_to_i210", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba10_to_i210_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 10, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba10_to_i410", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba10_to_i410_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 10, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba12_to_i012", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba12_to_i012_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 12, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba12_to_i212", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba12_to_i212_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 12, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba12_to_i412", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba12_to_i412_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 12, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba14_to_i014", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba14_to_i014_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 14, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba14_to_i214", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba14_to_i214_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 14, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba14_to_i414", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba14_to_i414_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 14, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba16_to_i016", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba16_to_i016_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 16, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba16_to_i216", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba16_to_i216_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 16, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba16_to_i416", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgba16_to_i416_be", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 1, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "be", file |-> "rgb16_to_yuv_p16"],
  [fn |-> "rgb10_to_p010", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 420, dd |-> 10, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgb10_to_p210", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 422, dd |-> 10, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgb10_to_p410", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgb12_to_p012", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 420, dd |-> 12, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgb12_to_p212", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 422, dd |-> 12, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgb12_to_p412", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgb16_to_p016", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 420, dd |-> 16, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgb16_to_p216", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgba10_to_p010", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 420, dd |-> 10, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgba10_to_p210", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 422, dd |-> 10, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgba10_to_p410", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgba12_to_p012", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 420, dd |-> 12, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgba12_to_p212", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 422, dd |-> 12, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgba12_to_p412", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgba16_to_p016", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 420, dd |-> 16, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "rgba16_to_p216", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 1, dord |-> "uv", st |-> "u16", dt |-> "u16", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_nv_p16"],
  [fn |-> "bgr_to_yuv400", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "y", dsub |-> 400, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_y"],
  [fn |-> "bgra_to_yuv400", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "y", dsub |-> 400, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_y"],
  [fn |-> "rgb_to_yuv400", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "y", dsub |-> 400, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_y"],
  [fn |-> "rgba_to_yuv400", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "y", dsub |-> 400, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_y"],
  [fn |-> "bgr_to_ycgco420", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "bgr_to_ycgco422", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "bgr_to_ycgco444", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "bgra_to_ycgco420", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "bgra_to_ycgco422", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "bgra_to_ycgco444", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "rgb_to_ycgco420", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "rgb_to_ycgco422", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "rgb_to_ycgco444", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "rgba_to_ycgco420", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "rgba_to_ycgco422", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "rgba_to_ycgco444", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "ycgco", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgb_to_ycgco"],
  [fn |-> "bgr_to_yuv_nv12", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "nv", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgr_to_yuv_nv16", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "nv", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgr_to_yuv_nv21", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "nv", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgr_to_yuv_nv24", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "nv", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgr_to_yuv_nv42", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "nv", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgr_to_yuv_nv61", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "nv", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgra_to_yuv_nv12", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "nv", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgra_to_yuv_nv16", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "nv", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgra_to_yuv_nv21", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "nv", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgra_to_yuv_nv24", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "nv", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgra_to_yuv_nv42", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "nv", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgra_to_yuv_nv61", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "nv", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgb_to_yuv_nv12", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgb_to_yuv_nv16", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgb_to_yuv_nv21", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgb_to_yuv_nv24", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgb_to_yuv_nv42", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgb_to_yuv_nv61", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "nv", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgba_to_yuv_nv12", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgba_to_yuv_nv16", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgba_to_yuv_nv21", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgba_to_yuv_nv24", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uv", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgba_to_yuv_nv42", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "rgba_to_yuv_nv61", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "nv", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vu", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_nv"],
  [fn |-> "bgr_to_yuv420", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "bgr_to_yuv422", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "bgr_to_yuv444", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "bgra_to_yuv420", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "bgra_to_yuv422", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "bgra_to_yuv444", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "rgb_to_yuv420", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "rgb_to_yuv422", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "rgb_to_yuv444", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "rgba_to_yuv420", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "rgba_to_yuv422", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "rgba_to_yuv444", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 1, bo |-> 0, rg |-> 1, feat |-> "", file |-> "rgba_to_yuv"],
  [fn |-> "bgr_to_gbr", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "bgra_to_gbr", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "rgb10_to_gb10", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "rgb12_to_gb12", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "rgb14_to_gb14", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "rgb16_to_gb16", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "rgb_to_gbr", fam |-> "enc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "rgba10_to_gb10", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "rgba12_to_gb12", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 12, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "rgba14_to_gb14", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 14, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 14, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "rgba16_to_gb16", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "rgba_to_gbr", fam |-> "enc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "gbr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "to_identity"],
  [fn |-> "convert_plane_f16_to_planar", fam |-> "fromf16", sl |-> "i1", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i1", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "f16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "convert_plane_f16_to_planar16", fam |-> "fromf16", sl |-> "i1", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i1", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "f16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "convert_rgb_f16_to_rgb", fam |-> "fromf16", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "f16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "convert_rgb_f16_to_rgb16", fam |-> "fromf16", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "f16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "convert_rgba_f16_to_rgba", fam |-> "fromf16", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "f16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "convert_rgba_f16_to_rgba16", fam |-> "fromf16", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "f16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "mirror_cbcr", fam |-> "mirror", sl |-> "i2", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i2", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "mirroring"],
  [fn |-> "mirror_cbcr16", fam |-> "mirror", sl |-> "i2", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i2", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "mirroring"],
  [fn |-> "mirror_plane", fam |-> "mirror", sl |-> "i1", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i1", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "mirroring"],
  [fn |-> "mirror_plane16", fam |-> "mirror", sl |-> "i1", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i1", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "mirroring"],
  [fn |-> "mirror_rgb", fam |-> "mirror", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "mirroring"],
  [fn |-> "mirror_rgb16", fam |-> "mirror", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "mirroring"],
  [fn |-> "mirror_rgba", fam |-> "mirror", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "mirroring"],
  [fn |-> "mirror_rgba16", fam |-> "mirror", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "mirroring"],
  [fn |-> "yuv420_to_uyvy422", fam |-> "pack", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uyvy", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv420_to_vyuy422", fam |-> "pack", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vyuy", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv420_to_yuyv422", fam |-> "pack", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "yuyv", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv420_to_yvyu422", fam |-> "pack", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "yvyu", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv422_to_uyvy422", fam |-> "pack", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uyvy", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv422_to_vyuy422", fam |-> "pack", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vyuy", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv422_to_yuyv422", fam |-> "pack", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "yuyv", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv422_to_yvyu422", fam |-> "pack", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "yvyu", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv444_to_uyvy422", fam |-> "pack", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "uyvy", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv444_to_vyuy422", fam |-> "pack", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "vyuy", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv444_to_yuyv422", fam |-> "pack", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "yuyv", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv444_to_yvyu422", fam |-> "pack", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "yvyu", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2"],
  [fn |-> "yuv420_to_uyvy422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 420, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "uyvy", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv420_to_vyuy422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 420, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "vyuy", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv420_to_yuyv422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 420, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "yuyv", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv420_to_yvyu422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 420, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "yvyu", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv422_to_uyvy422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "uyvy", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv422_to_vyuy422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "vyuy", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv422_to_yuyv422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "yuyv", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv422_to_yvyu422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "yvyu", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv444_to_uyvy422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "uyvy", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv444_to_vyuy422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "vyuy", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv444_to_yuyv422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "yuyv", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "yuv444_to_yvyu422_p16", fam |-> "pack", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "y422", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "yvyu", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuv_to_yuy2_p16"],
  [fn |-> "rgb10_to_ar30", fam |-> "pk30", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgb10_to_ra30", fam |-> "pk30", sl |-> "i3", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgb12_to_ar30", fam |-> "pk30", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgb12_to_ra30", fam |-> "pk30", sl |-> "i3", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgb8_to_ar30", fam |-> "pk30", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgb8_to_ra30", fam |-> "pk30", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgba10_to_ar30", fam |-> "pk30", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgba10_to_ra30", fam |-> "pk30", sl |-> "i4", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgba12_to_ar30", fam |-> "pk30", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgba12_to_ra30", fam |-> "pk30", sl |-> "i4", ssub |-> 444, sd |-> 12, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgba8_to_ar30", fam |-> "pk30", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ar30", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rgba8_to_ra30", fam |-> "pk30", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "ar30", dsub |-> 444, dd |-> 10, dbe |-> 0, dmsb |-> 0, dord |-> "ra30", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "rgb_ar30"],
  [fn |-> "rdp_yuv444_to_abgr", fam |-> "rdpdec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "abgr", st |-> "i16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_yuv444_to_argb", fam |-> "rdpdec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "argb", st |-> "i16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_yuv444_to_bgr", fam |-> "rdpdec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "i16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_yuv444_to_bgra", fam |-> "rdpdec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "i16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_yuv444_to_rgb", fam |-> "rdpdec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "i16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_yuv444_to_rgba", fam |-> "rdpdec", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "i16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_abgr_to_yuv444", fam |-> "rdpenc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "abgr", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "i16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_argb_to_yuv444", fam |-> "rdpenc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "argb", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "i16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_bgr_to_yuv444", fam |-> "rdpenc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "i16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_bgra_to_yuv444", fam |-> "rdpenc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "i16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_rgb_to_yuv444", fam |-> "rdpenc", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "i16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rdp_rgba_to_yuv444", fam |-> "rdpenc", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "i16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "rdp", file |-> "rdp"],
  [fn |-> "rotate_cbcr", fam |-> "rotate", sl |-> "i2", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i2", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "geometry"],
  [fn |-> "rotate_cbcr16", fam |-> "rotate", sl |-> "i2", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i2", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "geometry"],
  [fn |-> "rotate_plane", fam |-> "rotate", sl |-> "i1", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i1", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "geometry"],
  [fn |-> "rotate_plane16", fam |-> "rotate", sl |-> "i1", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i1", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "geometry"],
  [fn |-> "rotate_rgb", fam |-> "rotate", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "geometry"],
  [fn |-> "rotate_rgb16", fam |-> "rotate", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "geometry"],
  [fn |-> "rotate_rgba", fam |-> "rotate", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "geometry"],
  [fn |-> "rotate_rgba16", fam |-> "rotate", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "geometry", file |-> "geometry"],
  [fn |-> "bgr_to_sharp_yuv420", fam |-> "sharp", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "sharp_rgba_to_yuv"],
  [fn |-> "bgr_to_sharp_yuv422", fam |-> "sharp", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "sharp_rgba_to_yuv"],
  [fn |-> "bgra_to_sharp_yuv420", fam |-> "sharp", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "sharp_rgba_to_yuv"],
  [fn |-> "bgra_to_sharp_yuv422", fam |-> "sharp", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "sharp_rgba_to_yuv"],
  [fn |-> "rgb_to_sharp_yuv420", fam |-> "sharp", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "sharp_rgba_to_yuv"],
  [fn |-> "rgb_to_sharp_yuv422", fam |-> "sharp", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "sharp_rgba_to_yuv"],
  [fn |-> "rgba_to_sharp_yuv420", fam |-> "sharp", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "sharp_rgba_to_yuv"],
  [fn |-> "rgba_to_sharp_yuv422", fam |-> "sharp", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "kr", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 1, feat |-> "", file |-> "sharp_rgba_to_yuv"],
  [fn |-> "bgr_to_bgra", fam |-> "shuffle", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "bgr_to_rgb", fam |-> "shuffle", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "bgr_to_rgba", fam |-> "shuffle", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgr", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "bgra_to_bgr", fam |-> "shuffle", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "bgra_to_rgb", fam |-> "shuffle", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "bgra_to_rgba", fam |-> "shuffle", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "bgra", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "rgb_to_bgr", fam |-> "shuffle", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "rgb_to_bgra", fam |-> "shuffle", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "rgb_to_rgba", fam |-> "shuffle", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgb", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "rgba_to_bgr", fam |-> "shuffle", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgr", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "rgba_to_bgra", fam |-> "shuffle", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "bgra", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "rgba_to_rgb", fam |-> "shuffle", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "rgba", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "shuffle"],
  [fn |-> "convert_plane16_to_f16", fam |-> "tof16", sl |-> "i1", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i1", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "f16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "convert_plane_to_f16", fam |-> "tof16", sl |-> "i1", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i1", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "f16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "convert_rgb16_to_f16", fam |-> "tof16", sl |-> "i3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "f16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "convert_rgb_to_f16", fam |-> "tof16", sl |-> "i3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "f16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "convert_rgba16_to_f16", fam |-> "tof16", sl |-> "i4", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "f16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "convert_rgba_to_f16", fam |-> "tof16", sl |-> "i4", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "i4", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "f16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "f16", file |-> "f16_converter"],
  [fn |-> "uyvy422_to_yuv420", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "uyvy422_to_yuv422", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "uyvy422_to_yuv444", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "vyuy422_to_yuv420", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "vyuy422_to_yuv422", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "vyuy422_to_yuv444", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "yuyv422_to_yuv420", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "yuyv422_to_yuv422", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "yuyv422_to_yuv444", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "yvyu422_to_yuv420", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "p3", dsub |-> 420, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "yvyu422_to_yuv422", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "p3", dsub |-> 422, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "yvyu422_to_yuv444", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "p3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv"],
  [fn |-> "uyvy422_to_yuv420_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "p3", dsub |-> 420, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "uyvy422_to_yuv422_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "p3", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "uyvy422_to_yuv444_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "uyvy", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "vyuy422_to_yuv420_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "p3", dsub |-> 420, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "vyuy422_to_yuv422_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "p3", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "vyuy422_to_yuv444_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "vyuy", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "yuyv422_to_yuv420_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "p3", dsub |-> 420, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "yuyv422_to_yuv422_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "p3", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "yuyv422_to_yuv444_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "yvyu422_to_yuv420_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "p3", dsub |-> 420, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "yvyu422_to_yuv422_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "p3", dsub |-> 422, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "yvyu422_to_yuv444_p16", fam |-> "unpack", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "yvyu", dl |-> "p3", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "yuy2_to_yuv_p16"],
  [fn |-> "ab30_to_rgb8", fam |-> "unpk30", sl |-> "ar30", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "ab30", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "ar30_rgb"],
  [fn |-> "ar30_to_rgb8", fam |-> "unpk30", sl |-> "ar30", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "ar30", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "ar30_rgb"],
  [fn |-> "ar30_to_rgba8", fam |-> "unpk30", sl |-> "ar30", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "ar30", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "ar30_rgb"],
  [fn |-> "ba30_to_rgb8", fam |-> "unpk30", sl |-> "ar30", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "ba30", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "ar30_rgb"],
  [fn |-> "ra30_to_rgb8", fam |-> "unpk30", sl |-> "ar30", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "ra30", dl |-> "i3", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgb", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "ar30_rgb"],
  [fn |-> "ra30_to_rgba8", fam |-> "unpk30", sl |-> "ar30", ssub |-> 444, sd |-> 10, sbe |-> 0, smsb |-> 0, sord |-> "ra30", dl |-> "i4", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "rgba", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 1, rg |-> 0, feat |-> "", file |-> "ar30_rgb"],
  [fn |-> "check_p3_420", fam |-> "check", sl |-> "p3", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_p3_422", fam |-> "check", sl |-> "p3", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_p3_444", fam |-> "check", sl |-> "p3", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_p3_mut_420", fam |-> "check", sl |-> "p3", ssub |-> 420, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_p3_mut_422", fam |-> "check", sl |-> "p3", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_p3_mut_444", fam |-> "check", sl |-> "p3", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_p3a_420", fam |-> "check", sl |-> "p3a", ssub |-> 420, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_p3a_422", fam |-> "check", sl |-> "p3a", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_p3a_444", fam |-> "check", sl |-> "p3a", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_nv_420", fam |-> "check", sl |-> "nv", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_nv_422", fam |-> "check", sl |-> "nv", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_nv_444", fam |-> "check", sl |-> "nv", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_nv_mut_420", fam |-> "check", sl |-> "nv", ssub |-> 420, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_nv_mut_422", fam |-> "check", sl |-> "nv", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_nv_mut_444", fam |-> "check", sl |-> "nv", ssub |-> 444, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "uv", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_y_400", fam |-> "check", sl |-> "y", ssub |-> 400, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_y_mut_400", fam |-> "check", sl |-> "y", ssub |-> 400, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_ya_400", fam |-> "check", sl |-> "ya", ssub |-> 400, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_pk_422", fam |-> "check", sl |-> "y422", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_pk_mut_422", fam |-> "check", sl |-> "y422", ssub |-> 422, sd |-> 16, sbe |-> 0, smsb |-> 0, sord |-> "yuyv", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u16", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "check_pk_444", fam |-> "check", sl |-> "p444", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "ayuv", dl |-> "none", dsub |-> 444, dd |-> 8, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u8", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "alloc_p3_420", fam |-> "alloc", sl |-> "none", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "p3", dl |-> "facts", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "alloc_p3_422", fam |-> "alloc", sl |-> "none", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "p3", dl |-> "facts", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "alloc_p3_444", fam |-> "alloc", sl |-> "none", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "p3", dl |-> "facts", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "alloc_nv_420", fam |-> "alloc", sl |-> "none", ssub |-> 420, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "nv", dl |-> "facts", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "alloc_nv_422", fam |-> "alloc", sl |-> "none", ssub |-> 422, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "nv", dl |-> "facts", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "alloc_nv_444", fam |-> "alloc", sl |-> "none", ssub |-> 444, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "nv", dl |-> "facts", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"],
  [fn |-> "alloc_y_400", fam |-> "alloc", sl |-> "none", ssub |-> 400, sd |-> 8, sbe |-> 0, smsb |-> 0, sord |-> "y", dl |-> "facts", dsub |-> 444, dd |-> 16, dbe |-> 0, dmsb |-> 0, dord |-> "", st |-> "u8", dt |-> "u16", mx |-> "", alpha |-> 0, premul |-> 0, mode |-> 0, bo |-> 0, rg |-> 0, feat |-> "", file |-> "images"]
>>
=============================================================================
