#!/usr/bin/env python3
"""Classifies every public conversion entry point of the crate into the record the
specification (spec/Catalog.tla) and the driver (driver/src/dispatch.rs) use.

Input: tools/sigs.json (name + argument list of each public function, extracted once from
rustdoc JSON).  Output: spec/Catalog.tla, driver/src/dispatch.rs.  Both outputs are committed;
this script is only re-run by hand when the public API grows.
"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
S = json.load(open(os.path.join(HERE, "sigs.json")))
SUB = {"0": 420, "2": 422, "4": 444}
NV = {"nv12": (420, 0), "nv21": (420, 1), "nv16": (422, 0), "nv61": (422, 1), "nv24": (444, 0), "nv42": (444, 1)}
ORD = ("rgba", "bgra", "rgb", "bgr", "argb", "abgr")

def rec(**k):
    d = dict(fn="", fam="", sl="", ssub=444, sd=8, sbe=0, smsb=0, sord="", dl="", dsub=444, dd=8,
             dbe=0, dmsb=0, dord="", st="u8", dt="u8", mx="", alpha=0, premul=0, mode=0, bo=0, rg=0,
             feat="", file="")
    d.update(k)
    return d

def rgbtail(t):
    """'rgba10' -> ('rgba', 10, 'u16'); 'rgb_f16' -> ('rgb', 16,'f16')"""
    m = re.fullmatch(r"(rgba|bgra|rgb|bgr|argb|abgr)(\d*)", t)
    if m:
        return m[1], int(m[2] or 8), ("u16" if m[2] else "u8")
    m = re.fullmatch(r"(rgba|rgb)_f16", t)
    if m:
        return m[1], 16, "f16"
    return None

def i_of(order):
    return "i4" if len(order) == 4 else "i3"

def ksrc(tok):
    """i010 / p210 style token -> (layout, sub, depth, msb)"""
    m = re.fullmatch(r"(i|p)(0|2|4)(1[0246])", tok)
    if m:
        return ("p3" if m[1] == "i" else "nv", SUB[m[2]], int(m[3]), 1 if m[1] == "p" else 0)
    m = re.fullmatch(r"icgc(0|2|4)(1[02])", tok)
    if m:
        return ("p3", SUB[m[1]], int(m[2]), 0)
    return None

def classify(fn, args, file):
    f = file.split("/")[-1][:-3]
    b = dict(fn=fn, file=f)
    tys = [a[1] for a in args]
    rg = 1 if any("YuvRange" in t for t in tys) else 0
    mx = "kr" if any("YuvStandardMatrix" in t for t in tys) else ""
    mode = 1 if any("YuvConversionMode" in t for t in tys) else 0
    bo = 1 if any("Rgb30ByteOrder" in t for t in tys) else 0
    premul = 1 if "bool" in tys else 0
    b.update(rg=rg, mx=mx, mode=mode, bo=bo, premul=premul)
    a, _, z = fn.partition("_to_")
    # --- geometry
    m = re.fullmatch(r"(rotate|mirror)_(plane|cbcr|rgb|rgba)(16)?", fn)
    if m:
        cn = {"plane": 1, "cbcr": 2, "rgb": 3, "rgba": 4}[m[2]]
        l = f"i{cn}"
        t = "u16" if m[3] else "u8"
        return rec(**b, fam=m[1], sl=l, dl=l, st=t, dt=t, sd=16 if m[3] else 8, dd=16 if m[3] else 8, feat="geometry")
    # --- shuffles
    m = re.fullmatch(r"(rgba|bgra|rgb|bgr)_to_(rgba|bgra|rgb|bgr)", fn)
    if m:
        return rec(**b, fam="shuffle", sl=i_of(m[1]), sord=m[1], dl=i_of(m[2]), dord=m[2])
    # --- RDP
    m = re.fullmatch(r"rdp_(\w+?)_to_yuv444", fn)
    if m:
        return rec(**b, fam="rdpenc", sl=i_of(m[1]), sord=m[1], dl="p3", dt="i16", dd=16, feat="rdp")
    m = re.fullmatch(r"rdp_yuv444_to_(\w+)", fn)
    if m:
        return rec(**b, fam="rdpdec", sl="p3", st="i16", sd=16, dl=i_of(m[1]), dord=m[1], feat="rdp")
    # --- AR30
    m = re.fullmatch(r"(ar30|ra30|ab30|ba30)_to_(rgb|rgba)8", fn)
    if m:
        return rec(**b, fam="unpk30", sl="ar30", sord=m[1], sd=10, dl=i_of(m[2]), dord=m[2])
    m = re.fullmatch(r"(rgb|rgba)(8|10|12)_to_(ar30|ra30)", fn)
    if m:
        return rec(**b, fam="pk30", sl=i_of(m[1]), sord=m[1], sd=int(m[2]), st="u8" if m[2] == "8" else "u16",
                   dl="ar30", dord=m[3], dd=10)
    # --- f16 plane converters
    m = re.fullmatch(r"convert_(plane|rgb|rgba)(16)?_to_f16", fn)
    if m:
        l = {"plane": "i1", "rgb": "i3", "rgba": "i4"}[m[1]]
        return rec(**b, fam="tof16", sl=l, dl=l, st="u16" if m[2] else "u8", sd=16 if m[2] else 8, dt="f16", dd=16, feat="f16")
    m = re.fullmatch(r"convert_(plane|rgb|rgba)_f16_to_(planar|rgb|rgba)(16)?", fn)
    if m:
        l = {"plane": "i1", "rgb": "i3", "rgba": "i4"}[m[1]]
        return rec(**b, fam="fromf16", sl=l, dl=l, dt="u16" if m[3] else "u8", dd=16 if m[3] else 8, st="f16", sd=16, feat="f16")
    # --- YUY2 family
    m = re.fullmatch(r"(yuyv|uyvy|yvyu|vyuy)422_to_(\w+)", fn)
    if m:
        t = rgbtail(m[2])
        if t:
            return rec(**b, fam="dec", sl="y422", ssub=422, sord=m[1], dl=i_of(t[0]), dord=t[0])
        m2 = re.fullmatch(r"(rgba|rgb)_p16", m[2])
        if m2:
            return rec(**b, fam="dec", sl="y422", ssub=422, sord=m[1], st="u16", sd=0, dl=i_of(m2[1]), dord=m2[1], dt="u16", dd=0)
        m2 = re.fullmatch(r"yuv(420|422|444)(_p16)?", m[2])
        t = "u16" if m2[2] else "u8"
        return rec(**b, fam="unpack", sl="y422", ssub=422, sord=m[1], dl="p3", dsub=int(m2[1]), st=t, dt=t,
                   sd=16 if m2[2] else 8, dd=16 if m2[2] else 8)
    m = re.fullmatch(r"yuv(420|422|444)_to_(yuyv|uyvy|yvyu|vyuy)422(_p16)?", fn)
    if m:
        t = "u16" if m[3] else "u8"
        return rec(**b, fam="pack", sl="p3", ssub=int(m[1]), dl="y422", dsub=422, dord=m[2], st=t, dt=t,
                   sd=16 if m[3] else 8, dd=16 if m[3] else 8)
    # --- AYUV
    m = re.fullmatch(r"(ayuv|vyua)_to_(rgb|rgba)", fn)
    if m:
        return rec(**b, fam="dec", sl="p444", sord=m[1], dl=i_of(m[2]), dord=m[2], alpha=1)
    # --- identity GBR
    m = re.fullmatch(r"gbr(_with_alpha)?_to_(\w+)", fn)
    if m:
        return rec(**{**b, "mx": "gbr"}, fam="dec", sl="p3a" if m[1] else "p3", dl=i_of(m[2]), dord=m[2], alpha=1 if m[1] else 0)
    m = re.fullmatch(r"gb(1[0246])(_alpha)?_to_(\w+)", fn)
    if m:
        t = rgbtail(m[3])
        return rec(**{**b, "mx": "gbr"}, fam="dec", sl="p3a" if m[2] else "p3", st="u16", sd=int(m[1]), dl=i_of(t[0]), dord=t[0],
                   dd=t[1], dt=t[2], alpha=1 if m[2] else 0, feat="f16" if t[2] == "f16" else "")
    m = re.fullmatch(r"(rgba?|bgra?)_to_gbr", fn)
    if m:
        return rec(**{**b, "mx": "gbr"}, fam="enc", sl=i_of(m[1]), sord=m[1], dl="p3")
    m = re.fullmatch(r"(rgba?)(1[0246])_to_gb(1[0246])", fn)
    if m:
        return rec(**{**b, "mx": "gbr"}, fam="enc", sl=i_of(m[1]), sord=m[1], st="u16", sd=int(m[2]), dl="p3", dt="u16", dd=int(m[3]))
    # --- YCgCo
    m = re.fullmatch(r"ycgco(420|422|444)(_alpha)?_to_(\w+)", fn)
    if m:
        return rec(**{**b, "mx": "ycgco"}, fam="dec", sl="p3a" if m[2] else "p3", ssub=int(m[1]), dl=i_of(m[3]), dord=m[3], alpha=1 if m[2] else 0)
    m = re.fullmatch(r"(icgc\d\d\d)(_alpha)?_to_(\w+)", fn)
    if m:
        l, sub, d, _ = ksrc(m[1])
        t = rgbtail(m[3])
        return rec(**{**b, "mx": "ycgco"}, fam="dec", sl="p3a" if m[2] else "p3", ssub=sub, sd=d, st="u16", dl=i_of(t[0]), dord=t[0], dd=t[1], dt=t[2],
                   alpha=1 if m[2] else 0)
    m = re.fullmatch(r"(rgba?|bgra?)_to_ycgco(420|422|444)", fn)
    if m:
        return rec(**{**b, "mx": "ycgco"}, fam="enc", sl=i_of(m[1]), sord=m[1], dl="p3", dsub=int(m[2]))
    # --- sharp
    m = re.fullmatch(r"(rgba?|bgra?)_to_sharp_yuv(420|422)", fn)
    if m:
        return rec(**b, fam="sharp", sl=i_of(m[1]), sord=m[1], dl="p3", dsub=int(m[2]))
    # --- gray
    m = re.fullmatch(r"yuv400(_alpha)?_to_(\w+)", fn)
    if m:
        return rec(**b, fam="dec", sl="ya" if m[1] else "y", ssub=400, dl=i_of(m[2]), dord=m[2], alpha=1 if m[1] else 0)
    m = re.fullmatch(r"y0(1[0246])(_alpha)?_to_(\w+)", fn)
    if m:
        t = rgbtail(m[3])
        return rec(**b, fam="dec", sl="ya" if m[2] else "y", ssub=400, st="u16", sd=int(m[1]), dl=i_of(t[0]), dord=t[0], dd=t[1], dt=t[2],
                   alpha=1 if m[2] else 0)
    m = re.fullmatch(r"(rgba?|bgra?)_to_yuv400", fn)
    if m:
        return rec(**b, fam="enc", sl=i_of(m[1]), sord=m[1], dl="y", dsub=400)
    # --- 8-bit planar / NV
    m = re.fullmatch(r"yuv(420|422|444)(_alpha)?_to_(\w+)", fn)
    if m:
        return rec(**b, fam="dec", sl="p3a" if m[2] else "p3", ssub=int(m[1]), dl=i_of(m[3]), dord=m[3], alpha=1 if m[2] else 0)
    m = re.fullmatch(r"yuv_(nv\d\d)_to_(\w+)", fn)
    if m:
        s, vu = NV[m[1]]
        return rec(**b, fam="dec", sl="nv", ssub=s, sord="vu" if vu else "uv", dl=i_of(m[2]), dord=m[2])
    m = re.fullmatch(r"(rgba?|bgra?)_to_yuv(420|422|444)", fn)
    if m:
        return rec(**b, fam="enc", sl=i_of(m[1]), sord=m[1], dl="p3", dsub=int(m[2]))
    m = re.fullmatch(r"(rgba?|bgra?)_to_yuv_(nv\d\d)", fn)
    if m:
        s, vu = NV[m[2]]
        return rec(**b, fam="enc", sl=i_of(m[1]), sord=m[1], dl="nv", dsub=s, dord="vu" if vu else "uv")
    # --- high bit depth
    m = re.fullmatch(r"([ip]\d\d\d)(_be)?(_alpha)?(_be)?_to_(\w+)", fn)
    if m:
        l, sub, d, msb = ksrc(m[1])
        be = 1 if (m[2] or m[4]) else 0
        if m[3]:
            l = "p3a"
        k = dict(b, fam="dec", sl=l, ssub=sub, sd=d, smsb=msb, sbe=be, st="u16", sord="uv" if l == "nv" else "", alpha=1 if m[3] else 0)
        if m[5] in ("ar30", "ra30"):
            return rec(**k, dl="ar30", dord=m[5], dd=10)
        t = rgbtail(m[5])
        return rec(**k, dl=i_of(t[0]), dord=t[0], dd=t[1], dt=t[2], feat="f16" if t[2] == "f16" else "be" if be else "")
    m = re.fullmatch(r"(rgba?)(1[0246])_to_([ip]\d\d\d)(_be)?", fn)
    if m:
        l, sub, d, msb = ksrc(m[3])
        return rec(**b, fam="enc", sl=i_of(m[1]), sord=m[1], st="u16", sd=int(m[2]), dl=l, dsub=sub, dd=d, dmsb=msb, dt="u16",
                   dbe=1 if m[4] else 0, dord="uv" if l == "nv" else "", feat="be" if m[4] else "")
    return None

recs = []
for file, fn, args in S:
    r = classify(fn, args, file)
    if r is None:
        sys.exit(f"unclassified {fn}")
    r["args"] = args
    recs.append(r)
recs.sort(key=lambda r: (r["fam"], r["file"], r["fn"]))
# --- the image structures themselves: admission (`check_constraints`) and allocation
SUBN = {420: "Yuv420", 422: "Yuv422", 444: "Yuv444"}
for k, lay, subs, mut in (("p3", "p3", (420, 422, 444), 0), ("p3_mut", "p3", (420, 422, 444), 1), ("p3a", "p3a", (420, 422, 444), 0),
                          ("nv", "nv", (420, 422, 444), 0), ("nv_mut", "nv", (420, 422, 444), 1), ("y", "y", (400,), 0), ("y_mut", "y", (400,), 1),
                          ("ya", "ya", (400,), 0), ("pk", "y422", (422,), 0), ("pk_mut", "y422", (422,), 1), ("pk", "p444", (444,), 0)):
    for sub in subs:
        t = "u16" if mut or lay in ("p3a", "ya") else "u8"
        call = f"c.{k}{'_src' if mut else ''}::<{t}>()." + ("check_constraints444()" if lay == "p444" else "check_constraints()" if lay in ("y", "ya", "y422")
                                                           else f"check_constraints(YuvChromaSubsampling::{SUBN[sub]})")
        recs.append(rec(fn=f"check_{k}_{sub}", fam="check", sl=lay, ssub=sub, sd=16 if t == "u16" else 8, sord={"y422": "yuyv", "p444": "ayuv", "nv": "uv"}.get(lay, ""),
                        st=t, dl="none", file="images", call=call, args=[]))
for k, subs in (("p3", (420, 422, 444)), ("nv", (420, 422, 444)), ("y", (400,))):
    for sub in subs:
        recs.append(rec(fn=f"alloc_{k}_{sub}", fam="alloc", sl="none", ssub=sub, sord=k, dl="facts", dd=16, dt="u16", file="images",
                        call=f"c.alloc_{k}({'' if k == 'y' else 'YuvChromaSubsampling::' + SUBN[sub]})", args=[]))
if __name__ == "__main__":
    import collections
    print(len(recs), collections.Counter(r["fam"] for r in recs))
    fields = [k for k in rec() if True]
    out = ["------------------------------ MODULE Catalog ------------------------------",
           "(* Generated by tools/gen_catalog.py from the public API: one record per conversion entry point.",
           "   fam: operation family; sl/dl: plane layout of source/destination; ssub/dsub: chroma sampling;",
           "   sd/dd: bit depth (0 = a call argument); st/dt: sample type; sord/dord: channel order; sbe/dbe: big",
           "   endian samples; smsb/dmsb: samples in the most significant bits; mx: colour transform; alpha: source",
           "   carries alpha; premul/mode/bo/rg: takes a premultiply flag / conversion mode / byte order / range. *)",
           "Catalog == <<"]
    rows = []
    for r in recs:
        rows.append("  [" + ", ".join(f"{k} |-> " + (f'"{r[k]}"' if isinstance(r[k], str) else str(r[k])) for k in fields) + "]")
    out.append(",\n".join(rows))
    out.append(">>")
    out.append("=============================================================================")
    open(os.path.join(ROOT, "spec/Catalog.tla"), "w").write("\n".join(out) + "\n")
    json.dump([{k: r[k] for k in fields} for r in recs], open(os.path.join(ROOT, "tools/catalog.json"), "w"), indent=0)

    # ---- driver dispatch table
    def targ(t):
        m = re.search(r"<(?:'_, )?(u8|u16|i16|f16)>|\[(u8|u16|i16|f16)\]", t)
        return (m[1] or m[2]) if m else None
    o = ["// Generated by tools/gen_catalog.py: one arm per public conversion entry point.",
         "use crate::call::Ctx;", "use yuv::*;", "",
         "pub fn dispatch(name: &str, c: &Ctx) -> Option<Result<(), YuvError>> {",
         "    Some(match name {"]
    feats = {"geometry": "geometry", "rdp": "rdp", "f16": "f16", "be": "be"}
    for r in recs:
        if "call" in r:
            o.append(f'        "{r["fn"]}" => {r["call"]},')
            continue
        ex, pre = [], []
        last = None
        for n, t in r["args"]:
            T = targ(t)
            if t.startswith("&mut [") or t.startswith("&["):
                mut = t.startswith("&mut")
                last = "d" if mut else "s"
                ex.append(f"c.{'dst' if mut else 'src'}_slice::<{T}>()")
            elif t.startswith("&"):
                mut = t.startswith("&mut")
                k = re.search(r"Yuv(\w+?)Image(WithAlpha|Mut)?<", t)
                kind = {"Planar": "p3", "BiPlanar": "nv", "Gray": "y", "GrayAlpha": "ya", "Packed": "pk"}[k[1]]
                if k[2] == "WithAlpha":
                    kind = "p3a"
                last = None
                ex.append(f"&mut c.{kind}_mut::<{T}>()" if mut else f"&c.{kind}::<{T}>()")
            elif "stride" in n:
                w = last if last else None
                if w is None:
                    # image first, slice argument precedes the stride, so 'last' is always set
                    sys.exit(f"stride without slice {r['fn']}")
                ex.append(f"c.{'dst' if w == 'd' else 'src'}_stride() as {t}")
            elif n in ("width", "height"):
                ex.append(f"c.{n[0]} as {t}")
            elif n == "bit_depth":
                ex.append(f"c.bd as {t}")
            elif t == "bool":
                ex.append("c.premul()")
            else:
                tn = t.split("::")[-1]
                ex.append({"YuvRange": "c.range()", "YuvStandardMatrix": "c.matrix()", "YuvConversionMode": "c.mode()",
                           "Rgb30ByteOrder": "c.byte_order()", "RotationMode": "c.rotation()", "MirrorMode": "c.mirror()",
                           "SharpYuvGammaTransfer": "c.gamma()"}[tn])
        o.append(f'        "{r["fn"]}" => {r["fn"]}({", ".join(ex)}),')
    o += ["        _ => return None,", "    })", "}"]
    open(os.path.join(ROOT, "driver/src/dispatch.rs"), "w").write("\n".join(o) + "\n")
