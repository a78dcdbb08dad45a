#!/usr/bin/env python3
"""Writes spec/Gamma.tla from the transfer functions' formulas."""
import math, os
def srgb(g): return g / 12.92 if g < 12.92 * 0.0030412825 else ((g + 0.055010717) / 1.0550107) ** 2.4
def r709(g): return g / 4.5 if g < 4.5 * 0.01805397 else ((g + 0.09929682) / 1.0992968) ** (1 / 0.45)
fs = [srgb, r709, lambda g: g ** 2.2, lambda g: g ** 2.8]
names = ["sRGB", "Rec. 709", "gamma 2.2", "gamma 2.8"]
head = r"""-------------------------------- MODULE Gamma --------------------------------
(***************************************************************************)
(* Transfer functions of sharp YUV: for every gamma-encoded 8-bit sample v *)
(* the least 16-bit light whose sample is v or more, i.e. the ceiling of   *)
(* 65535 * linear(v / 255).  Generated by tools/gen_gamma.py from the      *)
(* formulas of IEC 61966-2-1 and ITU-R BT.709.                             *)
(***************************************************************************)
"""
tabs = []
for f, n in zip(fs, names):
    t = [0] + [math.ceil(65535 * min(1, f(v / 255)) - 1e-9) for v in range(1, 255)] + [65535]
    tabs.append("  \\* " + n + "\n  <<" + ",\n    ".join(", ".join(map(str, t[i:i + 16])) for i in range(0, 256, 16)) + ">>")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Gamma.tla")
open(out, "w").write(head + "GammaTab == <<\n" + ",\n".join(tabs) + ">>\n" + "=" * 77 + "\n")
