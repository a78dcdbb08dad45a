#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
TRUST = ("Conformance: calls explored by TLC from the client model (bounded number, sizes up to 257 columns), made by the real crate in builds "
         "for portable, SSE, AVX2 and AVX-512 code, each recorded call decided by TLC against the specification. "
         "Design: the same obligations model-checked against an ideal library, with deliberate errors that must be noticed. "
         "Trusts the driver's recording, rustc, and TLC; NEON/SVE/WebAssembly code is not compiled.")
WHAT = {
 "C01": "TLC enumerates well-formed and ill-formed image descriptions per entry point; trace validation of verdicts",
 "C02": "trace validation of the recorded write footprint against the layout specification; row-task model (Rows)",
 "C03": "trace validation of repeated calls with other padding, addresses, old contents; guard pages and canaries",
 "C04": "trace validation against exact integer colour equations (8-bit decoding)",
 "C05": "trace validation against exact integer colour equations (high bit-depth decoding)",
 "C06": "trace validation against exact integer colour equations (8-bit encoding)",
 "C07": "trace validation against exact integer colour equations (high bit-depth encoding)",
 "C08": "trace validation of chains that change one sample, against the layout's region of influence",
 "C09": "trace validation of the same picture through entry points of other channel orders",
 "C10": "trace validation of the outcomes of four instruction-set builds against each other",
 "C11": "trace validation of alpha planes and premultiplied colours",
 "C12": "trace validation of pack/unpack chains", "C13": "trace validation of GBR round trips",
 "C14": "trace validation against the YCgCo equations", "C15": "trace validation of shuffle chains",
 "C16": "trace validation of rotation/mirror chains against the dihedral group",
 "C17": "trace validation of 30-bit pack/unpack chains at bit level",
 "C18": "trace validation of half-float conversion chains",
 "C19": "trace validation of byte-swapped and high-bit twins",
 "C20": "trace validation against linear-light mixing tables", "C21": "trace validation against the RemoteFX equations, and round trips",
 "C22": "TLC model of row tasks over workers (Rows); trace validation of the same call under 1, 2, 3 and 8 threads",
 "C23": "trace validation of encode/decode chains and gray pictures", "C24": "trace validation of monochrome conversions",
 "C25": "trace validation of verdict and write footprint for pictures of arbitrary bit patterns, in builds where overflow wraps",
 "C27": "trace validation of a call made first by a new process, after other calls, and at once in several threads",
 "C28": "TLC enumerates wrong descriptions; trace validation of the kind and numbers of every error",
 "C29": "trace validation of bands of rows against the whole picture",
 "C26": "TLC enumerates allocations, descriptions and ownership of every image structure; trace validation of facts, verdicts and twins",
}
checks = []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} --tier quick", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique="TLA+/TLC: " + WHAT[i], level="model_checking", level_note=TRUST))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=[],
               notes="Specification language: TLA+ with TLC (see DESIGN.md). No hooks in /repo: the linearization point of every operation is the return of a public call."),
          open(V + "/MANIFEST.json", "w"), indent=1)
