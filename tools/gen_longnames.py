#!/usr/bin/env python3
"""Freezes CodeParser/Data/LongNames.wl as harness/src/longnames.rs."""
import re
K = {"Letterlike": "Letter", "Newline": "Newline", "Punctuation": "Punct", "Raw": "Raw",
     "Uninterpretable": "Uninterpretable", "Unsupported": "Unsupported", "Whitespace": "Space"}
out = []
for line in open("/repo/CodeParser/Data/LongNames.wl"):
    m = re.match(r'"(\w+)" -> \{(\w+)Character, 16\^\^([0-9a-fA-F]+)', line)
    if m:
        out.append((m[1], K[m[2]], int(m[3], 16)))
with open("/verif/harness/src/longnames.rs", "w") as f:
    f.write("// Generated by tools/gen_longnames.py from CodeParser/Data/LongNames.wl; frozen.\n")
    f.write("#[derive(Clone, Copy, Debug, PartialEq, Eq)]\npub enum Class { Letter, Newline, Punct, Raw, Uninterpretable, Unsupported, Space }\nuse Class::*;\n")
    f.write(f"pub const NAMES: [(&str, Class, u32); {len(out)}] = [\n")
    for n, k, c in out:
        f.write(f'    ("{n}", {k}, 0x{c:04x}),\n')
    f.write("];\n")
print(len(out))
