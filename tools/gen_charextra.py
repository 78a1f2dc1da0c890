#!/usr/bin/env python3
"""Freezes what CodeParser/Data/LongNames.wl says about unusual letters and ASCII
replacements as harness/src/charextra.rs."""
import re
letters, repl = [], {}
for line in open("/repo/CodeParser/Data/LongNames.wl"):
    m = re.match(r'"(\w+)" -> \{(\w+)Character, 16\^\^([0-9a-fA-F]+), <\|(.*)\|>\}', line)
    if not m:
        continue
    c, rest = int(m[3], 16), m[4]
    if m[2] == "Letterlike" and '"NotStrangeLetterlike"' in rest:
        letters.append(c)
    r = re.search(r'"ASCIIReplacements" -> \{(.*?)\}(?=\s*(,\s*"|$))', rest)
    if r:
        repl[c] = r[1]
with open("/verif/harness/src/charextra.rs", "w") as f:
    f.write("// Generated by tools/gen_charextra.py from CodeParser/Data/LongNames.wl; frozen.\n")
    f.write("/// Letters outside ASCII that are in common use.\n")
    f.write(f"pub const USUAL: [u32; {len(letters)}] = [\n")
    for i in range(0, len(letters), 10):
        f.write("    " + " ".join(f"0x{c:04x}," for c in sorted(letters)[i:i+10]) + "\n")
    f.write("];\n/// What may stand for a character in ASCII.\n")
    f.write(f"pub const ASCII: [(u32, &[&str]); {len(repl)}] = [\n")
    for c in sorted(repl):
        f.write(f"    (0x{c:04x}, &[{repl[c]}]),\n")
    f.write("];\n")
print(len(letters), len(repl))
