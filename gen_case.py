#!/usr/bin/env python3
"""Writes harness/case.inc: the full unconditional case mappings, from Python's Unicode database."""
import os, unicodedata
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "harness/case.inc"), "w") as f:
    f.write("// Generated by gen_case.py, Unicode %s\n" % unicodedata.unidata_version)
    for name, fn in (("UPPER", str.upper), ("LOWER", str.lower)):
        f.write("static const uint32_t %s[][4] = {\n" % name)
        row = []
        for c in range(1, 0x110000):
            if 0xD800 <= c < 0xE000:
                continue
            w = [ord(x) for x in fn(chr(c))]
            if w != [c]:
                row.append("{%d,%s}" % (c, ",".join(map(str, w + [0] * (3 - len(w))))))
        for i in range(0, len(row), 12):
            f.write(",".join(row[i:i + 12]) + ",\n")
        f.write("};\n")
