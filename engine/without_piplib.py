"""Copies lib/constraints.c without the two functions that need piplib.

    without_piplib.py IN OUT

Left out: the #include of piplib64.h, pluto_constraints_lexmin_pip and
pip_matrix_populate (with its prototype). Every other line is kept, at its own
line number. Nothing else may use piplib: it would not compile."""
import re
import sys

src, out = sys.argv[1:]
lines = open(src).read().split("\n")
kept = ['#line 1 "%s"' % src]
START = re.compile(r"^\w.*\b(pluto_constraints_lexmin_pip|pip_matrix_populate)\(")
i = 0
while i < len(lines):
    line = lines[i]
    if re.match(r'\s*#\s*include\s+"piplib/', line):
        kept.append("")
        i += 1
        continue
    if START.match(line):
        # The header runs to the first ";" (prototype) or "{" (definition).
        j = i
        while j < len(lines) and not re.search(r"[;{]", lines[j]):
            j += 1
        if j == len(lines):
            sys.exit("%s:%d: no end of this declaration" % (src, i + 1))
        if "{" in lines[j]:
            while j < len(lines) and lines[j] != "}":
                j += 1
            if j == len(lines):
                sys.exit("%s:%d: no end of this function" % (src, i + 1))
        kept += [""] * (j - i + 1)
        i = j + 1
        continue
    kept.append(line)
    i += 1
open(out, "w").write("\n".join(kept))
