#!/usr/bin/env python3
"""Write a bank of mechanical single-site mutations of the library's code for mutate.py.
usage: automut.py N SEED [path-substring..] > BANK.py"""
import os, random, re, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
WHO = [  # first match wins
    ("utilities/SharedPointer", "U01 T04"), ("utilities/StdSharedPointer", "U01"), ("utilities/Shareable", "U01 U04"), ("utilities/Singleton", "S02 X01"),
    ("utilities/Repository", "U04 T04"), ("utilities/Invalidatable", "U02 U03"), ("utilities/Segmented", "U02 U03"), ("utilities/NamedClass", "E05 V01"), ("utilities/", "D01"),
    ("math/", "A01"), ("tensor/", "A02"), ("topology/FlipDiagonal", "T05"), ("topology/", "T01 T02 T03 T04"),
    ("coordinates/", "C01 C02"), ("geometry/algebra", "C01"), ("geometry/cartesian", "C01"), ("geometry/polar", "C01 C02"), ("geometry/spherical", "C01 C02"),
    ("geometry/coordinate_transformation", "C01 G01"), ("geometry/metric", "C02"), ("geometry/basis", "C02 F03"),
    ("geometry/", "G01 C01 K01"), ("mesh/tetra", "K03"), ("Partitioner", "K04"), ("mesh/Boundary", "K02 K01"), ("mesh/", "K01 K02"),
    ("topology/utilities", "T05"), ("functions/derivation", "F02"), ("functions/library_derivatives", "F02"), ("functions/partial", "F02 F03"), ("functions/", "F01 F02"),
    ("fields/", "F03"), ("manifolds/", "Q02"), ("quadrature/", "Q01 Q02"), ("discrete/", "D01 E03"), ("constraints/", "E03 E04"),
    ("fem/norms", "E05"), ("fem/localize", "E05"), ("fem/utilities", "E05 E02"), ("fem/blocks", "E02"), ("fem/elements/", "E01 E03 E02"), ("fem/FunctionSpace", "E03"), ("fem/", "E04 E03 E02 E05"),
    ("io/vtk", "V01"), ("io/", "I01 I02"), ("materials/MaterialConsistency", "H03"), ("materials/", "H01"), ("matrix_solvers/", "S01"), ("solvers/", "E04"),
    ("simulation/", "S02"), ("extensions/", "Y01"),
]
SWAPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
         (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"),
         (r"\b2\b(?!\.)", "1"), (r"\b1\.0?(?!\d)", "2.0"), (r"\b2\.0?(?!\d)", "1.0"), (r"\b0\.5\b", "0.25"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"(?<=[=(,] )-(?=\w)", ""), (r"(?<=\()-(?=\w)", ""),
         (r"(?<=return )-(?=\w)", ""), (r"(?<=\()!(?=\w)", ""), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r" \+= ", " -= "), (r" \+= ", " = "), (r"\bbreak;", "continue;"), (r"\bbegin\b", "end"),
         (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first")]
SKIP = re.compile(r"^\s*(//|#|template|requires|using|static_assert|assert|typedef|friend|class|struct|namespace|public|private|concept|case|\}|\{|$)|PYRE|pyre|journal|channel|<< ")
DROP = re.compile(r"^\s+(?!return|auto|const|using|delete|break|continue)[\w:>.\-\[\]\*]+(\(.*\)| [-+*/]?= .*);$")
n, seed, want = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
sites = []
for top in ("lib/mito", "extensions"):
    for d, _, fs in os.walk(f"{REPO}/{top}"):
        for f in sorted(fs):
            if not f.endswith((".h", ".icc", ".cc")) or f in ("public.h", "forward.h", "externals.h"): continue
            p = os.path.relpath(os.path.join(d, f), REPO)
            key = p.replace("lib/mito/", "")
            props = next((w for k, w in WHO if k in key), None)
            if not props or (want and not any(x in key for x in want)): continue
            text = open(f"{REPO}/{p}").read()
            comment = False
            pos = 0
            for no, line in enumerate(text.split("\n")):
                start, pos = pos, pos + len(line) + 1
                if "/*" in line and "*/" not in line: comment = True
                if "*/" in line: comment = False
                if comment or SKIP.search(line): continue
                code = line.split("//")[0]
                muts = [line[:m.start()] + new + line[m.end():] for old, new in SWAPS for m in re.finditer(old, code)]
                if DROP.match(line): muts.append(re.match(r"\s*", line).group() + ";")
                for k, new in enumerate(muts):
                    sites.append((key, no + 1, k, props, line, new, text[:start].count(line) + 1 if line in text[:start] else 1))
random.Random(seed).shuffle(sites)
seen = {}
take = []
for s in sites:    # spread over the files
    if seen.get(s[0], 0) < max(3, n // 25):
        seen[s[0]] = seen.get(s[0], 0) + 1
        take.append(s)
    if len(take) == n: break
print(f"# {len(sites)} sites, {len(take)} taken, seed {seed}")
for key, no, k, props, line, new, nth in sorted(take):
    path = key if not key.startswith("extensions") else key
    print(f"M({os.path.basename(key) + ':' + str(no) + '.' + str(k)!r}, {props!r}, {path!r}, ({line!r}, {nth}), {new!r})")
