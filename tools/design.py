#!/usr/bin/env python3
"""writes DESIGN.md from tools/DESIGN.in.md, props.py, properties.jsonl, known_findings.txt, tools/seeded.tsv"""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
V = os.path.dirname(HERE)
ORACLE = {
 "C01": "schoolbook sum with carries over the words, per word, modulo 2^width; operands re-read afterwards",
 "C02": "128-bit machine product modulo 2^width",
 "C03": "the machine's bitwise operation per word, masked",
 "C04": "bit i of the result against bit i-s (i+s) of the operand, for every i at once (symbolic i) and word-wise funnel shifts",
 "C05": "bit i of the result is bit lsb+i, symbolic i, plus canonical form",
 "C06": "bit i of the result against the bit of the part it belongs to, symbolic i",
 "C07": "most significant differing word decides",
 "C08": "as C07 with the top bit inverted",
 "C09": "word and width equality; exact byte sequence fed to a recording hasher; totality, antisymmetry, transitivity over three values",
 "C10": "bit i before/after against the addressed bit, symbolic positions",
 "C11": "machine integers, representability computed on the words; required panics are demanded, not only allowed",
 "C12": "byte i is bits 8i..8i+7",
 "C13": "the big integer's own 32/64-bit digits and sign against the words",
 "C14": "character i against the bits it stands for, length exact",
 "C15": "as C14 for sign and magnitude computed word-wise",
 "C16": "digits multiplied out again equal the value, no leading zero; above 64 bits the standard library's digits of the same u128",
 "C17": "a digit-by-digit reading on paper (multiply-add per character) over every ASCII string or every digit string of the length; error kinds compared",
 "C18": "real printer's output fed to the real parser gives the value back",
 "C19": "numerator * 2^f == value * denominator in 128 bits, sign apart",
 "C20": "the library's own operations and equality, on both sides of each law",
 "C21": "the words before and after; required panics demanded",
 "C22": "index equality against value equality for all pairs of three values; read back after all insertions",
 "C23": "last store at the symbolic index wins (if-then-else chain)",
 "C24": "as C23; entries compared with the reference at every index mentioned",
 "C25": "as C23, before and after conversion",
 "C26": "agreement at every index of the reference chains",
 "C27": "round trip through an in-memory token format, positional and named, then equality, select and further stores",
 "C28": "words before wrapping",
 "C29": "words before borrowing, copying, writing",
}
rows = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    q = props.PROPS[p["id"]]
    hs = sorted({j["h"] for t in ("quick", "thorough") for j in q[t]})
    exp = json.load(open(os.path.join(HERE, "expected.json")))
    nm = lambda j: "%s(%s)/%s" % (j["h"], ",".join(map(str, j["p"])), j["prof"])
    js = props.jobs(p["id"], "quick")
    cost = sum(exp.get(nm(j), {}).get("s", 0) for j in js)
    rows.append("### %s %s\n\n* Harnesses: %s (%d jobs quick, %d thorough; quick costs about %d s of CPU, 8 at a time).\n* Oracle: %s.\n* Bounds: %s.%s\n* Why tests cannot: %s\n" % (
        p["id"], p["title"], ", ".join("`%s`" % h for h in hs), len(js), len(props.jobs(p["id"], "thorough")), max(1, cost), ORACLE[p["id"]], q["bounds"],
        ("  Outside: " + q["outside"] + ".") if q["outside"] else "", p["why_tests_cant"]))
fixed = []
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed: "):
        a = l[7:].strip().split(" ", 2)
        fixed.append("| %s | %s (%s) |" % (a[0].split("=")[1], a[2], a[1]))
seeded = ["| bug | property | what it needs | caught by |", "|---|---|---|---|"]
sp = os.path.join(HERE, "seeded.tsv")
caught = dict(l.rstrip("\n").split("\t", 1) for l in open(sp)) if os.path.exists(sp) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    seeded.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"].replace("|", "\\|"), caught.get(n, "?")))
s = open(os.path.join(HERE, "DESIGN.in.md")).read()
s = s.replace("\nTABLE\n", "\n" + "\n".join(rows) + "\n").replace("\nFIXED\n", "\n" + "\n".join(fixed) + "\n").replace("\nSEEDED\n", "\n" + "\n".join(seeded) + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write(s)
