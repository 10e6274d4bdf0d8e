"""C02: no text makes the core panic: every position, length and value a failing operation depends on is in range."""
import panics
from common import loc, short
SAY = {"slice": "slices", "index": "indexes", "bounds": "indexes", "ovfSub": "subtracts", "ovfAdd": "adds", "ovfMul": "multiplies", "split": "splits",
       "unwrap": "unwraps", "div0": "divides", "rem0": "takes a remainder", "chunk": "chunks", "drain": "drains", "replace": "replaces a range", "remove": "removes",
       "insert": "inserts", "truncate": "truncates", "swap": "swaps", "clamp": "clamps", "copy": "copies", "step": "steps"}
def verdict(kind, fails):
    """the failed goal that is positive evidence, or None"""
    for w, g, d in fails:
        if w in ("clean", "def"):
            return (w, g, d)
        if w == "bound" and kind in ("div0", "rem0") and g[0] == "le" and d == 0: return (w, g, d)
        if w == "bound" and kind in ("slice", "index", "bounds", "split") and g[0] == "le" and d is not None and d - g[3] <= 4: return (w, g, d)
    return None
def why(v):
    w, g, d = v
    if g[0] == "bd": return "the position is not known to be a character boundary of that text"
    if w == "def": return "the required order of the two values is contradicted on a path that gets there"
    if w == "bound" and d == 0 and g[1] == "Z": return "nothing keeps it above zero (a divisor, or a length whose first element is taken)"
    if w == "bound": return f"nothing keeps the position within the length: it can exceed it by {d - g[3]}"
    return "no condition on the paths that get there relates the position or value to what it must not exceed"
def judge(c, F, crate, files, seconds, floors, pid, skip=lambda f: False):
    A = panics.An(F, None)
    fns = [f for f in F.fns.values() if f.crate == crate and f.blocks and files(f.file) and not skip(f)]
    rec, st = panics.analyse(A, fns, None, seconds)
    n = {"proved": 0, "undecided": 0}; kinds = {}
    for (fid, b, kind), r in sorted(rec.items(), key=lambda x: (x[0][0], x[0][1])):
        f = F.fns[fid]; v = verdict(kind, r["fails"])
        if not r["fails"]: n["proved"] += 1; kinds[kind] = kinds.get(kind, 0) + 1; c.ok(f"{short(fid)}: {kind} at {f.file}:{r['line']}")
        elif v is None: n["undecided"] += 1
        else: c.bad(f"{kind}:{short(fid)}", f"{SAY.get(kind, kind)} at line {r['line']}: {why(v)}", loc(f, r["line"]))
    for k, v in st.items(): c.count(f"{k} in {F.tag}", v)
    c.count(f"sites undecided in {F.tag}", n["undecided"]); c.count(f"sites proved by kind in {F.tag}", kinds)
    c.floor(f"sites proved in {F.tag}", n["proved"], floors)
def describe(c):
    c.rule = ("over the difference bounds, text lengths, character boundaries and optional values that hold on every path: each slice "
              "of a text starts and ends on a character boundary inside it, each index is below the length, no subtraction of unsigned values goes below "
              "zero, no fixed-width sum exceeds its type, each unwrapped value is present; an operation whose operands are only constrained by "
              "conditions outside that domain is counted as undecided")
    c.assumptions.append("64-bit sums of positions do not overflow; allocation does not fail")
def run(c):
    describe(c)
    for F in c.load(("A",) if c.tier == "quick" else ("A", "C")):
        judge(c, F, "ass_core", lambda p: "test" not in p and "benchmark" not in p, 420, 120, c.pid)
