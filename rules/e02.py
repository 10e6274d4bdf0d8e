"""E02: an editing operation that fails leaves the document as it was."""
from edits import Edits, Typestate, Effects, off_path
from e01 import entries
from common import loc, short
def dominates(dom, a, b):
    while b in dom and dom[b] != b:
        b = dom[b]
        if b == a: return True
    return False
def needs(X, f, b, t):
    """caller's values that decide whether the call accepts its positions"""
    out = set()
    for o in t[2][1:]:
        ty = f.locals[o[1][0]] if o[0] in ("cp", "mv") else ""
        for path in ((off_path(X.F, "start"), off_path(X.F, "end")) if ty.endswith("position::range::Range") else (off_path(X.F),) if ty.endswith("::Position") else ()):
            out |= {(a[1], tuple(n for n, _ in a[2])) for a in X.P.op(f, o, b, len(f.blocks[b]["s"]), path) if a[0] == "p"}
    return out
def run(c):
    c.rule = ("typestate over all paths of every public operation that can change the text: no path writes the text and then returns an error "
              "unless the text read before the write has been written back; errors of the internal writers' own position checks, made before any write, excepted")
    for F in c.load(("A", "B", "C")):
        E = Edits(F); X = Effects(E); T = Typestate(E, set(), None, X); n = 0
        for f in entries(E):
            n += 1
            r = T.summary(f.id, 0)
            c.need(("err", 1) not in r, f"half-done:{f.name}", f"{short(f.id)} can change the text and then return an error without taking the change back", loc(f))
        # the raw writers check before they write
        for fid in sorted(E.prim):
            f = F.fns[fid]
            c.need(("err", 1) not in Typestate.walk_strict(T, f), f"raw:{f.name}", f"{short(fid)} writes the text before it reports that the position is invalid", loc(f))
        # those made of several edits: what a later edit needs was checked by an earlier one
        for fid in sorted(T.raw() - set(E.prim)):
            f = F.fns[fid]; cs = [(b, t) for b, t in f.calls() if t[1].get("fn") in T.raw()]; dom = f.dom()
            for b, t in cs:
                first = [(b1, t1) for b1, t1 in cs if b1 != b and X.reaches(f, b1, b)]
                if not first: continue
                have = set().union(*[needs(X, f, b1, t1) for b1, t1 in first if dominates(dom, b1, b)])
                miss = needs(X, f, b, t) - have
                c.need(not miss, f"late-check:{f.name}:{t[1]['fn'].rsplit('::', 1)[-1]}", f"{short(fid)} may already have changed the text when {t[1]['fn'].rsplit('::', 1)[-1]} refuses a position that no earlier edit checked", loc(f, t[-1]))
        c.floor(f"editing operations in {F.tag}", n, 60); c.floor(f"text writers in {F.tag}", len(E.prim), 2)
