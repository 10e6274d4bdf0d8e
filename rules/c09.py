"""C09: the difference between two scripts is exactly what differs in content."""
import re
from dep import Dep
from c07 import payloads, SEC
from common import loc, short
ROOT = "calculate_delta"
CMP = re.compile(r"PartialEq(<.*>)?( for .*)?>?::(eq|ne)$|::eq_ignore_ascii_case$")
def isspan(t): return bool(re.search(r"::Span(?![\w])", t))
def bare(ty): return re.sub(r"^'\S+ ", "", re.sub(r"&|mut ", "", ty).strip()).split("<")[0]
class Eq:
    def __init__(self, F, D, ids):
        self.F = F; self.D = D; self.ids = ids
        # functions that answer "same?" about two things of one type
        self.like = {i for i in ids if (f := F.fns[i]).kind != "closure" and f.argc == 2 and f.locals[0] == "bool" and bare(f.locals[1]) == bare(f.locals[2])}
    def comparisons(self, g):
        """(block, index, destination, operands, negated, callee, line)"""
        for b, t in g.calls():
            fn = t[1].get("fn", "")
            if len(t[2]) == 2 and (CMP.search(fn) or fn in self.like) and len(t[3]) == 1: yield b, len(g.blocks[b]["s"]), t[3][0], t[2], fn.endswith("::ne"), fn, t[-1]
        for b, i, s in g.stmts():
            if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Eq", "Ne") and len(s[1]) == 1: yield b, i, s[1][0], s[2][2:4], s[2][1] == "Ne", s[2][1], s[-1]
    def switch(self, g, b, d):
        """(switch block, successor when the comparison's result is true, when false) the result feeds"""
        al = {d: False}
        seen = set(); st = [b] + list(g.succ(b))
        while st:
            x = st.pop(0)
            if x in seen or len(seen) > 6: continue
            seen.add(x)
            for s in g.blocks[x]["s"]:
                if s[0] != "=" or len(s[1]) != 1: continue
                rv = s[2]
                if rv[0] == "use" and rv[1][0] in ("cp", "mv") and rv[1][1] and len(rv[1][1]) == 1 and rv[1][1][0] in al: al[s[1][0]] = al[rv[1][1][0]]
                if rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("cp", "mv") and len(rv[2][1]) == 1 and rv[2][1][0] in al: al[s[1][0]] = not al[rv[2][1][0]]
            t = g.blocks[x]["t"]
            if t[0] == "switch" and t[1][0] in ("cp", "mv") and len(t[1][1]) == 1 and t[1][1][0] in al:
                z = [y for v, y in t[2] if v == "0"]
                if not z: return None
                yes, no = t[3], z[0]
                return (x, no, yes) if al[t[1][1][0]] else (x, yes, no)
            if t[0] in ("goto", "call", "drop") and (x == b or t[0] != "call"): st += g.succ(x)
        return ("ret",) + (al.get(0),) if 0 in al else None
    def results(self, g, x):
        """constants (or None) the function may return from x on"""
        out = set(); seen = set(); st = [(x, "?")]
        while st:
            y, v = st.pop()
            if (y, v) in seen: continue
            seen.add((y, v))
            for s in g.blocks[y]["s"]:
                if s[0] == "=" and s[1] == [0]: v = s[2][1][1].get("val") if s[2][0] == "use" and s[2][1][0] == "k" else None
            t = g.blocks[y]["t"]
            if t[0] == "call" and t[3] == [0]: v = None
            if t[0] == "ret": out.add(v)
            else: st += [(z, v) for z in g.succ(y)]
        return out
def run(c):
    c.rule = ("every content field of every part of a section is compared with the same field of the other side and positions are not; a difference "
              "always makes the comparison fail, sections that differ are always listed and equal ones never, lists are compared to their full length, "
              "and each part of the delta takes its sections from the right side")
    for F in c.load(("A", "B", "C")):
        D = Dep(F); P = payloads(F)
        roots = [f.id for f in F.fns.values() if f.name == ROOT and f.file.startswith("crates/ass-core") and f.blocks]
        c.floor(f"delta functions in {F.tag}", len(roots), 1)
        if not roots: continue
        ids = [x for x in F.reach(roots) if x in F.fns and F.fns[x].blocks and F.fns[x].crate == "ass_core" and not F.fns[x].derived]
        Q = Eq(F, D, ids); done = {x: set() for x in P}; ncmp = und = 0
        for gid in ids:
            g = F.fns[gid]
            for b, i, d, ops, neg, fn, line in Q.comparisons(g):
                at = [D.op(g, o, b, i) for o in ops]
                fl = [{(a[1], a[2]) for a in x if a[0] == "fld" and a[1] in P} for x in at]
                ty = [bare(g.locals[o[1][0]]) if o[0] in ("cp", "mv") else "" for o in ops]
                rel = False
                if fn not in Q.like and ty[0] == ty[1] and (ty[0] in P or ty[0] == SEC):
                    rel = True
                    c.bad(f"position:{short(gid)}:{ty[0].split('::')[-1]}", f"two {ty[0].split('::')[-1]}s are compared including their positions", loc(g, line))
                elif fl[0] or fl[1]:
                    rel = True
                    k = f"{short(gid)}:" + ",".join(sorted(x for _, x in fl[0] | fl[1]))
                    if c.need(fl[0] == fl[1] or not (fl[0] and fl[1]), f"crossed:{k}", f"{', '.join(x for _, x in fl[0])} is compared with {', '.join(x for _, x in fl[1])}", loc(g, line)) and fl[0] == fl[1]:
                        ps = [{a[1] for a in x if a[0] == "p"} for x in at]
                        if g.argc >= 2 and len(ps[0]) == 1 and ps[0] == ps[1] and g.kind != "closure":
                            c.bad(f"itself:{k}", f"{', '.join(x for _, x in fl[0])} is compared with itself", loc(g, line)); continue
                        for x, n in fl[0]: done[x].add(n)
                elif fn in Q.like: rel = True
                if not rel: continue
                ncmp += 1
                sw = Q.switch(g, b, d)
                if sw is None: und += 1; continue
                key = f"outcome:{short(gid)}:" + (",".join(sorted(x for _, x in fl[0] & fl[1])) or short(fn))
                if g.locals[0] == "bool":
                    if sw[0] == "ret": c.need(sw[1] == neg, key, "a difference makes the comparison succeed", loc(g, line)); continue
                    s, yes, no = sw
                    diff, same = (yes, no) if neg else (no, yes)
                    r = Q.results(g, diff)
                    if g.kind == "closure": und += 1; continue   # how its answer is used differs by caller
                    c.need(r <= {"0", "false"}, key, "a difference does not make the comparison fail", loc(g, line))
                elif sw[0] != "ret":
                    s, yes, no = sw
                    diff, same = (yes, no) if neg else (no, yes)
                    B = {x for x, t in g.calls() if re.search(r"Vec.*::(push|insert|extend\w*)$", t[1].get("fn", ""))}
                    c.need(always(g, diff, s, B), key + ":missed", "sections that differ are not always listed", loc(g, line))
                    c.need(g.preds()[same] != [s] or not any(g.dominates(same, x) for x in B), key + ":equal", "sections that do not differ are listed", loc(g, line))
            if gid in roots or gid in Q.like:
                for b in g.rpo():
                    t = g.blocks[b]["t"]
                    if t[0] == "switch":
                        sp = {a[2] for a in D.op(g, t[1], b, len(g.blocks[b]["s"])) if a[0] == "fld" and (a[1].endswith("::Span") or (a[1] in P and isspan(P[a[1]].get(a[2], ""))))}
                        c.need(not sp, f"position-decides:{short(gid)}", "whether a section counts as changed depends on positions", loc(g))
            for b, t in g.calls():
                fn = t[1].get("fn", "")
                if fn.endswith("::zip") and len(t[2]) == 2:
                    n = len(g.blocks[b]["s"]); ps = [{a[1] for a in D.op(g, o, b, n) if a[0] == "p"} for o in t[2]]
                    if all(len(p) == 1 for p in ps) and ps[0] != ps[1]:
                        which = {a for a in D.op(g, t[2][0], b, n) if a[0] == "fld"}
                        lens = [1 for x, i, d, ops, neg, f2, l in Q.comparisons(g) if all(any(a[0] == "call" and a[1].endswith("::len") for a in D.op(g, o, x, i)) and which & D.op(g, o, x, i) == which for o in ops)]
                        c.need(bool(lens), f"length:{short(gid)}", "lists are compared only as far as the shorter one goes", loc(g, t[-1]))
        for x in P:
            for n, ty in P[x].items():
                if isspan(ty): c.need(n not in done[x], f"position:{x.split('::')[-1]}.{n}", f"{n} of {x.split('::')[-1]} is compared, so moved but unchanged sections count as changed")
                else: c.need(n in done[x], f"uncompared:{x.split('::')[-1]}.{n}", f"a change of only the {n} of {x.split('::')[-1]} is not noticed", loc(F.fns[roots[0]]))
        c.counts[f"undecided_{F.tag}"] = und
        c.floor(f"comparisons in {F.tag}", ncmp, 20)
        for r in roots:
            side(c, F, D, F.fns[r])
def always(g, x, s, B):
    """no way from x leads back to the test or out without a push"""
    seen = set(); st = [x]
    while st:
        y = st.pop()
        if y in B or y in seen: continue
        seen.add(y)
        if y == s or g.blocks[y]["t"][0] == "ret": return False
        st += g.succ(y)
    return True
SIDE = {"added": {1}, "modified": {0, 1}, "removed": {0}, "new_issues": {1}}
def side(c, F, D, f):
    own = next((i for i in F.adts if i.endswith("::ScriptDelta")), None)
    if not own: return
    who = lambda at: {a[1] for a in at if a[0] == "p"}
    for n, want in SIDE.items():
        got = who(D.ret(f.id, ((n, own),)))
        c.need(got == want, f"side:{n}", f"what the delta lists as {n} is taken from the {'old' if got == {0} else 'new' if got == {1} else 'wrong'} script", loc(f))
    for b, t in f.calls():
        if not (t[1].get("fn", "").endswith("::push") and len(t[2]) > 1 and t[2][1][0] in ("cp", "mv") and "Section<" in f.locals[t[2][1][1][0]]): continue
        c.need({0, 1} <= who(D.ctl(f, b, set())), f"unconditional:{f.name}", "a section is listed without a look at the other script", loc(f, t[-1]))
        for s in f.rpo():
            w = f.blocks[s]["t"]
            if w[0] != "switch" or w[1][0] not in ("cp", "mv"): continue
            n = len(f.blocks[s]["s"]); at = D.op(f, w[1], s, n); p = who(at)
            nxt = any(x[0] == "=" and x[1] == w[1][1] and x[2][0] == "disc" and any(k == "call" and y[1].get("fn", "").endswith("::next") for _, _, k, y in D.reaching(f, x[2][1][0], s, n)[0]) for x in f.blocks[s]["s"])
            if nxt or len(p) != 1: continue
            reach = [some(f, x, s, b) for x in f.succ(s)]
            c.need(len(set(reach)) == 1, f"one-sided:{f.name}", f"whether a section is listed depends on something in the {'old' if p == {0} else 'new'} script alone", loc(f, t[-1]))
def some(g, x, s, b):
    seen = set(); st = [x]
    while st:
        y = st.pop()
        if y == b: return True
        if y in seen or y == s: continue
        seen.add(y); st += g.succ(y)
    return False
