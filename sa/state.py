"""Field-state summaries: for each parameter of a function, which field paths it may read before they are overwritten
(exposed), which it may write, and which it overwrites on every successful return (killed).

A path is (parameter index, field names...). Containers' elements and Option/Result payloads belong to the container's path.
Error returns do not constrain the kill set: the caller is expected to propagate them."""
import re
KILL = re.compile(r"::clear$|tiny_skia::.*Pixmap::fill$|::copy_from_slice$")
ALIAS = re.compile(r"::(deref|deref_mut|as_ref|as_mut|as_deref|as_deref_mut|borrow|borrow_mut)$|Pixmap::(data|data_mut)$")
SHAPE = re.compile(r"Pixmap::(width|height)$")
SWAP = re.compile(r"^core::mem::(replace|take|swap)|core::option::Option<.*>::take$|Option::take$")
READONLY_MUT = re.compile(r"$^")
DEPTH = 5

def fpath(proj):
    out = []
    for e in proj:
        if isinstance(e, list) and e[0] == "f":
            if e[3].startswith(("core::", "alloc::", "std::", "hashbrown::", "ahash::")): continue
            out.append(e[1])
    return tuple(out)
def indexed(proj): return any(isinstance(e, list) and e[0] in ("i", "ci", "sub") or e in ("i",) for e in proj) or any(isinstance(e, list) and e[0] == "f" and e[3].startswith(("core::", "alloc::", "std::")) for e in proj)

def swapk(k, q):
    a, b = q; n = set(k) - {a, b}
    if a in k: n.add(b)
    if b in k: n.add(a)
    return frozenset(n)

class State:
    def __init__(self, F, roots_only=None):
        self.F = F; self.memo = {}; self.inprog = set(); self.aggs = {}

    def refs(self, f):
        """local -> set of (param or local root, path, mut) it may point to"""
        roots = {l: {(l, (), True)} for l in range(1, f.argc + 1)}
        aggs = self.aggs.setdefault(f.id, {})
        ch = True; n = 0
        while ch and n < 30:
            ch = False; n += 1
            for b in f.rpo():
                bl = f.blocks[b]
                for s in bl["s"]:
                    if s[0] != "=" or len(s[1]) > 1: continue
                    rv = s[2]; new = set()
                    if rv[0] == "agg" and rv[1] in ("adt", "tuple", "array") and s[1][0] != 0 and any(o[0] in ("cp", "mv") and len(o[1]) == 1 and o[1][0] in roots and f.locals[o[1][0]].startswith("&") for o in rv[4]):
                        a = aggs.setdefault(s[1][0], {})
                        nms = rv[3] if rv[1] == "adt" and rv[2].startswith("ass_") else [str(j) for j in range(len(rv[4]))] if rv[1] == "tuple" else [""] * len(rv[4])
                        for nm, o in zip(nms, rv[4]):
                            if o[0] in ("cp", "mv") and len(o[1]) == 1 and o[1][0] in roots and f.locals[o[1][0]].startswith("&"):
                                if roots[o[1][0]] - a.get(nm, set()): a.setdefault(nm, set()).update(roots[o[1][0]]); ch = True
                        new.add((s[1][0], (), True))
                    if rv[0] in ("ref", "raw"):
                        pl = rv[2] if rv[0] == "ref" else rv[1]
                        m = bool(rv[1]) if rv[0] == "ref" else True
                        if pl[0] in roots and ("*" in pl[1:] or True):
                            for (r, p, mm) in roots[pl[0]]: new.add((r, (p + fpath(pl[1:]))[:DEPTH], m))
                    elif rv[0] in ("use", "cast"):
                        o = rv[1] if rv[0] == "use" else rv[2]
                        if o[0] in ("cp", "mv") and o[1][0] in roots:
                            ty = f.locals[s[1][0]]
                            if ty.startswith(("&", "*")) or "Box<" in ty or len(o[1]) == 1:
                                for (r, p, mm) in roots[o[1][0]]: new.add((r, (p + fpath(o[1][1:]))[:DEPTH], mm))
                    if new - roots.get(s[1][0], set()):
                        if s[1][0] <= f.argc and s[1][0] > 0: continue
                        roots.setdefault(s[1][0], set()).update(new); ch = True
                t = bl["t"]
                if t[0] == "call" and len(t[3]) == 1 and "fn" in t[1]:
                    new = set()
                    for g in self.tgts(t):
                        for (pi, p, m) in self.sum(g)["retref"]:
                            if pi < len(t[2]):
                                a = t[2][pi]
                                if a[0] in ("cp", "mv") and a[1][0] in roots:
                                    for (r, q, mm) in roots[a[1][0]]: new.add((r, (q + fpath(a[1][1:]) + p)[:DEPTH], m))
                    if ALIAS.search(t[1]["fn"]) and t[2]:
                        a = t[2][0]
                        if a[0] in ("cp", "mv") and a[1][0] in roots and len(a[1]) == 1:
                            px = ("#px",) if "Pixmap::data" in t[1]["fn"] else ()
                            new |= {(r, (p if p[-1:] == ("#px",) else p + px), m) for (r, p, m) in roots[a[1][0]]}
                    if new - roots.get(t[3][0], set()):
                        roots.setdefault(t[3][0], set()).update(new); ch = True
        return roots

    def expand(self, f, r, p, d=0):
        """paths rooted at a local aggregate of references -> what the references denote"""
        if 1 <= r <= f.argc: return [(r, p[:DEPTH])]
        a = self.aggs.get(f.id, {}).get(r)
        if not a or d > 6: return []
        if "" in a: src, rest = a[""], p
        elif p and p[0] in a: src, rest = a[p[0]], p[1:]
        elif p: return []
        else: src, rest = set().union(*a.values()), ()
        out = []
        for (r2, p2, m2) in src:
            for q in self.expand(f, r2, p2 + rest, d + 1):
                if q not in out: out.append(q)
        return out

    def tgts(self, t):
        fn = t[1].get("fn")
        if not fn: return []
        tg = [x for x in self.F.targets(fn) if x in self.F.fns and self.F.fns[x].blocks]
        if len(tg) > 1 and not fn.startswith(("dyn ", "ass_")) and fn not in self.F.fns: return []
        return tg

    def sum(self, fid):
        if fid in self.memo: return self.memo[fid]
        if fid in self.inprog: return {"ue": {}, "mw": {}, "mk": None, "retref": set()}
        self.inprog.add(fid)
        r = self._sum(self.F.fns[fid])
        self.inprog.discard(fid); self.memo[fid] = r
        return r

    def events(self, f, b, roots, erets):
        """ordered (kind, path, line) of block b: r(ead), w(eak write), k(ill), x (error return)"""
        out = []; bl = f.blocks[b]
        def expand(r, p): return self.expand(f, r, p)
        def resolve(pl):
            if pl[0] not in roots: return []
            out = []
            for (r, p, m) in roots[pl[0]]:
                for q in expand(r, p + fpath(pl[1:])):
                    q = (q[0], tuple(z for z in q[1] if z != "#px"))
                    if q not in out: out.append(q)
            return out
        def rd_place(pl, line):
            if pl[0] in roots and (len(pl) > 1 or 1 <= pl[0] <= f.argc):
                if len(pl) == 1 and f.locals[pl[0]].startswith(("&", "*")): return
                if "*" in pl[1:] or len(pl) > 1:
                    for q in resolve(pl): out.append(("r", q, line))
        def rd_op(o, line):
            if o[0] in ("cp", "mv"): rd_place(o[1], line)
        def esc(o, line):
            """a reference that leaves tracking: everything below may be read (and written when mutable)"""
            if o[0] in ("cp", "mv") and o[1][0] in roots and len(o[1]) == 1:
                for (r0, p0, m) in roots[o[1][0]]:
                    if o[1][0] > f.argc or f.locals[o[1][0]].startswith("&"):
                        for (r, p) in expand(r0, p0):
                            out.append(("r", (r, p), line))
                            if m and f.locals[o[1][0]].startswith("&mut"): out.append(("w", (r, p), line))
            else: rd_op(o, line)
        for s in bl["s"]:
            if s[0] != "=": continue
            line = s[-1] if isinstance(s[-1], int) else f.line
            rv = s[2]; k = rv[0]
            dty = f.locals[s[1][0]] if len(s[1]) == 1 else ""
            if k in ("use", "cast"):
                if not dty.startswith(("&", "*", "alloc::boxed::Box<")): rd_op(rv[1] if k == "use" else rv[2], line)
            elif k == "bin": rd_op(rv[2], line); rd_op(rv[3], line)
            elif k == "un": rd_op(rv[2], line)
            elif k == "disc": rd_place(rv[1], line)
            elif k == "repeat": rd_op(rv[1], line)
            elif k == "agg":
                if rv[1] == "closure":
                    # closure captures: substitute the closure body's summary
                    self.closure_events(f, rv, roots, out, line)
                elif not (len(s[1]) == 1 and s[1][0] in self.aggs.get(f.id, {}) and s[1][0] != 0):
                    for o in rv[4]: esc(o, line)
                if rv[1] == "adt" and s[1] == [0] and rv[2] and str(rv[2]).endswith("Result::Err"): out.append(("x", None, line))
            pl = s[1]
            if pl[0] in roots and len(pl) > 1:
                rs = resolve(pl)
                for q in rs: out.append(("k" if len(rs) == 1 and not indexed(pl[1:]) else "w", q, line))
        t = bl["t"]
        if t[0] == "call":
            line = t[-1]; fn = t[1].get("fn", "ptr")
            tg = self.tgts(t)
            def argroots(a, sub=()):
                out_ = []
                if a[0] in ("cp", "mv") and a[1][0] in roots:
                    for (r, p, m) in roots[a[1][0]]:
                        for (r2, p2) in expand(r, p + fpath(a[1][1:]) + sub): out_.append((r2, p2, m))
                px = any(p2 and p2[-1] == "#px" for (_, p2, _) in out_)
                if px and fn.endswith("::len"): return []
                return [(r2, tuple(z for z in p2 if z != "#px"), m) for (r2, p2, m) in out_]
            if tg:
                sums = [self.sum(g) for g in tg]
                for s in sums:
                    for (pi, p), ln in s["ue"].items():
                        if pi - 1 < len(t[2]):
                            for (r, q, m) in argroots(t[2][pi - 1], p): out.append(("r", (r, q), line))
                    for (pi, p), ln in s["mw"].items():
                        if pi - 1 < len(t[2]):
                            for (r, q, m) in argroots(t[2][pi - 1], p): out.append(("w", (r, q), line))
                mk = None
                for s in sums:
                    if s["mk"] is None: continue
                    mk = set(s["mk"]) if mk is None else {x for x in mk if x in s["mk"]}
                for (pi, p) in mk or ():
                    if pi - 1 < len(t[2]):
                        ar = argroots(t[2][pi - 1], p)
                        for (r, q, m) in ar: out.append(("k" if len(ar) == 1 else "w", (r, q), line))
            elif SHAPE.search(fn): pass
            elif fn.startswith("core::mem::swap") and len(t[2]) == 2:
                x, y = argroots(t[2][0]), argroots(t[2][1])
                if len(x) == 1 and len(y) == 1: out.append(("s", (x[0][:2], y[0][:2]), line))
                else:
                    for q in x + y: out += [("r", q[:2], line), ("w", q[:2], line)]
            else:
                for ai, a in enumerate(t[2]):
                    if a[0] not in ("cp", "mv"): continue
                    ty = f.locals[a[1][0]] if len(a[1]) == 1 else ""
                    ar = argroots(a)
                    if not ar: continue
                    mut = ty.startswith("&mut") or re.match(r"&'\S+ mut ", ty) is not None
                    if ALIAS.search(fn) and len(a[1]) == 1:
                        if t[3][0] in roots: continue
                    for (r, q, m) in ar:
                        if ty.startswith("&") or ty.startswith("*"):
                            if q == () and False: pass
                            if KILL.search(fn) and ai == 0 and len(ar) == 1: out.append(("k", (r, q), line)); continue
                            out.append(("r", (r, q), line))
                            if mut: out.append(("w", (r, q), line))
                            if SWAP.search(fn) and ai == 0 and len(ar) == 1: out.append(("k", (r, q), line))
                        else:
                            out.append(("r", (r, q), line))
            if fn.endswith("::from_residual"): out.append(("x", None, line))
            d = t[3]
            if d[0] in roots and len(d) > 1:
                rs = resolve(d)
                for q in rs: out.append(("k" if len(rs) == 1 and not indexed(d[1:]) else "w", q, line))
        return out

    def closure_events(self, f, rv, roots, out, line):
        g = self.F.fns.get(rv[2])
        if g is None or not g.blocks: return
        s = self.sum(g.id)
        for kind in ("ue", "mw"):
            for (pi, p), ln in s[kind].items():
                if pi != 1: continue
                if p and p[0] in rv[3]: ops = [(rv[4][rv[3].index(p[0])], p[1:])]
                else: ops = [(o, ()) for o in rv[4]]
                for o, rest in ops:
                    if o[0] in ("cp", "mv") and o[1][0] in roots:
                        for (r, q, m) in roots[o[1][0]]:
                            for e in self.expand(f, r, q + fpath(o[1][1:]) + rest): out.append(("r" if kind == "ue" else "w", e, line))

    def _sum(self, f):
        roots = self.refs(f)
        if 0 in self.aggs.get(f.id, {}): del self.aggs[f.id][0]
        ev = {b: self.events(f, b, roots, None) for b in f.rpo()}
        ins = {}; outk = {}
        TOP = None
        order = f.rpo(); pr = f.preds()
        ch = True; n = 0
        while ch and n < 50:
            ch = False; n += 1
            for b in order:
                if b == 0: cur = frozenset()
                else:
                    cur = TOP
                    for p in pr.get(b, ()):
                        o = outk.get(p, TOP)
                        if o is TOP: continue
                        cur = o if cur is TOP else cur & o
                if ins.get(b, 0) != cur: ins[b] = cur; ch = True
                k = cur
                for (kind, q, line) in ev[b]:
                    if kind == "x": k = TOP
                    elif kind == "k" and k is not TOP: k = k | {q}
                    elif kind == "s" and k is not TOP: k = swapk(k, q)
                if outk.get(b, 0) != k: outk[b] = k; ch = True
        ue = {}; mw = {}; mk = TOP
        def killed(k, q):
            return any((q[0], q[1][:i]) in k for i in range(len(q[1]) + 1))
        for b in order:
            k = ins.get(b)
            if k is TOP: k = frozenset(); dead = True
            else: dead = False
            for (kind, q, line) in ev[b]:
                if kind == "r" and not killed(k, q): ue.setdefault(q, line)
                elif kind in ("w", "k"): mw.setdefault(q, line)
                if kind == "k": k = k | {q}
                if kind == "s":
                    k = swapk(k, q)
                    for z in q: mw.setdefault(z, line)
            if f.blocks[b]["t"][0] == "ret":
                o = outk.get(b)
                if o is not TOP: mk = o if mk is TOP else mk & o
        rr = set()
        for (r, p, m) in roots.get(0, ()):
            for (r2, p2) in self.expand(f, r, p): rr.add((r2 - 1, p2, m))
        return {"ue": ue, "mw": mw, "mk": mk, "retref": rr, "roots": roots, "ev": ev}
