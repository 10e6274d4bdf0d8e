"""Value-dependency slices over MIR: what can flow into an operand, as a set of atoms.

Atoms: ("s",str) string constant; ("v",value,ty) scalar constant; ("x",hex) byte constant;
("p",i,path) parameter i (0-based) of the analysed function and the field path read from it;
("fld",owner,field) a workspace ADT field read on the way; ("call",callee) an opaque callee;
("static",id); ("const",id).
Calls to workspace functions are replaced by their return summary with parameters substituted (context sensitive
in constants and field paths); closures are inlined where they are built.
Reads are flow-sensitive for whole-variable assignments; effects through `&mut` are weak updates.
"""
from facts import term_succ

WRAP = ("core::option::Option::", "core::result::Result::", "core::ops::control_flow::ControlFlow::")

# with .content set, calls that select a part of their first argument by position: the position is not content
PICK = {"index", "index_mut", "get", "get_unchecked", "slice", "byte_slice", "split_at", "nth", "take", "skip", "get_slice", "byte_to_char", "char_to_byte"}
def base(pl): return pl[0]
def fieldpath(proj):
    """projection -> path of (field, owner); deref and index steps are dropped"""
    out = []
    for e in proj:
        if isinstance(e, list) and e[0] == "f": out.append((e[1], e[3]))
    return tuple(out)

class Dep:
    def __init__(self, F, stop=(), maxdepth=60, control=False):
        self.control = control; self.arrays = False; self.content = False; self.sites = (); self.ctlmemo = {}
        self.F = F; self.stop = set(stop); self.retmemo = {}; self.inprog = set(); self.maxdepth = maxdepth
        self._muts = {}; self._defs = {}; self.mutmemo = {}

    # ---------- per-function indexes ----------
    def defs(self, f):
        """local -> [(block, idx, kind, payload)], idx == len(stmts) for terminators"""
        d = self._defs.get(f.id)
        if d is None:
            d = {}
            for b in f.rpo():
                bl = f.blocks[b]
                for i, s in enumerate(bl["s"]):
                    if s[0] == "=": d.setdefault(s[1][0], []).append((b, i, "=", s))
                t = bl["t"]
                if t[0] == "call": d.setdefault(t[3][0], []).append((b, len(bl["s"]), "call", t))
            self._defs[f.id] = d
        return d

    def mutcalls(self, f):
        """local -> [(block, argindex, call, path)] calls that receive a mutable reference (transitively) to the local"""
        m = self._muts.get(f.id)
        if m is not None: return m
        m = {}
        # refs: temp -> set of (root local, path)
        roots = {}
        defs = self.defs(f)
        changed = True; n = 0
        while changed and n < 20:
            changed = False; n += 1
            for l, ds in defs.items():
                for (b, i, k, s) in ds:
                    if k != "=" or len(s[1]) > 1: continue
                    rv = s[2]; new = set()
                    if rv[0] == "ref" and rv[1] == 1:
                        pl = rv[2]
                        if len(pl) > 1 and pl[1] == "*":   # reborrow
                            for r, p in roots.get(pl[0], ()): new.add((r, p + fieldpath(pl[2:])))
                        else:
                            new.add((pl[0], fieldpath(pl[1:])))
                    elif rv[0] == "use" and rv[1][0] in ("cp", "mv"):
                        pl = rv[1][1]
                        if len(pl) == 1: new |= roots.get(pl[0], set())
                    if new - roots.get(l, set()):
                        roots.setdefault(l, set()).update(new); changed = True
        for b, t in f.calls():
            for ai, a in enumerate(t[2]):
                if a[0] in ("cp", "mv") and len(a[1]) == 1:
                    for r, p in roots.get(a[1][0], ()):
                        m.setdefault(r, []).append((b, ai, t, p))
        # writes through a mutable reference local: [r,"*",..] = rv
        for l, ds in defs.items():
            if l in roots:
                for (b, i, k, s) in ds:
                    pl = s[1] if k == "=" else s[3]
                    if len(pl) > 1 and pl[1] == "*":
                        for r, p in roots[l]:
                            m.setdefault(r, []).append((b, None, (k, s), p + fieldpath(pl[2:])))
        self._muts[f.id] = m
        return m

    def reaching(self, f, local, b, i):
        """whole-local defs reaching point (b, before statement i), plus all partial defs seen on the way"""
        ds = self.defs(f).get(local, [])
        if not ds: return [], True
        if len(ds) == 1 and not 1 <= local <= f.argc:
            return ds, False
        bydef = {}
        for d in ds: bydef.setdefault(d[0], []).append(d)
        out = []; seen = set(); entry = False
        st = [(b, i)]
        while st:
            b0, lim = st.pop()
            killed = False
            for d in sorted(bydef.get(b0, ()), key=lambda x: -x[1]):
                if d[1] >= lim: continue
                if d not in out: out.append(d)
                pl = d[3][1] if d[2] == "=" else d[3][3]
                if len(pl) == 1: killed = True; break
            if killed: continue
            ps = f.preds().get(b0, ())
            if b0 == 0: entry = True
            for p in ps:
                if p not in seen:
                    seen.add(p); st.append((p, 1 << 30))
        return out, entry

    # ---------- evaluation ----------
    def op(self, f, o, b, i, path=(), vis=None):
        if vis is None: vis = set()
        if o[0] in ("cp", "mv"): return self.place(f, o[1], b, i, path, vis)
        if o[0] == "k": return self.konst(f, o[1], path, vis)
        return set()

    def konst(self, f, k, path, vis):
        if "promoted" in k:
            g = self.F.fns.get(k["of"])
            if g is not None and k["promoted"] < len(g.promoted):
                return self.body_ret(g, ("prom", k["promoted"]), path)
            return set()
        if "static" in k: return {("static", k["static"])}
        if "str" in k: return {("s", k["str"])}
        if "hex" in k: return {("x", k["hex"])}
        if "bytes" in k: return {("s", k["bytes"])}
        if "fn" in k: return {("fnitem", k["fn"])}
        if "const" in k:
            r = {("const", k["const"])}
            if k["const"] in self.F.fns: r |= self.ret(k["const"], path)
            if "val" in k: r.add(("v", k["val"], k["ty"]))
            return r
        if "val" in k: return {("v", k["val"], k["ty"])}
        return set()

    def body_ret(self, g, which, path):
        key = (g.id, which, path)
        if key in self.retmemo: return self.retmemo[key]
        if key in self.inprog: return set()
        self.inprog.add(key)
        from facts import Fn
        d = dict(g.d); d.update(g.promoted[which[1]]); d["id"] = f"{g.id}#prom{which[1]}"; d["promoted"] = g.promoted
        p = Fn(d, g.crate)
        r = self._ret(p, path)
        self.inprog.discard(key); self.retmemo[key] = r
        return r

    def place(self, f, pl, b, i, path, vis):
        proj = pl[1:]
        variant = None
        out = set()
        for e in proj:
            if isinstance(e, list) and e[0] == "i":
                pass
        p = fieldpath(proj) + path
        return self.local(f, pl[0], b, i, p, vis)

    def local(self, f, l, b, i, path, vis):
        key = (f.id, l, b, i, path)
        if key in vis or len(path) > 12: return set()
        vis.add(key)
        out = set()
        for n, ow in path:
            if ow.startswith("ass_"): out.add(("fld", ow, n))
        ds, entry = self.reaching(f, l, b, i)
        if 1 <= l <= f.argc and (entry or not ds):
            out.add(("p", l - 1, path))
        if self.control and len(ds) > 1 and any(d[2] == "=" and d[3][2][0] == "use" and d[3][2][1][0] == "k" for d in ds):
            for (db, di, k, s) in ds:
                if k == "=" and s[2][0] == "use" and s[2][1][0] == "k": out |= self.ctl(f, db, vis)
        for (db, di, k, s) in ds:
            if k == "=":
                dp = fieldpath(s[1][1:])
                # def of a sub-place: relevant when one is a prefix of the other
                if len(s[1]) > 1:
                    if "*" in s[1][1:] and 1 <= l <= f.argc: pass
                    m = min(len(dp), len(path))
                    if dp[:m] != path[:m]: continue
                    rest = path[len(dp):] if len(path) >= len(dp) else ()
                else: rest = path
                out |= self.rv(f, s[2], db, di, rest, vis)
            else:
                dp = fieldpath(s[3][1:]); m = min(len(dp), len(path))
                if dp[:m] != path[:m]: continue
                rest = path[len(dp):] if len(path) >= len(dp) else ()
                out |= self.call(f, s, db, di, rest, vis)
        for (mb, ai, t, mp) in self.mutcalls(f).get(l, ()):
            m = min(len(mp), len(path))
            if mp[:m] != path[:m]: continue
            if (f.id, l, "mut", mb, ai, path) in vis: continue
            vis.add((f.id, l, "mut", mb, ai, path))
            if ai is None:
                kk, s = t
                rest = path[len(mp):] if len(path) >= len(mp) else ()
                if kk == "=": out |= self.rv(f, s[2], mb, 0 if False else self._idx(f, mb, s), rest, vis)
                else: out |= self.call(f, s, mb, len(f.blocks[mb]["s"]), rest, vis)
            else:
                out |= self.mutarg(f, t, mb, ai, path[len(mp):] if len(path) >= len(mp) else (), vis)
        return out
    def ctl(self, f, b, vis, errors=True):
        """atoms of the branch conditions between the function's entry and block b that decide whether b runs;
        errors=False leaves out branches on the outcome of a fallible call"""
        key = (f.id, b, errors)
        if key in self.ctlmemo: return self.ctlmemo[key]
        self.ctlmemo[key] = set()
        out = set(); dom = f.dom(); c = b
        while c in dom and dom[c] != c:
            p = dom[c]; t = f.blocks[p]["t"]
            if t[0] == "switch":
                hits = [x for x in f.succ(p) if self._reaches(f, x, b, p)]
                if not errors and t[1][0] in ("cp", "mv") and any(s[0] == "=" and s[1] == t[1][1] and s[2][0] == "disc" and
                        ("ControlFlow" in f.locals[s[2][1][0]].split("<")[0] or "Result" in f.locals[s[2][1][0]].split("<")[0]) for s in f.blocks[p]["s"]):
                    c = p; continue
                if len(hits) < len(f.succ(p)):
                    out |= self.op(f, t[1], p, len(f.blocks[p]["s"]), (), vis)
                    o = t[1]
                    if o[0] in ("cp", "mv"):
                        for s in f.blocks[p]["s"]:
                            if s[0] == "=" and s[1] == o[1] and s[2][0] == "disc":
                                en = self.placety(f, s[2][1])
                                vs = self.F.adts.get(en, {}).get("variants") if en else None
                                if vs:
                                    for val, x in t[2]:
                                        if x in hits and int(val) < len(vs): out.add(("var", en, vs[int(val)][0]))
            c = p
        self.ctlmemo[key] = out
        return out
    def _reaches(self, f, a, b, avoid):
        seen = {avoid}; st = [a]
        while st:
            x = st.pop()
            if x == b: return True
            if x in seen: continue
            seen.add(x); st.extend(f.succ(x))
        return False
    def placety(self, f, pl):
        """workspace enum a place denotes (references stripped)"""
        t = f.locals[pl[0]]
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == "f":
                ad = self.F.adts.get(e[3]) or self.F.adts.get(e[3].rsplit("::", 1)[0])
                t = ""
                if ad:
                    for vn, fs in ad["variants"]:
                        for x in fs:
                            if x[0] == e[1]: t = x[1]
        t = t.replace("&", "").replace("mut ", "").strip()
        if t.startswith("'"): t = t.split(" ", 1)[-1]
        return t.split("<")[0]
    def _idx(self, f, b, s):
        for i, x in enumerate(f.blocks[b]["s"]):
            if x is s: return i
        return 0

    def rv(self, f, rv, b, i, path, vis):
        k = rv[0]
        if k in ("use",): return self.op(f, rv[1], b, i, path, vis)
        if k == "ref": return self.place(f, rv[2], b, i, path, vis)
        if k == "raw": return self.place(f, rv[1], b, i, path, vis)
        if k == "cast": return self.op(f, rv[2], b, i, path, vis)
        if k == "bin":
            r = self.op(f, rv[2], b, i, (), vis) | self.op(f, rv[3], b, i, (), vis)
            return r
        if k == "un": return self.op(f, rv[2], b, i, (), vis)
        if k == "disc": return self.place(f, rv[1], b, i, (), vis)
        if k == "repeat": return self.op(f, rv[1], b, i, (), vis)
        if k == "tls": return {("static", rv[1])}
        if k == "agg":
            kind, what, names, ops = rv[1], rv[2], rv[3], rv[4]
            if kind == "closure": return self.closure(f, what, names, ops, b, i, vis)
            if kind == "array":
                if self.arrays and len(ops) >= 2:
                    row = [self.op(f, o, b, i, path, vis) for o in ops]
                    if all(len(r) == 1 and next(iter(r))[0] == "s" for r in row): return {("arr", tuple(next(iter(r))[1] for r in row))}
                    return set().union(*row)
                out = set()
                for o in ops: out |= self.op(f, o, b, i, path, vis)
                return out
            if kind == "tuple": names = [str(j) for j in range(len(ops))]
            if path:
                n, ow = path[0]
                if n in names and (kind == "tuple" or ow == what or ow == "tuple"):
                    return self.op(f, ops[names.index(n)], b, i, path[1:], vis)
                if kind == "adt" and ow != what and (ow.rsplit("::", 1)[0] == what.rsplit("::", 1)[0]):
                    return set()   # another variant of the same enum
            out = set()
            for o in ops: out |= self.op(f, o, b, i, (), vis)
            return out
        if k == "other": return set()
        return set()

    def closure(self, f, cid, names, ops, b, i, vis, argatoms=None):
        g = self.F.fns.get(cid); out = set()
        if g is None: return out
        for a in self.ret(cid, ()):
            out |= self.subst_closure(f, a, names, ops, b, i, vis)
        return out
    def subst_closure(self, f, a, names, ops, b, i, vis):
        if a[0] == "g": return {("g", x) if x[0] != "g" else x for x in self.subst_closure(f, a[1], names, ops, b, i, vis)}
        if a[0] != "p": return {a}
        if a[1] != 0: return set()
        p = a[2]
        if p and p[0][1] == "closure" and p[0][0] in names:
            return self.op(f, ops[names.index(p[0][0])], b, i, p[1:], vis)
        out = set()
        for o in ops: out |= self.op(f, o, b, i, (), vis)
        return out

    def findclosure(self, f, o, b, i):
        """closure aggregate an operand refers to, if syntactically evident"""
        seen = 0
        while o[0] in ("cp", "mv") and seen < 12:
            seen += 1
            pl = o[1]
            if any(isinstance(e, list) for e in pl[1:]): return None
            ds, _ = self.reaching(f, pl[0], b, i)
            if len(ds) != 1 or ds[0][2] != "=": return None
            b, i, _, s = ds[0]
            rv = s[2]
            if rv[0] == "agg" and rv[1] == "closure": return (rv, b, i)
            if rv[0] == "use": o = rv[1]; continue
            if rv[0] == "ref": o = ["cp", rv[2]]; continue
            return None
        return None

    def args_of(self, t):
        """(callee id, operand for each callee parameter or ('tup', operand, k))"""
        c = t[1]; fn = c.get("fn")
        orig = c.get("orig", "")
        if orig.startswith("core::ops::function::Fn") and fn in self.F.fns and self.F.fns[fn].kind == "closure":
            n = self.F.fns[fn].argc
            return fn, [t[2][0]] + [("tup", t[2][1], k) for k in range(n - 1)]
        return fn, t[2]

    def evalarg(self, f, a, b, i, path, vis):
        if a[0] == "tup": return self.op(f, a[1], b, i, ((str(a[2]), "tuple"),) + path, vis)
        return self.op(f, a, b, i, path, vis)

    def call(self, f, t, b, i, path, vis):
        c = t[1]
        if "ptr" in c:
            out = {("call", "ptr")}
            for a in t[2]: out |= self.op(f, a, b, i, (), vis)
            return out
        fn, args = self.args_of(t)
        tg = [x for x in self.F.targets(fn) if x in self.F.fns]
        if not tg or fn in self.stop or len(tg) > 8 or (len(tg) > 1 and not fn.startswith("dyn ") and not self.F.fns.get(fn)):
            return self.ext(f, t, b, i, path, vis)
        out = {("site", f.id, b)} if fn in self.sites else set()
        for g in tg:
            if g in self.stop:
                out |= self.ext(f, t, b, i, path, vis); continue
            for a in self.ret(g, path):
                gd = a[0] == "g"
                if gd:
                    if a[1][0] == "p" and a[1][1] < len(args):
                        out |= {("g", x) if x[0] != "g" else x for x in self.evalarg(f, args[a[1][1]], b, i, a[1][2], vis)}
                    elif a[1][0] != "p": out.add(a)
                elif a[0] == "p":
                    if a[1] < len(args): 
                        if args[a[1]][0] != "tup":
                            fc = self.findclosure(f, args[a[1]], b, i)
                            if fc:
                                p = a[2]
                                rvx, cb, ci = fc
                                if p and p[0][1] == "closure" and p[0][0] in rvx[3]:
                                    out |= self.op(f, rvx[4][rvx[3].index(p[0][0])], cb, ci, p[1:], vis); continue
                        out |= self.evalarg(f, args[a[1]], b, i, a[2], vis)
                else: out.add(a)
        return out

    def ext(self, f, t, b, i, path, vis):
        out = {("call", t[1]["fn"])}
        keep = ()
        n = t[1]["fn"]
        m = self.model(f, t, n, b, i, path, vis)
        if m is not None: return m
        # transparent accessors keep the field path
        if n.endswith(("::deref", "::deref_mut", "::as_ref", "::as_mut", "::clone", "::borrow", "::borrow_mut", "::as_deref")):
            keep = path
        for n_, ow in path:
            if ow.startswith("ass_"): out.add(("fld", ow, n_))
        for a in (t[2][:1] if self.content and n.rsplit("::", 1)[-1] in PICK else t[2]):
            out |= self.op(f, a, b, i, keep, vis)
        for c in t[1].get("fa", ()):
            if c in self.F.fns and self.F.fns[c].kind != "closure":
                for a in self.ret(c, ()):
                    if a[0] != "p": out.add(a)
        return out

    def model(self, f, t, n, b, i, path, vis):
        """payload-tracking models of Option/Result plumbing; None when the call has no model"""
        last = n.rsplit("::", 1)[-1]; a = t[2]
        if last in ("then", "then_some") and "bool" in n and len(a) == 2:
            fc = self.findclosure(f, a[1], b, i)
            if fc and last == "then":
                rvx, cb, ci = fc; out = set()
                p2 = path[1:] if path and path[0][1].startswith("core::option") else path
                for x in self.ret(rvx[2], p2): out |= self.subst_closure(f, x, rvx[3], rvx[4], cb, ci, vis)
            else: out = self.op(f, a[1], b, i, path[1:], vis)
            return out | {("g", x) if x[0] != "g" else x for x in self.op(f, a[0], b, i, (), vis)}
        if not a or not ("Option" in n or "Result" in n or "result" in n or "option" in n): return None
        OK, ER, SO = ("0", "core::result::Result::Ok"), ("0", "core::result::Result::Err"), ("0", "core::option::Option::Some")
        CF, BR = ("0", "core::ops::control_flow::ControlFlow::Continue"), ("0", "core::ops::control_flow::ControlFlow::Break")
        isres = "Result" in n or "result" in n
        good = OK if isres else SO
        h = path[0] if path else None; rest = path[1:]
        ev = lambda k, p: self.op(f, a[k], b, i, p, vis)
        if last == "branch":
            if h == CF: return ev(0, (good,) + rest)
            if h == BR: return ev(0, (ER,)) if isres else set()
            return None
        if last == "from_residual":
            if h in (OK, SO): return set()
            return None
        if last in ("unwrap", "expect", "unwrap_unchecked", "unwrap_or_default"): return ev(0, (good,) + path)
        if last == "unwrap_or" and len(a) == 2: return ev(0, (good,) + path) | ev(1, path)
        if last in ("ok_or",) and h == OK: return ev(0, (SO,) + rest)
        if last in ("ok_or",) and h == ER: return ev(1, rest)
        if last == "ok_or_else" and h == OK: return ev(0, (SO,) + rest)
        if last == "map_err" and h == OK: return ev(0, path)
        if last == "ok" and h == SO: return ev(0, (OK,) + rest)
        if last in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "copied", "cloned", "clone") and path: return ev(0, path)
        return None

    def mutarg(self, f, t, b, ai, path, vis):
        """what a call may write through its ai-th argument"""
        i = len(f.blocks[b]["s"])
        c = t[1]; out = set()
        fn = c.get("fn")
        tg = [x for x in self.F.targets(fn) if x in self.F.fns] if fn else []
        if tg and len(tg) <= 8 and fn not in self.stop:
            fn, args = self.args_of(t)
            for g in tg:
                for a in self.mutsum(g, ai, path):
                    if a[0] == "p":
                        if a[1] < len(args) and a[1] != ai: out |= self.evalarg(f, args[a[1]], b, i, a[2], vis)
                        elif a[1] == ai and a[2] != path: out |= self.evalarg(f, args[ai], b, i, a[2], vis)
                    else: out.add(a)
            return out
        out.add(("call", fn or "ptr"))
        for j, a in enumerate(t[2]):
            if j != ai: out |= self.op(f, a, b, i, (), vis)
        return out

    def mutsum(self, gid, pi, path):
        """deps of values the function writes into *param[pi].path"""
        key = (gid, "mut", pi, path)
        if key in self.retmemo: return self.retmemo[key]
        if key in self.inprog: return set()
        self.inprog.add(key)
        g = self.F.fns[gid]; out = set(); l = pi + 1
        # treat the parameter as a root: writes via [l,"*",...] and via reborrows
        rootsets = self._param_muts(g, l)
        for (b, i, k, s, mp) in rootsets:
            m = min(len(mp), len(path))
            if mp[:m] != path[:m]: continue
            rest = path[len(mp):] if len(path) >= len(mp) else ()
            if k == "=": out |= self.rv(g, s[2], b, i, rest, set())
            elif k == "call": out |= self.call(g, s, b, i, rest, set())
            else: out |= self.mutarg(g, s, b, k, rest, set())
        self.inprog.discard(key); self.retmemo[key] = out
        return out

    def _param_muts(self, g, l):
        roots = {l: {()}}
        defs = self.defs(g)
        ch = True; n = 0
        while ch and n < 20:
            ch = False; n += 1
            for x, ds in defs.items():
                for (b, i, k, s) in ds:
                    if k != "=" or len(s[1]) > 1: continue
                    rv = s[2]; new = set()
                    if rv[0] == "ref" and rv[1] == 1 and len(rv[2]) > 1 and rv[2][1] == "*":
                        for p in roots.get(rv[2][0], ()): new.add(p + fieldpath(rv[2][2:]))
                    elif rv[0] == "use" and rv[1][0] in ("cp", "mv"):
                        pl = rv[1][1]
                        for p in roots.get(pl[0], ()):
                            if len(pl) == 1: new.add(p)
                            elif pl[1] == "*": new.add(p + fieldpath(pl[2:]))
                    if new - roots.get(x, set()): roots.setdefault(x, set()).update(new); ch = True
        out = []
        for x, ps in roots.items():
            for (b, i, k, s) in defs.get(x, ()):
                pl = s[1] if k == "=" else s[3]
                if len(pl) > 1 and pl[1] == "*":
                    for p in ps: out.append((b, i, k, s, p + fieldpath(pl[2:])))
        for b, t in g.calls():
            for ai, a in enumerate(t[2]):
                if a[0] in ("cp", "mv") and len(a[1]) == 1 and a[1][0] in roots:
                    ty = g.locals[a[1][0]]
                    if ty.startswith("&mut") or ty.startswith("&'") and " mut " in ty[:14] :
                        for p in roots[a[1][0]]: out.append((b, len(g.blocks[b]["s"]), ai, t, p))
        return out

    def ret(self, gid, path=()):
        key = (gid, path)
        if key in self.retmemo: return self.retmemo[key]
        if key in self.inprog: return set()
        self.inprog.add(key)
        r = self._ret(self.F.fns[gid], path)
        self.inprog.discard(key); self.retmemo[key] = r
        return r
    def _ret(self, g, path):
        out = set()
        for b in g.rpo():
            if g.blocks[b]["t"][0] == "ret":
                out |= self.local(g, 0, b, len(g.blocks[b]["s"]), path, set())
        return out

def strs(atoms): return {a[1] for a in atoms if a[0] == "s"}
