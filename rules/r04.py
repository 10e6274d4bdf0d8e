"""R04: a render mode ends with the call that began it."""
import re
from dep import Dep
from common import loc, short
def istest(p): return "test" in p or "/benches/" in p or "examples/" in p
CELLTY = re.compile(r"LocalKey<core::cell::(RefCell<core::option::Option<|Cell<(bool|core::option::Option<|usize|u\d+|i\d+)|RefCell<bool>)")
class Modes:
    """state of one mode cell: E (as on entry), 0 (off), 1 (on)"""
    def __init__(self, F, D, key):
        self.F = F; self.D = D; self.key = key; self.sum = {}; self.drops = {}
        for i in F.impls:
            if (i.get("trait") or "").endswith("ops::drop::Drop"):
                for x in i["items"]: self.drops[i["self"].split("<")[0]] = x
    def iskey(self, f, o, b):
        return any(a[0] in ("const", "static") and a[1].split("::{constant")[0] == self.key for a in self.D.op(f, o, b, len(f.blocks[b]["s"])))
    def accesses(self, f):
        """block -> (method, closure or None, operands)"""
        out = {}
        for b, t in f.calls():
            fn = t[1].get("fn", "")
            if "LocalKey" in fn and t[2] and not fn.endswith("::new") and self.iskey(f, t[2][0], b):
                out[b] = (fn.rsplit("::", 1)[-1], next(iter(t[1].get("fa") or []), None), t[2][1:])
        return out
    def val(self, f, o, b, i):
        """0, 1 or None: what an operand written into the cell is"""
        if o[0] == "k": v = o[1].get("val"); return None if v is None else 0 if str(v) in ("0", "false") else 1
        r = set()
        for db, di, k, s in self.D.reaching(f, o[1][0], b, i)[0]:
            if k == "=" and s[2][0] == "agg" and s[2][2].endswith("Option::None"): r.add(0)
            elif k == "=" and s[2][0] == "agg" and s[2][2].endswith("Option::Some"): r.add(1)
            elif k == "=" and s[2][0] == "use" and s[2][1][0] in ("cp", "mv") and len(s[2][1][1]) == 1: r.add(self.val(f, s[2][1], db, di))
            elif k == "=" and s[2][0] == "use" and s[2][1][0] == "k": r.add(self.val(f, s[2][1], db, di))
            elif k == "call" and s[1].get("fn", "").endswith("Default>::default"): r.add(0)
            else: r.add(None)
        return next(iter(r)) if len(r) == 1 else None
    def ops(self, g):
        """closure given the cell: block -> list of 0/1/None writes in order; second: reads without writing"""
        T = {2}; ch = True
        while ch:
            ch = False
            for b, i, s in g.stmts():
                if s[0] == "=" and s[2][0] in ("ref", "use", "cast"):
                    src = s[2][2] if s[2][0] == "ref" else s[2][1][1] if s[2][0] == "use" and s[2][1][0] in ("cp", "mv") else None
                    if src and src[0] in T and len(s[1]) == 1 and s[1][0] not in T and s[1][0] != 0: T.add(s[1][0]); ch = True
            for b, t in g.calls():
                if re.search(r"(RefCell.*::(borrow_mut|borrow|try_borrow_mut|try_borrow)|Deref(Mut)?>?::deref(_mut)?|Option.*::(as_mut|as_deref_mut|as_ref|unwrap|expect)|Cell.*::(as_ptr|get))$", t[1].get("fn", "")) and t[2] and t[2][0][0] in ("cp", "mv") and t[2][0][1][0] in T and t[3][0] not in T and t[3][0] != 0:
                    T.add(t[3][0]); ch = True
        w = {}; read = False
        for b in g.rpo():
            if g.blocks[b].get("c"): continue
            for i, s in enumerate(g.blocks[b]["s"]):
                if s[0] != "=": continue
                if s[1][0] in T and len(s[1]) == 2 and s[1][1] == "*" and re.match(r"&mut core::option|&mut bool|&mut [iu]\d", g.locals[s[1][0]]): w.setdefault(b, []).append(self.val(g, s[2][1], b, i) if s[2][0] == "use" else 1 if s[2][0] == "agg" and s[2][2].endswith("Some") else 0 if s[2][0] == "agg" and s[2][2].endswith("None") else None)
                elif s[2][0] == "disc" and s[2][1][0] in T: read = True
            t = g.blocks[b]["t"]
            if t[0] == "call" and t[2] and t[2][0][0] in ("cp", "mv") and t[2][0][1][0] in T:
                fn = t[1].get("fn", ""); m = fn.rsplit("::", 1)[-1]
                whole = re.match(r"&(mut )?(core::option::Option|bool|[iu]\d|usize|core::cell::)", g.locals[t[2][0][1][0]]) or "RefCell" in fn
                if m in ("take", "insert", "get_or_insert_with", "get_or_insert", "replace", "set") and not whole: read = True
                elif m == "take": w.setdefault(b, []).append(0)
                elif m in ("insert", "get_or_insert_with", "get_or_insert"): w.setdefault(b, []).append(1)
                elif m in ("replace", "set") and len(t[2]) > 1: w.setdefault(b, []).append(self.val(g, t[2][1], b, len(g.blocks[b]["s"])))
                elif m in ("is_some", "is_none", "as_mut", "as_ref", "clone", "get", "cloned", "copied", "map"): read = True
        return w, read
    def flow(self, f, entry, trans):
        """states at each return; trans(block, states) -> states"""
        IN = {0: frozenset(entry)}; st = [0]
        while st:
            b = st.pop(); out = trans(b, IN[b])
            for x in f.succ(b):
                if f.blocks[x].get("c"): continue
                n = IN.get(x, frozenset()) | out
                if n != IN.get(x): IN[x] = n; st.append(x)
        return frozenset().union(*[trans(b, IN[b]) for b in IN if f.blocks[b]["t"][0] == "ret"] or [frozenset()]), IN
    def closure_states(self, gid):
        g = self.F.fns.get(gid)
        if g is None or not g.blocks: return frozenset("E")
        w, _ = self.ops(g)
        def tr(b, s):
            for v in w.get(b, []): s = frozenset([str(v)]) if v is not None else frozenset("01")
            return s
        return self.flow(g, "E", tr)[0]
    def summary(self, fid):
        if fid in self.sum: return self.sum[fid]
        self.sum[fid] = frozenset("E"); f = self.F.fns[fid]
        for _ in range(3):
            acc = self.accesses(f)
            def tr(b, s):
                t = f.blocks[b]["t"]; e = None
                if b in acc:
                    m, cl, ops = acc[b]
                    if m in ("with", "with_borrow_mut", "with_borrow", "try_with"): e = self.closure_states(cl) if cl else frozenset("E")
                    elif m == "take": e = frozenset("0")
                    elif m in ("set", "replace"): v = self.val(f, ops[0], b, len(f.blocks[b]["s"])); e = frozenset([str(v)]) if v is not None else frozenset("01")
                elif t[0] == "call":
                    fs = [x for x in self.F.targets(t[1].get("fn", "")) if x in self.rel] if t[1].get("fn") else []
                    fs += [x for x in t[1].get("fa") or [] if x in self.rel and "LocalKey" not in t[1].get("fn", "")]
                    if fs: e = frozenset().union(*[self.summary(x) for x in fs])
                elif t[0] == "drop" and self.drops.get(t[2].split("<")[0]) in self.rel: e = self.summary(self.drops[t[2].split("<")[0]])
                return s if e is None else frozenset(y for x in e for y in (s if x == "E" else [x]))
            r, _ = self.flow(f, "E", tr)
            if r == self.sum[fid]: break
            self.sum[fid] = r
        return self.sum[fid]
def above(F, ids):
    """every function from which one of ids can be reached"""
    back = {}
    for x in F.fns:
        for y in F.cg()[x]: back.setdefault(y, set()).add(x)
    out = set(ids); st = list(ids)
    while st:
        for y in back.get(st.pop(), ()):
            if y not in out: out.add(y); st.append(y)
    return out
def run(c):
    c.rule = ("every thread-local mode cell some drawing code reads without setting it: on every way out of every public or trait operation of the renderer "
              "that can switch it on, it is off again or as it was; where drawing code branches on the mode, the branch with the mode on hands its data over; "
              "canvases swapped by a function are swapped back on every way out")
    for F in c.load(("A", "B")):
        D = Dep(F)
        keys = {}
        for f in F.fns.values():
            if f.crate != "ass_renderer" or not f.blocks or istest(f.file): continue
            for b, t in f.calls():
                if "LocalKey" in t[1].get("fn", "") and t[2] and not t[1]["fn"].endswith("::new"):
                    for a in D.op(f, t[2][0], b, len(f.blocks[b]["s"])):
                        if a[0] in ("const", "static") and not a[1].startswith(("core::", "std::")):
                            o = t[2][0]; keys[a[1].split("::{constant")[0]] = f.locals[o[1][0]] if o[0] in ("cp", "mv") else ""
        c.count(f"thread-local cells in {F.tag}", len(keys)); nm = 0
        for key, ty in sorted(keys.items()):
            if not CELLTY.search(ty): continue
            M = Modes(F, D, key); readers = []; setters = set()
            users = {}
            for f in F.fns.values():
                if f.crate == "ass_renderer" and f.blocks and not istest(f.file):
                    a = M.accesses(f)
                    if a: users[f.id] = a
            for fid, a in users.items():
                for b, (m, cl, ops) in a.items():
                    if cl and cl in F.fns:
                        w, read = M.ops(F.fns[cl])
                        if read and not w: readers.append((fid, b, cl))
                        if any(1 in v or None in v for v in w.values()): setters.add(fid)
                    elif m in ("get",): readers.append((fid, b, None))
                    elif m in ("set", "replace"): setters.add(fid)
            if not readers or not setters: continue
            # a reader is exposed when its function can be entered without having set the cell itself
            if not any(rf not in setters for rf, b, cl in readers): c.ok(f"{key.rsplit('::', 1)[-1]}: read only where it was just set"); continue
            nm += 1
            M.rel = above(F, set(users))
            n = 0
            for x in sorted(M.rel):
                f = F.fns[x]
                if f.kind == "closure" or istest(f.file) or not (f.pub or (f.impl_trait if hasattr(f, "impl_trait") else x.startswith("<"))): continue
                n += 1
                c.need("1" not in M.summary(x), f"mode:{key.rsplit('::', 1)[-1]}:{f.name}", f"{short(x)} can return with {key.rsplit('::', 1)[-1]} still on", loc(f))
            c.floor(f"operations around {key.rsplit('::', 1)[-1]} in {F.tag}", n, 1)
            for fid, b, cl in readers:
                if not cl: continue
                g = F.fns[cl]
                if g.locals[0] != "()": continue
                handed(c, F, D, M, g, key)
        c.count(f"mode cells in {F.tag}", nm)
        swaps(c, F)
def handed(c, F, D, M, g, key):
    for b in g.rpo():
        t = g.blocks[b]["t"]
        if t[0] != "switch" or t[1][0] not in ("cp", "mv"): continue
        ds = [s for s in g.blocks[b]["s"] if s[0] == "=" and s[1] == t[1][1] and s[2][0] == "disc" and "Option<&mut " in s[2][2]]
        if not ds: continue
        on = [x for v, x in t[2] if v == "1"] or [t[3]]
        puts = {b2 for b2, x in g.calls() if re.search(r"::(push|extend\w*|append|insert|push_back)$", x[1].get("fn", ""))}
        seen = set(); st = list(on); miss = False
        while st:
            y = st.pop()
            if y in seen or y in puts or g.blocks[y].get("c"): continue
            seen.add(y)
            if g.blocks[y]["t"][0] == "ret": miss = True
            st += g.succ(y)
        # a loop over what there is to hand over may be empty
        loopy = any(re.search(r"::(next|is_empty|len)$", x[1].get("fn", "")) for b2, x in g.calls() if b2 in seen)
        c.need(not miss or loopy, f"handed:{g.id.split('::')[-2]}", f"while {key.rsplit('::', 1)[-1]} is on, {short(g.parent or g.id)} can drop what it would have drawn", loc(g, t[-1]))
def swaps(c, F):
    n = 0
    for f in F.fns.values():
        if f.crate != "ass_renderer" or not f.blocks or istest(f.file): continue
        sw = {}
        for b, t in f.calls():
            if t[1].get("fn", "").endswith("mem::swap"):
                pl = []
                for o in t[2]:
                    if o[0] in ("cp", "mv"):
                        l = o[1][0]; p = None
                        for _ in range(4):
                            d = [s for b2, i, s in f.stmts() if s[0] == "=" and s[1] == [l] and s[2][0] == "ref"]
                            if len(d) != 1: break
                            p = d[0][2][2]
                            if len(p) == 2 and p[1] == "*": l = p[0]
                            else: break
                        pl.append(str([p[0]] + [e[1] if isinstance(e, list) else e for e in p[1:]]) if p and any(isinstance(e, list) and e[0] == "f" for e in p[1:]) else None)
                if len(pl) == 2 and all(pl) and all(p.startswith("[1,") for p in pl): sw[b] = tuple(sorted(pl))
        if not sw: continue
        for pair in set(sw.values()):
            IN = {0: frozenset([0])}; st = [0]; bad = None
            while st:
                b = st.pop(); o = frozenset(1 - x for x in IN[b]) if sw.get(b) == pair else IN[b]
                if f.blocks[b]["t"][0] == "ret" and 1 in o: bad = b
                for x in f.succ(b):
                    if f.blocks[x].get("c"): continue
                    m = IN.get(x, frozenset()) | o
                    if m != IN.get(x): IN[x] = m; st.append(x)
            n += 1
            # a function made to swap two things swaps once
            if len([1 for v in sw.values() if v == pair]) >= 2: c.need(bad is None, f"swap:{f.name}", f"{short(f.id)} can return with its canvases still swapped", loc(f))
    c.count(f"swapped pairs in {F.tag}", n)
