"""E05: a position outside the document (or inside a character, or a reversed range) is refused, never a panic."""
import re
from edits import Edits, DOC, TEXT
from dep import Dep
from climb import Climb
from common import loc, short
ROPE = re.compile(r"ropey::(rope|slice)::Rope(Slice)?(::<'a>|<'a>)?::(byte_to_char|byte_to_line|char_to_byte|char_to_line|line_to_byte|line_to_char|line|byte|char|byte_slice|slice|insert|insert_char|remove|split_off|chunk_at_byte)$")
STR = re.compile(r"(str|String) as core::ops::index::Index(Mut)?<|Index(Mut)?<I> for (str|alloc::string::String)>::index|String::(insert|insert_str|drain|replace_range|remove|split_off|truncate)$|<impl str>::split_at$|str::<impl str>::split_at$")
VEC = re.compile(r"Vec.*::(insert|remove|swap_remove|drain|split_off|split_at)$|VecDeque.*::(insert|range|drain|split_off)$|<impl \[T\]>::(split_at|swap|copy_within)$|(alloc::vec::Vec|\[T\]).*Index(Mut)?<I>.*::index(_mut)?$")
LEN = ("len", "len_bytes", "len_lines", "len_chars", "count")
UNIT = {"lines": ("len_lines", "count"), "bytes": ("len", "len_bytes", "len_utf8"), "chars": ("len_chars", "count"), "items": ("len", "len_lines", "count")}
BND = ("is_char_boundary", "byte_to_char", "char_to_byte")
CLAMP = re.compile(r"::(min|clamp|clamped_to|find|rfind|char_indices|position|floor_char_boundary|next|saturating_sub|checked_sub|byte_to_char|byte_to_line)$")
def posatom(a): return a[0] == "p" and any(o.rsplit("::", 1)[-1] in ("Position", "Range", "LineColumn", "PositionBuilder") for n, o in a[2])
def last(t): return t[1].get("fn", "").rsplit("::", 1)[-1]
class Guards:
    def __init__(self, F, D): self.F = F; self.D = D; self.memo = {}; self.smemo = {}; self.prog = set()
    def switches(self, f):
        """[(block, features)]: conditions with the parameters they compare and with what (len, boundary, each other)"""
        if f.id in self.memo: return self.memo[f.id]
        out = []; D = self.D
        for b in f.rpo():
            t = f.blocks[b]["t"]
            if t[0] != "switch": continue
            at = D.op(f, t[1], b, len(f.blocks[b]["s"]))
            out.append((b, at, self.relations(f, t[1], b)))
        self.memo[f.id] = out
        return out
    def relations(self, f, o, b, depth=0):
        """[(op, left atoms, right atoms)] of the comparisons the operand is computed from (through && || ! and copies)"""
        D = self.D; out = []
        l = o[1][0] if o[0] in ("cp", "mv") and len(o[1]) == 1 else None
        if l is None: return out
        i = len(f.blocks[b]["s"]); st = [(l, b, i)]; seen = set()
        while st:
            l, b, i = st.pop()
            if (l, b, i) in seen: continue
            seen.add((l, b, i))
            for db, di, k, s in D.reaching(f, l, b, i)[0]:
                if k != "=": continue
                rv = s[2]
                if rv[0] in ("bin", "cbin") and rv[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                    out.append((rv[1], D.op(f, rv[2], db, di), D.op(f, rv[3], db, di), db))
                elif rv[0] in ("bin", "cbin"):
                    for x in rv[2:4]:
                        if x[0] in ("cp", "mv") and len(x[1]) == 1: st.append((x[1][0], db, di))
                elif rv[0] == "use" and rv[1][0] in ("cp", "mv") and len(rv[1][1]) == 1: st.append((rv[1][1][0], db, di))
                elif rv[0] == "un" and rv[2][0] in ("cp", "mv") and len(rv[2][1]) == 1: st.append((rv[2][1][0], db, di))
        return out
    def guarding(self, f, b):
        """conditions that every path to b passes and one way out of which cannot lead to b"""
        dom = f.dom(); up = set(); x = b
        while x in dom and dom[x] != x: x = dom[x]; up.add(x)
        for s, at, rel in self.switches(f):
            if s in up and any(not self.reach(f, y, b, s) for y in f.succ(s)): yield s, at, rel
    def same(self, a, x): return (a[1], a[2]) == (x[1], x[2])
    def lenlike(self, at):
        return (any(a[0] == "call" and a[1].rsplit("::", 1)[-1] in LEN for a in at)) and not any(a[0] == "p" and (posatom(a) or a[2] == () and a[1] > 0 and False) for a in at)
    def weak(self, f, s, b, rel):
        """parameters for which the condition leaves room beyond the length: compared with the length plus something"""
        out = set()
        for op, l, r, db in rel:
            for p, q in ((l, r), (r, l)):
                if self.lenlike(q) and not self.lenlike(p) and any(a[0] == "v" and str(a[1]) not in ("0",) for a in q):
                    out |= {a for a in p if a[0] == "p" and not any(n in TEXT for n, _ in a[2])}
        return out
    def root(self, f, o, b, i):
        """the local an operand is a plain copy of"""
        l = o[1][0] if o[0] in ("cp", "mv") and len(o[1]) == 1 else None
        for _ in range(8):
            ds = self.D.reaching(f, l, b, i)[0] if l is not None else ()
            if len(ds) != 1 or ds[0][2] != "=" or ds[0][3][2][0] != "use" or ds[0][3][2][1][0] not in ("cp", "mv") or len(ds[0][3][2][1][1]) != 1: return l
            b, i, _, s = ds[0]; l = s[2][1][1][0]
        return l
    def strict(self, f, b, arg):
        """on the way to b the parameter was found to be at most (not less than) the length"""
        loose = tight = False
        for s, at, rel in self.guarding(f, b):
            t = f.blocks[s]["t"]; o = t[1]
            if o[0] not in ("cp", "mv") or len(o[1]) != 1: continue
            ds, _ = self.D.reaching(f, o[1][0], s, len(f.blocks[s]["s"]))
            if len(ds) != 1 or ds[0][2] != "=": continue
            rv = ds[0][3][2]
            if rv[0] not in ("bin", "cbin") or rv[1] not in ("Lt", "Le", "Gt", "Ge"): continue
            op = rv[1]; me = self.root(f, arg, b, len(f.blocks[b]["s"])); x, y = (self.root(f, q, ds[0][0], ds[0][1]) for q in rv[2:4])
            if me is None or me not in (x, y): continue
            other = rv[3] if x == me else rv[2]
            if x != me: op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op]
            q = self.D.op(f, other, ds[0][0], ds[0][1])
            if not self.lenlike(q) or any(z[0] == "v" for z in q): continue
            z = [x for v, x in t[2] if v == "0"]
            if not z: continue
            true = self.reach(f, t[3], b, s); false = self.reach(f, z[0], b, s)
            if true == false: continue
            if not true: op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
            if op == "Lt": tight = True
            if op == "Le": loose = True
        return loose and not tight
    def reach(self, f, a, b, avoid):
        st = [a]; seen = set()
        while st:
            x = st.pop()
            if x == b: return True
            if x in seen or x == avoid: continue
            seen.add(x); st += f.succ(x)
        return False
    def features(self, f, b, depth=0):
        """{(param, path)}: feature names, for parameters checked on the way to block b"""
        key = (f.id, b)
        if key in self.smemo: return self.smemo[key]
        if key in self.prog or depth > 4: return {}
        self.prog.add(key); out = {}
        def add(a, feat, d=None): out.setdefault((a[1], tuple(n for n, _ in a[2])), set()).add(feat)
        for s, at, rel in self.guarding(f, b):
            names = {a[1].rsplit("::", 1)[-1] for a in at if a[0] == "call"}
            ps = [a for a in at if a[0] == "p" and not any(n in TEXT for n, _ in a[2])]
            weak = self.weak(f, s, b, rel)
            for a in ps:
                if any(self.same(a, x) for x in weak): add(a, "weak"); continue
                for u, ns in UNIT.items():
                    if names & set(ns): add(a, u)
                if any(n in TEXT for x in at if x[0] == "p" for n, _ in x[2]): add(a, "bytes")
                if names & set(BND): add(a, "bound"); add(a, "bytes")
                add(a, "any")
            for op, l, r, db in rel:
                if op in ("Eq", "Ne"): continue
                L = [a for a in l if a[0] == "p" and not any(n in TEXT for n, _ in a[2])]; R = [a for a in r if a[0] == "p" and not any(n in TEXT for n, _ in a[2])]
                for x in L:
                    for y in R:
                        if not self.same(x, y): add(x, "order"); add(y, "order")
            # results of helpers that check
            for cb, t in f.calls():
                if t[4] < 0: continue
                for x in self.F.targets(t[1].get("fn", "")):
                    g = self.F.fns.get(x)
                    if not g or not ("ass_editor" in g.id or "ass_core" in g.id) or len(g.blocks) > 80: continue
                    if not self.decides(f, t[3], s): continue
                    for (k, path), fs in self.okfeatures(g, depth + 1).items():
                        if k < len(t[2]):
                            for a in self.D.op(f, t[2][k], cb, len(f.blocks[cb]["s"]), tuple((n, "") for n in path)):
                                if a[0] == "p":
                                    for z in fs: add(a, z)
                            # by name, when the path types do not matter
                            for a in self.D.op(f, t[2][k], cb, len(f.blocks[cb]["s"])):
                                if a[0] == "p":
                                    q = (a[1], tuple(n for n, _ in a[2]) + tuple(path)); out.setdefault(q, set()).update(fs)
                                    q = (a[1], tuple(n for n, _ in a[2])); out.setdefault(q, set()).update(fs)
        self.prog.discard(key); self.smemo[key] = out
        return out
    def decides(self, f, dst, s):
        """the switch depends on the call's result"""
        at = f.blocks[s]["t"][1]
        if at[0] not in ("cp", "mv"): return False
        st = [(at[1][0], s, len(f.blocks[s]["s"]))]; seen = set()
        while st:
            l, b, i = st.pop()
            if l == dst[0]: return True
            if (l, b, i) in seen or len(seen) > 40: continue
            seen.add((l, b, i))
            for db, di, k, x in self.D.reaching(f, l, b, i)[0]:
                if k == "=":
                    rv = x[2]
                    for o in (rv[1:2] if rv[0] == "use" else [["cp", rv[1]]] if rv[0] == "disc" else [["cp", rv[2]]] if rv[0] == "ref" else rv[2:4] if rv[0] in ("bin", "cbin", "un") else []):
                        if isinstance(o, list) and o and o[0] in ("cp", "mv"): st.append((o[1][0], db, di))
                elif k == "call":
                    if x[3][0] == dst[0]: return True
                    if last(x) in ("branch", "is_ok", "is_err", "is_some", "is_none", "map_err", "not", "ok", "map", "and_then"):
                        for o in x[2][:1]:
                            if o[0] in ("cp", "mv"): st.append((o[1][0], db, len(f.blocks[db]["s"])))
        return False
    def okfeatures(self, g, depth):
        """features checked before a successful return of g"""
        res = None
        for b, i, s in g.stmts():
            if s[0] == "=" and s[1] == [0] and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2].endswith(("::Ok", "::Some")):
                fs = {k: set(v) for k, v in self.features(g, b, depth).items()}
                res = fs if res is None else {k: res[k] & fs[k] for k in res if k in fs}
        if res is None:
            if g.locals and g.locals[0] == "bool" and g.id.startswith("ass_"):
                res = {}
                at = self.D.ret(g.id, ())
                names = {a[1].rsplit("::", 1)[-1] for a in at if a[0] == "call"}
                for a in at:
                    if a[0] == "p" and not any(n in TEXT for n, _ in a[2]):
                        fs = {u for u, ns in UNIT.items() if names & set(ns)} | ({"bound", "bytes"} if names & set(BND) else set())
                        res[(a[1], tuple(n for n, _ in a[2]))] = fs
            else: res = {}
            # a result computed by a helper
            for b, t in g.calls():
                if t[3] == [0]:
                    for x in self.F.targets(t[1].get("fn", "")):
                        h = self.F.fns.get(x)
                        if h and depth < 4:
                            for (k, path), fs in self.okfeatures(h, depth + 1).items():
                                if k < len(t[2]):
                                    for a in self.D.op(g, t[2][k], b, len(g.blocks[b]["s"]), tuple((n, "") for n in path)):
                                        if a[0] == "p": res.setdefault((a[1], tuple(n for n, _ in a[2])), set()).update(fs)
                    for k, v in self.features(g, b, depth).items(): res.setdefault(k, set()).update(v)
        return res or {}
def run(c):
    c.rule = ("every call that panics when a position lies outside the text (rope and string access, vector access by a position or line number) whose argument comes from a "
              "caller's position: the position is compared with the length on every path to it, here or in every caller; range ends are ordered; text writes check character boundaries")
    for F in c.load(("A", "B", "C")):
        E = Edits(F); D = E.D; G = Guards(F, D); K = Climb(F, D); n = 0
        for f in E.fns:
            if f.derived or not f.file.endswith(".rs"): continue
            for b, t in f.calls():
                fn = t[1].get("fn", "")
                rope = bool(ROPE.search(fn)); st = bool(STR.search(fn)) and not rope; vec = bool(VEC.search(fn)) and not rope and not st
                if not (rope or st or vec) or len(t[2]) < 2: continue
                i = len(f.blocks[b]["s"])
                args = t[2][1:2] if last(t) in ("insert", "insert_str", "insert_char") else t[2][1:]
                at = set().union(*[D.op(f, o, b, i) for o in args])
                if any(a[0] == "call" and CLAMP.search(a[1]) and a[1].rsplit("::", 1)[-1] in ("min", "clamp", "clamped_to", "floor_char_boundary", "position", "rposition", "binary_search", "partition_point") for a in at): n += 1; c.ok(); continue
                if rope and any(a[0] == "call" and ROPE.search(a[1]) for a in at) and not b in E.prim.get(f.id, {}): n += 1; continue   # converted: checked where it was converted
                ps = {a for a in at if a[0] == "p" and not any(x in TEXT for x, _ in a[2]) and (posatom(a) or (rope or vec) and scalar(f, a))}
                if not ps: continue
                write = b in E.prim.get(f.id, {})
                order = reversed_ends(D, f, t, args, b, i) if last(t) in ("byte_slice", "slice", "remove", "drain", "index", "index_mut", "replace_range") else None
                need(c, F, E, G, K, f, b, t, ps, order, write or st and any(posatom(a) for a in ps), "vec" if vec else "")
                n += 1
        c.floor(f"position-dependent text accesses in {F.tag}", n, 8)
def scalar(f, a):
    """an integer argument of the function itself"""
    return not a[2] and a[1] < f.argc and f.locals[a[1] + 1] in ("usize", "u32", "i32", "isize")
def reversed_ends(D, f, t, args, b, i):
    for o in args[:1]:
        s = {a for a in D.op(f, o, b, i, (("start", "core::ops::range::Range"),)) if a[0] == "p" and not any(x in TEXT for x, _ in a[2])}
        e = {a for a in D.op(f, o, b, i, (("end", "core::ops::range::Range"),)) if a[0] == "p" and not any(x in TEXT for x, _ in a[2])}
        if s and e and not s & e: return s, e
    return None
def has(fe, a, feat):
    p = (a[1], tuple(x for x, _ in a[2]))
    return feat in fe.get(p, ()) or any(k[0] == p[0] and (k[1] == p[1][:len(k[1])] or p[1] == k[1][:len(p[1])]) and feat in v for k, v in fe.items() if k[1] == p[1] or not k[1] or p[1][:len(k[1])] == k[1])
def unit(what, kind):
    return "lines" if what.startswith("line") else "chars" if what.startswith("char") and what != "char_to_byte" else "items" if kind == "vec" else "bytes"
def bounded(fe, a, u):
    """compared with the length, or ordered before the other end of its range which is"""
    return has(fe, a, u) or (has(fe, a, "order") and any(k[0] == a[1] and u in v and "order" in v and k[1][:-1] and k[1] != tuple(x for x, _ in a[2]) for k, v in fe.items()))
def need(c, F, E, G, K, f, b, t, ps, order, write, kind):
    depth = 0; u = unit(last(t), kind); fe = G.features(f, b); where = loc(f, t[-1])
    miss = [a for a in ps if not bounded(fe, a, u)]
    what = last(t)
    root = f.pub or f.trait or f.kind == "closure"
    if miss:
        if root or f.kind == "closure":
            nm = ".".join(x for x, _ in miss[0][2]) or f"argument {miss[0][1]}"
            c.bad(f"unchecked:{f.name}:{what}", f"{short(f.id)} reaches {what} with {nm} not compared with the length of the text on every path", where)
        elif depth < 3: climb(c, F, E, G, K, f, miss, u, what, where, depth)
    else: c.ok()
    if what in ("line", "byte", "char") and depth == 0 and not miss and not any(a[0] == "call" and ROPE.search(a[1]) for a in G.D.op(f, t[2][1], b, len(f.blocks[b]["s"]))):
        w = G.strict(f, b, t[2][1])
        c.need(not w, f"last-plus-one:{f.name}:{what}", f"{short(f.id)} reaches {what} with a value that may equal the length", where)
    if order:
        o = [a for a in order[0] if not has(fe, a, "order")]
        if o and not (root is False and K.callers.get(f.id)): c.bad(f"reversed:{f.name}:{what}", f"{short(f.id)} reaches {what} with a range whose start may lie after its end", where)
        else: c.ok()
    if write:
        o = [a for a in ps if not has(fe, a, "bound")]
        if o: c.bad(f"inside-character:{f.name}:{what}", f"{short(f.id)} cuts or changes the text at a position that was not checked to be the start of a character", where)
        else: c.ok()
def climb(c, F, E, G, K, f, miss, u, what, where, depth):
    for (g, b, t) in K.callers.get(f.id, ()):
        if isinstance(t, tuple) or "ass_editor" not in g.id: continue
        fn, args = G.D.args_of(t); i = len(g.blocks[b]["s"]); ps = set()
        for a in miss:
            if a[1] < len(args): ps |= {x for x in G.D.evalarg(g, args[a[1]], b, i, a[2], set()) if x[0] == "p" and not any(y in TEXT for y, _ in x[2])}
        fe = G.features(g, b)
        m = [a for a in ps if not bounded(fe, a, u)]
        if not m: c.ok(); continue
        if g.pub or g.trait or g.kind == "closure": c.bad(f"unchecked:{f.name}:{what}:{g.name}", f"{short(g.id)} reaches {what} in {short(f.id)} with a position not compared with the length of the text", loc(g, t[-1]))
        elif depth < 3: climb(c, F, E, G, K, g, m, u, what, where, depth + 1)
