"""Panic sites decided with zone.py: an abstract interpreter for MIR bodies with models of the text, sequence, option and iterator
operations, inlined summaries of local functions, contexts for private ones, and class invariants index-field <= length-of-field."""
import re, time
from collections import defaultdict
from zone import State, Z, OK, INT, UNS, MAXV, MINV, SEQ, STR, ALIAS, COPYLEN, has, sub, subf, lt, atoms, mention, forget
KMAX = 6
MUTREF = re.compile(r"^&mut ")
def splitargs(s):
    out = []; d = 0; cur = ""
    for i, ch in enumerate(s):
        if ch in "<([{": d += 1
        elif ch in ")]}" or (ch == ">" and s[i-1] != "-"): d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def gen(ty):
    """generic arguments of the outermost type"""
    i = ty.find("<")
    return [a for a in splitargs(ty[i+1:ty.rfind(">")]) if not a.startswith("'")] if i >= 0 else []
def strip(p):
    while p.endswith("*"): p = p[:-1]
    return p
def deref(ty): return re.sub(r"^&('\w+ )?(mut )?", "", ty)
def head(ty): return re.sub(r"<.*", "", ty)
ELEM = re.compile(r"(::index(_mut)?$|::next(_back)?$|::(get|get_mut|first|last|peek|pop|nth|get_unchecked|iter|chars|bytes|char_indices|as_bytes|lines|split\w*|trim\w*|to_\w+|parse|into_iter|keys|values|find|rfind|position)$)")

class Fun:
    """static view of one body: canonical places, types, aliases"""
    def __init__(self, A, f):
        self.A = A; self.F = A.F; self.f = f; self.defs = defaultdict(list); self.addrmut = defaultdict(int)
        for b, i, s in f.stmts():
            if s[0] == "=" and len(s[1]) == 1: self.defs[s[1][0]].append((b, i, s[2]))
            elif s[0] == "=" and "*" not in s[1][1:]: self.defs[s[1][0]].append((b, i, None)) if False else None
        for b, t in f.calls():
            if len(t[3]) == 1: self.defs[t[3][0]].append((b, None, t))
        self._pl = {}; self._root = {}; self.busy = set()
    def isarg(self, l): return 1 <= l <= self.f.argc
    def single(self, l):
        d = self.defs.get(l, ())
        return d[0] if len(d) == 1 and not self.isarg(l) else None
    def stable(self, place):
        """value of the place does not change while a copy of it is in use (approximately: immutable field or single-def local)"""
        l = place[0]
        if len(self.defs.get(l, ())) + self.isarg(l) != 1: return False
        ty = self.f.locals[l]
        for k, e in enumerate(place[1:]):
            if e == "*": continue
            if isinstance(e, list) and e[0] == "f":
                if ty.startswith("&mut") or (not ty.startswith("&")):
                    if (e[3], e[1]) in self.A.mutfields: return False
                continue
            if isinstance(e, list) and e[0] in ("d", "i", "ci"): continue
            return False
        return True
    def local(self, l):
        """canonical path of the place a local reference is; None if it is not a fixed alias"""
        if l in self._pl: return self._pl[l]
        if l in self.busy: return None
        self.busy.add(l); r = None
        d = self.single(l); ty = self.f.locals[l]
        if d and ty.startswith("&"):
            rv = d[2]
            if d[1] is not None and rv is not None:
                if rv[0] == "ref":
                    if not (isinstance(rv[2][-1], list) and rv[2][-1][0] == "i" and deref(ty) in ("char", "u8")): r = ("ref", self.pl(rv[2])) # else a value read at that moment
                elif rv[0] == "use" and rv[1][0] in ("cp", "mv") and self.stable(rv[1][1]): r = ("val", self.pl(rv[1][1]))
                elif rv[0] == "cast" and rv[2][0] in ("cp", "mv") and len(rv[2][1]) == 1: r = ("val", self.pl(rv[2][1]))
                elif rv[0] in ("use", "cast"):
                    o = rv[1] if rv[0] == "use" else rv[2]
                    if o[0] == "k" and ("str" in o[1] or "promoted" in o[1] or "bytes" in o[1] or "hex" in o[1]): r = ("val", self.A.lit(self.f, o[1]))
            elif d[1] is None and len(rv[2]) >= 1 and ALIAS.search(rv[1].get("fn", "")) and rv[2][0][0] in ("cp", "mv"):
                o = rv[2][0][1]; ta = self.tyof(o)
                if SEQ.match(ty) and SEQ.match(ta) and len(o) == 1 and (ta.startswith("&")): r = ("deref", self.pl(o))
            elif d[1] is None and len(rv[2]) == 1 and re.search(r"::(by_ref|into_iter)$", rv[1].get("fn", "")) and rv[2][0][0] in ("cp", "mv") and len(rv[2][0][1]) == 1 and self.tyof(rv[2][0][1]) == ty and ty.startswith("&mut"):
                r = ("deref", self.pl(rv[2][0][1]))
        self.busy.discard(l); self._pl[l] = r
        return r
    def pl(self, place):
        p = f"_{place[0]}"; l = place[0]; first = True
        for e in place[1:]:
            if e == "*":
                m = re.fullmatch(r"_(\d+)", p)
                a = self.local(int(m.group(1))) if m and int(m.group(1)) < len(self.f.locals) else None
                if a and a[1] is not None:
                    if a[0] == "ref": p = a[1]
                    elif a[0] == "val": p = self.star(a[1])
                    else: p = self.star(a[1])
                else: p += "*"
            elif isinstance(e, list):
                if e[0] == "f":
                    p += "." + e[1]
                elif e[0] == "d": p += "!" + ("S" if e[1] in OK else e[1])
                else: p += "[]"
            else: p += "?"
        return p
    def star(self, p):
        m = re.fullmatch(r"_(\d+)", p)
        if m and int(m.group(1)) < len(self.f.locals):
            return self.pl([int(m.group(1)), "*"])
        return p + "*"
    def root(self, p):
        """path that stands for the text or sequence held at, or referred to by, a place"""
        p = strip(p)
        if p in self._root: return self._root[p]
        m = re.fullmatch(r"_(\d+)", p); r = p
        if m and int(m.group(1)) < len(self.f.locals):
            l = int(m.group(1)); self._root[p] = p
            d = self.single(l); ty = self.f.locals[l]
            a = self.local(l) if ty.startswith("&") else None
            if a and a[1] is not None: r = self.root(a[1])
            elif d and SEQ.match(ty):
                rv = d[2]
                if d[1] is not None and rv is not None and rv[0] == "use" and rv[1][0] in ("cp", "mv") and self.stable(rv[1][1]): r = self.root(self.pl(rv[1][1]))
                elif d[1] is None and ALIAS.search(rv[1].get("fn", "")) and rv[2] and rv[2][0][0] in ("cp", "mv") and len(rv[2][0][1]) == 1 and SEQ.match(self.tyof(rv[2][0][1])):
                    r = self.root(self.pl(rv[2][0][1]))
        self._root[p] = r
        return r
    def tyof(self, place):
        ty = self.f.locals[place[0]]; var = None
        for e in place[1:]:
            if e == "*": ty = re.sub(r"^alloc::boxed::Box<(.*)>$", r"\1", ty) if not ty.startswith("&") else deref(ty)
            elif isinstance(e, list) and e[0] == "d": var = e[1]
            elif isinstance(e, list) and e[0] == "f":
                ty = self.fieldty(ty, e[1], var, e[3]); var = None
            elif isinstance(e, list):
                ty = re.sub(r"^\[(.*?)(; \w+)?\]$", r"\1", ty) if e[0] in ("i", "ci") else ty
            else: return "?"
        return ty
    def fieldty(self, ty, name, var, owner):
        return self.A.fieldty(ty, name, var, owner)

def hide(s, dead):
    """facts on how a piece starts or ends leave a trace on the text it is a piece of"""
    up = None
    for f in list(s.facts):
        if f[0] in ("pre", "suf", "hid") and dead(f[1]):
            if up is None:
                up = {}
                for g in s.facts:
                    if g[0] == "sub": up.setdefault(g[1], set()).add(g[2])
            st = [f[1]]; seen = set()
            while st:
                for y in up.get(st.pop(), ()):
                    if y in seen: continue
                    seen.add(y); st.append(y)
                    if not dead(y): s.facts.add(("hid", y))
class An:
    """shared context of one feature set"""
    def __init__(self, F, crates):
        self.F = F; self.crates = crates; self.lits = {}; self.sums = {}; self.ctxsums = {}; self.limit = 90; self.busy = set(); self.funs = {}; self.inv = {}; self.ctx = {}; self.mods = {}; self.invclosure = set(); self.strfields = set()
        self.mutfields = set()
        for f in F.fns.values():
            if "test" in f.file: continue
            for b, i, s in f.stmts():
                if s[0] != "=": continue
                if len(s[1]) > 1 and isinstance(s[1][-1], list) and s[1][-1][0] == "f": self.mutfields.add((s[1][-1][3], s[1][-1][1]))
                if s[2][0] == "ref" and s[2][1] == 1:
                    for e in s[2][2][1:]:
                        if isinstance(e, list) and e[0] == "f": self.mutfields.add((e[3], e[1]))
            for b, t in f.calls():
                if len(t[3]) > 1 and isinstance(t[3][-1], list) and t[3][-1][0] == "f": self.mutfields.add((t[3][-1][3], t[3][-1][1]))
        self.litlen = {}
        self.rec = None
    def fun(self, f):
        if f.id not in self.funs: self.funs[f.id] = Fun(self, f)
        return self.funs[f.id]
    def litstr(self, f, k):
        if "str" in k: return k["str"]
        if "bytes" in k: return k["bytes"]
        if "hex" in k: return bytes.fromhex(k["hex"]).decode("latin1")
        if "promoted" in k:
            if re.match(r"^&\[(?!u8;).*; \d+\]$", k.get("ty", "")): return None # a list of texts is not a text
            g = self.F.fns.get(k.get("of"), f)
            try: pb = g.promoted[k["promoted"]]
            except Exception: return None
            for bl in pb.get("blocks", []):
                for s in bl["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "array" and s[2][4] and all(o[0] == "k" and o[1].get("ty") == "u8" and "val" in o[1] for o in s[2][4]):
                        return bytes(int(o[1]["val"]) for o in s[2][4]).decode("latin1")
                    if s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "k" and ("str" in s[2][1][1] or "bytes" in s[2][1][1]):
                        return s[2][1][1].get("str", s[2][1][1].get("bytes"))
            return None
        return None
    def litarr(self, f, k):
        """length of a promoted or constant array reference"""
        m = re.match(r"^&\[.*; (\d+)\]$", k.get("ty", "")); return int(m.group(1)) if m else None
    def lit(self, f, k):
        s = self.litstr(f, k); n = self.litarr(f, k)
        key = (s, n, k.get("ty"), k.get("promoted"), k.get("of"))
        if key not in self.lits:
            self.lits[key] = f"_{900000 + len(self.lits)}"
            self.litlen[self.lits[key]] = (len(s.encode("utf8", "surrogatepass")) if s is not None and "str" in k.get("ty", "") else len(s) if s is not None else n, s)
        return self.lits[key]
    def fieldty(self, ty, name, var, owner):
        if ty.startswith("("):
            a = splitargs(ty[1:-1])
            return a[int(name)] if name.isdigit() and int(name) < len(a) else "?"
        h = head(ty); g = gen(ty)
        if h.endswith("option::Option") and g: return g[0]
        if h.endswith("result::Result") and len(g) > 1: return g[0] if var == "Ok" else g[1]
        if h.endswith("ControlFlow") and len(g) > 1: return g[1] if var == "Continue" else g[0]
        if h.endswith(("range::Range", "range::RangeFrom", "range::RangeTo", "range::RangeInclusive")) and g: return g[0]
        d = self.F.adts.get(owner) or self.F.adts.get(h) or self.F.adts.get(owner.rsplit("::", 1)[0] if "::" in owner else "")
        if d:
            for vn, fs in d["variants"]:
                if var is None or vn == var:
                    for fl in fs:
                        if fl[0] == name: return re.sub(r"&'\w+ ", "&", fl[1])
        return "?"
    def openpath(self, ty, t):
        """every field on the path of a reference argument can be set by any caller"""
        m = re.match(r"[#^$?%@~]*_\d+", t); rest = t[m.end():]; var = None
        for m in re.finditer(r"\*|\.(\w+)|!(\w+)|\[\]", rest):
            if m.group(0) == "*": ty = deref(ty) if ty.startswith("&") else re.sub(r"^alloc::boxed::Box<(.*)>$", r"\1", ty)
            elif m.group(1):
                h = head(ty); d = self.F.adts.get(h)
                if d:
                    fl = [x for vn, fs in d["variants"] if var is None or vn == var for x in fs if x[0] == m.group(1)]
                    if not fl or not fl[0][2] or any(not x[2] for vn, fs in d["variants"] for x in fs): return False
                elif not (ty.startswith("(") or h.endswith(("option::Option", "range::Range", "range::RangeFrom", "range::RangeTo"))): return False
                ty = self.fieldty(ty, m.group(1), var, h); var = None
            elif m.group(2): var = m.group(2)
            else: return False
        return True
    def pathty(self, base, rest):
        """type at rest (a suffix of a canonical path) of a value of type base"""
        ty = base; var = None
        for m in re.finditer(r"\*|\.(\w+)|!(\w+)|\[\]", rest):
            if m.group(0) == "*": ty = deref(ty) if ty.startswith("&") else re.sub(r"^alloc::boxed::Box<(.*)>$", r"\1", ty)
            elif m.group(1): ty = self.fieldty(ty, m.group(1), var, head(ty)); var = None
            elif m.group(2):
                var = m.group(2)
                if var == "S": var = "Some" if "Option" in head(ty) else "Ok" if "Result" in head(ty) else "Continue"
            else: ty = "?"
        return ty
    def varidx(self, adt):
        """discriminant of a variant path, or None"""
        e, v = adt.rsplit("::", 1)
        if v in ("None", "Ok", "Continue"): return 0
        if v in ("Some", "Err", "Break") and re.search(r"(Option|Result|ControlFlow)$", e): return 1
        d = self.F.adts.get(e)
        if d and d["enum"]:
            for i, (vn, fs) in enumerate(d["variants"]):
                if vn == v: return i
        return None

CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}
NEG = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}
WIDTH = {"u8": 255, "u16": 65535, "u32": 4294967295, "u64": (1 << 64) - 1, "usize": (1 << 64) - 1}
NOINFO = re.compile(r"(::(contains|any|all|eq|ne|lt|le|gt|ge|cmp|partial_cmp|eq_ignore_ascii_case|is_ascii\w*|is_alphabetic|is_alphanumeric|is_numeric|is_digit|is_whitespace|"
                    r"is_control|is_uppercase|is_lowercase|contains_key|is_finite|is_nan|is_infinite|is_empty|insert|remove|is_some_and|is_ok_and|matches|enabled)$)")
def merge_rec(d, k, v):
    if k not in d or v is None: d[k] = v
    else: d[k] = {"n": d[k]["n"] + v["n"], "fails": d[k]["fails"] + v["fails"], "what": v["what"], "line": v["line"]}
class Run:
    """fixpoint over one body; self.out: exit states; obligations go to self.obs when recording"""
    def __init__(self, A, f, entry=None, record=None, inlined=False):
        self.A = A; self.F = A.F; self.f = f; self.fu = A.fun(f); self.record = record; self.mods = set(); self.inlined = inlined
        self.entry = entry; self.cur = (0, 0); self.calls = [] if record is not None else None
        self.limit = 0; self.depth = 0; self.inl = {}
    # ---- values ----
    def ty(self, place): return self.fu.tyof(place)
    def pl(self, place): return self.fu.pl(place)
    def root(self, p): return self.fu.root(p)
    def ensure(self, s, t, ty=None, path=None):
        """range facts of a term when it is first seen"""
        if t == Z: return
        p = t[1:] if t[0] in "#^$?%@~" else t
        if t[0] == "#":
            n = self.A.litlen.get(p)
            if n and n[0] is not None:
                s.eq(t, Z, n[0])
            else:
                if not s.knows(Z, t, 0): s.le(Z, t, 0)
                m = re.fullmatch(r"_(\d+)", p)
                ty0 = self.f.locals[int(m.group(1))] if m and int(m.group(1)) < len(self.f.locals) else ""
                m2 = re.match(r"^(?:&(?:mut )?)*\[.*; (\d+)\]$", ty0)
                if m2: s.eq(t, Z, int(m2.group(1)))
        elif t[0] == "@": s.le(Z, t, -1); s.le(t, Z, 4)
        elif t[0] in "?%^$": s.le(Z, t, 0)
        elif ty and UNS.match(ty):
            if not s.knows(Z, t, 0): s.le(Z, t, 0)
            if ty not in ("usize", "u64", "u128"): s.le(t, Z, MAXV[ty])
        elif ty in MINV and ty not in ("i128", "isize", "i64"): s.le(Z, t, -MINV[ty]); s.le(t, Z, MAXV[ty])
        if p.startswith("_") and "." in p and "*" in p.split(".")[0] and 1 <= lt(p) <= self.f.argc and (t not in s.m and not any(t in r for r in s.m.values())): s.lossy.add(t)
    def val(self, s, o):
        """(term, offset) of an integer operand"""
        if o[0] == "k":
            v = o[1].get("val")
            try: return (Z, int(v)) if v is not None else None
            except ValueError: return None
        if o[0] in ("cp", "mv"):
            p = self.pl(o[1]); ty = self.ty(o[1])
            if not INT.match(ty) and ty != "?": return None
            if "[]" in p: return None
            self.ensure(s, p, ty); return (p, 0)
        return None
    def seq(self, s, o):
        """root of a text or sequence operand, its length ensured"""
        if o[0] == "k": r = self.A.lit(self.f, o[1])
        elif o[0] in ("cp", "mv"): r = self.root(self.pl(o[1]))
        else: return None
        self.lenof(s, r)
        return r
    def lenof(self, s, r):
        self.ensure(s, "#" + r)
        n = self.A.litlen.get(r)
        if n and n[0] is None: s.guards[r] = frozenset(["?"]); s.lossy.add("#" + r)
        if n and n[1] is not None and ("pre", r, n[1]) not in s.facts:
            s.facts.add(("pre", r, n[1])); s.facts.add(("suf", r, n[1]))
            if n[1].isascii(): s.facts.add(("ascii", r))
    def kill(self, s, p, root=True):
        s.kill(p)
        if root:
            r = self.root(p)
            if r != strip(p): s.kill(r)
        l = lt(p)
        if 1 <= l <= self.f.argc and p != f"_{l}" : self.mods.add(p)
        m = re.match(r"_(\d+)\*", p)
        if m and int(m.group(1)) < len(self.f.locals) and not self.fu.isarg(int(m.group(1))):
            for d in self.fu.defs.get(int(m.group(1)), ()):
                if d[1] is not None and d[2] is not None and d[2][0] == "ref": s.kill(self.pl(d[2][2]))
                elif d[1] is not None and d[2] is not None and d[2][0] == "use" and d[2][1][0] in ("cp", "mv"): s.kill(self.fu.star(self.pl(d[2][1][1])))
    def setval(self, s, dst, v, ty):
        """dst := v (term, offset) or unknown"""
        if v and v[0] == dst:
            if v[1]:
                s2 = s
                for a in list(s2.m):
                    if a == dst:
                        for b in s2.m[a]: s2.m[a][b] += v[1]
                    elif dst in s2.m[a]: s2.m[a][dst] -= v[1]
                def sh(f):
                    if f[0] in ("bd", "at", "byte", "cur", "pat", "chr") and f[2] == dst: f = f[:3] + (f[3] - v[1],) + f[4:]
                    if f[0] == "cur" and f[4] == dst: f = f[:5] + (f[5] - v[1],)
                    return f
                def m2(x): return any(m2(y) for y in x) if isinstance(x, tuple) else x == dst
                s.facts = {sh(f) for f in s.facts if f[0] == "cur" and dst not in (f[1],) or f[0] in ("bd", "at", "byte", "pat", "chr") and f[2] == dst and not m2(f[4:]) or not m2(f)}
                for k in [k for k, c in s.conds.items() if m2(c)]: del s.conds[k]
                s.guards.pop(dst, None)
                if 1 <= lt(dst) <= self.f.argc and "*" in dst: self.mods.add(dst)
            return
        if v and mention(v[0], dst): v = None
        lossy = v is not None and v[0] in s.lossy; g = s.guarded(v[0]) if v else None
        self.kill(s, dst)
        if v is None: s.lossy.add(dst); self.ensure(s, dst, ty); s.lossy.add(dst); return
        s.eq(dst, v[0], v[1])
        if lossy: s.lossy.add(dst)
        if g: s.guards[dst] = g
        if v[0] == Z: pass
        elif ty and UNS.match(ty): s.le(Z, dst, 0)
    def free(self, s, dst, ty=None):
        """an arbitrary value the program may receive"""
        self.kill(s, dst)
        if ty is None or INT.match(ty or ""): self.ensure(s, dst, ty)
    def wild(self, s, dst, ty=None):
        self.free(s, dst, ty); r = self.root(dst)
        s.lossy.add(dst); s.lossy.add("#" + r); s.lossy.add("?" + dst); s.lossy.add(dst + "!S.0"); s.lossy.add("#" + dst + "!S.0")
    def copy(self, s, dst, src, ty):
        if dst == src: return
        sc = s.dup
        if mention(src, dst): self.wild(s, dst, ty); return
        self.kill(s, dst, root=self.root(dst) not in (self.root(src),))
        if SEQ.match(ty or ""):
            if self.root(dst) == self.root(src): return
            self.alias(s, self.root(dst), self.root(src)); return
        sc(src, dst)
    def alias(self, s, d, r):
        """new root d holds the same text as r"""
        self.lenof(s, r); s.eq("#" + d, "#" + r, 0)
        for f in list(s.facts):
            if f[0] in ("bd", "pre", "suf", "ascii") and f[1] == r: s.facts.add((f[0], d) + f[2:])
            if f[0] == "sub" and f[1] == r:
                self.subof(s, d, f[2], ("^" + r, 0), ("$" + r, 0))
        if "#" + r in s.lossy: s.lossy.add("#" + d)
        g = s.guards.get("#" + r)
        if g: s.guards["#" + d] = g
    # ---- text facts ----
    def bd(self, s, r, x, off=0): return s.bd(r, x, off)
    def learn(self, s, f):
        """add a fact and what follows"""
        if f[0] == "le": s.le(f[1], f[2], f[3]); return
        if f[0] == "cond":
            r = self.apply(s, f[1], f[2])
            if not r: s.bot = True
            elif len(r) == 1 and r[0] is not s:
                for k in State.__slots__: setattr(s, k, getattr(r[0], k))
            return
        if f in s.facts: return
        if f[0] == "cur" and s.derives(f): return
        s.facts.add(f)
        if f[0] == "cur":
            self.lenof(s, f[1]); s.le(f[4], "#" + f[1], -f[5]); s.le(Z, f[4], f[5]); self.advance(s)
        if f[0] == "at":
            self.ensure(s, "@" + f[4]); h = s.hi(f[4])
            if h is not None and h < 128: s.eq("@" + f[4], Z, 1)
            for g in list(s.facts):
                if g[0] == "at" and g != f and g[1] == f[1] and s.same(g[2], f[2]) is not None and s.same(g[2], f[2]) + g[3] == f[3]: s.eq("@" + g[4], "@" + f[4], 0); s.eq(g[4], f[4], 0)
            self.advance(s)
        if f[0] in ("pre", "suf"):
            n = len(f[2].encode("utf8", "surrogatepass")); self.lenof(s, f[1]); s.le(Z, "#" + f[1], -n)
            o = [g for g in s.facts if g[0] == ("suf" if f[0] == "pre" else "pre") and g[1] == f[1]]
            for g in o: # prefix and suffix cannot share characters they do not have in common
                a, b = (f[2], g[2]) if f[0] == "pre" else (g[2], f[2])
                k = max([0] + [k for k in range(1, min(len(a), len(b)) + 1) if a[-k:] == b[:k]])
                s.le(Z, "#" + f[1], -len((a + b[k:]).encode("utf8", "surrogatepass")))
            for g in list(s.facts):
                if g[0] == "sub" and g[1] == f[1]:
                    if f[0] == "pre":
                        self.learn(s, ("bd", g[2], "^" + f[1], n)); s.le("^" + f[1], "$" + f[1], -n)
                        for h in list(s.facts): # other slices from the same start
                            if h[0] == "sub" and h[2] == g[2] and h[1] != f[1] and s.same("^" + h[1], "^" + f[1]) == 0 and s.same("$" + h[1], "$" + f[1]) == 0: self.learn(s, ("pre", h[1], f[2]))
                    else: self.learn(s, ("bd", g[2], "$" + f[1], -n))
        if f[0] == "bd":
            for g in list(s.facts):
                if g[0] == "sub" and g[1] == f[1]:
                    st = s.same("^" + f[1], Z)
                    if st is not None: self.learn(s, ("bd", g[2], f[2], f[3] + st))
                    k = s.same(f[2], Z)
                    if k is not None: self.learn(s, ("bd", g[2], "^" + f[1], f[3] + k))
    def advance(self, s):
        """cursors: the byte position before a character of known width gives the one after it"""
        for n in range(3):
            ch = False
            for f in list(s.facts):
                if f[0] != "at": continue
                k = s.same("@" + f[4], Z)
                for g in list(s.facts):
                    if g[0] == "cur" and g[1] == f[1]:
                        d = s.same(g[2], f[2])
                        if d is None or d + g[3] != f[3]: continue
                        s.le(g[4], "#" + g[1], -g[5] - (k or 1))
                        if k is not None:
                            h = ("cur", g[1], g[2], g[3] + 1, g[4], g[5] + k)
                            if h not in s.facts and not s.derives(h): s.facts.add(h); ch = True
                        elif s.same(g[4], Z) is not None and "@" + f[4] in s.m:
                            h = ("cur", g[1], g[2], g[3] + 1, "@" + f[4], s.same(g[4], Z) + g[5])
                            if h not in s.facts and not s.derives(h): s.facts.add(h); ch = True
                if k is not None and s.same(f[2], Z) == -f[3] and not s.derives(("cur", f[1], f[2], f[3] + 1, Z, k)): s.facts.add(("cur", f[1], f[2], f[3] + 1, Z, k)); ch = True
                if k is None and s.same(f[2], Z) == -f[3] and "@" + f[4] in s.m and not s.derives(("cur", f[1], f[2], f[3] + 1, "@" + f[4], 0)): s.facts.add(("cur", f[1], f[2], f[3] + 1, "@" + f[4], 0)); ch = True
            if not ch: break
    def subof(self, s, d, b, st, en):
        """root d is b[st..en]; st, en as (term, offset)"""
        self.lenof(s, b); S, E = "^" + d, "$" + d
        for t in (S, E): s.killterm(t)
        s.eq(S, st[0], st[1]); s.eq(E, en[0], en[1])
        s.le(Z, S, 0); s.le(S, E, 0); s.le(E, "#" + b, 0)
        if st[0] in s.lossy: s.lossy.add(S)
        if en[0] in s.lossy: s.lossy.add(E)
        self.lenof(s, d); L = "#" + d
        s.le(L, "#" + b, 0)
        lo, hi = s.lo(S), s.hi(S)
        if hi is not None: s.le(E, L, hi)
        if lo is not None: s.le(L, E, -lo)
        lo, hi = s.lo(E), s.hi(E)
        g = s.get(S, E)
        if g is not None: s.le(Z, L, g)
        g = s.get(E, S)
        if g is not None: s.le(L, Z, g)
        s.facts.add(("sub", d, b))
        for f in list(s.facts):
            if f[0] in ("ascii", "bytes") and f[1] == b: s.facts.add((f[0], d))
        if ("bytes", b) not in s.facts:
            self.learn(s, ("bd", b, S, 0)); self.learn(s, ("bd", b, E, 0))
        if s.same(S, Z) == 0:
            for f in list(s.facts):
                if f[0] == "bd" and f[1] == b and s.knows(f[2], E, -f[3]): self.learn(s, ("bd", d, f[2], f[3]))
        # slices of the same range share their literals
        for g2 in list(s.facts):
            if g2[0] == "sub" and g2[2] == b and g2[1] != d and s.same("^" + g2[1], S) == 0:
                o = g2[1]; same = s.same("$" + o, E) == 0
                if same: s.eq(L, "#" + o, 0)
                for f in list(s.facts):
                    if same and f[0] in ("pre", "suf", "bd", "ascii") and f[1] == o: self.learn(s, (f[0], d) + f[2:])
        if s.same(S, Z) == 0:
            for f in list(s.facts):
                if f[0] == "pre" and f[1] == b and s.knows(Z, L, -len(f[2].encode("utf8", "surrogatepass"))): self.learn(s, ("pre", d, f[2]))
        for f in list(s.facts):
            if f[0] == "chr" and f[1] == b and s.same(f[2], S) == -f[3] and s.knows(Z, L, -1): self.learn(s, ("pre", d, f[4]))
        # transitive
        for g2 in list(s.facts):
            if g2[0] == "sub" and g2[1] == b and g2[2] != d:
                k = s.same("^" + b, Z)
                if k is not None and not any(h[0] == "sub" and h[1] == d and h[2] == g2[2] for h in s.facts) and False: pass
    # ---- conditions ----
    def apply(self, s, c, truth):
        """states in which condition c has the given truth"""
        if c[0] == "not": return self.apply(s, c[1], not truth)
        if c[0] in ("and", "or"):
            if (c[0] == "and") == truth:
                out = []
                for x in self.apply(s, c[1], truth): out += self.apply(x, c[2], truth)
                return out
            a = self.apply(s.copy(), c[1], truth); b = []
            for x in self.apply(s.copy(), c[1], not truth): b += self.apply(x, c[2], truth)
            return a + b
        if c[0] == "cmp":
            op = c[1] if truth else NEG[c[1]]; (x, a), (y, b) = c[2], c[3]
            for t in (x, y): self.ensure(s, t)
            k = b - a # x op y + k
            if op == "Lt": s.le(x, y, k - 1)
            elif op == "Le": s.le(x, y, k)
            elif op == "Gt": s.le(y, x, -k - 1)
            elif op == "Ge": s.le(y, x, -k)
            elif op == "Eq": s.eq(x, y, k)
            else:
                g, h = s.get(x, y), s.get(y, x)
                if g is not None and g == k: s.le(x, y, k - 1)
                if h is not None and h == -k: s.le(y, x, -k - 1)
            self.disc(s)
            return [] if s.bot else [s]
        if c[0] == "disc":
            self.ensure(s, c[1])
            if truth: s.eq(c[1], Z, c[2])
            else:
                if s.same(c[1], Z) == c[2]: return []
                if c[2] == 0: s.le(Z, c[1], -1)
                elif s.hi(c[1]) == c[2]: s.le(c[1], Z, c[2] - 1)
            self.disc(s)
            return [] if s.bot else [s]
        if c[0] == "fact":
            for f in (c[1] if truth else c[2]):
                self.learn(s, f)
                if s.bot: return []
            self.disc(s)
            return [] if s.bot else [s]
        return [s]
    def disc(self, s):
        """consequences of known discriminants"""
        ch = True; n = 0
        while ch and not s.bot and n < 20:
            ch = False; n += 1; moved = False
            for f in list(s.facts):
                if f not in s.facts: continue
                if f[0] == "at":
                    h = s.hi(f[4])
                    if h is not None and h < 128 and s.same("@" + f[4], Z) is None: s.eq("@" + f[4], Z, 1); moved = True
                elif f[0] == "byte":
                    h = s.hi(f[4])
                    if h is not None and h < 128: 
                        self.learn(s, ("bd", f[1], f[2], f[3])); self.learn(s, ("bd", f[1], f[2], f[3] + 1))
                        v = s.same(f[4], Z)
                        if v is not None and v > 0: self.learn(s, ("chr", f[1], f[2], f[3], chr(v)))
                elif f[0] == "chars":
                    for g in list(s.facts):
                        if g[0] == "cur" and g[1] == f[2] and s.knows("#" + f[1], g[2], g[3]) and s.same(g[4], "#" + f[2]) is None: s.eq(g[4], "#" + f[2], -g[5])
                if f[0] == "imp":
                    k = s.same(f[1], Z)
                    if k is not None:
                        s.facts.discard(f)
                        if k == f[2]: self.learn(s, f[3]); ch = True
                elif f[0] == "sat": # positive, so nothing was cut off
                    if s.knows(Z, f[1], -1) and s.same(f[1], f[2]) is None: s.eq(f[1], f[2], f[3]); moved = True
                elif f[0] == "dmap":
                    for a, b in ((f[1], f[2]), (f[2], f[1])):
                        k = s.same(a, Z)
                        if k is not None and s.same(b, Z) is None: s.eq(b, Z, 1 - k if f[3] else k); ch = True
            if moved: self.advance(s)
    # ---- statements ----
    def stmt(self, s, st):
        if st[0] == "setdisc":
            return
        if st[0] != "=": return
        pc = st[1]; dst = self.pl(pc); ty = self.ty(pc); rv = st[2]; k = rv[0]
        if k == "use":
            o = rv[1]
            if o[0] == "k":
                v = self.val(s, o)
                if v and (INT.match(ty) or INT.match(o[1].get("ty", ""))): self.setval(s, dst, v, ty)
                elif SEQ.match(ty) or "str" in o[1]:
                    r = self.A.lit(self.f, o[1])
                    if self.root(dst) != r: self.kill(s, dst); self.lenof(s, r); self.alias(s, self.root(dst), r)
                else: self.free(s, dst, ty)
            elif o[0] in ("cp", "mv"):
                src = self.pl(o[1])
                if INT.match(ty) and "[]" in src:
                    last = o[1][-1]; R = self.root(self.pl(o[1][:-1])) if isinstance(last, list) and last[0] == "i" else None
                    self.free(s, dst, ty)
                    if R and not has(f"_{last[1]}", dst): self.element(s, R, (f"_{last[1]}", 0), dst, ty)
                elif INT.match(ty): 
                    self.ensure(s, src, ty); c = s.conds.get(src); at = ty == "char" and src != dst and any("@" + src == a for a in s.m)
                    self.setval(s, dst, (src, 0), ty)
                    if at: s.eq("@" + dst, "@" + src, 0)
                    if c: s.conds[dst] = c
                elif self.fu.local(pc[0]) and len(pc) == 1: self.kill_new(s, pc[0])
                else: self.copy(s, dst, src, ty)
            else: self.wild(s, dst, ty)
        elif k == "ref":
            if len(pc) == 1 and self.fu.local(pc[0]): self.kill_new(s, pc[0]); return
            src = self.pl(rv[2]); 
            if SEQ.match(ty): self.copy(s, dst, src, ty)
            else:
                self.kill(s, dst); s.dup(src, dst + "*")
                last = rv[2][-1]; et = deref(ty)
                if et in ("char", "u8") and isinstance(last, list) and last[0] == "i":
                    R = self.root(self.pl(rv[2][:-1]))
                    self.ensure(s, dst + "*", et)
                    if R and not has(f"_{last[1]}", dst): self.element(s, R, (f"_{last[1]}", 0), dst + "*", et)
        elif k == "bin": self.binop(s, dst, ty, rv)
        elif k == "un":
            if rv[1] == "Not" and ty == "bool":
                p = self.pl(rv[2][1]) if rv[2][0] in ("cp", "mv") else None
                c = s.conds.get(p); v = s.same(p, Z) if p else None
                self.free(s, dst, ty)
                if v is not None: s.eq(dst, Z, 1 - v)
                if c: s.conds[dst] = ("not", c)
                elif p and not p.startswith(dst): s.conds[dst] = ("not", ("disc", p, 1))
            elif rv[1] == "PtrMetadata":
                r = self.seq(s, rv[2]); self.setval(s, dst, ("#" + r, 0) if r else None, "usize")
            elif rv[1] == "Neg":
                v = self.val(s, rv[2]); 
                lo, hi = (s.lo(v[0]), s.hi(v[0])) if v else (None, None)
                lossy = bool(v) and v[0] in s.lossy
                self.free(s, dst, ty)
                if v and hi is not None: s.le(Z, dst, hi + v[1])
                if v and lo is not None: s.le(dst, Z, -(lo + v[1]))
                if lossy or not v: s.lossy.add(dst)
            else: self.wild(s, dst, ty)
        elif k == "disc":
            p = "?" + self.pl(rv[1]); self.ensure(s, p); self.setval(s, dst, (p, 0), "usize"); s.conds[dst] = ("discof", p)
        elif k == "cast":
            o = rv[2]
            if o[0] in ("cp", "mv") and SEQ.match(ty) and SEQ.match(self.ty(o[1])):
                if len(pc) == 1 and self.fu.local(pc[0]): self.kill_new(s, pc[0])
                else: self.copy(s, dst, self.pl(o[1]), ty)
            elif INT.match(ty) and o[0] in ("cp", "mv") and "*" in self.ty(o[1])[:1]:
                self.free(s, dst, ty); s.lossy.add(dst); s.guards[dst] = frozenset(["?"])
            elif INT.match(ty) and (rv[1].startswith(("IntToInt", "PtrToInt"))):
                v = self.val(s, o); lo, hi = (s.lo(v[0]), s.hi(v[0])) if v else (None, None); sty = self.ty(o[1]) if o[0] != "k" else ty
                if v and v[0] == Z: lo = hi = 0
                fits = v and (ty not in MAXV or (hi is not None and hi + v[1] <= MAXV[ty]) or MAXV.get(sty, 1 << 200) <= MAXV.get(ty, 0)) and ((lo is not None and lo + v[1] >= MINV.get(ty, 0)) or (sty in MINV and ty in MINV and MINV[sty] >= MINV[ty]))
                if sty in ("u64", "usize") and ty in ("usize", "u64"): fits = bool(v)
                if fits: self.setval(s, dst, v, ty)
                else:
                    lossy = v is None or v[0] in s.lossy
                    self.free(s, dst, ty)
                    if lossy: s.lossy.add(dst)
            elif INT.match(ty): self.free(s, dst, ty) # from a float
            else:
                if len(pc) == 1 and self.fu.local(pc[0]): self.kill_new(s, pc[0])
                elif o[0] in ("cp", "mv"): self.copy(s, dst, self.pl(o[1]), ty)
                else: self.free(s, dst)
        elif k == "agg": self.agg(s, dst, ty, rv)
        elif k == "repeat":
            self.kill(s, dst)
            try: s.eq("#" + self.root(dst), Z, int(re.match(r"\d+", rv[2]).group(0)))
            except Exception: self.lenof(s, self.root(dst))
        elif k == "len":
            r = self.root(self.pl(rv[1])); self.lenof(s, r); self.setval(s, dst, ("#" + r, 0), "usize")
        else: self.wild(s, dst, ty)
    def element(self, s, R, x, c, ty):
        """c is the element at position x of the sequence R"""
        if ty == "u8": self.learn(s, ("byte", R, x[0], x[1], c))
        elif ty == "char":
            for f in list(s.facts):
                if f[0] == "chars" and f[1] == R: self.learn(s, ("at", f[2], x[0], x[1], c))
    def kill_new(self, s, l):
        """a reference local with a fixed alias is (re)bound: nothing is known under its own name"""
        s.kill(f"_{l}")
    def agg(self, s, dst, ty, rv):
        kind, what, names, ops = rv[1], rv[2], rv[3], rv[4]
        vals = []
        for o in ops:
            if o[0] in ("cp", "mv"): vals.append(("p", self.pl(o[1]), self.ty(o[1])))
            elif o[0] == "k": vals.append(("k", o, o[1].get("ty", "")))
            else: vals.append(("?", None, ""))
        if any(v[0] == "p" and has(v[1], dst) for v in vals):
            self.wild(s, dst, ty); return
        self.kill(s, dst)
        if kind == "array": s.eq("#" + self.root(dst), Z, len(ops)); return
        if kind == "tuple": pre = [dst + f".{i}" for i in range(len(ops))]
        elif kind == "closure": pre = [dst + "." + (names[i] if i < len(names) else str(i)) for i in range(len(ops))]
        elif kind == "adt":
            vi = self.A.varidx(what); var = what.rsplit("::", 1)[-1]
            base = dst
            if vi is not None:
                s.eq("?" + dst, Z, vi); base = dst + "!" + ("S" if var in OK else var)
            pre = [base + "." + n for n in names]
        else: return
        for p, v in zip(pre, vals):
            if v[0] == "k":
                x = self.val(s, v[1])
                if x: s.eq(p, Z, x[1])
                elif "str" in v[1][1] or SEQ.match(v[2]): self.alias(s, p, self.A.lit(self.f, v[1][1]))
            elif v[0] == "p":
                if INT.match(v[2]):
                    self.ensure(s, v[1], v[2]); s.eq(p, v[1], 0)
                    if v[1] in s.lossy: s.lossy.add(p)
                    if v[1] in s.guards: s.guards[p] = s.guards[v[1]]
                    if v[1] in s.conds: s.conds[p] = s.conds[v[1]]
                elif SEQ.match(v[2]):
                    r = self.root(v[1]); self.alias(s, p, r)
                else:
                    s.dup(v[1], p)
                    m = re.fullmatch(r"_(\d+)", v[1])
                    if m and v[2].startswith("&") and self.fu.local(int(m.group(1))):
                        tgt = self.fu.star(v[1])
                        if not SEQ.match(v[2]): s.dup(tgt, p + "*")
        if kind == "closure" and self.calls is not None:
            g = self.F.fns.get(what)
            if g is not None:
                prs = self.caps(g, dict(zip(names, ops)))
                c = s.copy()
                for o in ops:
                    if o[0] in ("cp", "mv") and self.ty(o[1]).startswith("&mut "): self.wild(c, self.fu.star(self.pl(o[1])))
                n0 = len(self.calls); self.note(c, g, prs)
                if len(self.calls) > n0: self.calls[-1] = ("mk:" + g.id, self.calls[-1][1])
        if kind == "adt": self.checkinv(s, dst, head(ty), what)
    def binop(self, s, dst, ty, rv):
        op, x, y = rv[1], self.val(s, rv[2]), self.val(s, rv[3])
        tx = self.ty(rv[2][1]) if rv[2][0] in ("cp", "mv") else rv[2][1].get("ty", "")
        if op in CMP:
            # comparison of references or floats carries nothing
            c = ("cmp", op, x, y) if x and y and INT.match(tx or "usize") else None
            lossy = False
            self.free(s, dst, "bool")
            if c:
                s.conds[dst] = c
                xt, yt = c[2], c[3]; g = s.get(xt[0], yt[0]); h = s.get(yt[0], xt[0]); k = yt[1] - xt[1]
                tv = None
                if op in ("Lt",): tv = 1 if g is not None and g <= k - 1 else 0 if h is not None and h <= -k else None
                if op in ("Ge",): tv = 0 if g is not None and g <= k - 1 else 1 if h is not None and h <= -k else None
                if op in ("Gt",): tv = 1 if h is not None and h <= -k - 1 else 0 if g is not None and g <= k else None
                if op in ("Le",): tv = 0 if h is not None and h <= -k - 1 else 1 if g is not None and g <= k else None
                if op in ("Eq", "Ne"):
                    if s.same(xt[0], yt[0]) == k: tv = 1 if op == "Eq" else 0
                    elif (g is not None and g < k) or (h is not None and h < -k): tv = 0 if op == "Eq" else 1
                if tv is not None: s.eq(dst, Z, tv)
            elif not INT.match(tx): s.conds[dst] = ("true",)
            return
        ov = op.endswith("WithOverflow"); base = op.replace("WithOverflow", "").replace("Unchecked", "")
        rty = tx
        d = dst + ".0" if ov else dst
        if ov: 
            if x and has(x[0], dst) or y and has(y[0], dst): self.wild(s, dst, ty); return
            s.kill(dst)
        if base in ("BitAnd", "BitOr") and ty == "bool":
            cx = [s.conds.get(self.pl(o[1])) or ("disc", self.pl(o[1]), 1) if o[0] in ("cp", "mv") else None for o in (rv[2], rv[3])]
            self.free(s, d, ty)
            if all(cx): s.conds[d] = ("and" if base == "BitAnd" else "or", cx[0], cx[1])
            return
        r = None; cons = []
        lossy = any(v is None or v[0] in s.lossy for v in (x, y))
        gs = [g for g in (s.guarded(v[0]) for v in (x, y) if v) if g]
        if x and y:
            if base == "Add":
                if y[0] == Z: r = (x[0], x[1] + y[1])
                elif x[0] == Z: r = (y[0], x[1] + y[1])
                else:
                    for a, b in ((x, y), (y, x)):
                        k = s.same(b[0], Z)
                        if k is not None: r = (a[0], a[1] + b[1] + k); break
                    else: r = "sum"
            elif base == "Sub":
                if y[0] == Z: r = (x[0], x[1] - y[1])
                elif s.same(y[0], Z) is not None: r = (x[0], x[1] - y[1] - s.same(y[0], Z))
                elif s.same(x[0], y[0]) is not None: r = (Z, s.same(x[0], y[0]) + x[1] - y[1])
                else: r = "diff"
        if isinstance(r, tuple):
            if ov: s.eq(d, r[0], r[1])
            else: self.setval(s, d, r, ty)
            if ov and r[0] in s.lossy: s.lossy.add(d)
        else:
            cons = self.nonlin(s, base, x, y, r, rty)
            f2 = []
            if r == "sum": f2 = self.sumfacts(s, x, y)
            if r == "diff": f2 = self.difffacts(s, x, y)
            xx = None
            if x and x[0] == d or y and y[0] == d:
                T = "_999999"; s.killterm(T)
                for c in cons: s.le(*[T if q == "D" else q for q in c[:2]], c[2])
                f2 = [tuple(T if q == "D" else q for q in f) for f in f2]
                for f in f2: self.learn(s, f)
                self.kill(s, d)
                s2 = s.rename([(T, d)])
                for k in State.__slots__: setattr(s, k, getattr(s2, k))
            else:
                if not ov: self.kill(s, d)
                for c in cons: s.le(*[d if q == "D" else q for q in c[:2]], c[2])
                for f in f2: self.learn(s, tuple(d if q == "D" else q for q in f))
            if not ov: self.ensure(s, d, rty)
            if lossy: s.lossy.add(d)
        for g in gs: s.guards[d] = s.guards.get(d, frozenset()) | g
        if ov: s.conds[dst + ".1"] = ("ovf",)
    def nonlin(self, s, base, x, y, r, ty):
        """constraints on the result D of an operation that is not linear in one variable"""
        out = []
        if not x or not y: return [(Z, "D", 0)] if UNS.match(ty or "") and base in ("Rem", "BitAnd", "Shr", "Div") else []
        def lo(v): l = 0 if v[0] == Z else s.lo(v[0]); return None if l is None else l + v[1]
        def hi(v): h = 0 if v[0] == Z else s.hi(v[0]); return None if h is None else h + v[1]
        uns = UNS.match(ty or "usize")
        if base == "Add":
            for a, b in ((x, y), (y, x)):
                for t in list(s.m.get(b[0], {})) + [Z]: pass
                # a + b <= t + c  when b <= z + k and a + z is bounded is not derivable here; use constant bounds of one side
                h, l = hi(b), lo(b)
                if h is not None: out.append(("D", a[0], a[1] + h))
                if l is not None: out.append((a[0], "D", -a[1] - l))
        elif base == "Sub":
            h, l = hi(y), lo(y)
            if l is not None: out.append(("D", x[0], x[1] - l))
            if h is not None: out.append((x[0], "D", h - x[1]))
            g = s.get(x[0], y[0]); h2 = s.get(y[0], x[0])
            if g is not None: out.append(("D", Z, g + x[1] - y[1]))
            if h2 is not None: out.append((Z, "D", h2 - x[1] + y[1]))
        elif base == "Mul":
            hx, hy, lx, ly = hi(x), hi(y), lo(x), lo(y)
            if lx is not None and ly is not None and lx >= 0 and ly >= 0:
                out.append((Z, "D", -lx * ly))
                if hx is not None and hy is not None: out.append(("D", Z, hx * hy))
                if ly >= 1: out.append((x[0], "D", -x[1]))
                if lx >= 1: out.append((y[0], "D", -y[1]))
        elif base == "Div":
            if uns:
                out.append((Z, "D", 0)); out.append(("D", x[0], x[1]))
                c = y[1] if y[0] == Z else s.same(y[0], Z)
                h, l = hi(x), lo(x)
                if c:
                    if h is not None: out.append(("D", Z, h // c))
                    if l is not None: out.append((Z, "D", -(l // c)))
        elif base == "Rem":
            if uns:
                out.append((Z, "D", 0)); out.append(("D", x[0], x[1]))
                l = lo(y); out.append(("D", y[0], y[1] - 1))
        elif base == "BitAnd":
            if uns:
                out.append((Z, "D", 0))
                out.append(("D", x[0], x[1])); out.append(("D", y[0], y[1]))
        elif base == "BitOr" or base == "BitXor":
            if uns:
                out.append((Z, "D", 0)); h1, h2 = hi(x), hi(y)
                if h1 is not None and h2 is not None: out.append(("D", Z, (1 << max(h1, h2).bit_length()) - 1))
        elif base == "Shr":
            if uns:
                out.append((Z, "D", 0)); out.append(("D", x[0], x[1]))
                if y[0] == Z and hi(x) is not None and y[1] >= 0: out.append(("D", Z, hi(x) >> y[1]))
        elif base == "Shl":
            if uns:
                out.append((Z, "D", 0))
                if y[0] == Z and 0 <= y[1] < 64 and hi(x) is not None and hi(x) << y[1] <= WIDTH.get(ty, 255): out.append(("D", Z, hi(x) << y[1]))
        return out
    def sumfacts(self, s, x, y):
        """x + y where one is where a slice starts and the other a position in that slice"""
        out = []
        for a, b in ((x, y), (y, x)):
            for f in list(s.facts):
                if f[0] != "sub": continue
                k = s.same(a[0], "^" + f[1])
                if k is None: continue
                k += a[1]  # a = ^S + k
                S, B = f[1], f[2]
                g = s.get(b[0], "#" + S)
                if g is not None: out.append(("le", "D", "$" + S, g + b[1] + k))
                g = s.get("#" + S, b[0])
                if g is not None: out.append(("le", "$" + S, "D", g - b[1] - k))
                if k == 0 and self.bd(s, S, b[0], b[1]): out.append(("bd", B, "D", 0))
                if k == 0:
                    for q in list(s.facts):
                        if q[0] == "ends" and q[1] == S and s.same(q[2], b[0]) == -b[1]: out.append(("ends", B, "D", q[3]))
                        if q[0] == "bd" and q[1] == S:
                            d = s.same(q[2], b[0])
                            if d is not None: out.append(("bd", B, "D", q[3] + d - b[1]))
                out.append(("le", "^" + S, "D", -k) if b[0] == Z or s.knows(Z, b[0], b[1]) else ("le", Z, "D", 0))
            for f in list(s.facts): # cursor plus the width of the character at it
                if f[0] == "at" and s.same(b[0], "@" + f[4]) == -b[1]:
                    for g in list(s.facts):
                        if g[0] == "cur" and g[1] == f[1]:
                            d, e = s.same(g[2], f[2]), s.same(a[0], g[4])
                            if d is not None and d + g[3] == f[3] and e is not None and e + a[1] == g[5]: out.append(("cur", g[1], g[2], g[3] + 1, "D", 0))
                    if s.same(f[2], Z) == -f[3] and s.same(a[0], Z) == -a[1]: out.append(("cur", f[1], f[2], f[3] + 1, "D", 0))
            for f in list(s.facts): # where a text was found plus its length
                if f[0] == "ends" and s.same(a[0], f[2]) == -a[1] and s.same(b[0], f[3]) == -b[1]: out += [("le", "D", "#" + f[1], 0), ("bd", f[1], "D", 0)]
            for f in list(s.facts): # a position plus the length of the character there
                if f[0] == "next" and s.same(a[0], f[2]) == -a[1] and s.same(b[0], f[3]) == -b[1]:
                    out += [("le", "D", "#" + f[1], 0), ("bd", f[1], "D", 0), ("le", f[2], "D", -1)]
        return out
    def difffacts(self, s, x, y):
        out = []
        if x[0][0] == "#" and y[0][0] == "#" and x[1] == y[1] == 0 or True:
            for f in list(s.facts):
                if f[0] == "sub":
                    S, B = f[1], f[2]
                    if s.same(x[0], "#" + B) == -x[1] and s.same(y[0], "#" + S) == -y[1]:
                        if s.same("$" + S, "#" + B) == 0: out += [("le", "D", "^" + S, 0), ("le", "^" + S, "D", 0), ("bd", B, "D", 0)]
        return out
    # ---- obligations ----
    def ob(self, s, kind, goals, what):
        """goals: list of ('le', x, y, c) / ('bd', root, x, off) / ('false',)"""
        if self.record is None or s.bot: return
        key = (self.f.id, self.cur[0], kind)
        r = self.record.setdefault(key, {"n": 0, "fails": [], "what": what, "line": self.f.blocks[self.cur[0]]["t"][-1]})
        r["n"] += 1
        for g in goals:
            if g[0] == "le" and s.knows(g[1], g[2], g[3]): continue
            if g[0] == "bd" and self.bd(s, g[1], g[2], g[3]): continue
            r["fails"].append(self.judge(s, g))
    def judge(self, s, g):
        """why a goal is not met: ('clean'|'bound'|'open'|'unknown', goal, detail)"""
        if g[0] == "false": return ("unknown", g, None)
        exact = False
        at = g[1] if g[0] == "le" else g[2]; text = g[2] if g[0] == "le" else "#" + g[1]
        if (at == Z or s.same(at, Z) is not None) and text[0] == "#":
            # a test of how another piece of the same text starts or ends may imply that this piece is long enough
            up = {}
            for f in s.facts:
                if f[0] == "sub": up.setdefault(f[1], set()).add(f[2])
            def anc(r):
                out = {r}; st = [r]
                while st:
                    for y in up.get(st.pop(), ()):
                        if y not in out: out.add(y); st.append(y)
                return out
            mine = anc(text[1:])
            if any(f[0] in ("pre", "suf") and f[1] not in mine and anc(f[1]) & mine or f[0] == "hid" and f[1] in mine for f in s.facts): return ("unknown", g, "guards")
        # what follows a match of a pattern held in a variable depends on that pattern
        if g[0] == "bd" and any(f[0] == "pat" and f[1] == g[1] and s.same(g[2], f[2]) is not None for f in s.facts): return ("unknown", g, "pattern")
        if g[0] == "le" and g[2][0] == "#" and any(f[0] == "pat" and s.same(g[1], f[2]) is not None and ("#" + f[1] == g[2] or s.same("#" + f[1], g[2]) is not None) for f in s.facts): return ("unknown", g, "pattern")
        if g[0] == "bd":
            for f in s.facts:
                if f[1] == g[1] and (f[0] == "bd" and s.same(g[2], f[2]) is not None or f[0] == "cur" and s.same(g[2], f[4]) is not None): exact = True
        ts = {g[1], g[2]} if g[0] == "le" else {g[2], "#" + g[1]}
        ts.discard(Z)
        rel = set(ts)
        for t in ts:
            for x in list(s.m.get(t, {})):
                if x != Z and s.same(t, x) is not None: rel.add(x)
        for f in s.facts:
            if f[0] == "sub" and any(("#" + f[1] == t) or ("^" + f[1] == t) for t in rel): rel |= {"#" + f[2]}
        if g[0] == "bd": rel |= {f[4] for f in s.facts if f[0] in ("at", "byte") and f[1] == g[1]}
        paths = {t[1:] if t[0] in "#^$?%@~" else t for t in rel}
        gd = [k for k in s.guards if any(has(p, k[1:] if k[0] in "#?" else k) or has(k[1:] if k[0] in "#?" else k, p) for p in paths)]
        if gd: return ("unknown", g, "guards")
        for t in rel:
            if "." in t and "*" in t.split(".")[0] and 1 <= lt(t) <= self.f.argc and not self.A.openpath(self.f.locals[lt(t)], t): return ("unknown", g, "field")
        if g[0] == "le" and s.knows(g[2], g[1], -g[3] - 1): return ("def", g, None)
        if any(self.element_of(t) for t in rel): return ("unknown", g, "element")
        lossy = [t for t in ts if t in s.lossy]
        if not lossy or exact: return ("clean", g, None)
        if g[0] == "le":
            b = s.get(g[1], g[2])
            if b is not None: return ("unknown", g, "flag") if self.flagged(rel) else ("bound", g, b)
        others = [t for t in s.lossy if t not in rel and re.fullmatch(r"_\d+", t) and INT.match(self.f.locals[int(t[1:])] if int(t[1:]) < len(self.f.locals) else "") and self.f.locals[int(t[1:])] not in ("bool", "char", "u8")]
        return ("unknown", g, "loop") if others else ("open", g, None)
    def element_of(self, t):
        """a number read out of a list: what the list holds is not tracked"""
        fu = self.fu; m = re.fullmatch(r"_(\d+)", t); l = int(m.group(1)) if m else None
        for n in range(6):
            if l is None or l <= self.f.argc or l >= len(self.f.locals): return False
            d = fu.defs.get(l, ())
            if len(d) != 1: return False
            if d[0][1] is None:
                t = d[0][2]; return bool(ELEM.search(t[1].get("fn", ""))) and bool(re.fullmatch(r"&(mut )?[iu](16|32|64|128|size)", self.f.locals[l]))
            rv = d[0][2]
            if not rv or rv[0] != "use" or rv[1][0] not in ("cp", "mv"): return False
            pc = rv[1][1]
            if any(isinstance(e, list) and e[0] == "i" for e in pc[1:]): return bool(re.fullmatch(r"[iu](16|32|64|128|size)", self.f.locals[l]))
            if [e for e in pc[1:] if e != "*"]: return False
            l = pc[0]
        return False
    def flagged(self, rel):
        """a variable set together with one of these (a flag, a depth) is tested on the way here"""
        fu = self.fu; multi = lambda l: len(fu.defs.get(l, ())) > 1 and INT.match(self.f.locals[l] if l < len(self.f.locals) else "")
        mine = {int(m.group(1)) for t in rel for m in [re.fullmatch(r"_(\d+)", t)] if m}
        mine = {l for l in mine if l > self.f.argc and multi(l)}
        if not mine: return False
        blocks = {d[0] for l in mine for d in fu.defs[l]}
        mates = {l for l in fu.defs if l not in mine and l > self.f.argc and multi(l) and any(d[0] in blocks for d in fu.defs[l])}
        if not mates: return False
        for b, bl in enumerate(self.f.blocks):
            t = bl["t"]
            if t[0] != "switch" or b == self.cur[0] or not self.f.dominates(b, self.cur[0]): continue
            st = [t[1]]; seen = set()
            while st:
                x = st.pop()
                if isinstance(x, list):
                    if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                        l = x[1][0]
                        if l in mates: return True
                        if l not in seen and len(fu.defs.get(l, ())) == 1:
                            seen.add(l); st.append(fu.defs[l][0][2])
                    else: st.extend(y for y in x if isinstance(y, list))
        return False
    def guard(self, s, o, deep=False):
        """an unmodelled condition may constrain what it is computed from"""
        if o[0] not in ("cp", "mv"): return
        seen = set(); st = [o[1][0]]
        while st:
            l = st.pop()
            if l in seen: continue
            seen.add(l)
            p = self.root(self.pl([l])); s.guards[p] = s.guards.get(p, frozenset()) | {self.cur[0]}
            for d in self.fu.defs.get(l, ()):
                if d[1] is None:
                    t = d[2]
                    if ELEM.search(t[1].get("fn", "")) and not (deep and re.search(r"::(chars|char_indices|bytes|as_bytes|iter)$", t[1]["fn"])): continue
                    for a in t[2]:
                        if a[0] in ("cp", "mv"): self.gplace(s, a[1], st)
                elif d[2] is not None: self.gops(s, d[2], st)
    def gplace(self, s, pc, st):
        p = self.root(self.pl(pc)); s.guards[p] = s.guards.get(p, frozenset()) | {self.cur[0]}
        if any(isinstance(e, list) and e[0] in ("i", "ci") for e in pc[1:]): return
        st.append(pc[0])
    def gops(self, s, rv, st):
        if rv[0] in ("ref",): self.gplace(s, rv[2], st)
        elif rv[0] in ("disc", "len"): self.gplace(s, rv[1], st)
        else:
            def walk(x):
                if isinstance(x, list):
                    if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list): self.gplace(s, x[1], st)
                    else:
                        for y in x: walk(y)
            walk(rv[1:])
    # ---- control ----
    def term(self, s, b):
        """[(successor, state)]"""
        t = self.f.blocks[b]["t"]; k = t[0]
        if k == "goto": return [(t[1], s)]
        if k == "drop": return [(t[3], s)]
        if k == "switch": return self.switch(s, t)
        if k == "assert": return self.asserts(s, t)
        if k == "call":
            out = self.call(s, t)
            return [(t[4], x) for x in out if t[4] >= 0 and not x.bot]
        if k == "ret": self.out.append(s)
        return []
    def switch(self, s, t):
        o = t[1]; out = []
        if o[0] == "k":
            v = self.val(s, o); m = [b for x, b in t[2] if v and int(x) == v[1]]
            return [(m[0] if m else t[3], s)]
        p = self.pl(o[1]); ty = self.ty(o[1]); c = s.conds.get(p); self.ensure(s, p, ty)
        isb = ty == "bool"
        ts = set(); atoms(c or (), ts); ts |= {p}
        if c and c[0] == "discof": ts.add(c[1])
        wild = any("?" in s.guards.get(k, ()) for k in s.guards if any(has(x[1:] if x[:1] in "#?%@" else x, k) for x in ts if x and x != Z and x[0] in "_#?%@"))
        if (isb and c is None and s.same(p, Z) is None and not self.readsarg(o)) or wild: self.guard(s, o)
        vals = [int(x) for x, bb in t[2]]
        for x, bb in t[2]:
            x = int(x); n = s.copy(); n.eq(p, Z, x)
            if n.bot: continue
            for y in self.refine(n, p, c, isb, x, True): out.append((bb, y))
        n = s.copy()
        for x in sorted(vals):
            if n.lo(p) == x: n.le(Z, p, -x - 1)
        for x in sorted(vals, reverse=True):
            if n.hi(p) == x: n.le(p, Z, x - 1)
        if not n.bot:
            if isb and vals == [0]: n.eq(p, Z, 1)
            if not n.bot:
                if isb: rs = self.refine(n, p, c, True, 1 if vals == [0] else 0, True)
                else:
                    rs = [n]
                    if c and c[0] == "discof":
                        if n.same(p, Z) is not None: n.eq(c[1], Z, n.same(p, Z))
                        self.disc(n); rs = [] if n.bot else [n]
                for y in rs: out.append((t[3], y))
        if self.f.blocks[t[3]]["t"][0] == "unreach" and not self.f.blocks[t[3]]["s"]: out = [x for x in out if x[0] != t[3]]
        return out
    def readsarg(self, o):
        """a plain bool parameter or field carries no hidden constraint that a caller could rely on here"""
        return False
    def refine(self, n, p, c, isb, x, truth):
        if c is None or c[0] in ("true", "ovf"): 
            self.disc(n); return [] if n.bot else [n]
        if c[0] == "discof":
            n.eq(c[1], Z, x); self.disc(n); return [] if n.bot else [n]
        if isb: return self.apply(n, c, bool(x))
        return [n]
    def asserts(self, s, t):
        cond, exp, kind, ops, tgt = t[1], t[2], t[3], t[4], t[5]
        if kind == "bounds":
            n, i = ops
            x, y = self.val(s, i), self.val(s, n)
            # the length operand of a slice: prefer its root
            if x and y:
                self.ob(s, kind, [("le", x[0], y[0], y[1] - x[1] - 1)], "index")
                s.le(x[0], y[0], y[1] - x[1] - 1)
        elif kind in ("div0", "rem0"):
            y = self.val(s, ops[0])
            # the operand named is the dividend; the condition tells the divisor
            c = s.conds.get(self.pl(cond[1])) if cond[0] in ("cp", "mv") else None
            if c and c[0] == "cmp":
                d = c[2] if c[2][0] != Z else c[3]
                if c[2][0] == Z and c[3][0] == Z: return [(tgt, s)]
                ty = None
                self.ob(s, kind, [("le", Z, d[0], d[1] - 1)] if not (s.hi(d[0]) is not None and s.hi(d[0]) + d[1] < 0) else [], "division")
                for y in self.apply(s, c, bool(exp)): return [(tgt, y)]
                return []
        elif kind in ("ovfSub", "ovfAdd", "ovfMul"):
            x, y = self.val(s, ops[0]), self.val(s, ops[1])
            ty = self.ty(ops[0][1]) if ops[0][0] != "k" else ops[0][1].get("ty", "")
            res = self.pl(cond[1])[:-2] + ".0" if cond[0] in ("cp", "mv") else None
            if kind == "ovfSub" and UNS.match(ty) and x and y:
                self.ob(s, kind, [("le", y[0], x[0], x[1] - y[1])], "subtraction"); s.le(y[0], x[0], x[1] - y[1])
                if res: s.le(Z, res, 0)
            elif x and y and ty in MAXV and ty not in ("usize", "isize", "u64", "i64", "u128", "i128") and res:
                g = [("le", res, Z, MAXV[ty])] + ([("le", Z, res, -MINV[ty])] if ty in MINV else [])
                self.ob(s, kind, g, "arithmetic")
                s.le(res, Z, MAXV[ty]); s.le(Z, res, -MINV.get(ty, 0))
            elif res and UNS.match(ty): s.le(Z, res, 0)
            if s.bot: return []
        return [(tgt, s)] if not s.bot else []
    # ---- fixpoint ----
    def run(self):
        f = self.f; rpo = [b for b in f.rpo() if not f.blocks[b].get("c")]; idx = {b: i for i, b in enumerate(rpo)}
        heads = {x for b in rpo for x in f.succ(b) if x in idx and idx[x] <= idx[b]}
        live = self.liveness(rpo)
        H = {}; back = {}
        e = self.entry.copy() if self.entry is not None else State()
        rec, self.record = self.record, None; calls, self.calls = self.calls, None
        t0 = time.time()
        for rnd in range(14):
            if time.time() - t0 > self.A.limit: ch = True; break
            ch = False; IN = defaultdict(list); IN[0].append(e.copy()); self.out = []
            pb, back = back, defaultdict(list)
            for b in rpo:
                if b in heads:
                    h = H.get(b); inc = IN[b] + pb.get(b, [])
                    if h is None: h = State(); h.bot = True
                    h2 = h.copy()
                    for x in inc: h2.join(x, widen=rnd >= 3)
                    if h.bot != h2.bot or not h.bot and not h2.implies(h): ch = True
                    elif not h.bot and not h.implies(h2): ch = True
                    H[b] = h2; IN[b] = [h2.copy()] if not h2.bot else []
                sts = IN[b]
                if len(sts) > KMAX: sts = self.merge(sts)
                for s in sts:
                    for nb, ns in self.block(s, b):
                        if nb not in idx: continue
                        self.prune(ns, live[nb])
                        self.push(back[nb] if idx[nb] <= idx[b] else IN[nb], ns)
            if not ch: break
        self.conv = not ch
        if ch: self.record, self.calls = rec, calls; return self.out
        self.record = rec; self.calls = calls
        # recording pass over the stable heads
        IN = defaultdict(list); IN[0].append(e.copy()); self.out = []
        for b in rpo:
            if b in heads: IN[b] = [H[b].copy()] if b in H and not H[b].bot else []
            sts = IN[b]
            if len(sts) > KMAX: sts = self.merge(sts)
            for s in sts:
                for nb, ns in self.block(s, b):
                    if nb in idx and nb not in heads:
                        self.prune(ns, live[nb]); self.push(IN[nb], ns)
        return self.out
    def merge(self, sts):
        """keep states that differ in known discriminants apart"""
        g = {}
        for s in sts:
            k = tuple(sorted((t, s.same(t, Z)) for t in list(s.m) if t[0] == "?" and s.same(t, Z) is not None))
            g.setdefault(k, []).append(s)
        out = []
        for l in g.values():
            x = l[0].copy()
            for y in l[1:]: x.join(y)
            out.append(x)
        if len(out) > KMAX:
            x = out[0]
            for y in out[1:]: x.join(y)
            out = [x]
        return out
    def push(self, lst, s):
        if s.bot: return
        for o in lst:
            if s.implies(o): return
        lst[:] = [o for o in lst if not o.implies(s)]
        lst.append(s)
    def liveness(self, rpo):
        """locals whose facts matter at the start of each block (aliases keep what they stand for alive)"""
        f = self.f; use = {}; df = {}
        def locs(x, out):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list): out.update(self.base(x[1]))
                elif len(x) > 1 and x[0] == "ref": out.update(self.base(x[2]))
                elif len(x) > 1 and x[0] in ("disc", "len"): out.update(self.base(x[1]))
                else:
                    for y in x: locs(y, out)
        for b in rpo:
            u = set()
            for s in f.blocks[b]["s"]:
                if s[0] == "=":
                    locs(s[2], u)
                    if len(s[1]) > 1: u.update(self.base(s[1]))
            t = f.blocks[b]["t"]
            if t[0] == "call":
                locs(t[2], u)
                if len(t[3]) > 1: u.update(self.base(t[3]))
            elif t[0] in ("switch", "assert"): locs(t[1:5], u)
            use[b] = u
        live = {b: set(use[b]) for b in rpo}; ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                n = set(use[b])
                for x in f.succ(b):
                    if x in live: n |= live[x]
                if n != live[b]: live[b] = n; ch = True
        for b in live: live[b] |= {0} | set(range(1, f.argc + 1))
        return live
    def base(self, pc):
        out = {pc[0]}
        p = self.pl(pc); out.add(lt(p)); out.add(lt(self.root(p)))
        for e in pc[1:]:
            if isinstance(e, list) and e[0] == "i": out.add(e[1])
        m = re.fullmatch(r"_(\d+)", strip(p))
        return out
    def prune(self, s, live):
        ls = set()
        for a in s.m: ls.add(a)
        for f in s.facts: atoms(f, ls)
        for k in s.iters: ls.add(k)
        for k, v in s.conds.items():
            if lt(k) in live: atoms(v, ls)
        dead = {lt(t[1:] if t[0] in "#^$?%@~" else t) for t in ls if isinstance(t, str) and t and t != Z and (t[0] == "_" or t[0] in "#^$?%@~" and len(t) > 1 and t[1] == "_")}
        keep = set(live)
        for k, v in s.conds.items():
            if lt(k) in live:
                a = set(); atoms(v, a); keep |= {lt(t[1:] if t[0] in "#^$?%@~" else t) for t in a if t and t != Z and t[0] in "_#^$?%@~"}
        for k, v in s.iters.items():
            if lt(k) in live:
                a = set(); atoms(v, a); keep |= {lt(t[1:] if t[0] in "#^$?%@~" else t) for t in a if isinstance(t, str) and t and t != Z and t[0] in "_#^$?%@~"}
        for f in s.facts:
            if f[0] == "imp" and lt(f[1][1:]) in live:
                a = set(); atoms(f, a); keep |= {lt(t[1:] if t[0] in "#^$?%@~" else t) for t in a if isinstance(t, str) and t and t != Z and t[0] in "_#^$?%@~"}
            if f[0] == "bd" and f[2] != Z and f[2][0] == "_":
                if lt(f[2]) in live or any(u != Z and u[0] == "_" and lt(u) in live and s.same(f[2], u) is not None for u in s.m.get(f[2], ())): keep.add(lt(f[1]))
        for f in s.facts:
            if f[0] == "sub" and lt(f[1]) in keep:
                keep.add(lt(f[2]))
                for t in ("^" + f[1], "$" + f[1]): # where it starts must stay known
                    for u in s.m.get(t, ()):
                        if u[0] == "_" and s.same(t, u) is not None: keep.add(lt(u))
        dead = {d for d in dead if d >= 0 and d not in keep and d < 900000}
        if not dead: return
        def isdead(t):
            t = t[1:] if t[0] in "#^$?%@~" else t
            return t.startswith("_") and lt(t) in dead
        def other(t):
            for u in s.m.get(t, ()):
                if u != Z and not isdead(u):
                    k = s.same(u, t)
                    if k is not None: return u, k
            return None, None
        hide(s, isdead)
        for f in list(s.facts):
            if f[0] in ("cur", "at", "byte") and not isdead(f[1]):
                g = f
                if g[2] != Z and isdead(g[2]):
                    u, k = other(g[2])
                    if u is None:
                        # the character's index is no longer held, its position still is a boundary
                        if g[0] == "cur":
                            for w, k in [(g[4], 0)] if g[4] == Z or not isdead(g[4]) else [(x, s.same(x, g[4])) for x in s.m.get(g[4], ()) if x != Z and not isdead(x)]:
                                if k is not None: s.facts.add(("bd", f[1], w, g[5] - k))
                        continue
                    g = g[:2] + (u, g[3] - k) + g[4:]
                if g[4] != Z and isdead(g[4]):
                    if g[0] == "cur":
                        u, k = other(g[4])
                        if u is None: continue
                        g = g[:4] + (u, g[5] - k)
                    else:
                        us = [u for u in s.m.get(g[4], ()) if u != Z and u[0] == "_" and not isdead(u) and s.same(u, g[4]) == 0]
                        if not us: continue
                        g = g[:4] + (us[0],)
                        if s.same("@" + us[0], "@" + f[4]) is None: s.eq("@" + us[0], "@" + f[4], 0)
                if g is not f: s.facts.add(g)
            if f[0] in ("ends", "next") and not isdead(f[1]) and (isdead(f[2]) or isdead(f[3])):
                g = f
                for i in (2, 3):
                    if isdead(g[i]):
                        us = [u for u in s.m.get(g[i], ()) if u != Z and not isdead(u) and s.same(u, g[i]) == 0]
                        if not us: break
                        g = g[:i] + (us[0],) + g[i + 1:]
                else: s.facts.add(g)
            if f[0] in ("bd", "pat", "chr") and f[2] != Z and isdead(f[2]) and not isdead(f[1]):
                for u in s.m.get(f[2], ()):
                    if u != Z and not isdead(u):
                        k = s.same(u, f[2])
                        if k is not None: s.facts.add((f[0], f[1], u, f[3] - k) + f[4:])
            if f[0] == "sat" and isdead(f[1]) and not isdead(f[2]):
                for u in list(s.m.get(f[1], ())):
                    if u != Z and u[0] != "#" and not isdead(u) and s.same(u, f[1]) == 0: s.facts.add(("sat", u) + f[2:])
        memo = {}
        def alive(x):
            if isinstance(x, tuple): return all(alive(y) for y in x)
            v = memo.get(x)
            if v is None:
                v = True
                if isinstance(x, str) and x and x != Z:
                    t = x[1:] if x[0] in "#^$?%@~" else x
                    if t.startswith("_"): v = lt(t) not in dead
                memo[x] = v
            return v
        s.m = {a: {b: c for b, c in r.items() if alive(b)} for a, r in s.m.items() if alive(a)}
        s.facts = {f for f in s.facts if alive(f)}
        s.lossy = {t for t in s.lossy if alive(t)}
        s.guards = {k: v for k, v in s.guards.items() if alive(k)}
        s.conds = {k: v for k, v in s.conds.items() if alive(k) and alive(v)}
        s.iters = {k: v for k, v in s.iters.items() if alive(k) and alive(v)}
    def block(self, s, b):
        s = s.copy(); self.cur = (b, 0)
        for i, st in enumerate(self.f.blocks[b]["s"]):
            self.cur = (b, i); self.stmt(s, st)
            if s.bot: return []
        return self.term(s, b)
    # ---- calls ----
    def call(self, s, t):
        fn = t[1].get("fn", ""); args = t[2]; pc = t[3]; dst = self.pl(pc); ty = self.ty(pc); ga = t[1].get("ga", [])
        if len(pc) == 1 and self.fu.local(pc[0]) and (ALIAS.search(fn) or re.search(r"::(by_ref|into_iter)$", fn)):
            self.kill_new(s, pc[0]); return [s]
        m = fn.rsplit("::", 1)[-1]
        m = re.sub(r"<.*", "", m)
        f2 = getattr(self, "c_" + m, None)
        ext = not self.A.F.fns.get(fn)
        if m in ("index", "index_mut") and "ops::index::Index" in (t[1].get("orig", "") or fn): return self.index(s, t, dst, ty)
        if "ops::function::Fn" in t[1].get("orig", ""):
            r = self.c_call(s, t, dst, ty, args, "core::ops::function")
            if r is not None: return [x for x in r if not x.bot]
            self.unknown(s, t, dst, ty, args, fn); return [s]
        if f2 is not None and ext:
            r = f2(s, t, dst, ty, args, fn)
            if r is not None: return [x for x in r if not x.bot]
        tg = self.F.targets(fn) if fn else []
        tg = [x for x in tg if x in self.F.fns and self.F.fns[x].blocks]
        pure = self.pure(s, tg, args, ty) if len(tg) == 1 else None
        if pure:
            for f in s.facts:
                if f[0] == "pure" and f[1:-1] == pure and not has(f[-1], self.root(dst)):
                    self.kill(s, dst); self.alias(s, self.root(dst), f[-1]); return [s]
            out = self.call2(s, t, dst, ty, args, fn, tg)
            if not any(mention(x, dst) for x in pure):
                for x in out: x.facts.add(("pure",) + pure + (self.root(dst),))
            return out
        return self.call2(s, t, dst, ty, args, fn, tg)
    def pure(self, s, tg, args, ty):
        """a call that reads shared values only and gives a text or slice: made again before anything it reads changes, it gives the same one"""
        g = self.F.fns[tg[0]]
        if g.kind == "closure" or not SEQ.match(ty) or not args or len(args) > 3: return None
        ps = []
        for a in args:
            if a[0] == "k": ps.append("=" + str(a[1].get("val", a[1].get("str", "?")))); continue
            ta = self.ty(a[1])
            if "&mut" in ta: return None
            if ta.startswith("&"): ps.append(self.root(self.pl(a[1])) if SEQ.match(ta) else self.fu.star(self.pl(a[1])) if len(a[1]) == 1 else self.pl(a[1] + ["*"]))
            else: return None
        return (tg[0],) + tuple(ps)
    def call2(self, s, t, dst, ty, args, fn, tg):
        if len(tg) == 1 and not fn.startswith("dyn ") and tg[0] in self.F.fns and self.F.fns[tg[0]].kind != "const":
            r = self.local(s, t, dst, ty, self.F.fns[tg[0]])
            if r is not None: return r
        self.unknown(s, t, dst, ty, args, fn)
        return [s]
    def unknown(self, s, t, dst, ty, args, fn):
        for a in args:
            if a[0] in ("cp", "mv"):
                ta = self.ty(a[1])
                if ta.startswith("&mut ") or "&mut " in ta:
                    p = self.fu.star(self.pl(a[1])) if len(a[1]) == 1 else self.pl(a[1] + ["*"])
                    self.wild(s, p)
                    self.reinv(s, p, deref(ta))
                elif ta.startswith("{closure"):
                    # by-reference captures may be written
                    cp = self.pl(a[1])
                    for k in self.captured(a[1]): self.wild(s, k)
        if NOINFO.search(fn) and ty == "bool":
            self.free(s, dst, ty); s.conds[dst] = ("true",); return
        if COPYLEN.search(fn) and args and args[0][0] in ("cp", "mv") and SEQ.match(ty) and SEQ.match(self.ty(args[0][1])):
            r = self.seq(s, args[0]); self.kill(s, dst); self.alias(s, self.root(dst), r); return
        if SEQ.match(ty) and re.search(r"(::(to_lowercase|to_uppercase|repeat|join|concat|format|replace|replacen|to_string|must_use|collect|trim\w*|with_capacity|new|default)$)", fn):
            self.free(s, dst); self.lenof(s, self.root(dst)); return
        if re.search(r"(::(parse|from_str|from_str_radix|to_digit|as_ptr|count|hash|rem_euclid|parse_\w+)$)", fn) and not self.F.fns.get(fn):
            self.free(s, dst); return
        self.wild(s, dst, ty); s.guards[dst] = frozenset(["?"]); self.reinv(s, dst, ty)
    def captured(self, pc):
        """places a closure value holds by mutable reference"""
        out = []
        for d in self.fu.defs.get(pc[0], ()):
            if d[1] is not None and d[2] is not None and d[2][0] == "agg" and d[2][1] == "closure":
                for o in d[2][4]:
                    if o[0] in ("cp", "mv") and self.ty(o[1]).startswith("&mut "): out.append(self.fu.star(self.pl(o[1])))
        return out
    def rng(self, s, o):
        """(start, end) of a range operand; None components are open"""
        if o[0] not in ("cp", "mv"): return None
        p = self.pl(o[1]); ty = self.ty(o[1]); h = head(ty).rsplit("::", 1)[-1]
        def v(n): self.ensure(s, p + n, "usize"); return (p + n, 0)
        if h == "Range": return v(".start"), v(".end")
        if h == "RangeFrom": return v(".start"), None
        if h == "RangeTo": return None, v(".end")
        if h == "RangeFull": return None, None
        if h == "RangeInclusive": 
            a, b = v(".start"), v(".end"); return a, (b[0], 1)
        if h == "RangeToInclusive":
            b = v(".end"); return None, (b[0], 1)
        return None
    def goals(self, r, st, en, isstr):
        """obligations of r[st..en]"""
        L = "#" + r; g = []
        if en: g.append(("le", en[0], L, -en[1]))
        if st:
            if en: g.append(("le", st[0], en[0], en[1] - st[1]))
            else: g.append(("le", st[0], L, -st[1]))
        if isstr:
            for x in (st, en):
                if x: g.append(("bd", r, x[0], x[1]))
        return g
    def assume(self, s, gs):
        for g in gs:
            if g[0] == "le": s.le(g[1], g[2], g[3])
            elif g[0] == "bd" and not s.bot: self.learn(s, ("bd", g[1], g[2], g[3]))
    def index(self, s, t, dst, ty):
        base, ix = t[2][0], t[2][1]; tb = self.ty(base[1]) if base[0] != "k" else base[1].get("ty", "")
        if not SEQ.match(tb):
            self.wild(s, dst, ty); return [s] # maps and such
        r = self.seq(s, base); isstr = bool(STR.match(tb)); ti = self.ty(ix[1]) if ix[0] != "k" else ix[1].get("ty", "")
        if ti == "usize":
            x = self.val(s, ix)
            if x:
                g = [("le", x[0], "#" + r, -x[1] - 1)]
                self.ob(s, "index", g, "index"); self.assume(s, g)
            else: x = None
            self.kill(s, dst); et = deref(ty)
            if x and et in ("char", "u8") and not has(x[0], dst): self.ensure(s, dst + "*", et); self.element(s, r, x, dst + "*", et)
            return [s]
        rg = self.rng(s, ix)
        if rg is None: self.wild(s, dst, ty); return [s]
        g = self.goals(r, rg[0], rg[1], isstr)
        self.ob(s, "slice", g, "slice"); self.assume(s, g)
        if s.bot: return []
        d = self.root(dst)
        if d == r: return [s]
        st, en = rg
        if (st and has(st[0], dst)) or (en and has(en[0], dst)): self.wild(s, dst, ty); return [s]
        self.kill(s, dst)
        if not isstr: s.facts.add(("bytes", r))
        self.subof(s, d, r, st or (Z, 0), en or ("#" + r, 0))
        return [s]
    # closures and local functions
    def local(self, s, t, dst, ty, g):
        E = self.A.summary(g)
        if E is not None and not g.pub and len(g.blocks) < 150 and any(f[0] in ("cur", "chars") for f in s.facts) and len(self.A.busy) < 3:
            prs = self.pairs(s, g, t[2])
            n = self.project(s, prs)
            if any(f[0] in ("cur", "chars") for f in n.facts): E = ctxsummary(self.A, g, n) or E
        return self.inst(s, g, E, t[2], dst, ty)
    def capmap(self, pc):
        """closure value -> {capture name: operand}"""
        for d in self.fu.defs.get(pc[0], ()):
            if d[1] is not None and d[2] is not None and d[2][0] == "agg" and d[2][1] == "closure": return dict(zip(d[2][3], d[2][4])), d[2][2]
        return None, None
    def pairs(self, s, g, args, closure=None):
        """substitution of g's parameters by the caller's places"""
        out = []
        for i, o in enumerate(args, 1):
            if o is None: continue
            if o[0] == "k":
                if INT.match(o[1].get("ty", "")):
                    v = self.val(s, o)
                    out.append((f"_{i}", ("const", v)))
                else:
                    r = self.A.lit(self.f, o[1]); self.lenof(s, r); out.append((f"_{i}", r))
            elif o[0] in ("cp", "mv"):
                p = self.pl(o[1]); ta = self.ty(o[1])
                if ta.startswith("&"):
                    st = self.fu.star(p) if len(o[1]) == 1 else self.pl(o[1] + ["*"])
                    if SEQ.match(ta): r = self.root(p); self.lenof(s, r); out += [(f"_{i}*", r), (f"_{i}", r)]
                    else: out += [(f"_{i}*", st), (f"_{i}", p)]
                elif SEQ.match(ta): r = self.root(p); self.lenof(s, r); out.append((f"_{i}", r))
                else: out.append((f"_{i}", p))
            elif o[0] == "path": out.append((f"_{i}", o[1]))
        if closure is not None:
            names, cid = self.capmap(closure)
            if names is None: return None
            out = self.caps(g, names) + [q for q in out if not q[0].startswith("_1")]
        return out
    def caps(self, g, names):
        """substitution of a closure's captures"""
        ct = g.locals[1]; st = "_1*" if ct.startswith("&") else "_1"
        ps = []
        for n, o in names.items():
            if o[0] not in ("cp", "mv"): continue
            p = self.pl(o[1]); ta = self.ty(o[1])
            if ta.startswith("&"):
                d = self.fu.star(p)
                ps.append((f"{st}.{n}*", self.root(d) if SEQ.match(deref(ta)) or SEQ.match(ta) else d)); ps.append((f"{st}.{n}", self.root(p) if SEQ.match(ta) else p))
            else: ps.append((f"{st}.{n}", self.root(p) if SEQ.match(ta) else p))
        return sorted(ps, key=lambda x: -len(x[0]))
    def inst(self, s, g, E, args, dst, ty, closure=None):
        prs = self.pairs(s, g, args, closure)
        if prs is None: return None
        if E is None:
            self.note(s, g, prs); return None
        consts = [(a, b[1]) for a, b in prs if isinstance(b, tuple)]; prs = [(a, b) for a, b in prs if not isinstance(b, tuple)]
        for k, (a, v) in enumerate(consts):
            T = f"_{990000 + k}"; s.killterm(T)
            if v: s.eq(T, Z, v[1])
            prs.append((a, T))
        def mp(path):
            for a, b in prs:
                y = sub(path, a, b)
                if y != path: return y
            return None
        s0 = s if self.calls is None else s.copy()
        # what the callee may have changed
        old = []
        st0 = s
        mods = sorted(self.A.modsof(g))
        for i, mpth in enumerate(mods):
            c = mp(mpth)
            if c is None: continue
            if 1 <= lt(c) <= self.f.argc and c != f"_{lt(c)}": self.mods.add(c)
            old.append((mpth, c, f"_{980000 + i}"))
        s1 = s
        cal_old = []
        for mpth, c, T in old:
            r = self.root(c)
            s1.kill(T)
            s1 = s1.rename([(c, T)] + ([(r, T)] if r != c and r != strip(c) and not r.startswith("_9") else []))
            cal_old.append((mpth.replace(f"_{lt(mpth)}", f"_{lt(mpth)}'", 1), T))
        self.note(s0, g, prs)
        out = []
        for x in E:
            ex = x.rename(cal_old + [(a.replace(a[:re.match(r"_\d+", a).end()], a[:re.match(r"_\d+", a).end()] + "'", 1), b) for a, b in prs] + prs + [("_0", "_970000")])
            n = s1.copy(); n.meet(ex)
            if n.bot: continue
            for t in list(n.m):
                if t not in s1.m and "." in t and t[0] in "_#" and "*" in t.split(".")[0] and 1 <= lt(t[1:] if t[0] == "#" else t) <= self.f.argc:
                    n.lossy.add(t)
                    for u in list(n.m.get(t, ())):
                        if u != Z and u not in s1.m and n.same(t, u) is not None: n.lossy.add(u)
            for mpth, c, T in old: n.kill(T)
            for k in range(len(consts)): n.kill(f"_{990000 + k}")
            # bind the result
            if dst is not None:
                if mention("_970000", dst): pass
                self.kill(n, dst)
                d = self.root(dst) if SEQ.match(ty or "") else dst
                n = n.rename([("_970000", d)])
                if re.search(r"^_\d+$", dst) and len(E) and INT.match(ty or ""): self.ensure(n, dst, ty)
                self.reinv(n, dst, ty)
            for mpth, c, T in old: self.reinvpath(n, c)
            self.disc(n)
            if not n.bot: self.push(out, n)
        if len(out) > KMAX: out = self.merge(out)
        return out
    def note(self, s, g, prs):
        """remember in which state a local function is entered"""
        if self.calls is None or s.bot: return
        self.calls.append((g.id, self.project(s, prs)))
    def project(self, s, prs):
        prs = [(a, b) for a, b in prs if not isinstance(b, tuple)]
        c = s.copy(); names = []
        for k, (a, b) in enumerate(prs):
            T = f"_{970100 + k}"
            if any(a == x for x, y in names): continue
            c.dup(b, T); names.append((a, T))
        live = {lt(T) for a, T in names} | {k for k in range(900000, 920000)}
        memo = {}
        def ok(x):
            if isinstance(x, tuple): return all(ok(y) for y in x)
            v = memo.get(x)
            if v is None:
                v = True
                if isinstance(x, str) and x and x != Z:
                    t = x[1:] if x[0] in "#^$?%@~" else x
                    if t.startswith("_"): v = lt(t) in live
                memo[x] = v
            return v
        n = State()
        def terms(x, off):
            o = [(x, off)] if ok(x) else []
            for u in c.m.get(x, ()):
                if u != Z and u != x and ok(u):
                    d = c.same(u, x)
                    if d is not None: o.append((u, off - d))
            return o
        for f in list(c.facts):
            if f[0] == "cur" and ok(f[1]) and not (ok(f[2]) and ok(f[4])):
                for i, io in terms(f[2], f[3])[:4]:
                    for b, bo in terms(f[4], f[5])[:4]: c.facts.add(("cur", f[1], i, io, b, bo))
        for f in list(c.facts): # boundary facts on terms that do not travel
            if f[0] in ("bd", "pat") and not ok(f[2]) and ok(f[1]):
                for u in c.m.get(f[2], ()):
                    if u != Z and ok(u):
                        d = c.same(u, f[2])
                        if d is not None: c.facts.add((f[0], f[1], u, f[3] - d) + f[4:])
        hide(c, lambda t: not ok(t))
        n.m = {a: {b: v for b, v in r.items() if ok(b)} for a, r in c.m.items() if ok(a)}
        n.facts = {f for f in c.facts if ok(f)}; n.lossy = {t for t in c.lossy if ok(t)}; n.guards = {k: v for k, v in c.guards.items() if ok(k)}
        return n.rename([(T, a) for a, T in names])
    def closure(self, s, o, argpaths, dst, ty):
        """result states of applying the closure (or function item) o to values at the given paths"""
        if o[0] == "k" and "fn" in o[1]:
            g = self.F.fns.get(o[1]["fn"])
            if g is None or not g.blocks: return self.extfn(s, o[1]["fn"], argpaths, dst, ty)
            E = self.A.summary(g)
            return self.inst(s, g, E, [("path", p) for p in argpaths], dst, ty)
        if o[0] not in ("cp", "mv"): return None
        names, cid = self.capmap(o[1]) if len(o[1]) == 1 else (None, None)
        g = self.F.fns.get(cid)
        if g is None:
            m = re.search(r"\{closure@([^:]*):(\d+):", self.ty(o[1]))
            return None
        if self.depth < 3 and len(g.blocks) <= 40:
            r = self.inline(s, g, o[1], names, argpaths, dst, ty)
            if r is not None: return r
        E = self.A.summary(g)
        return self.inst(s, g, E, [None] + [("path", p) for p in argpaths], dst, ty, closure=o[1])
    def inline(self, s, g, clo, names, argpaths, dst, ty):
        """run the closure body from this state: everything known here stays related to what it computes"""
        rpo = g.rpo(); at = {b: i for i, b in enumerate(rpo)}
        if any(x in at and at[x] <= at[b] for b in rpo for x in g.succ(b)): return None
        S = 2000000; st = "_1*" if g.locals[1].startswith("&") else "_1"
        def up(p): m = re.match(r"_(\d+)", p); i = int(m.group(1)); return p if 900000 <= i < 930000 else f"_{i + S}" + p[m.end():]
        moves = []; dups = []
        for n, o in names.items():
            if o[0] not in ("cp", "mv"): continue
            p = self.pl(o[1]); ta = self.ty(o[1])
            if SEQ.match(ta) or ta.startswith("&") and SEQ.match(deref(ta)):
                d = self.fu.star(p) if ta.startswith("&") else p
                r = self.root(d); self.lenof(s, r); (dups if o[0] == "cp" and not ta.startswith("&") else moves).append((f"{st}.{n}", r))
            elif ta.startswith("&"): moves.append((f"{st}.{n}*", self.fu.star(p)))
            elif o[0] == "cp": dups.append((f"{st}.{n}", p))
            else: moves.append((f"{st}.{n}", p))
        for i, p in enumerate(argpaths, 2):
            if i > g.argc: return None
            t = g.locals[i]
            if SEQ.match(t): r = self.root(p); self.lenof(s, r); moves.append((f"_{i}", r))
            elif t.startswith("&"): moves.append((f"_{i}*", self.fu.star(p)))
            else: dups.append((f"_{i}", p))
        c = s.shift(S); ren = []; seen = set()
        for a, b in moves:
            if 900000 <= lt(b) < 930000 or b in seen: dups.append((a, b))
            else: seen.add(b); ren.append((up(b), a))
        for a, b in dups: c.dup(up(b), a)
        ren.sort(key=lambda x: -len(x[0]))
        c = c.rename(ren); c.meet(self.A.entry(g, (), byval := self.A.byval(g)))
        R = Run(self.A, g, c, {} if self.record is not None else None, inlined=True); R.depth = self.depth + 1
        if self.calls is not None: R.calls = []
        outs = R.run()
        if not R.conv: return None
        if self.record is not None:
            for k, v in list(R.record.items()): merge_rec(self.inl, k, v)
            for k, v in R.inl.items(): merge_rec(self.inl, k, v)
            self.inl.setdefault(("done", g.id), None)
        if self.calls is not None: self.calls += R.calls
        for m in R.mods:
            for a, b in moves:
                if m.startswith(a):
                    q = b + m[len(a):]
                    if 1 <= lt(q) <= self.f.argc and q != f"_{lt(q)}": self.mods.add(q)
        out = []
        for x in outs:
            for l in byval: x.kill(f"_{l}")
            x = x.rename([(f"_{l}'", f"_{l}") for l in byval])
            for a, b in dups: x.kill(a)
            x = x.rename([(a, b) for b, a in ren] + [("_0", "_970000")])
            R.prune(x, set())
            x = x.shift(-S)
            if dst is not None:
                self.kill(x, dst); d = self.root(dst) if SEQ.match(ty or "") else dst
                x = x.rename([("_970000", d)])
                if re.search(r"^_\d+$", dst) and INT.match(ty or ""): self.ensure(x, dst, ty)
                self.reinv(x, dst, ty)
            else: x.kill("_970000")
            self.disc(x)
            if not x.bot: self.push(out, x)
        return self.merge(out) if len(out) > KMAX else out
    def closvar(self, o):
        """operand of the closure value itself when the operand is a reference to it"""
        if o[0] in ("cp", "mv") and len(o[1]) == 1 and self.ty(o[1]).startswith("&"):
            d = self.fu.single(o[1][0])
            if d and d[1] is not None and d[2] and d[2][0] == "ref" and len(d[2][2]) == 1: return ["cp", d[2][2]]
        return o
    def c_call(self, s, t, dst, ty, args, fn):
        if "ops::function" not in fn or len(args) != 2 or args[1][0] not in ("cp", "mv"): return None
        o = self.closvar(args[0])
        if o[0] in ("cp", "mv") and "closure" not in self.ty(o[1]): return None
        tt = self.ty(args[1][1]); p = self.pl(args[1][1]); n = len(splitargs(tt[1:-1])) if tt.startswith("(") else 0
        r = self.closure(s, o, [p + f".{i}" for i in range(n)], dst, ty)
        if r is None and o[0] in ("cp", "mv"):
            for k in self.captured(o[1]): self.wild(s, k)
        return r
    c_call_mut = c_call_once = c_call
    def extfn(self, s, fn, argpaths, dst, ty):
        if fn.endswith("::len") and argpaths: 
            self.kill(s, dst); self.lenof(s, strip(argpaths[0])); s.eq(dst, "#" + strip(argpaths[0]), 0); return [s]
        return None
    # ---- invariants ----
    def invpaths(self, p, ty, depth=0):
        """(path, adt) below p of types with invariants"""
        ty0 = ty
        while ty0.startswith("&"): ty0 = deref(ty0); p += "*"
        h = head(ty0)
        if depth == 0 and h.endswith(("Option", "Result", "ControlFlow")) :
            g = gen(ty0); g = g[1:] if h.endswith("ControlFlow") else g
            if g: return self.invpaths(p + "!S.0", g[0], 1)
            return []
        out = []
        if ty0.startswith("("):
            for i, a in enumerate(splitargs(ty0[1:-1])): out += self.invpaths(p + f".{i}", a, depth + 1) if depth < 3 else []
            return out
        if h in self.A.inv: out.append((p, h))
        d = self.F.adts.get(h)
        if d and not d["enum"] and depth < 3:
            for fl in d["variants"][0][1]:
                if head(deref(fl[1])) in self.A.invclosure: out += self.invpaths(p + "." + fl[0], fl[1], depth + 1)
        return out
    def reinv(self, s, p, ty):
        if not self.A.inv or not ty: return
        for q, h in self.invpaths(p, ty):
            q2 = self.canon(q)
            for i, sq in self.A.inv[h]:
                R = self.root(q2 + "." + sq); x = q2 + "." + i
                self.ensure(s, x, "usize"); self.lenof(s, R); s.le(x, "#" + R, 0)
                if (h, sq) in self.A.strfields: self.learn(s, ("bd", R, x, 0))
    def canon(self, q):
        m = re.match(r"(_\d+)(\*+)(.*)$", q)
        if m and int(m.group(1)[1:]) < len(self.f.locals):
            p = m.group(1)
            for _ in m.group(2): p = self.fu.star(p)
            return p + m.group(3)
        return q
    def reinvpath(self, s, c):
        """after a call wrote c: restore the invariants of the structs around it"""
        if not self.A.inv: return
        m = re.match(r"_(\d+)", c); l = int(m.group(1))
        if l >= len(self.f.locals): return
        base = c
        self.reinv(s, f"_{l}", self.f.locals[l])
    def checkinv(self, s, dst, h, what):
        if h not in self.A.inv or self.record is None: return
        for i, sq in self.A.inv[h]:
            R = self.root(dst + "." + sq); x = dst + "." + i; self.lenof(s, R)
            g = [("le", x, "#" + R, 0)] + ([("bd", R, x, 0)] if (h, sq) in self.A.strfields else [])
            self.ob(s, f"inv:{h.rsplit('::', 1)[-1]}.{i}", g, f"{h.rsplit('::', 1)[-1]}.{i} stays within {sq}")
    # ---- models of library functions: (state, terminator, destination, type, arguments, name) ----
    def optionlike(self, s, dst, ty):
        self.kill(s, dst); s.le(Z, "?" + dst, 0); s.le("?" + dst, Z, 1)
    def some(self, ty): return 1 if head(ty or "").endswith("Option") else 0 # discriminant of success
    def imp(self, s, dst, v, *fs):
        for f in fs: s.facts.add(("imp", "?" + dst, v, f))
        self.disc(s)
    def pattern(self, o):
        """(literal or None, least length) of a search pattern"""
        if o[0] == "k":
            if o[1].get("ty") == "char" and "val" in o[1]: return chr(int(o[1]["val"])), None
            l = self.A.litstr(self.f, o[1])
            if l is not None and "str" in o[1].get("ty", ""): return l, None
            return None, 0
        if o[0] in ("cp", "mv"):
            ty = self.ty(o[1])
            if STR.match(ty):
                n = self.A.litlen.get(self.root(self.pl(o[1])))
                return (n[1], None) if n else (None, 0)
            if ty == "char" or ty.startswith(("[char", "&[char", "{closure", "fn(", "&[char")) or "closure" in ty: return None, 1
        return None, 0
    def c_len(self, s, t, dst, ty, args, fn):
        if ty != "usize" or not args: return None
        ta = self.ty(args[0][1]) if args[0][0] != "k" else args[0][1].get("ty", "")
        if not SEQ.match(ta):
            if re.match(r"^(&(mut )?)*(alloc::collections|std::collections|hashbrown|core::slice|alloc::vec::IntoIter|core::ops::range)", ta): self.free(s, dst, "usize"); return [s]
            return None
        r = self.seq(s, args[0]); self.setval(s, dst, ("#" + r, 0), "usize"); return [s]
    def c_is_empty(self, s, t, dst, ty, args, fn):
        ta = self.ty(args[0][1]) if args[0][0] != "k" else args[0][1].get("ty", "")
        if not SEQ.match(ta): self.free(s, dst, "bool"); s.conds[dst] = ("true",); return [s]
        r = self.seq(s, args[0]); self.free(s, dst, "bool"); s.conds[dst] = ("cmp", "Eq", ("#" + r, 0), (Z, 0))
        if s.lo("#" + r) and s.lo("#" + r) > 0: s.eq(dst, Z, 0)
        elif s.same("#" + r, Z) == 0: s.eq(dst, Z, 1)
        return [s]
    def c_starts_with(self, s, t, dst, ty, args, fn, kind="pre"):
        ta = self.ty(args[0][1]) if args[0][0] != "k" else args[0][1].get("ty", "")
        r = self.seq(s, args[0]); lit, n = self.pattern(args[1]); self.free(s, dst, "bool")
        tp = self.ty(args[1][1]) if args[1][0] != "k" else args[1][1].get("ty", "")
        if not STR.match(ta) and SEQ.match(tp):
            q = self.seq(s, args[1]); m = self.A.litlen.get(q); fs = [("le", "#" + q, "#" + r, 0)]; rt = re.fullmatch(r"_(\d+)", r)
            if m and m[1] is not None and rt and int(rt.group(1)) < len(self.f.locals) and STR.match(self.f.locals[int(rt.group(1))]):
                raw = m[1].encode("latin1", "replace")
                try: fs.append((kind, r, raw.decode("utf8")))
                except UnicodeDecodeError as e:
                    if kind == "pre" and "unexpected end" not in e.reason: fs.append(("le", Z, Z, -1)) # no text starts that way
            s.conds[dst] = ("fact", tuple(fs), ()); return [s]
        if lit is None and args[1][0] in ("cp", "mv") and STR.match(self.ty(args[1][1])):
            q = self.seq(s, args[1]); s.conds[dst] = ("fact", (("le", "#" + q, "#" + r, 0), ("bd", r, "#" + q, 0)) if kind == "pre" else (("le", "#" + q, "#" + r, 0),), ())
        elif lit is None: s.conds[dst] = ("fact", (("le", Z, "#" + r, -1),) if n else (), ())
        elif STR.match(ta): s.conds[dst] = ("fact", ((kind, r, lit),), ())
        else: s.conds[dst] = ("fact", (("le", Z, "#" + r, -len(lit.encode())),), ())
        if lit is not None and STR.match(ta):
            for f in s.facts:
                if f[0] == kind and f[1] == r and (f[2].startswith(lit) if kind == "pre" else f[2].endswith(lit)): s.eq(dst, Z, 1); break
        return [s]
    def c_ends_with(self, s, t, dst, ty, args, fn): return self.c_starts_with(s, t, dst, ty, args, fn, "suf")
    def c_contains(self, s, t, dst, ty, args, fn):
        ta = self.ty(args[0][1]) if args[0][0] != "k" else args[0][1].get("ty", "")
        if not SEQ.match(ta):
            self.free(s, dst, "bool"); s.conds[dst] = ("true",); return [s]
        r = self.seq(s, args[0]); lit, n = self.pattern(args[1]); self.free(s, dst, "bool")
        k = len(lit.encode()) if lit is not None else (n or 0) if STR.match(ta) else 1
        s.conds[dst] = ("fact", (("le", Z, "#" + r, -k),), ()); return [s]
    def c_eq(self, s, t, dst, ty, args, fn, neg=False):
        if len(args) != 2: return None
        tys = [self.ty(a[1]) if a[0] != "k" else a[1].get("ty", "") for a in args]
        if not all(SEQ.match(x) for x in tys):
            vs = []
            for a, x in zip(args, tys):
                vs.append(self.intplace(s, a))
            self.free(s, dst, "bool"); s.conds[dst] = ("cmp", "Ne" if neg else "Eq", vs[0], vs[1]) if all(vs) else ("true",); return [s]
        a, b = self.seq(s, args[0]), self.seq(s, args[1]); self.free(s, dst, "bool"); fs = [("le", "#" + a, "#" + b, 0), ("le", "#" + b, "#" + a, 0)]
        for x, y in ((a, b), (b, a)):
            n = self.A.litlen.get(y)
            if n and n[1] is not None: fs += [("pre", x, n[1]), ("suf", x, n[1])]
        s.conds[dst] = ("fact", tuple(fs), ())
        if neg: s.conds[dst] = ("not", s.conds[dst])
        return [s]
    def c_ne(self, s, t, dst, ty, args, fn): return self.c_eq(s, t, dst, ty, args, fn, True)
    def intplace(self, s, o):
        """the integer that decides how a value is ordered: the value itself or the only field of a struct that derives its order"""
        if o[0] == "k":
            v = self.val(s, o); return v
        if o[0] not in ("cp", "mv"): return None
        ty = self.ty(o[1]); p = self.pl(o[1])
        while ty.startswith("&"): p = self.fu.star(p); ty = deref(ty)
        for _ in range(3):
            if INT.match(ty): self.ensure(s, p, ty); return (p, 0)
            d = self.A.F.adts.get(head(ty))
            if not d or d.get("enum") or len(d["variants"]) != 1 or len(d["variants"][0][1]) != 1: return None
            g = next((self.A.F.fns.get(f"<{head(ty)} as core::cmp::{x}>::{y}") for x, y in (("PartialOrd", "partial_cmp"), ("PartialEq", "eq"))), None)
            if g is None or not g.derived: return None
            fl = d["variants"][0][1][0]; p = self.pathjoin(p, fl[0]); ty = fl[1]
        return None
    def pathjoin(self, p, n): return p + "." + n
    def c_order(self, s, t, dst, ty, args, fn, op):
        if len(args) != 2: return None
        tys = [self.ty(a[1]) if a[0] in ("cp", "mv") else a[1].get("ty", "") if a[0] == "k" else "" for a in args]
        v = [self.intplace(s, a) for a in args]
        if all(v): self.free(s, dst, "bool"); s.conds[dst] = ("cmp", op, v[0], v[1]); return [s]
        if any(self.A.F.adts.get(head(re.sub(r"^(&('\w+ )?(mut )?)+", "", x))) for x in tys): self.free(s, dst, "bool"); s.conds.pop(dst, None); return [s]
        return None
    def c_lt(self, s, t, dst, ty, args, fn): return self.c_order(s, t, dst, ty, args, fn, "Lt")
    def c_le(self, s, t, dst, ty, args, fn): return self.c_order(s, t, dst, ty, args, fn, "Le")
    def c_gt(self, s, t, dst, ty, args, fn): return self.c_order(s, t, dst, ty, args, fn, "Gt")
    def c_ge(self, s, t, dst, ty, args, fn): return self.c_order(s, t, dst, ty, args, fn, "Ge")
    def c_is_ascii_digit(self, s, t, dst, ty, args, fn):
        self.free(s, dst, "bool"); s.conds[dst] = ("true",)
        o = args[0]
        if o[0] in ("cp", "mv"):
            ta = self.ty(o[1]); p = self.fu.star(self.pl(o[1])) if ta.startswith("&") else self.pl(o[1]); ta = deref(ta)
            if ta in ("char", "u8") and "[]" not in p:
                self.ensure(s, p, ta)
                lo, hi = next((v for k, v in self.ASCII.items() if fn.endswith(k)), (0, 127))
                s.conds[dst] = ("fact", (("le", p, Z, hi), ("le", Z, p, -lo)), ())
        return [s]
    ASCII = {"is_ascii_digit": (48, 57), "is_ascii_alphabetic": (65, 122), "is_ascii_alphanumeric": (48, 122), "is_ascii_uppercase": (65, 90), "is_ascii_lowercase": (97, 122),
             "is_ascii_whitespace": (9, 32), "is_ascii_hexdigit": (48, 102), "is_ascii_punctuation": (33, 126), "is_ascii_graphic": (33, 126)}
    c_is_ascii_alphabetic = c_is_ascii_alphanumeric = c_is_ascii_whitespace = c_is_ascii_punctuation = c_is_ascii_hexdigit = c_is_ascii_uppercase = c_is_ascii_lowercase = c_is_ascii_control = c_is_ascii_graphic = c_is_digit = c_is_ascii_digit
    def c_is_char_boundary(self, s, t, dst, ty, args, fn):
        r = self.seq(s, args[0]); x = self.val(s, args[1]); self.free(s, dst, "bool")
        if x: s.conds[dst] = ("fact", (("bd", r, x[0], x[1]), ("le", x[0], "#" + r, -x[1])), (("le", Z, x[0], x[1] - 1),))
        return [s]
    def c_is_ascii(self, s, t, dst, ty, args, fn):
        ta = self.ty(args[0][1]) if args[0][0] != "k" else ""
        if not SEQ.match(ta): return self.c_is_ascii_digit(s, t, dst, ty, args, fn)
        r = self.seq(s, args[0]); self.free(s, dst, "bool"); s.conds[dst] = ("fact", (("ascii", r),), ()); return [s]
    def found(self, s, r, dst, lit, n, rev=False, pat=None):
        """facts of a position at which a pattern was found in r"""
        p = dst + "!S.0"; k = len(lit.encode("utf8", "surrogatepass")) if lit is not None else n
        fs = [("le", Z, p, 0), ("le", p, "#" + r, -k), ("bd", r, p, 0)]
        if lit is not None: fs.append(("bd", r, p, k))
        elif pat: fs += [("ends", r, p, "#" + pat), ("pat", r, p, 0)]
        if lit is not None and not rev:
            for f in s.facts: # cannot be at the very start when the text starts with something else
                if f[0] == "pre" and f[1] == r and lit and f[2] and not f[2].startswith(lit) and not lit.startswith(f[2]): fs.append(("le", Z, p, -1))
        return fs
    def c_find(self, s, t, dst, ty, args, fn, rev=False):
        if not args or args[0][0] not in ("cp", "mv") or not STR.match(self.ty(args[0][1])) or "core::option::Option<usize>" != ty:
            self.optionlike(s, dst, ty); s.guards[dst] = frozenset(["?"])
            if args and args[0][0] in ("cp", "mv") and "::zip::Zip<" in self.ty(args[0][1]): self.guard(s, args[0], True) # compares two texts
            if len(args) > 1:
                for k in self.captured(args[1][1]) if args[1][0] in ("cp", "mv") else (): self.wild(s, k)
            return [s] if head(ty).endswith("Option") else None
        r = self.seq(s, args[0]); lit, n = self.pattern(args[1])
        pat = self.seq(s, args[1]) if lit is None and args[1][0] in ("cp", "mv") and STR.match(self.ty(args[1][1])) else None
        self.optionlike(s, dst, ty); self.imp(s, dst, 1, *self.found(s, r, dst, lit, n, rev, pat))
        if lit and any(f[0] in ("pre", "suf") and f[1] == r and lit in f[2] for f in s.facts): s.eq("?" + dst, Z, 1); self.disc(s)
        return [s]
    def c_rfind(self, s, t, dst, ty, args, fn): return self.c_find(s, t, dst, ty, args, fn, True)
    def part(self, s, t, dst, ty, args, left, right):
        """a slice of the argument with an unknown start (left) or end (right)"""
        if not STR.match(self.ty(args[0][1]) if args[0][0] != "k" else "&str"): return None
        r = self.seq(s, args[0]); d = self.root(dst)
        if d == r: return None
        self.kill(s, dst)
        a, b = f"_{960000}", f"_{960001}"
        for x in (a, b): s.killterm(x); s.le(Z, x, 0); s.le(x, "#" + r, 0)
        s.le(a, b, 0)
        self.subof(s, d, r, (a, 0) if left else (Z, 0), (b, 0) if right else ("#" + r, 0))
        s.killterm(a); s.killterm(b)
        return [s]
    def c_trim(self, s, t, dst, ty, args, fn): return self.part(s, t, dst, ty, args, True, True)
    def c_trim_start(self, s, t, dst, ty, args, fn): return self.part(s, t, dst, ty, args, True, False)
    def c_trim_end(self, s, t, dst, ty, args, fn): return self.part(s, t, dst, ty, args, False, True)
    c_trim_left = c_trim_start_matches = c_trim_left_matches = c_trim_start
    c_trim_right = c_trim_end_matches = c_trim_right_matches = c_trim_end
    c_trim_matches = c_trim_ascii = c_trim
    def c_strip_prefix(self, s, t, dst, ty, args, fn, suf=False):
        if args[0][0] not in ("cp", "mv") or not STR.match(self.ty(args[0][1])): return None
        r = self.seq(s, args[0]); lit, n = self.pattern(args[1]); self.optionlike(s, dst, ty)
        d = dst + "!S.0"; k = len(lit.encode()) if lit is not None else n
        L = "#" + d; self.lenof(s, d); s.le(L, "#" + r, 0)
        # the payload's place as a slice: only when it is there, so its facts hang on the discriminant
        fs = [("le", Z, "#" + r, -k), ("le", L, "#" + r, -k)]
        if lit is not None: fs += [("pre" if not suf else "suf", r, lit), ("le", "#" + r, L, k), ("bd", r, Z, k) if not suf else ("bd", r, "#" + r, -k)]
        self.imp(s, dst, 1, *fs)
        return [s]
    def c_strip_suffix(self, s, t, dst, ty, args, fn): return self.c_strip_prefix(s, t, dst, ty, args, fn, True)
    def c_split_at(self, s, t, dst, ty, args, fn):
        ta = self.ty(args[0][1]) if args[0][0] != "k" else "&str"; r = self.seq(s, args[0]); x = self.val(s, args[1])
        if not x: return None
        g = self.goals(r, None, x, bool(STR.match(ta))); self.ob(s, "split", g, "split"); self.assume(s, g)
        if s.bot: return []
        self.kill(s, dst)
        if not STR.match(ta): s.facts.add(("bytes", r))
        self.subof(s, dst + ".0", r, (Z, 0), x); self.subof(s, dst + ".1", r, x, ("#" + r, 0)); return [s]
    c_split_at_mut = c_split_at
    def c_split_once(self, s, t, dst, ty, args, fn):
        if not STR.match(self.ty(args[0][1]) if args[0][0] != "k" else "&str"): return None
        r = self.seq(s, args[0]); lit, n = self.pattern(args[1]); k = len(lit.encode()) if lit is not None else n or 0
        self.optionlike(s, dst, ty); a, b = "#" + dst + "!S.0.0", "#" + dst + "!S.0.1"
        for x in (a, b): s.le(Z, x, 0)
        self.imp(s, dst, 1, ("le", a, "#" + r, -k), ("le", b, "#" + r, -k), ("le", Z, "#" + r, -k)); return [s]
    c_rsplit_once = c_split_once
    def c_get(self, s, t, dst, ty, args, fn):
        if len(args) != 2 or not head(ty).endswith("Option") or args[0][0] not in ("cp", "mv") or not SEQ.match(self.ty(args[0][1])):
            if head(ty or "").endswith("Option"): self.optionlike(s, dst, ty); s.guards[dst] = frozenset(["?"]); return [s]
            return None
        r = self.seq(s, args[0]); isstr = bool(STR.match(self.ty(args[0][1]))); x = self.val(s, args[1])
        if x and (self.ty(args[1][1]) if args[1][0] != "k" else "usize") == "usize":
            self.optionlike(s, dst, ty); self.imp(s, dst, 1, ("le", x[0], "#" + r, -x[1] - 1)); self.imp(s, dst, 0, ("le", "#" + r, x[0], x[1]))
            if s.knows(x[0], "#" + r, -x[1] - 1): s.eq("?" + dst, Z, 1)
            elif s.knows("#" + r, x[0], x[1]): s.eq("?" + dst, Z, 0)
            return [s]
        rg = self.rng(s, args[1])
        if not rg: return None
        g = self.goals(r, rg[0], rg[1], isstr)
        self.optionlike(s, dst, ty); d = dst + "!S.0"; L = "#" + d; s.le(Z, L, 0); fs = list(g)
        st, en = rg[0] or (Z, 0), rg[1] or ("#" + r, 0)
        if st[0] == Z: fs += [("le", L, en[0], en[1] - st[1]), ("le", en[0], L, st[1] - en[1])]
        fs.append(("le", L, "#" + r, 0))
        self.imp(s, dst, 1, *fs)
        if all((s.knows(*x[1:]) if x[0] == "le" else self.bd(s, *x[1:])) for x in g): s.eq("?" + dst, Z, 1)
        return [s]
    c_get_mut = c_get
    def c_first(self, s, t, dst, ty, args, fn):
        if not head(ty).endswith("Option") or args[0][0] not in ("cp", "mv") or not SEQ.match(self.ty(args[0][1])): return None
        r = self.seq(s, args[0]); self.optionlike(s, dst, ty)
        self.imp(s, dst, 1, ("le", Z, "#" + r, -1)); self.imp(s, dst, 0, ("le", "#" + r, Z, 0))
        if s.knows(Z, "#" + r, -1): s.eq("?" + dst, Z, 1)
        return [s]
    c_last = c_first_mut = c_last_mut = c_split_first = c_split_last = c_first
    # iterators
    def iterof(self, s, o):
        if o[0] not in ("cp", "mv"): return None, None
        ta = self.ty(o[1]); p = self.pl(o[1])
        while ta.startswith("&"): p = self.fu.star(p); ta = deref(ta)
        return p, s.iters.get(p)
    def mkiter(self, s, dst, kind, r, lo=None):
        self.kill(s, dst); s.iters[dst] = (kind, r); R = "%" + dst
        s.le(Z, R, 0); s.le(R, "#" + r, 0)
        if kind in ("slice", "bytes", "chars", "char_indices"): s.eq("~" + dst, Z, 0)
        if kind in ("slice", "bytes"): s.le("#" + r, R, 0)
        elif s.knows(Z, "#" + r, -1): s.le(Z, R, -1)
    def c_chars(self, s, t, dst, ty, args, fn, kind="chars"):
        if args[0][0] == "k" or STR.match(self.ty(args[0][1])): self.mkiter(s, dst, kind, self.seq(s, args[0])); return [s]
        return None
    def c_bytes(self, s, t, dst, ty, args, fn): return self.c_chars(s, t, dst, ty, args, fn, "bytes")
    def c_char_indices(self, s, t, dst, ty, args, fn): return self.c_chars(s, t, dst, ty, args, fn, "char_indices")
    def c_iter(self, s, t, dst, ty, args, fn):
        if args[0][0] in ("cp", "mv") and SEQ.match(self.ty(args[0][1])): self.mkiter(s, dst, "slice", self.seq(s, args[0])); return [s]
        return None
    c_iter_mut = c_iter
    def c_split(self, s, t, dst, ty, args, fn):
        if args[0][0] == "k" or STR.match(self.ty(args[0][1])):
            r = self.seq(s, args[0]); self.kill(s, dst); s.iters[dst] = ("split", r); s.le(Z, "%" + dst, -1); return [s]
        return None
    c_rsplit = c_splitn = c_rsplitn = c_split
    def c_lines(self, s, t, dst, ty, args, fn):
        if args[0][0] == "k" or STR.match(self.ty(args[0][1])):
            r = self.seq(s, args[0]); self.kill(s, dst); s.iters[dst] = ("split", r); s.le(Z, "%" + dst, -1 if s.knows(Z, "#" + r, -1) else 0); return [s]
        return None
    def c_chunks_exact(self, s, t, dst, ty, args, fn):
        n = self.val(s, args[1]); r = self.seq(s, args[0])
        if n: self.ob(s, "chunk", [("le", Z, n[0], n[1] - 1)], "chunk size")
        self.kill(s, dst); s.iters[dst] = ("chunks" if n and n[0] == Z else "other", r, n[1] if n else 0, "exact" if "exact" in fn else "windows" if "windows" in fn else "") ; s.le(Z, "%" + dst, 0); return [s]
    c_chunks = c_windows = c_rchunks = c_chunks_exact
    def c_into_iter(self, s, t, dst, ty, args, fn):
        o = args[0]
        if o[0] not in ("cp", "mv"): return None
        ta = self.ty(o[1])
        if SEQ.match(ta): self.mkiter(s, dst, "slice", self.seq(s, o)); return [s]
        if "range::Range" in ta or "iter::" in ta or "str::" in ta or "slice::" in ta or "Chars" in ta:
            p = self.pl(o[1]); self.copy(s, dst, p, ta); return [s]
        return None
    def c_by_ref(self, s, t, dst, ty, args, fn): return None
    def c_peekable(self, s, t, dst, ty, args, fn):
        p, it = self.iterof(s, args[0])
        if it is None: return None
        self.copy(s, dst, p, "?"); s.iters[dst] = it; return [s]
    c_fuse = c_cloned = c_copied = c_peekable
    def c_enumerate(self, s, t, dst, ty, args, fn):
        p, it = self.iterof(s, args[0])
        if it is None: return None
        self.copy(s, dst, p, "?"); s.iters[dst] = ("enum",) + it; return [s]
    def c_rev(self, s, t, dst, ty, args, fn):
        p, it = self.iterof(s, args[0])
        if it is None:
            if args[0][0] in ("cp", "mv") and "range::Range" in self.ty(args[0][1]): self.copy(s, dst, self.pl(args[0][1]), "?"); s.iters[dst] = ("revrange", dst); return [s]
            return None
        self.copy(s, dst, p, "?"); s.iters[dst] = it if it[0] not in ("chars",) else ("other", it[1]); return [s]
    def c_next(self, s, t, dst, ty, args, fn):
        if not head(ty or "").endswith("Option") or args[0][0] not in ("cp", "mv"): return None
        p, it = self.iterof(s, args[0]); ta = self.ty(args[0][1]); back = fn.endswith("next_back")
        if it is None and re.search(r"range::Range(Inclusive)?<u?(size|8|16|32|64)|range::Range(Inclusive)?<[ui]", ta) or it and it[0] == "revrange":
            if it: p = p
            a, b = p + (".start"), p + (".end"); inc = 0 if "RangeInclusive" not in ta else 1
            if it and it[0] == "revrange" and p != it[1]: pass
            for x in (a, b): self.ensure(s, x, "usize")
            N = "_950000"; s.killterm(N); s.eq(N, a, 0)
            rv = bool(it) or back or bool(inc)
            # the counter moves on: keep its lower bound, lose its equality
            pl_ = dst + "!S.0"
            self.optionlike(s, dst, ty)
            if rv:
                fs = [("le", a, pl_, 0), ("le", pl_, b, inc - 1)]
                self.imp(s, dst, 1, *fs); self.ensure(s, pl_, "usize"); s.lossy.add(pl_); s.killterm(N)
                return [s]
            y = s.copy(); y.eq("?" + dst, Z, 1); y.le(a, b, -1)
            n = s; n.eq("?" + dst, Z, 0); n.le(b, a, 0)
            out = []
            if not n.bot: self.disc(n); n.killterm(N); out.append(n)
            if not y.bot:
                lossy = a in y.lossy
                self.ensure(y, pl_, "usize"); y.eq(pl_, N, 0); y.killterm(a); y.eq(a, N, 1); y.le(a, b, 0); y.killterm(N)
                if lossy: y.lossy.update((pl_, a))
                l = lt(a)
                self.disc(y); out.append(y)
            return out
        if it is not None and it[0] == "mapped":
            s.killterm("%" + p); s.iters.pop(p, None); self.unknown(s, t, dst, ty, args, fn); return [s]
        if it is None:
            if not self.F.targets(fn) or all(x not in self.F.fns for x in self.F.targets(fn)):
                q = p
                self.optionlike(s, dst, ty); s.kill("%" + q) if False else None
                self.free(s, dst + "!S.0"); return [s]
            return None
        R = "%" + p; kind = it[0]; en = False
        if kind == "enum": en = True; it = it[1:]; kind = it[0]
        r = it[1]; self.optionlike(s, dst, ty); pay = dst + "!S.0"; C = "~" + p
        if kind in ("chars", "char_indices") and not back and not has(p, dst):
            self.ensure(s, C); R_ = R
            n = s.copy(); y = s; n.eq("?" + dst, Z, 0); y.eq("?" + dst, Z, 1); out = []
            if s.lo(R) and s.lo(R) > 0: n.bot = True
            if not n.bot:
                n.le(R, Z, 0)
                for f in list(n.facts):
                    if f[0] == "cur" and f[1] == r:
                        d = n.same(f[2], C)
                        if d is not None and d + f[3] == 0: n.eq(f[4], "#" + r, -f[5])
                if n.same(C, Z) == 0: n.le("#" + r, Z, 0)
                if not n.bot: self.disc(n)
                if not n.bot: out.append(n)
            if not y.bot:
                y.le(Z, "#" + r, -1)
                if en:
                    self.ensure(y, pay + ".0", "usize"); y.eq(pay + ".0", C, 0); y.le(pay + ".0", "#" + r, -1); pay += ".1"
                c = pay
                if kind == "char_indices":
                    self.ensure(y, pay + ".0", "usize"); self.learn(y, ("cur", r, C, 0, pay + ".0", 0)); c = pay + ".1"
                    self.learn(y, ("next", r, pay + ".0", "@" + c)); y.le(pay + ".0", "#" + r, -1); self.learn(y, ("bd", r, pay + ".0", 0))
                    if y.same(C, Z) == 0: y.eq(pay + ".0", Z, 0)
                self.ensure(y, c, "char"); self.ensure(y, "@" + c); self.learn(y, ("at", r, C, 0, c))
                y.le("@" + c, "#" + r, 0)
                if y.same(C, Z) == 0: self.learn(y, ("bd", r, "@" + c, 0))
                lossy = C in y.lossy
                if lossy and kind == "char_indices": y.lossy.add(pay + ".0")
                self.setval(y, C, (C, 1), "usize"); y.le(C, "#" + r, 0)
                lo = y.lo(R); y.killterm(R); y.le(Z, R, -max(0, (lo or 0) - 1)); y.le(R, "#" + r, 0)
                if lossy: y.lossy.add(C)
                self.disc(y)
                if not y.bot: out.append(y)
            return out
        if en:
            if kind in ("slice", "chars", "bytes", "char_indices"): self.imp(s, dst, 1, ("le", pay + ".0", "#" + r, -1), ("le", Z, pay + ".0", 0))
            s.lossy.add(pay + ".0"); pay += ".1"
        fresh = it[-1] != "used"
        if kind == "char_indices":
            self.imp(s, dst, 1, ("le", pay + ".0", "#" + r, -1), ("le", Z, pay + ".0", 0), ("bd", r, pay + ".0", 0), ("next", r, pay + ".0", "@" + pay + ".1"), ("le", Z, "@" + pay + ".1", -1), ("le", "@" + pay + ".1", Z, 4))
            if not fresh: s.lossy.add(pay + ".0")
        if kind == "chars":
            fs = [("le", Z, "#" + r, -1), ("le", "@" + pay, "#" + r, 0), ("le", Z, "@" + pay, -1), ("le", "@" + pay, Z, 4)]
            if fresh and not back: fs.append(("bd", r, "@" + pay, 0))
            self.imp(s, dst, 1, *fs)
            if fresh and not back: self.imp(s, dst, 0, ("le", "#" + r, Z, 0))
        if kind in ("slice", "bytes"):
            self.imp(s, dst, 1, ("le", Z, "#" + r, -1)); self.ensure(s, C)
            if not back:
                i0 = pay[:-2] + ".0" if en else C; io = 0 if en else -1; ref = "*" if kind == "slice" else ""; et = self.A.pathty(ty, (pay + ref)[len(dst):])
                if en: self.imp(s, dst, 1, ("le", i0, C, -1), ("le", C, i0, 1))
                if et in ("u8", "char"):
                    # the facts speak of the count after this step
                    self.setval(s, C, (C, 1), "usize"); s.le(Z, C, -1)
                    if et == "u8": self.imp(s, dst, 1, ("byte", r, i0, io, pay + ref))
                    else:
                        for f in list(s.facts):
                            if f[0] == "chars" and f[1] == r: self.imp(s, dst, 1, ("at", f[2], i0, io, pay + ref))
                else: self.setval(s, C, (C, 1), "usize")
        if kind == "split":
            L = "#" + pay; s.le(Z, L, 0); self.imp(s, dst, 1, ("le", L, "#" + r, 0))
        if kind == "chunks":
            L = "#" + pay; s.le(Z, L, 0)
            if en:
                self.imp(s, dst, 1, ("le", pay[:-2] + ".0", "#" + r, -it[2] if it[3] == "windows" else -1))
                if it[3] == "windows": s.guards[pay[:-2] + ".0"] = frozenset(["?"])
            if it[3] in ("exact", "windows"): self.imp(s, dst, 1, ("le", L, Z, it[2]), ("le", Z, L, -it[2]))
            else: self.imp(s, dst, 1, ("le", L, Z, it[2]), ("le", Z, L, -1))
        if kind != "split" or True:
            if s.knows(Z, R, -1): s.eq("?" + dst, Z, 1)
            elif s.same(R, Z) == 0: s.eq("?" + dst, Z, 0)
            self.disc(s)
        if fresh and kind in ("chars", "char_indices"):
            pass
        # one fewer remains
        a, b = s.lo(R), s.hi(R); had = s.same(R, "#" + r)
        s.killterm(R); s.le(Z, R, -max(0, (a or 0) - 1))
        if kind in ("slice", "bytes", "chars", "char_indices"):
            s.le(R, "#" + r, 0)
        base = s.iters.get(p)
        if base and base[-1] != "used" and kind in ("chars", "char_indices"): s.iters[p] = base + ("used",)
        return [s] if not s.bot else []
    c_next_back = c_next
    def c_peek(self, s, t, dst, ty, args, fn):
        p, it = self.iterof(s, args[0]); self.optionlike(s, dst, ty)
        if it is not None and it[0] in ("chars", "char_indices") and "Peekable" in fn:
            r = it[1]; C = "~" + p; self.ensure(s, C); pay = dst + "!S.0*"; c = pay
            if it[0] == "char_indices": c = pay + ".1"; self.imp(s, dst, 1, ("cur", r, C, 0, pay + ".0", 0), ("bd", r, pay + ".0", 0), ("le", pay + ".0", "#" + r, -1), ("next", r, pay + ".0", "@" + c))
            self.imp(s, dst, 1, ("at", r, C, 0, c))
        return [s]
    c_next_if = c_next_if_eq = c_peek_mut = c_nth = c_min_by_key = c_max_by_key = None
    def c_count(self, s, t, dst, ty, args, fn):
        p, it = self.iterof(s, args[0]); self.kill(s, dst); s.le(Z, dst, 0)
        if it is not None and it[0] in ("chars", "bytes", "char_indices", "slice"): s.le(dst, "#" + it[1], 0)
        return [s]
    def c_collect(self, s, t, dst, ty, args, fn):
        if not SEQ.match(ty): return None
        p, it = self.iterof(s, args[0]); self.free(s, dst); r = self.root(dst); self.lenof(s, r)
        if it is not None and p:
            R = "%" + p; k = it[1] if it[0] == "enum" else it[0]
            if not STR.match(ty):
                s.eq("#" + r, R, 0)
                if it[0] == "chars" and "~" + p in s.m and s.same("~" + p, Z) == 0 and "Vec<char>" in ty: s.facts.add(("chars", r, it[1]))
                if p and has(R, dst): s.killterm(R)
        return [s]
    def c_position(self, s, t, dst, ty, args, fn):
        p, it = self.iterof(s, args[0]); self.optionlike(s, dst, ty); pay = dst + "!S.0"
        for k in self.captured(args[1][1]) if len(args) > 1 and args[1][0] in ("cp", "mv") else (): self.wild(s, k)
        fs = [("le", Z, pay, 0)]
        if it is not None:
            i2 = it[1:] if it[0] == "enum" else it
            if i2[0] in ("slice", "chars", "bytes", "char_indices"): fs.append(("le", pay, "#" + i2[1], -1))
            if i2[0] in ("slice", "bytes") and len(args) > 1:
                if self.asciipred(args[1]): fs += [("bd", i2[1], pay, 0), ("bd", i2[1], pay, 1)]
                else: s.guards[pay] = frozenset(["?"])
        self.imp(s, dst, 1, *fs); return [s]
    c_rposition = c_position
    def c_all(self, s, t, dst, ty, args, fn):
        p, it = self.iterof(s, args[0]); self.free(s, dst, "bool"); s.conds[dst] = ("true",)
        if it is not None and len(args) > 1:
            i2 = it[1:] if it[0] == "enum" else it
            if fn.endswith("::any"): s.conds[dst] = ("fact", (("le", Z, "#" + i2[1], -1),), ()) if i2[0] in ("chars", "bytes", "slice", "char_indices") else ("true",)
            elif i2[0] in ("chars", "bytes", "char_indices"):
                if self.asciipred(args[1]): s.conds[dst] = ("fact", (("ascii", i2[1]),), ())
                else: s.conds.pop(dst)
        return [s]
    c_any = c_all
    def asciipred(self, o):
        """does a predicate on characters only accept ASCII"""
        if o[0] == "k": return bool(re.search(r"is_ascii(_\w+)?$|is_digit", o[1].get("fn", "")))
        names, cid = self.capmap(o[1]); g = self.F.fns.get(cid)
        if g is None: return False
        if self.asciieq(g): return True
        calls = [x[1].get("fn", "") for b, x in g.calls()]
        # every way to say yes runs through an ASCII test or a comparison with an ASCII constant
        return bool(calls) and all(re.search(r"::is_ascii(_\w+)?$|::is_digit$|deref$|Deref>::deref$", c) for c in calls) and not any(s2[0] == "=" and s2[2][0] == "bin" and s2[2][1] in ("Ne", "Gt", "Ge") for b, i, s2 in g.stmts()) and not any(s2[0] == "=" and s2[2][0] == "un" for b, i, s2 in g.stmts())
    def asciieq(self, g):
        """a closure without calls that says yes only for listed ASCII values"""
        if any(True for _ in g.calls()): return False
        def low(o): return o[0] == "k" and "val" in o[1] and 0 <= int(o[1]["val"]) < 128
        yes = set()
        for b, i, s2 in g.stmts():
            if s2[0] != "=" or s2[1] != [0]: continue
            rv = s2[2]
            if rv[0] == "bin" and rv[1] == "Eq" and (low(rv[2]) or low(rv[3])): continue
            if rv[0] == "use" and rv[1][0] == "k" and "val" in rv[1][1]:
                if int(rv[1][1]["val"]): yes.add(b)
                continue
            return False
        for b, bl in enumerate(g.blocks):
            t = bl["t"]
            if t[0] == "switch":
                tgt = [(int(x), y) for x, y in t[2]] + [(None, t[3])]
                isb = t[1][0] in ("cp", "mv") and len(t[1][1]) == 1 and g.locals[t[1][1][0]] == "bool"
                if isb:
                    cmp = [s2[2] for b2, i, s2 in g.stmts() if s2[0] == "=" and s2[1] == t[1][1]]
                    if all(c[0] == "bin" and c[1] == "Eq" and (low(c[2]) or low(c[3])) for c in cmp) and not any(y in yes and x == 0 for x, y in tgt): continue
                    if any(y in yes for x, y in tgt): return False
                elif any(y in yes and (x is None or not 0 <= x < 128) for x, y in tgt): return False
            elif t[0] == "goto" and t[1] in yes: return False
        return bool(g.blocks)
    # optional values
    def need(self, s, dst, o, kind):
        p = self.pl(o[1]); v = self.some(self.ty(o[1])); D = "?" + p; self.ensure(s, D)
        if self.record is not None and not s.bot:
            key = (self.f.id, self.cur[0], kind)
            r = self.record.setdefault(key, {"n": 0, "fails": [], "what": kind, "line": self.f.blocks[self.cur[0]]["t"][-1]}); r["n"] += 1
            if s.same(D, Z) != v:
                gd = [k for k in s.guards if has(p, k[1:] if k[0] in "#?" else k) or has(k[1:] if k[0] in "#?" else k, p)]
                src = [d for d in (self.fu.defs.get(o[1][0], ()) if len(o[1]) == 1 else ()) if d[1] is None]
                known = src and all(re.search(r"::(find|rfind|position|rposition|get|first|last|next|next_back|checked_sub|strip_prefix|strip_suffix|split_once|parse|try_into|pop|peek|to_digit|from_u32|from_str_radix)$", d[2][1].get("fn", "")) for d in src)
                r["fails"].append(("unknown", ("opt", p), "guards") if gd or D in s.lossy or not known else ("clean", ("opt", p), None))
        s.eq(D, Z, v); self.disc(s)
        return p, v
    def c_unwrap(self, s, t, dst, ty, args, fn):
        if args[0][0] not in ("cp", "mv") or not re.search(r"(Option|Result)(::<|<)", fn): return None
        p, v = self.need(s, dst, args[0], "unwrap")
        if s.bot: return []
        self.take(s, dst, p + "!S.0", ty); return [s]
    c_expect = c_unwrap
    def take(self, s, dst, src, ty):
        if INT.match(ty or ""):
            self.ensure(s, src, ty); g = s.guards.get(src); at = "@" + src in s.m or any("@" + src in r for r in s.m.values())
            hasat = at
            self.setval(s, dst, (src, 0), ty)
            if hasat: s.eq("@" + dst, "@" + src, 0)
            for k in list(s.guards):
                if has(src, k): s.guards[dst] = s.guards[k]
        elif SEQ.match(ty or ""):
            self.kill(s, dst, root=False); d = self.root(dst)
            if d == dst: self.alias(s, d, self.root(src))
        else: self.copy(s, dst, src, ty)
        for k in list(s.guards):
            if has(src, k) and "?" in s.guards[k]: s.guards[dst] = s.guards[k]
    def split(self, s, p, v):
        """states with the value present, absent"""
        D = "?" + p; self.ensure(s, D); a, b = s.copy(), s
        a.eq(D, Z, v); self.disc(a) if not a.bot else None
        b.eq(D, Z, 1 - v); self.disc(b) if not b.bot else None
        return (None if a.bot else a), (None if b.bot else b)
    def c_unwrap_or(self, s, t, dst, ty, args, fn):
        if args[0][0] not in ("cp", "mv") or not re.search(r"(Option|Result)(::<|<)", fn): return None
        p = self.pl(args[0][1]); v = self.some(self.ty(args[0][1])); a, b = self.split(s, p, v); out = []
        if a: self.take(a, dst, p + "!S.0", ty); out.append(a)
        if b:
            if fn.endswith("unwrap_or_default"):
                self.kill(b, dst)
                if INT.match(ty): b.eq(dst, Z, 0)
                elif SEQ.match(ty): self.lenof(b, self.root(dst)); b.eq("#" + self.root(dst), Z, 0)
            elif fn.endswith("unwrap_or_else"):
                r = self.closure(b, args[1], [p + "!Err.0"] if v == 0 else [], dst, ty)
                if r is None: self.wild(b, dst, ty); out.append(b)
                else: out += r
                return out
            else: self.assignop(b, dst, args[1], ty)
            out.append(b)
        return out
    c_unwrap_or_default = c_unwrap_or_else = c_unwrap_or
    def assignop(self, s, dst, o, ty):
        if INT.match(ty or ""): self.setval(s, dst, self.val(s, o), ty)
        elif o[0] == "k":
            if "str" in o[1] or SEQ.match(ty or ""):
                r = self.A.lit(self.f, o[1]); self.kill(s, dst); self.lenof(s, r); self.alias(s, self.root(dst), r)
            else: self.free(s, dst)
        elif o[0] in ("cp", "mv"):
            src = self.pl(o[1])
            if SEQ.match(ty or ""): 
                self.kill(s, dst, root=False); d = self.root(dst)
                if d == dst: self.alias(s, d, self.root(src))
            else: self.copy(s, dst, src, ty)
    def c_map_or(self, s, t, dst, ty, args, fn):
        if args[0][0] not in ("cp", "mv") or not re.search(r"(Option|Result)(::<|<)", fn): return None
        p = self.pl(args[0][1]); v = self.some(self.ty(args[0][1])); a, b = self.split(s, p, v); out = []
        if a:
            r = self.closure(a, args[2], [p + "!S.0"], dst, ty)
            if r is None: self.clobber(a, args[2]); self.wild(a, dst, ty); out.append(a)
            else: out += r
        if b:
            if fn.endswith("map_or_else"):
                r = self.closure(b, args[1], [p + "!Err.0"] if v == 0 else [], dst, ty)
                if r is None: self.clobber(b, args[1]); self.wild(b, dst, ty); out.append(b)
                else: out += r
            else: self.assignop(b, dst, args[1], ty); out.append(b)
        return out
    c_map_or_else = c_map_or
    def clobber(self, s, o):
        if o[0] in ("cp", "mv"):
            for k in self.captured(o[1]): self.wild(s, k)
    def c_map(self, s, t, dst, ty, args, fn):
        if args[0][0] not in ("cp", "mv"): return None
        if fn.endswith("Iterator::map") and "iter::" in ty:
            q, it = self.iterof(s, args[0])
            if it is None: return None
            for k in self.captured(args[1][1]) if args[1][0] in ("cp", "mv") else (): self.wild(s, k)
            s.killterm("_950000"); s.eq("_950000", "%" + q, 0); self.kill(s, dst); s.iters[dst] = ("mapped", it[1] if it[0] != "enum" else it[2])
            s.le(Z, "%" + dst, 0); s.eq("%" + dst, "_950000", 0); s.killterm("_950000"); s.guards[dst] = frozenset(["?"]); return [s]
        if not re.search(r"(Option|Result)::<", fn): return None
        p = self.pl(args[0][1]); v = self.some(self.ty(args[0][1])); a, b = self.split(s, p, v); out = []
        g = gen(ty); pt = g[0] if g else "?"; flat = fn.endswith("and_then")
        if a:
            tmp = "_940000"; a.kill(tmp)
            r = self.closure(a, args[1], [p + "!S.0"], None if False else tmp, ty if flat else pt)
            if r is None:
                self.clobber(a, args[1]); self.kill(a, dst)
                if flat: self.wild(a, dst, ty)
                else: a.eq("?" + dst, Z, v); self.wild(a, dst + "!S.0", pt)
                out.append(a)
            else:
                for x in r:
                    self.kill(x, dst)
                    x = x.rename([(tmp, dst if flat else dst + "!S.0")])
                    if not flat: x.eq("?" + dst, Z, v)
                    if not x.bot: out.append(x)
        if b:
            self.kill(b, dst); b.eq("?" + dst, Z, 1 - v); out.append(b)
        return out
    c_and_then = c_map
    def c_filter(self, s, t, dst, ty, args, fn):
        if args[0][0] not in ("cp", "mv") or "Option::<" not in fn: return None
        p = self.pl(args[0][1]); self.copy(s, dst, p, ty); s.killterm("?" + dst); s.le(Z, "?" + dst, 0); s.le("?" + dst, Z, 1)
        for f in list(s.facts):
            if f[0] == "imp" and f[1] == "?" + p and f[2] == 1: s.facts.add(("imp", "?" + dst, 1, subf(f[3], p, dst)))
        s.guards[dst] = frozenset(["?"]); return [s]
    def convert(self, s, dst, p, ty, neg):
        """dst takes over the payload of p; discriminants are equal or opposite"""
        self.kill(s, dst); s.dup(p, dst)
        if neg:
            for f in [f for f in s.facts if f[0] == "imp" and f[1] == "?" + dst]: s.facts.discard(f); s.facts.add(("imp", f[1], 1 - f[2], f[3]))
            k = s.same("?" + p, Z)
            for q in list(s.m):
                if q == "?" + dst: del s.m[q]
                else: s.m[q].pop("?" + dst, None)
            s.le(Z, "?" + dst, 0); s.le("?" + dst, Z, 1)
            if k is not None: s.eq("?" + dst, Z, 1 - k)
            s.facts.add(("dmap", "?" + p, "?" + dst, True))
        return [s]
    def c_ok_or(self, s, t, dst, ty, args, fn):
        if args[0][0] not in ("cp", "mv"): return None
        return self.convert(s, dst, self.pl(args[0][1]), ty, True)
    def onfail(self, s, args, v, ty):
        """the closure that makes the error runs when the value is missing"""
        p = self.pl(args[0][1]); a, b = self.split(s.copy(), p, v)
        if b: self.closure(b, args[1], [p + "!Err.0"] if v == 0 else [], "_2999999", "?")
    def c_ok_or_else(self, s, t, dst, ty, args, fn):
        if args[0][0] not in ("cp", "mv"): return None
        self.onfail(s, args, 1, ty)
        return self.c_ok_or(s, t, dst, ty, args, fn)
    def c_ok(self, s, t, dst, ty, args, fn):
        if args[0][0] not in ("cp", "mv") or "Result" not in fn: return None
        return self.convert(s, dst, self.pl(args[0][1]), ty, True)
    def c_map_err(self, s, t, dst, ty, args, fn):
        if args[0][0] not in ("cp", "mv") or "Result" not in fn: return None
        self.onfail(s, args, 0, ty)
        return self.convert(s, dst, self.pl(args[0][1]), ty, False)
    def c_branch(self, s, t, dst, ty, args, fn):
        if args[0][0] not in ("cp", "mv"): return None
        return self.convert(s, dst, self.pl(args[0][1]), ty, "Option" in head(self.ty(args[0][1])))
    def c_from_residual(self, s, t, dst, ty, args, fn):
        self.kill(s, dst)
        s.eq("?" + dst, Z, 0 if head(ty).endswith("Option") else 1); return [s]
    def isd(self, s, dst, o, v):
        ta = self.ty(o[1]); p = self.pl(o[1])
        while ta.startswith("&"): p = self.fu.star(p); ta = deref(ta)
        self.ensure(s, "?" + p); self.free(s, dst, "bool"); s.conds[dst] = ("disc", "?" + p, v)
        k = s.same("?" + p, Z)
        if k is not None: s.eq(dst, Z, 1 if k == v else 0)
        return [s]
    def c_is_some(self, s, t, dst, ty, args, fn): return self.isd(s, dst, args[0], 1) if args[0][0] != "k" and "Option" in fn else None
    def c_is_none(self, s, t, dst, ty, args, fn): return self.isd(s, dst, args[0], 0) if args[0][0] != "k" and "Option" in fn else None
    def c_is_ok(self, s, t, dst, ty, args, fn): return self.isd(s, dst, args[0], 0) if args[0][0] != "k" and "Result" in fn else None
    def c_is_err(self, s, t, dst, ty, args, fn): return self.isd(s, dst, args[0], 1) if args[0][0] != "k" and "Result" in fn else None
    # integers
    def bin2(self, s, args): return self.val(s, args[0]), self.val(s, args[1])
    def c_saturating_sub(self, s, t, dst, ty, args, fn):
        x, y = self.bin2(s, args)
        if not x or not y or not UNS.match(ty): return None
        lossy = x[0] in s.lossy or y[0] in s.lossy; out = []
        if x[0] == dst or y[0] == dst: return None
        a = s.copy(); a.le(y[0], x[0], x[1] - y[1])
        b = s; b.le(x[0], y[0], y[1] - x[1] - 1)
        if not a.bot:
            self.kill(a, dst); xx = x
            if y[0] == Z: a.eq(dst, x[0], x[1] - y[1])
            elif a.same(y[0], Z) is not None: a.eq(dst, x[0], x[1] - y[1] - a.same(y[0], Z))
            else:
                for c in self.nonlin(a, "Sub", x, y, None, ty): a.le(*[dst if q == "D" else q for q in c[:2]], c[2])
                for f in self.difffacts(a, x, y): self.learn(a, tuple(dst if q == "D" else q for q in f))
                a.le(Z, dst, 0)
            if lossy: a.lossy.add(dst)
            out.append(a)
        if not b.bot: self.kill(b, dst); b.eq(dst, Z, 0); out.append(b)
        k = None if y[0] != Z and s.same(y[0], Z) is None else y[1] + (s.same(y[0], Z) or 0)
        if k is not None and x[0] != Z:
            for c in out:
                c.facts.add(("sat", dst, x[0], x[1] - k))
                for u in list(c.m.get(x[0], ())):
                    if u[0] == "#" and c.same(u, x[0]) is not None: c.facts.add(("sat", dst, u, x[1] - k - c.same(u, x[0])))
        return out
    def c_saturating_add(self, s, t, dst, ty, args, fn):
        x, y = self.bin2(s, args)
        if not x or not y or x[0] == dst or y[0] == dst: return None
        lossy = x[0] in s.lossy or y[0] in s.lossy
        cons = self.nonlin(s, "Add", x, y, None, ty)
        if y[0] == Z: cons = [("D", x[0], x[1] + y[1])]
        self.kill(s, dst)
        for c in cons:
            if c[0] == "D": s.le(dst, c[1], c[2])
        self.ensure(s, dst, ty)
        if lossy: s.lossy.add(dst)
        return [s]
    def c_checked_sub(self, s, t, dst, ty, args, fn):
        x, y = self.bin2(s, args)
        if not x or not y: return None
        self.optionlike(s, dst, ty); p = dst + "!S.0"; lossy = x[0] in s.lossy or y[0] in s.lossy
        fs = [("le", y[0], x[0], x[1] - y[1]), ("le", Z, p, 0)]
        if y[0] == Z: fs += [("le", p, x[0], x[1] - y[1]), ("le", x[0], p, y[1] - x[1])]
        else: fs += [tuple(["le"] + [p if q == "D" else q for q in c]) for c in self.nonlin(s, "Sub", x, y, None, "usize")]
        self.imp(s, dst, 1, *fs); self.imp(s, dst, 0, ("le", x[0], y[0], y[1] - x[1] - 1))
        if lossy: s.lossy.add(p)
        return [s]
    def c_checked_add(self, s, t, dst, ty, args, fn):
        x, y = self.bin2(s, args)
        if not x or not y: return None
        self.optionlike(s, dst, ty); p = dst + "!S.0"
        fs = [("le", Z, p, 0)] + ([("le", p, x[0], x[1] + y[1]), ("le", x[0], p, -x[1] - y[1])] if y[0] == Z else [tuple(["le"] + [p if q == "D" else q for q in c]) for c in self.nonlin(s, "Add", x, y, None, "usize")])
        self.imp(s, dst, 1, *fs)
        if x[0] in s.lossy or y[0] in s.lossy: s.lossy.add(p)
        return [s]
    def c_checked_mul(self, s, t, dst, ty, args, fn):
        self.optionlike(s, dst, ty); self.free(s, dst + "!S.0"); return [s]
    c_checked_div = c_checked_rem = c_checked_mul
    def c_min(self, s, t, dst, ty, args, fn, mx=False):
        if not INT.match(ty or ""): 
            return None
        x, y = self.bin2(s, args) if len(args) == 2 else (None, None)
        if not x or not y or x[0] == dst or y[0] == dst: return None
        a, b = s.copy(), s; out = []
        a.le(x[0], y[0], y[1] - x[1]); b.le(y[0], x[0], x[1] - y[1] - 1)
        for n, v in ((a, y if mx else x), (b, x if mx else y)):
            if not n.bot: self.setval(n, dst, v, ty); out.append(n)
        return out
    def c_max(self, s, t, dst, ty, args, fn): return self.c_min(s, t, dst, ty, args, fn, True)
    def c_clamp(self, s, t, dst, ty, args, fn):
        if not INT.match(ty or ""): return None
        x, lo, hi = (self.val(s, a) for a in args)
        if not lo or not hi: return None
        self.ob(s, "clamp", [("le", lo[0], hi[0], hi[1] - lo[1])], "clamp bounds"); lossy = any(v and v[0] in s.lossy for v in (x, lo, hi))
        if any(v and v[0] == dst for v in (x, lo, hi)): return None
        self.kill(s, dst); s.le(lo[0], dst, -lo[1]); s.le(dst, hi[0], hi[1])
        if lossy: s.lossy.add(dst)
        return [s]
    def c_abs_diff(self, s, t, dst, ty, args, fn): self.free(s, dst, ty); return [s]
    c_wrapping_sub = c_wrapping_add = c_wrapping_mul = c_saturating_mul = c_pow = c_rem_euclid = c_abs_diff
    def c_len_utf8(self, s, t, dst, ty, args, fn):
        v = self.val(s, args[0])
        if v and v[0] == Z: self.kill(s, dst); s.eq(dst, Z, len(chr(v[1]).encode("utf8", "surrogatepass"))); return [s]
        if not v: self.kill(s, dst); s.le(Z, dst, -1); s.le(dst, Z, 4); return [s]
        T = "@" + v[0]; self.ensure(s, T); h = s.hi(v[0])
        if h is not None and h + v[1] < 128: s.eq(T, Z, 1)
        self.setval(s, dst, (T, 0), "usize"); return [s]
    # growing and shrinking
    def mutseq(self, o):
        if o[0] not in ("cp", "mv"): return None
        p = self.fu.star(self.pl(o[1])) if len(o[1]) == 1 else self.pl(o[1] + ["*"]); return p
    def resize(self, s, o, newlen):
        """the sequence behind o changes; newlen(term of old length) -> constraints on the new one"""
        p = self.mutseq(o); r = self.root(p); self.lenof(s, r); T = "_930000"; s.killterm(T); s.eq(T, "#" + r, 0)
        l = "#" + r in s.lossy
        self.kill(s, p)
        if r != p: s.kill(r)
        self.lenof(s, r)
        for c in newlen(T, "#" + r): s.le(*c)
        s.killterm(T)
        if l: s.lossy.add("#" + r)
        if 1 <= lt(p) <= self.f.argc: self.mods.add(p)
        return r
    def c_push(self, s, t, dst, ty, args, fn):
        if not re.search(r"(Vec|String)", fn): return None
        ch = self.val(s, args[1]) if "String" in fn else (Z, 0)
        self.resize(s, args[0], (lambda o, n: [(n, o, 1), (o, n, -1)]) if "String" not in fn else (lambda o, n: [(n, o, 4), (o, n, -1)])); return [s]
    def c_push_str(self, s, t, dst, ty, args, fn):
        x = None
        if len(args) > 1 and (args[1][0] == "k" or SEQ.match(self.ty(args[1][1]))):
            r = self.seq(s, args[1]); m = self.root(self.mutseq(args[0]))
            if r and m and not has("#" + r, m): self.lenof(s, r); x = "#" + r
        self.resize(s, args[0], lambda o, n: [(o, n, 0)] + ([(x, n, 0)] if x else [])); return [s]
    c_extend_from_slice = c_append = c_push_str
    def c_extend(self, s, t, dst, ty, args, fn):
        if args[0][0] in ("cp", "mv") and SEQ.match(self.ty(args[0][1])): self.clobber(s, args[1]); self.resize(s, args[0], lambda o, n: [(o, n, 0)]); return [s]
        return None
    def c_pop(self, s, t, dst, ty, args, fn):
        if not re.search(r"(Vec|String)", fn): return None
        r = self.root(self.mutseq(args[0])); self.lenof(s, r); nz = s.knows(Z, "#" + r, -1); z = s.same("#" + r, Z) == 0
        a = None
        if not z:
            a = s.copy(); a.le(Z, "#" + r, -1)
            if not a.bot:
                self.resize(a, args[0], (lambda o, n: [(n, o, -1), (o, n, 1)]) if "Vec" in fn else (lambda o, n: [(n, o, -1)])); self.optionlike(a, dst, ty); a.eq("?" + dst, Z, 1)
        out = [a] if a and not a.bot else []
        if not nz:
            s.eq("#" + r, Z, 0); self.optionlike(s, dst, ty); s.eq("?" + dst, Z, 0)
            if not s.bot: out.append(s)
        return out
    def c_clear(self, s, t, dst, ty, args, fn):
        if args[0][0] in ("cp", "mv") and SEQ.match(self.ty(args[0][1])): self.resize(s, args[0], lambda o, n: [(n, Z, 0)]); return [s]
        return None
    def c_truncate(self, s, t, dst, ty, args, fn):
        if "Vec" in fn:
            x = self.val(s, args[1]); self.resize(s, args[0], lambda o, n: [(n, o, 0)] + ([(n, x[0], x[1])] if x else [])); return [s]
        if "String" in fn:
            r = self.seq(s, args[0]); x = self.val(s, args[1])
            if x: self.ob(s, "truncate", [("bd", r, x[0], x[1])], "truncate")
            self.resize(s, args[0], lambda o, n: [(n, o, 0)]); return [s]
        return None
    def c_remove(self, s, t, dst, ty, args, fn):
        if not re.search(r"(Vec|String)\b.*::(remove|swap_remove)$", fn): return None
        r = self.seq(s, args[0]); x = self.val(s, args[1])
        if x:
            g = [("le", x[0], "#" + r, -x[1] - 1)] + ([("bd", r, x[0], x[1])] if "String" in fn else [])
            self.ob(s, "remove", g, "remove"); self.assume(s, g)
        if s.bot: return []
        self.resize(s, args[0], lambda o, n: [(n, o, -1)] + ([(o, n, 1)] if "Vec" in fn else [])); self.free(s, dst, ty); return [s]
    c_swap_remove = c_remove
    def c_insert(self, s, t, dst, ty, args, fn):
        if not re.search(r"(vec::Vec|string::String)", fn) or len(args) != 3: return None
        r = self.seq(s, args[0]); x = self.val(s, args[1])
        if x: g = [("le", x[0], "#" + r, -x[1])] + ([("bd", r, x[0], x[1])] if "String" in fn else []); self.ob(s, "insert", g, "insert"); self.assume(s, g)
        if s.bot: return []
        self.resize(s, args[0], lambda o, n: [(o, n, -1)] + ([(n, o, 1)] if "Vec" in fn else [])); return [s]
    c_insert_str = c_insert
    def c_drain(self, s, t, dst, ty, args, fn):
        if not re.search(r"(Vec|String)", fn): return None
        r = self.seq(s, args[0]); rg = self.rng(s, args[1])
        if rg: g = self.goals(r, rg[0], rg[1], "String" in fn); self.ob(s, "drain", g, "drain"); self.assume(s, g)
        if s.bot: return []
        self.resize(s, args[0], lambda o, n: [(n, o, 0)]); self.free(s, dst); return [s]
    def c_replace_range(self, s, t, dst, ty, args, fn):
        r = self.seq(s, args[0]); rg = self.rng(s, args[1])
        if rg: g = self.goals(r, rg[0], rg[1], True); self.ob(s, "replace", g, "replace"); self.assume(s, g)
        if s.bot: return []
        self.resize(s, args[0], lambda o, n: []); return [s]
    def c_split_off(self, s, t, dst, ty, args, fn):
        if not re.search(r"(Vec|String)", fn): return None
        r = self.seq(s, args[0]); x = self.val(s, args[1])
        if x: g = [("le", x[0], "#" + r, -x[1])] + ([("bd", r, x[0], x[1])] if "String" in fn else []); self.ob(s, "split", g, "split"); self.assume(s, g)
        if s.bot: return []
        self.resize(s, args[0], lambda o, n: [(n, o, 0)] + ([(n, x[0], x[1]), (x[0], n, -x[1])] if x else [])); self.free(s, dst); self.lenof(s, self.root(dst)); return [s]
    def c_swap(self, s, t, dst, ty, args, fn):
        if "slice" not in fn or len(args) != 3: return None
        r = self.seq(s, args[0]); g = []
        for a in args[1:]:
            x = self.val(s, a)
            if x: g.append(("le", x[0], "#" + r, -x[1] - 1))
        self.ob(s, "swap", g, "swap"); self.assume(s, g); return [s]
    def c_copy_from_slice(self, s, t, dst, ty, args, fn):
        a, b = self.seq(s, args[0]), self.seq(s, args[1])
        g = [("le", "#" + a, "#" + b, 0), ("le", "#" + b, "#" + a, 0)]; self.ob(s, "copy", g, "equal lengths"); self.assume(s, g); return [s]
    c_clone_from_slice = c_copy_from_slice
    def c_step_by(self, s, t, dst, ty, args, fn):
        x = self.val(s, args[1])
        if x: self.ob(s, "step", [("le", Z, x[0], x[1] - 1)], "step"); 
        return None
    def c_new(self, s, t, dst, ty, args, fn):
        if re.search(r"(vec::Vec|string::String)", fn) and SEQ.match(ty): self.kill(s, dst); r = self.root(dst); self.lenof(s, r); s.eq("#" + r, Z, 0); return [s]
        if re.search(r"range::RangeInclusive", fn) and len(args) == 2:
            vs = [self.val(s, a) for a in args]; self.kill(s, dst)
            for n, v in zip((".start", ".end"), vs):
                if v: s.eq(dst + n, v[0], v[1])
            return [s]
        return None
    c_with_capacity = c_new
    def c_from(self, s, t, dst, ty, args, fn):
        ta = self.ty(args[0][1]) if args[0][0] != "k" else args[0][1].get("ty", "")
        if INT.match(ty or "") and INT.match(ta): self.setval(s, dst, self.val(s, args[0]), ty); return [s]
        return None
    c_into = c_from
    def c_as_ptr(self, s, t, dst, ty, args, fn):
        self.free(s, dst); s.guards[dst] = frozenset(["?"]); return [s]
    c_as_mut_ptr = c_as_ptr
    def c_default(self, s, t, dst, ty, args, fn):
        if SEQ.match(ty): self.kill(s, dst); r = self.root(dst); self.lenof(s, r); s.eq("#" + r, Z, 0); return [s]
        if INT.match(ty): self.kill(s, dst); s.eq(dst, Z, 0); return [s]
        if head(ty).endswith("Option"): self.kill(s, dst); s.eq("?" + dst, Z, 0); return [s]
        return None
    def c_from_elem(self, s, t, dst, ty, args, fn):
        x = self.val(s, args[1]); self.kill(s, dst); r = self.root(dst); self.lenof(s, r)
        if x: s.eq("#" + r, x[0], x[1])
        return [s]
    def c_take(self, s, t, dst, ty, args, fn):
        if fn.endswith("mem::take") and SEQ.match(ty):
            p = self.mutseq(args[0]); r = self.root(p); self.kill(s, dst); self.alias(s, self.root(dst), r)
            self.kill(s, p); self.lenof(s, r); s.eq("#" + r, Z, 0); return [s]
        if "Option" in fn and args[0][0] in ("cp", "mv") and self.ty(args[0][1]).startswith("&mut"):
            p = self.mutseq(args[0]); self.copy(s, dst, p, ty); self.kill(s, p); s.eq("?" + p, Z, 0); return [s]
        return None
    def c_try_into(self, s, t, dst, ty, args, fn):
        self.optionlike(s, dst, ty)
        if args[0][0] in ("cp", "mv"):
            ta = self.ty(args[0][1])
            m = re.search(r"Result<\[.*?; (\d+)\]", ty)
            if m and SEQ.match(ta):
                r = self.seq(s, args[0]); n = int(m.group(1))
                if s.same("#" + r, Z) == n: s.eq("?" + dst, Z, 0)
            elif INT.match(ta):
                v = self.val(s, args[0]); g = gen(ty); t2 = g[0] if g else ""
                if v and t2 in MAXV:
                    h, l = s.hi(v[0]), s.lo(v[0])
                    if h is not None and l is not None and h + v[1] <= MAXV[t2] and l + v[1] >= MINV.get(t2, 0): s.eq("?" + dst, Z, 0)
                    self.imp(s, dst, 0, ("le", dst + "!S.0", v[0], v[1]), ("le", v[0], dst + "!S.0", -v[1]))
        return [s]
    c_try_from = c_try_into
    def c_from_u32(self, s, t, dst, ty, args, fn): self.optionlike(s, dst, ty); return [s]
    c_to_digit = c_parse = c_from_str_radix = c_from_digit = c_from_u32
    def c_from_utf8(self, s, t, dst, ty, args, fn):
        if not head(ty).endswith("Result"): return None
        r = self.seq(s, args[0]); self.optionlike(s, dst, ty); L = "#" + dst + "!S.0"; s.le(Z, L, 0); self.imp(s, dst, 0, ("le", L, "#" + r, 0), ("le", "#" + r, L, 0)); return [s]

for _n in [n for n in dir(Run) if n.startswith("c_") and getattr(Run, n) is None]: delattr(Run, _n)

def ctxsummary(A, g, n):
    """summary of g for the calls made in the state n"""
    if g.id in A.busy: return None
    key = (g.id, frozenset(n.facts), frozenset((a, b, v) for a, r in n.m.items() for b, v in r.items()))
    if key not in A.ctxsums: A.ctxsums[key] = summarise(A, g, n)[0]
    return A.ctxsums[key]
def summary(A, g):
    if g.id in A.sums: return A.sums[g.id]
    if g.id in A.busy or not g.blocks or len(g.blocks) > 400: return None
    res, mods = summarise(A, g, None)
    A.mods[g.id] = mods; A.sums[g.id] = res
    return res
def summarise(A, g, ctx):
    A.busy.add(g.id)
    try:
        byval = A.byval(g)
        def ent(m):
            e = A.entry(g, m, byval)
            if ctx is not None: e.meet(ctx); e.lossy |= ctx.lossy
            return e
        r = Run(A, g, ent(()) if ctx is None else ent(A.modsof(g))); outs = r.run(); mods = set(r.mods)
        if ctx is None and mods and r.conv: r = Run(A, g, ent(mods)); outs = r.run(); mods |= r.mods
        for k, s in enumerate(outs):
            for l in byval: s.kill(f"_{l}")
            outs[k] = s.rename([(f"_{l}'", f"_{l}") for l in byval])
        if not r.conv: res = None
        else:
            res = []
            for s in outs:
                keep = {0} | set(range(1, g.argc + 1)); r.prune(s, keep)
                s.conds = {}; s.iters = {k: v for k, v in s.iters.items() if k.startswith("_0")}
                def mine(t): t = t[1:] if t[:1] and t[0] in "#^$?%@~" else t; return not t.startswith("_") or lt(t) in keep or lt(t) >= 900000
                s.guards = {k: v for k, v in s.guards.items() if mine(k)}; s.lossy = {t for t in s.lossy if t == Z or mine(t)}
                if len(res) < 12: r.push(res, s)
                else: res = r.merge(res + [s])
            if len(res) > 8: res = r.merge(res)
    finally: A.busy.discard(g.id)
    return res, reduce_mods(mods, g)
def reduce_mods(mods, g):
    out = set()
    for m in sorted(mods, key=len):
        if not any(has(m, o) for o in out): out.add(m)
    return out
def byval(A, g):
    """parameters passed by value whose own place the body writes"""
    out = set()
    for b, i, s in g.stmts():
        if s[0] == "=" and 1 <= s[1][0] <= g.argc and "*" not in s[1]: out.add(s[1][0])
        if s[0] == "=" and s[2][0] == "ref" and s[2][1] == 1 and 1 <= s[2][2][0] <= g.argc and "*" not in s[2][2]: out.add(s[2][2][0])
    for b, t in g.calls():
        if 1 <= t[3][0] <= g.argc and "*" not in t[3]: out.add(t[3][0])
    return sorted(out)
An.byval = byval
def entry(A, g, mods, byval=()):
    s = State(); r = Run(A, g)
    for l in byval:
        ty = g.locals[l]
        if INT.match(ty): r.ensure(s, f"_{l}", ty); s.eq(f"_{l}'", f"_{l}", 0)
        elif SEQ.match(ty): r.lenof(s, f"_{l}"); s.eq(f"#_{l}'", f"#_{l}", 0)
    for i in range(1, g.argc + 1): r.reinv(s, f"_{i}", g.locals[i])
    for m in sorted(mods):
        k = lt(m); ty = A.pathty(g.locals[k], m[len(f"_{k}"):]); sn = f"_{k}'" + m[len(f"_{k}"):]
        if INT.match(ty): r.ensure(s, m, ty); s.eq(sn, m, 0)
        elif SEQ.match(ty):
            rr = r.root(m); r.lenof(s, rr); s.eq("#" + sn, "#" + rr, 0)
    return s
An.summary = summary; An.entry = entry
An.modsof = lambda A, g: A.mods.get(g.id, ())

def order(A, fns):
    """callers first; members of cycles are marked"""
    F = A.F; ids = {f.id for f in fns}; succ = {}
    for f in fns:
        o = set()
        for b, t in f.calls():
            fn = t[1].get("fn", "")
            for x in (F.targets(fn) if fn else []):
                if x in ids: o.add(x)
        for b, i, st in f.stmts():
            if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "closure" and st[2][2] in ids: o.add(st[2][2])
        succ[f.id] = o
    idx = {}; low = {}; on = set(); st = []; out = []; cyc = set()
    for root in sorted(ids):
        if root in idx: continue
        work = [(root, iter(sorted(succ[root])))]; idx[root] = low[root] = len(idx); st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx); st.append(w); on.add(w); work.append((w, iter(sorted(succ[w])))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v: break
                    if len(comp) > 1 or v in succ[v]: cyc.update(comp)
                    out.append(comp)
    return [x for c in out[::-1] for x in c], cyc
def addrtaken(A):
    """functions used as values"""
    out = set()
    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "k" and isinstance(x[1], dict) and "fn" in x[1]: out.add(x[1]["fn"])
            else:
                for y in x: walk(y)
    for f in A.F.fns.values():
        for b, i, s in f.stmts(): walk(s[2:]) if s[0] == "=" else None
        for b, t in f.calls(): walk(t[2])
    return out
SITE = re.compile(r"(^|::)(index|index_mut|unwrap|expect|unwrap_err|expect_err|split_at|split_at_mut|remove|insert|insert_str|drain|replace_range|split_off|swap|swap_remove|copy_from_slice|clone_from_slice|step_by|chunks|chunks_exact|windows|clamp|truncate|rotate_left|rotate_right)$")
def hassite(f):
    """does the body hold an operation that can fail"""
    for b in f.rpo():
        t = f.blocks[b]["t"]
        if t[0] == "assert" or t[0] == "call" and SITE.search(re.sub(r"<.*?>$", "", t[1].get("fn", ""))): return True
    return False
def wanted(A, fns):
    """bodies with such an operation, and their callers where the callee is entered only from known callers"""
    byid = {f.id: f for f in fns}; rev = {}
    for f in fns:
        for b, t in f.calls():
            fn = t[1].get("fn", "")
            for x in (A.F.targets(fn) if fn else []):
                if x in byid: rev.setdefault(x, set()).add(f.id)
        for b, i, st in f.stmts():
            if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "closure" and st[2][2] in byid: rev.setdefault(st[2][2], set()).add(f.id)
    st = [f.id for f in fns if hassite(f)]; out = set(st)
    while st:
        g = byid[st.pop()]
        if g.kind != "closure" and (g.pub or g.trait): continue
        for x in rev.get(g.id, ()):
            if x not in out: out.add(x); st.append(x)
    return out
def analyse(A, fns, each=None, seconds=None):
    """run every body once, private ones and closures in the states they are entered in: record of obligations, statistics"""
    rec = {}; ctx = {}; mk = {}; byid = {f.id: f for f in fns}; od, cyc = order(A, fns); at = addrtaken(A)
    want = wanted(A, fns); t0 = time.time()
    st = {"bodies with sites or callers of them": len(want), "out of time": 0, "converged": 0, "not converged": 0, "never entered": 0, "unknown entry": 0}
    inl = {}
    for id in od:
        if id not in want: continue
        f = byid[id]; un = False; en = None
        if f.kind == "closure" and id not in ctx and ("done", id) in inl:
            st["converged"] += 1; continue
        if seconds and time.time() - t0 > seconds: st["out of time"] += 1; continue
        if f.kind == "closure":
            en = ctx.get(id)
            if en is None: en = mk.get(id); un = True
            if id in cyc: en = None; un = True
        elif not f.pub and not f.trait and id not in at:
            if id in cyc: un = True
            else:
                en = ctx.get(id)
                if en is None: st["never entered"] += 1; un = True
        elif id in at and not f.pub: un = True
        e = A.entry(f, ())
        if en is not None: e.meet(en); e.lossy |= en.lossy
        if un:
            st["unknown entry"] += 1
            for i in range(1, f.argc + 1):
                if f.kind == "closure" and i == 1 and en is not None: continue
                e.guards[f"_{i}"] = frozenset(["?"])
        forget()
        r = Run(A, f, e, {}); r.calls = []
        if each: each(f)
        r.run()
        st["converged" if r.conv else "not converged"] += 1
        if r.conv:
            for k, v in r.record.items(): merge_rec(rec, k, v)
            for k, v in r.inl.items():
                if k[0] == "done": inl[k] = v
                else: merge_rec(rec, k, v)
        for g, n in r.calls or ():
            d = ctx
            if g[:3] == "mk:": g = g[3:]; d = mk
            if not r.conv: n = State()
            if g in d: d[g].join(n)
            else: d[g] = n.copy()
    return rec, st
