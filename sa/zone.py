"""Difference-bound abstract interpretation of MIR bodies: integers, lengths of texts and sequences, char boundaries, presence of
optional values. States are kept apart per path up to a limit; loops are widened. Decides whether index, slice, subtraction, division
and unwrap sites can fail."""
import re
from collections import defaultdict
Z = "Z"
OK = frozenset(("Some", "Ok", "Continue"))
INT = re.compile(r"^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|char|bool)$")
UNS = re.compile(r"^(u8|u16|u32|u64|u128|usize|char|bool)$")
MAXV = {"bool": 1, "u8": 255, "u16": 65535, "u32": 2**32 - 1, "u64": 2**64 - 1, "usize": 2**63 - 1, "char": 0x10FFFF,
        "i8": 127, "i16": 32767, "i32": 2**31 - 1, "i64": 2**63 - 1, "isize": 2**63 - 1, "u128": 2**128 - 1, "i128": 2**127 - 1}
MINV = {"i8": -128, "i16": -32768, "i32": -2**31, "i64": -2**63, "isize": -2**63, "i128": -2**127}
SEQ = re.compile(r"^(&(mut )?)*(str$|\[|alloc::string::String$|alloc::vec::Vec<|alloc::borrow::Cow<|alloc::boxed::Box<(str|\[))")
STR = re.compile(r"^(&(mut )?)*(str$|alloc::string::String$|alloc::borrow::Cow<.*str>$|alloc::boxed::Box<str>)")
ALIAS = re.compile(r"(::(as_str|as_bytes|as_slice|as_mut_slice|as_ref|as_mut|borrow|borrow_mut|deref|deref_mut|as_mut_str|as_deref|into_boxed_str|into_string|into_bytes|as_bytes_mut|leak|as_mut_vec|into_inner)$)")
COPYLEN = re.compile(r"(::(to_string|to_owned|to_vec|clone|into_owned|into_vec|to_mut|to_ascii_lowercase|to_ascii_uppercase|into|from|spec_to_string|into_boxed_slice|alloc_str|cloned|copied)$)")
class LtMemo(dict):
    def __missing__(self, p):
        m = re.match(r"_(\d+)", p); v = self[p] = int(m.group(1)) if m else -1
        return v
class HasMemo(dict):
    def __init__(self, path): self.path = path
    def __missing__(self, t):
        v = self[t] = has0(t, self.path)
        return v
class HasMemos(dict):
    def __missing__(self, path):
        v = self[path] = HasMemo(path)
        return v
LT = LtMemo(); HAS = HasMemos()
def forget(): LT.clear(); HAS.clear()
def lt(p): return LT[p] # leading local of a path
def has(term, path):
    """does a term or fact component speak of a place at or below path"""
    return HAS[path][term] if isinstance(term, str) else False
def has0(term, path):
    t = term[1:] if term[:1] in "#^$?%@~" else term
    if not t.startswith(path): return False
    return len(t) == len(path) or t[len(path)] in ".*!['"
def sub(term, a, b):
    if not isinstance(term, str): return term
    pre = term[:1] if term[:1] in "#^$?%@~" else ""
    t = term[len(pre):]
    if t.startswith(a) and (len(t) == len(a) or t[len(a)] in ".*!['"): return pre + b + t[len(a):]
    return term
def subf(x, a, b):
    if isinstance(x, tuple): return tuple(subf(y, a, b) for y in x)
    return sub(x, a, b)
def mention(x, path):
    if isinstance(x, tuple): return any(mention(y, path) for y in x)
    return has(x, path)
def atoms(x, out):
    if isinstance(x, tuple):
        for y in x: atoms(y, out)
    elif isinstance(x, str): out.add(x)

class State:
    __slots__ = ("m", "facts", "lossy", "conds", "guards", "bot", "iters")
    def __init__(self):
        self.m = {}; self.facts = set(); self.lossy = set(); self.conds = {}; self.guards = {}; self.bot = False; self.iters = {}
    def copy(self):
        s = State(); s.m = {a: dict(r) for a, r in self.m.items()}; s.facts = set(self.facts); s.lossy = set(self.lossy)
        s.conds = dict(self.conds); s.guards = dict(self.guards); s.bot = self.bot; s.iters = dict(self.iters); return s
    def get(self, x, y):
        """least c known with x - y <= c"""
        if x == y: return 0
        r = self.m.get(x); return None if r is None else r.get(y)
    def le(self, x, y, c):
        """learn x - y <= c"""
        if self.bot: return
        if x == y:
            if c < 0: self.bot = True
            return
        o = self.get(x, y)
        if o is not None and o <= c: return
        b = self.get(y, x)
        if b is not None and b + c < 0: self.bot = True; return
        xs = [(x, 0)] + [(a, r[x]) for a, r in self.m.items() if x in r]
        ys = [(y, 0)] + list(self.m.get(y, {}).items())
        for a, p in xs:
            ra = self.m.setdefault(a, {})
            for b2, q in ys:
                if a == b2: continue
                v = p + c + q; w = ra.get(b2)
                if w is None or v < w: ra[b2] = v
    def eq(self, x, y, c):
        self.le(x, y, c); self.le(y, x, -c)
    def knows(self, x, y, c):
        g = self.get(x, y); return g is not None and g <= c
    def same(self, x, y):
        """x - y when it is a known constant"""
        a, b = self.get(x, y), self.get(y, x)
        return a if a is not None and b is not None and a == -b else None
    def lo(self, x):
        g = self.get(Z, x); return None if g is None else -g
    def hi(self, x): return self.get(x, Z)
    def equals(self, x, off, o):
        """places equal to x up to a constant"""
        out = [(x, off)] + [(u, off - d) for u in self.m.get(x, ()) if u != Z and u in o.m and re.match(r"_\d+[.\d]*$", u) for d in (self.same(u, x),) if d is not None]
        return out[:16]
    def others(self, x, off, path):
        """a term outside path equal to x + off - (its own offset)"""
        if not has(x, path): return (x, off)
        for u in self.m.get(x, ()):
            if u != Z and not has(u, path):
                d = self.same(u, x)
                if d is not None: return (u, off - d)
        d = self.same(x, Z)
        return None if d is None else (Z, off + d)
    def respread(self, path):
        """boundary and cursor facts about a place that is about to be overwritten, on equal places"""
        for f in list(self.facts):
            if f[0] == "cur" and not has(f[1], path) and (has(f[2], path) or has(f[4], path)):
                i, b = self.others(f[2], f[3], path), self.others(f[4], f[5], path)
                if i and b: self.facts.add(("cur", f[1]) + i + b)
            elif f[0] == "bd" and not has(f[1], path) and has(f[2], path):
                i = self.others(f[2], f[3], path)
                if i and i[0] != Z: self.facts.add(("bd", f[1]) + i)
    def kill(self, path):
        self.respread(path)
        h = HAS[path]
        for a in [a for a in self.m if h[a]]: del self.m[a]
        for a, r in self.m.items():
            for b in [b for b in r if h[b]]: del r[b]
        self.facts = {f for f in self.facts if not mention(f, path)}
        self.lossy = {t for t in self.lossy if not has(t, path)}
        self.guards = {t: g for t, g in self.guards.items() if not has(t, path)}
        self.iters = {k: v for k, v in self.iters.items() if not has(k, path) and not mention(v, path)}
        for k in [k for k, v in self.conds.items() if k == path or mention(v, path)]: del self.conds[k]
    def killterm(self, t):
        self.m.pop(t, None)
        for r in self.m.values(): r.pop(t, None)
        def m2(x): return any(m2(y) for y in x) if isinstance(x, tuple) else x == t
        self.facts = {f for f in self.facts if not m2(f)}
        self.lossy.discard(t); self.guards.pop(t, None)
        for k in [k for k, v in self.conds.items() if m2(v)]: del self.conds[k]
    def guarded(self, t):
        g = self.guards.get(t)
        if t != Z and "." in t:
            up = [v for k, v in self.guards.items() if "?" in v and k != t and k[:1] == "_" and has(t, k)]
            if up: g = (g or frozenset()).union(*up)
        return g
    def dup(self, src, dst):
        """dst (fresh) becomes a copy of everything known at or below src"""
        h = HAS[src]
        ts = {a for a in self.m if h[a]} | {b for r in self.m.values() for b in r if h[b]}
        for a in sorted(ts):
            n = sub(a, src, dst)
            self.eq(n, a, 0)
        new = set()
        for f in self.facts:
            if mention(f, src): new.add(subf(f, src, dst))
        self.facts |= new
        self.lossy |= {sub(t, src, dst) for t in self.lossy if has(t, src)}
        self.guards.update({sub(t, src, dst): g for t, g in self.guards.items() if has(t, src)})
        up = [g for t, g in self.guards.items() if t != src and "?" in g and t[:1] == "_" and has(src, t)]
        if up: self.guards[dst] = self.guards.get(dst, frozenset()).union(*up)
        self.iters.update({sub(k, src, dst): subf(v, src, dst) for k, v in list(self.iters.items()) if has(k, src)})
        if src in self.conds: self.conds[dst] = self.conds[src]
    def shift(self, k):
        """move every local (not the literals) into a name space of its own, or back"""
        memo = {}
        def rn(x):
            if isinstance(x, tuple): return tuple(rn(y) for y in x)
            if x in memo: return memo[x]
            z = x
            if isinstance(x, str) and x and x != Z:
                t = x[1:] if x[0] in "#^$?%@~" else x
                m = re.match(r"_(\d+)", t)
                if m:
                    i = int(m.group(1))
                    if k > 0 and not 900000 <= i < 930000 or k < 0 and i >= -k: z = x[:len(x) - len(t)] + f"_{i + k}" + t[m.end():]
            memo[x] = z
            return z
        s = State(); s.bot = self.bot
        s.m = {rn(a): {rn(b): c for b, c in r.items()} for a, r in self.m.items()}
        s.facts = {rn(f) for f in self.facts}; s.lossy = {rn(t) for t in self.lossy}
        s.conds = {rn(q): rn(v) for q, v in self.conds.items()}; s.guards = {rn(q): v for q, v in self.guards.items()}
        s.iters = {rn(q): rn(v) for q, v in self.iters.items()}
        return s
    def rename(self, pairs):
        """rename paths simultaneously (targets must be fresh)"""
        memo = {}
        def rn(x):
            if isinstance(x, tuple): return tuple(rn(y) for y in x)
            if x in memo: return memo[x]
            z = x
            for a, b in pairs:
                y = sub(x, a, b)
                if y != x: z = y; break
            memo[x] = z
            return z
        s = State(); s.bot = self.bot
        s.m = {rn(a): {rn(b): c for b, c in r.items()} for a, r in self.m.items()}
        s.facts = {rn(f) for f in self.facts}; s.lossy = {rn(t) for t in self.lossy}
        s.conds = {rn(k): rn(v) for k, v in self.conds.items()}; s.guards = {rn(k): v for k, v in self.guards.items()}
        s.iters = {rn(k): rn(v) for k, v in self.iters.items()}
        return s
    def meet(self, o):
        for a, r in o.m.items():
            for b, c in r.items(): self.le(a, b, c)
        self.facts |= o.facts; self.lossy |= o.lossy
        for k, g in o.guards.items(): self.guards[k] = self.guards.get(k, frozenset()) | g
    def bd(self, r, x, off=0, deep=True):
        """is x+off known to be a char boundary of r"""
        if x == Z and off == 0: return True
        if self.same(x, Z) == -off: return True
        d = self.same(x, "#" + r)
        if d is not None and d + off == 0: return True
        if ("ascii", r) in self.facts or ("bytes", r) in self.facts: return True
        for f in self.facts:
            if f[0] == "bd" and f[1] == r:
                d = self.same(x, f[2])
                if d is not None and d + off == f[3]: return True
            elif f[0] == "cur" and f[1] == r:
                d = self.same(x, f[4])
                if d is not None and d + off == f[5]: return True
            elif f[0] == "pre" and f[1] == r:
                d = self.same(x, Z)
                if d is not None:
                    bs = f[2].encode("utf8", "surrogatepass"); k = d + off
                    if 0 <= k <= len(bs) and (k == len(bs) or (bs[k] & 0xC0) != 0x80): return True
            elif f[0] == "suf" and f[1] == r:
                d = self.same("#" + r, x)
                if d is not None:
                    bs = f[2].encode("utf8", "surrogatepass"); k = d - off
                    if 0 <= k <= len(bs) and (k == 0 or (bs[len(bs) - k] & 0xC0) != 0x80): return True
        k = 0 if x == Z else self.same(x, Z)
        if k is not None and k + off > 0 and deep: # a fixed distance into a piece is that distance from where the piece starts
            for f in self.facts:
                if f[0] == "sub" and f[1] == r and self.bd(f[2], "^" + r, k + off, False): return True
        return False
    def derives(self, f):
        """does a boundary or cursor fact follow"""
        if f in self.facts: return True
        if f[0] == "bd": return self.bd(f[1], f[2], f[3]) and (f[2] in self.m or f[2] == Z)
        if f[0] == "cur":
            if self.same(f[2], Z) == -f[3] and self.same(f[4], Z) == -f[5]: return True
            for g in self.facts:
                if g[0] == "cur" and g[1] == f[1]:
                    d = self.same(f[2], g[2])
                    if d is None or d + f[3] != g[3]: continue
                    d = self.same(f[4], g[4])
                    if d is not None and d + f[5] == g[5]: return True
        return False
    def join(self, o, widen=False):
        """least upper bound; returns True when self changed"""
        if o.bot: return False
        if self.bot:
            for k in State.__slots__: setattr(self, k, getattr(o.copy(), k))
            return True
        nf = {f for f in self.facts if f in o.facts or f[0] in ("bd", "cur") and o.derives(f)} | {f for f in o.facts if f[0] in ("bd", "cur") and f not in self.facts and self.derives(f)}
        cand = []
        for a, b in ((self, o), (o, self)): # the same fact may be known of different, equal terms on the two sides
            for f in a.facts:
                if f[0] == "cur":
                    for i, io in a.equals(f[2], f[3], b):
                        for j, jo in a.equals(f[4], f[5], b):
                            g = ("cur", f[1], i, io, j, jo)
                            if g not in nf and g not in cand and b.derives(g): cand.append(g)
        ch = False; lost = set()
        for a, r in list(self.m.items()):
            ro = o.m.get(a, {})
            for b in list(r):
                c = ro.get(b)
                if c is None or c > r[b]:
                    ch = True; lost.update((a, b))
                    if c is None or widen: del r[b]
                    else: r[b] = c
        for a, r in o.m.items():
            rs = self.m.get(a, {})
            for b, c in r.items():
                if b not in rs or rs[b] > c: lost.update((a, b))
        if cand:
            of = self.facts; self.facts = nf
            for g in cand:
                if not self.derives(g): nf.add(g)
            self.facts = of
        if nf != self.facts: ch = True
        for f in (self.facts | o.facts) - nf:
            if f[0] in ("cur", "at", "byte"): continue
            s = set(); atoms(f, s); lost |= {x for x in s if x[:1] in "_#^$?%@~"}
        self.facts = nf
        lost.discard(Z)
        nl = self.lossy | o.lossy | lost
        if nl != self.lossy: ch = True; self.lossy = nl
        nc = {k: v for k, v in self.conds.items() if o.conds.get(k) == v}
        if len(nc) != len(self.conds): ch = True
        self.conds = nc
        for k, g in o.guards.items():
            n = self.guards.get(k, frozenset()) | g
            if n != self.guards.get(k): self.guards[k] = n; ch = True
        ni = {k: v for k, v in self.iters.items() if o.iters.get(k) == v}
        if len(ni) != len(self.iters): ch = True
        self.iters = ni
        return ch
    def implies(self, o):
        """self is at least as strong as o"""
        if self.bot: return True
        if o.bot: return False
        for a, r in o.m.items():
            rs = self.m.get(a)
            for b, c in r.items():
                if rs is None or b not in rs or rs[b] > c: return False
        return all(f in self.facts or f[0] in ("bd", "cur") and self.derives(f) for f in o.facts) and self.lossy <= o.lossy and all(self.conds.get(k) == v for k, v in o.conds.items())
