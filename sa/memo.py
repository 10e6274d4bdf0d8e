"""Memo tables: every insertion's value must depend on nothing the key does not carry."""
import re
from common import short
INS = re.compile(r"(hash::map::HashMap|hashbrown::map::HashMap|AHashMap|BTreeMap).*::(insert|try_insert)$|Entry.*::(or_insert|or_insert_with|or_insert_with_key|or_default|insert_entry)$")
class Memos:
    def __init__(self, F, D, C, ids, state_owners):
        """state_owners: types whose objects outlive one operation; a field of theirs no reachable body writes is fixed"""
        self.F = F; self.D = D; self.C = C; self._built = {}; self.owners = state_owners; self.written = set()
        for x in ids:
            f = F.fns.get(x)
            if f is None: continue
            for b, i, s in f.stmts():
                if s[0] != "=": continue
                pls = [s[1]]
                if s[2][0] == "ref" and s[2][1] == 1: pls.append(s[2][2])
                for pl in pls:
                    for e in pl[1:]:
                        if isinstance(e, list) and e[0] == "f": self.written.add((e[3], e[1]))
            for b, t in f.calls():
                for e in t[3][1:]:
                    if isinstance(e, list) and e[0] == "f": self.written.add((e[3], e[1]))
    def sites(self, ids, fields):
        """(function, block, call, container) of insertions into thread-local tables or into the named fields"""
        for x in ids:
            f = self.F.fns.get(x)
            if f is None: continue
            for b, t in f.calls():
                fn = t[1].get("fn", "")
                if fn in self.F.fns or not INS.search(fn) or len(t[2]) < 2: continue
                at = self.D.op(f, t[2][0], b, len(f.blocks[b]["s"]))
                fl = [a for a in at if a[0] == "fld" and a[2] in fields]
                if fl: yield f, b, t, fl[0][2]
                elif f.kind == "closure" and any(a[0] == "p" and a[1] == 1 for a in at) and self.tls_closure(f): yield f, b, t, "tls:" + self.tls_closure(f).split("::{constant")[0]
                else:
                    st = [a[1] for a in at if a[0] in ("static", "const")]
                    if st: yield f, b, t, "tls:" + st[0]
    def tls_closure(self, f):
        """thread-local a closure is passed to (LocalKey::with)"""
        p = self.F.fns.get(f.parent)
        if p is None: return None
        for b, t in p.calls():
            if "LocalKey" in t[1].get("fn", "") and t[2]:
                fcs = [self.D.findclosure(p, a, b, len(p.blocks[b]["s"])) for a in t[2][1:]]
                if any(fc and fc[0][2] == f.id for fc in fcs):
                    for a in self.D.op(p, t[2][0], b, len(p.blocks[b]["s"])):
                        if a[0] in ("static", "const") and not a[1].startswith("core::"): return a[1]
                    return "thread-local"
        return None
    def built(self, f):
        """workspace types constructed by anything f reaches"""
        r = self._built.get(f.id)
        if r is None:
            r = set()
            for x in self.F.reach([f.id]):
                g = self.F.fns.get(x)
                if g is None: continue
                for b, i, s in g.stmts():
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt": r.add(s[2][2])
            self._built[f.id] = r
        return r
    def sources(self, f, atoms):
        out = set(); built = self.built(f)
        for a in atoms:
            if a[0] == "p":
                out.add(a)
            elif a[0] in ("fld", "var"):
                ow = a[1] if a[0] == "fld" else a[1] + "::" + a[2]
                if not ow.startswith("ass_") or ow in built or ow.endswith("::InternalBitFlags"): continue
                ad = self.F.adts.get(ow) or self.F.adts.get(ow.rsplit("::", 1)[0])
                if ad and ad.get("enum"): out.add(a)
                elif a[0] == "fld" and ow not in self.owners and not any(x[0] == "p" and any(q == (a[2], ow) for q in x[2]) for x in atoms): out.add(a)
            elif a[0] == "clarg": out.add(a)
        return out
    def verdict(self, f, b, t, memofields, maxup=4):
        """[] when the key determines the value on every call chain; else [(where, missing sources)]"""
        n = len(f.blocks[b]["s"])
        fn = t[1]["fn"]
        entry = "Entry" in fn
        if entry:
            K = self.D.op(f, t[2][0], b, n)
            V = set()
            for a in t[2][1:]:
                fc = self.D.findclosure(f, a, b, n)
                if fc: V |= self.D.closure(f, fc[0][2], fc[0][3], fc[0][4], fc[1], fc[2], set())
                else: V |= self.D.op(f, a, b, n)
        else:
            K = self.D.op(f, t[2][1], b, n); V = self.D.op(f, t[2][2], b, n) if len(t[2]) > 2 else set()
        G = set(self.D.ctl(f, b, set(), False))
        bad = []
        self._climb(f, t[-1], K, V, G, memofields, maxup, bad, False)
        return bad
    def _missing(self, f, K, V, G, memofields):
        G = set(G) | {a[1] for a in K if a[0] == "g"} | {a[1] for a in V if a[0] == "g"}
        K = {a for a in K if a[0] != "g"}; V = {a for a in V if a[0] != "g"}
        ks = self.sources(f, K); vs = self.sources(f, V); gs = self.sources(f, G)
        self.hard = set()
        proj = {a[2] for a in gs if a[0] == "fld" and a[1].endswith("::Rotation")} >= {"x", "y"}
        miss = set()
        for a in vs:
            if a in ks or a in gs: continue
            if a[0] == "p":
                p = tuple(q[0] for q in a[2])
                if any(k[0] == "p" and k[1] == a[1] and a[2][:len(k[2])] == k[2] for k in ks): continue     # a part of something in the key
                if any(g[0] == "p" and g[1] == a[1] and a[2][:len(g[2])] == g[2] for g in gs): continue
                if any(q in memofields for q in p): continue                                                # another memo table
                own = [q for q in a[2] if q[1] in self.owners]
                if own:
                    if not any((q[1], q[0]) in self.written for q in own): continue                         # fixed at construction
                    self.hard.add(a)
                if proj and p and p[-1] in ("x", "y"): continue
            elif proj and a[1].rsplit("::", 1)[-1] in ("Rotation", "Scale", "Shear"): continue
            elif a[0] == "fld" and any(k[0] == "var" and a[1] == k[1] + "::" + k[2] for k in ks): continue
            miss.add(a)
        return miss
    def _climb(self, f, line, K, V, G, memofields, left, bad, settled):
        kk = {a for a in K if a[0] != "g"}
        whole = len([a for a in kk if a[0] == "p"]) <= 1 and not any(a[0] in ("fld",) for a in kk) and any(a[0] == "p" for a in kk)
        miss = self._missing(f, K, V, G, memofields)
        if not miss and not (whole and f.kind == "closure"): return
        if miss and self.hard and not whole:
            bad.append((f, line, self.hard & miss)); return
        ups = self.C.up(f, [K, V, G]) if left > 0 else []
        if not ups:
            if miss: bad.append((f, line, miss))
            return
        for (g, l, (k2, v2, g2)) in ups:
            gb = self._blockof(g, f, l)
            if gb is not None: g2 = g2 | self.D.ctl(g, gb, set(), False)
            sub = []
            self._climb(g, l, k2, v2, g2, memofields, left - 1, sub, True)
            for s in sub:
                bad.append(s if settled else s)
    def _blockof(self, g, f, l):
        for b in g.rpo():
            t = g.blocks[b]["t"]
            if t[0] == "call" and t[-1] == l and "fn" in t[1] and f.id in self.F.targets(t[1]["fn"]): return b
            for s in g.blocks[b]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure" and s[2][2] == f.id: return b
        return None
def describe(atoms):
    out = set()
    for a in atoms:
        if a[0] == "p": out.add(f"arg{a[1]}" + "".join("." + q[0] for q in a[2]))
        elif a[0] == "fld": out.add(a[1].split("::")[-1] + "." + a[2])
        elif a[0] == "var": out.add(a[1].split("::")[-1] + "::" + a[2])
        else: out.add(str(a))
    return sorted(out)
