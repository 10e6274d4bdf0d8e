"""Abstract truth of boolean conditions under the assumption that one arbitrary text carries a given tag.
Values: True, False, FREE (either, whatever the text holds), UNK (depends on the text in a way not evaluated)."""
import re
FREE, UNK = "free", "unk"
PART = re.compile(r"::(take|skip|filter|step_by|take_while|skip_while|filter_map|first|last|get|split_first|split_last|first_chunk|nth|next_back)$")
PASS = re.compile(r"::(iter|into_iter|copied|cloned|by_ref|deref|as_slice|as_ref|iter_mut|borrow|rev|enumerate|clone|to_vec|as_deref)$")
def inv(v): return (not v) if isinstance(v, bool) else v
def join(vs):
    vs = set(vs)
    if len(vs) == 1: return vs.pop()
    if UNK in vs or not vs: return UNK
    return FREE
class Assume:
    def __init__(self, F, D, tag):
        self.F = F; self.D = D; self.tag = "\\" + tag; self.memo = {}; self.partial = None
    def speaks(self, ids):
        """functions that look for override tags in a text"""
        k = tuple(sorted(set(ids)))
        if not hasattr(self, "_sp"): self._sp = {}
        if k not in self._sp: self._sp[k] = bool(self.consts(k))
        return self._sp[k]
    def consts(self, ids):
        out = set()
        def walk(x):
            if isinstance(x, list):
                for y in x: walk(y)
            elif isinstance(x, dict):
                if isinstance(x.get("str"), str): out.add(x["str"])
                if x.get("ty") == "char" and x.get("val") == "92": out.add("\\")
                for y in x.values():
                    if isinstance(y, (list, dict)): walk(y)
        for x in self.F.reach(ids):
            f = self.F.fns.get(x)
            if f is None: continue
            for blocks in [f.blocks] + [p.get("blocks", []) for p in f.promoted]:
                for bl in blocks: walk(bl["s"]); walk(bl["t"])
        return {c for c in out if c.startswith("\\")}
    def cyclic(self, f):
        """blocks on a cycle"""
        if not hasattr(self, "_cyc"): self._cyc = {}
        if f.id not in self._cyc:
            out = set()
            for b in f.rpo():
                seen = set(); st = list(f.succ(b))
                while st:
                    x = st.pop()
                    if x in seen: continue
                    seen.add(x); st.extend(f.succ(x))
                if b in seen: out.add(b)
            self._cyc[f.id] = out
        return self._cyc[f.id]
    def calls_of(self, t):
        c = t[1]; ids = list(self.F.targets(c["fn"])) if "fn" in c else []
        for x in c.get("fa", ()): ids += self.F.targets(x)
        return [i for i in ids if i in self.F.fns]
    def closures(self, f, t, b):
        out = []
        for o in t[2]:
            r = self.D.findclosure(f, o, b, len(f.blocks[b]["s"]))
            if r: out.append(r[0][2])
            elif o[0] == "k" and isinstance(o[1], dict) and o[1].get("fn") in self.F.fns: out.append(o[1]["fn"])
        return out
    def fnvalue(self, fid):
        """what a predicate over one text (or over all of them) returns"""
        if fid in self.memo: return self.memo[fid]
        self.memo[fid] = UNK
        f = self.F.fns[fid]
        cyc = self.cyclic(f)
        if any(b in cyc and self.speaks(self.calls_of(f.blocks[b]["t"]) + self.closures(f, f.blocks[b]["t"], b)) for b in cyc if f.blocks[b]["t"][0] == "call") or any(b in cyc and '\\\\' in repr(f.blocks[b]) for b in cyc):
            return UNK
        rets = []
        for kind, v in self.walk(f, None): 
            if kind == "ret": rets.append(v)
        v = join(rets); self.memo[fid] = v
        return v
    def source(self, f, o, b, i, d=0):
        """'all', 'part' or None: does an iterator (or list) cover everything"""
        if o[0] not in ("cp", "mv") or d > 12: return None
        pl = o[1]
        if any(isinstance(e, list) and e[0] == "f" and "ActiveEvents" in e[3] for e in pl[1:]): return "all" if pl[-1][1] == "events" else None
        ds, _ = self.D.reaching(f, pl[0], b, i)
        if not ds: return "all" if pl[0] <= f.argc else None
        if len(ds) != 1: return None
        db, di, k, s = ds[0]
        if k == "=":
            rv = s[2]
            if rv[0] == "use": return self.source(f, rv[1], db, di, d + 1)
            if rv[0] == "ref": return self.source(f, ["cp", rv[2]], db, di, d + 1)
            return None
        n = s[1].get("fn", "")
        if PART.search(n): return "part"
        if PASS.search(n) and s[2]: return self.source(f, s[2][0], db, di, d + 1)
        if n in self.F.fns: return "all"
        return None
    def call(self, f, t, b, env):
        n = t[1].get("fn", ""); i = len(f.blocks[b]["s"]); last = n.split("::")[-1]
        if last == "contains" and "str" in n and len(t[2]) == 2 and t[2][1][0] == "k":
            k = t[2][1][1]
            if "str" in k: return True if k["str"] and self.tag.startswith(k["str"]) else True if k["str"] in self.tag else FREE if k["str"].startswith("\\") else UNK
            if k.get("ty") == "char": return True if k.get("val") in ("92", "'\\\\'", "\\") else UNK
            return UNK
        cl = self.closures(f, t, b)
        if last in ("any", "all") and "Iterator" in n and len(cl) == 1:
            src = self.source(f, t[2][0], b, i)
            if src is None: return UNK
            if not self.speaks(cl): return FREE
            v = self.fnvalue(cl[0])
            if v == UNK: return UNK
            if src == "part": self.partial = n; return FREE
            if last == "any": return True if v is True else FREE
            return False if v is False else FREE
        if last in ("is_some_and", "is_none_or", "map_or") and cl:
            if not self.speaks(cl): return FREE
            src = self.source(f, t[2][0], b, i)
            return FREE if src == "part" else UNK
        ids = self.calls_of(t)
        ty = f.locals[t[3][0]] if len(t[3]) == 1 else ""
        if ids and ty == "bool":
            if not self.speaks(ids): return FREE
            return join([self.fnvalue(x) for x in ids])
        if ty == "bool":
            if self.speaks(cl): return UNK
            return self.slice(f, [o for o in t[2]], b)
        return None
    def slice(self, f, ops, b):
        """FREE unless something in the local computation of these looks for tags itself"""
        seen = set(); st = [o[1][0] for o in ops if o[0] in ("cp", "mv")]
        flag = any(self.D.placety(f, o[1]) == "bool" and len(o[1]) > 1 for o in ops if o[0] in ("cp", "mv"))
        while st:
            l = st.pop()
            if l in seen or l <= f.argc: continue
            seen.add(l)
            if self.built_in_parts(f, l): return UNK
            for bb, bl in enumerate(f.blocks):
                if bl.get("c"): continue
                for s in bl["s"]:
                    if s[0] == "=" and s[1][0] == l:
                        for pl in places(s[2]):
                            st.append(pl[0])
                            if len(pl) > 1 and self.D.placety(f, pl) == "bool": flag = True
                t = bl["t"]
                if t[0] == "call" and t[3][0] == l:
                    ids = self.calls_of(t)
                    ty = f.locals[l]
                    if (ids and ("bool" in ty or flag) and self.speaks(ids)) or self.speaks(self.closures(f, t, bb)): return UNK
                    st.extend(o[1][0] for o in t[2] if o[0] in ("cp", "mv"))
        return FREE
    def built_in_parts(self, f, l):
        """a value made or changed in several places while the function looks for tags somewhere: what it holds may depend on them"""
        n = 0
        for bl in f.blocks:
            if bl.get("c"): continue
            for s in bl["s"]:
                if s[0] == "=" and s[1][0] == l: n += 1
                if s[0] == "=" and s[2][0] == "ref" and s[2][1] == 1 and s[2][2][0] == l: n += 1
            if bl["t"][0] == "call" and bl["t"][3][0] == l: n += 1
        if n < 2: return False
        for b, t in f.calls():
            if self.speaks(self.closures(f, t, b)) or self.speaks([x for x in self.calls_of(t) if "bool" in (self.F.fns[x].sig or "").rsplit("->", 1)[-1]]): return True
        return False
    def steered(self, f, l):
        """an Option (or the like) decided by a closure or function that is given a truth value or looks for tags"""
        seen = set(); st = [l]
        while st:
            l = st.pop()
            if l in seen or l <= f.argc: continue
            seen.add(l)
            for b, bl in enumerate(f.blocks):
                if bl.get("c"): continue
                for s in bl["s"]:
                    if s[0] == "=" and s[1][0] == l: st.extend(p[0] for p in places(s[2]))
                t = bl["t"]
                if t[0] == "call" and t[3][0] == l:
                    st.extend(o[1][0] for o in t[2] if o[0] in ("cp", "mv"))
                    for o in t[2]:
                        if o[0] in ("cp", "mv") and len(o[1]) == 1 and f.locals[o[1][0]] == "bool": return True
                        r = self.D.findclosure(f, o, b, len(bl["s"]))
                        if r:
                            caps = [x for x in r[0][4] if x[0] in ("cp", "mv")]
                            if self.speaks([r[0][2]]): return True
                            for x in caps:
                                tl = x[1][0]
                                if f.locals[tl] in ("bool", "&bool", "&mut bool") or f.locals[tl].endswith(" bool"): return True
        return False
    def vec(self, f, o, b):
        """the local list an operand refers to"""
        for _ in range(6):
            if o[0] not in ("cp", "mv") or any(isinstance(e, list) for e in o[1][1:]): return None
            l = o[1][0]
            if f.locals[l].startswith("alloc::vec::Vec<"): return l
            ds, _x = self.D.reaching(f, l, b, len(f.blocks[b]["s"]))
            if len(ds) != 1: return None
            b, i, k, s = ds[0]
            if k == "=" and s[2][0] == "ref": o = ["cp", s[2][2]]
            elif k == "=" and s[2][0] == "use": o = s[2][1]
            elif k == "call" and s[1].get("fn", "").endswith("::deref"): o = s[2][0]
            else: return None
        return None
    def walk(self, f, stop):
        """paths under the assumption: yields ('ret', value) and ('at', block, certain) for blocks in stop"""
        cyc = self.cyclic(f); out = []; seen = set()
        bools = [l for l, t in enumerate(f.locals) if t == "bool"]
        # flags set inside loops are not followed
        loopset = {s[1][0] for b in cyc for s in f.blocks[b]["s"] if s[0] == "=" and len(s[1]) == 1} | {f.blocks[b]["t"][3][0] for b in cyc if f.blocks[b]["t"][0] == "call"}
        multi = {}
        for b in range(len(f.blocks)):
            for s in f.blocks[b]["s"]:
                if s[0] == "=" and len(s[1]) == 1: multi[s[1][0]] = multi.get(s[1][0], 0) + 1
        poison = {l for l in loopset if multi.get(l, 0) > 1}
        st = [(0, {}, True)]
        def val(env, o):
            if o[0] == "k":
                v = o[1].get("val") if isinstance(o[1], dict) else None
                return True if v in ("1", "true") else False if v in ("0", "false") else FREE
            pl = o[1]
            if len(pl) == 1:
                if pl[0] in poison: return UNK
                if pl[0] in env: return env[pl[0]]
                return None
            return None
        while st:
            b, env, sure = st.pop()
            k = (b, tuple(sorted((l, str(v)) for l, v in env.items())), sure)
            if k in seen: continue
            seen.add(k)
            if len(seen) > 20000: out.append(("ret", UNK)); return out
            env = dict(env)
            for s in f.blocks[b]["s"]:
                if s[0] != "=" or len(s[1]) != 1: continue
                l = s[1][0]; rv = s[2]
                if f.locals[l] != "bool": continue
                v = None
                if rv[0] == "use": v = val(env, rv[1])
                elif rv[0] == "un": v = inv(val(env, rv[2]))
                elif rv[0] == "bin" and rv[1] in ("BitAnd", "BitOr"):
                    a, c = val(env, rv[2]), val(env, rv[3]); z = rv[1] == "BitOr"
                    v = z if a is z or c is z else a if c is (not z) else c if a is (not z) else UNK if UNK in (a, c) else FREE if None not in (a, c) else None
                if v is None: v = self.slice(f, [["cp", p] for p in places(rv)], b)
                env[l] = v
            if stop is not None and b in stop:
                out.append(("at", b, sure)); continue
            t = f.blocks[b]["t"]
            if t[0] == "ret":
                out.append(("ret", env.get(0, UNK))); continue
            if t[0] == "call":
                n = t[1].get("fn", "").split("::")[-1]
                v0 = self.vec(f, t[2][0], b) if t[2] else None
                if v0 is not None and f.locals[t[2][0][1][0]].startswith("&mut"):
                    env[-v0] = True if n in ("push", "insert", "push_mut") else None
                if n == "is_empty" and v0 is not None and env.get(-v0) is True and t[3] and len(t[3]) == 1: env[t[3][0]] = False
                elif len(t[3]) == 1 and f.locals[t[3][0]] == "bool":
                    v = self.call(f, t, b, env)
                    env[t[3][0]] = UNK if v is None else v
            if t[0] == "switch":
                o = t[1]; ty = self.D.placety(f, o[1]) if o[0] in ("cp", "mv") else ""
                if ty == "bool":
                    v = val(env, o)
                    if v is None: v = self.slice(f, [o], b)
                    zero = [x for q, x in t[2] if q in ("0", 0)]
                    if v is True: nx = [t[3]] if zero else f.succ(b)
                    elif v is False: nx = zero or f.succ(b)
                    else: nx = f.succ(b)
                    s2 = sure and v != UNK
                else:
                    nx = f.succ(b); s2 = sure and not (o[0] in ("cp", "mv") and self.steered(f, o[1][0]))
                for x in nx: st.append((x, env, s2))
                continue
            for x in f.succ(b): st.append((x, env, sure))
        return out
def places(rv):
    k = rv[0]
    if k == "ref": return [rv[2]]
    if k in ("raw", "disc"): return [rv[1]]
    ops = {"use": [1], "cast": [2], "bin": [2, 3], "un": [2], "repeat": [1]}.get(k, [])
    out = [rv[j][1] for j in ops if rv[j][0] in ("cp", "mv")]
    if k == "agg": out += [o[1] for o in rv[4] if o[0] in ("cp", "mv")]
    return out
