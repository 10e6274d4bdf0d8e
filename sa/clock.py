"""Where clock readings flow: flow-insensitive taint over locals, fields, parameters and results of the functions in reach."""
import re
from common import short
SRC = re.compile(r"^(<?std::time::|core::time::)?.*(Instant|SystemTime)(>| as [^>]*>)?::(now|elapsed|duration_since|checked_duration_since|saturating_duration_since)$")
TEXT = re.compile(r"^(&(mut )?)?(alloc::string::String|str\b|alloc::borrow::Cow<.*str>)")
DUR = re.compile(r"^&?(core::time::Duration|std::time::(Instant|SystemTime))")
CMP = re.compile(r"::(lt|le|gt|ge|eq|ne|cmp|partial_cmp|min|max|checked_sub|saturating_sub)$")
SILENT = re.compile(r"std::io::stdio::_e?print|log::|tracing")
ATOM = re.compile(r"sync::atomic::Atomic.*::(load|swap|fetch_\w+)$")
WRAP = re.compile(r"(option::Option|result::Result|ops::(control_flow::)?ControlFlow|Poll)(::\w+)?$")
def fields(pc): return [(e[3], e[1]) for e in pc[1:] if isinstance(e, list) and e[0] == "f" and e[3] != "tuple" and not WRAP.search(str(e[3]).split("<")[0])]
class Clock:
    def __init__(self, F, ids, ambient=()):
        self.F = F; self.ambient = set(ambient); self.ids = [i for i in ids if not F.fns[i].derived]
        self.loc = {}; self.flds = {}; self.bad = {}; self.srcs = set()
        self.callers = {}
        for i in self.ids:
            for b, t in F.fns[i].calls():
                for x in F.targets(t[1].get("fn", "")): self.callers.setdefault(x, set()).add(i)
        self.readers = {}
        for i in self.ids:
            f = F.fns[i]
            def walk(x):
                if isinstance(x, list):
                    if x and isinstance(x[0], int) and len(x) > 1 and any(isinstance(e, list) and e and e[0] == "f" for e in x[1:]):
                        for k in fields(x): self.readers.setdefault(k, set()).add(i)
                    for y in x: walk(y)
            walk([b["s"] for b in f.blocks]); walk([b["t"] for b in f.blocks])
        self.run(); self.sources = len(self.srcs)
    def ta(self, f, pc):
        """is the value at this place clock-derived"""
        fs = fields(pc)
        return any(k in self.flds for k in fs) or (not fs and pc[0] in self.loc[f.id]) or (bool(fs) and (pc[0], fs[0][1]) in self.loc[f.id])
    def op(self, f, o): return o[0] in ("cp", "mv") and self.ta(f, o[1])
    def put(self, f, pc):
        fs = fields(pc)
        if fs:
            if fs[-1][1] == "id": return False
            k = fs[-1]
            if k not in self.flds: self.flds[k] = f.id; self.todo |= self.readers.get(k, set()); return True
            return False
        if pc[0] not in self.loc[f.id]:
            self.loc[f.id].add(pc[0])
            if pc[0] == 0: self.todo |= self.callers.get(f.id, set()) | ({f.parent} if f.parent in self.loc else set())
            return True
        return False
    def run(self):
        F = self.F
        for i in self.ids: self.loc[i] = set()
        self.todo = set(self.ids)
        while self.todo:
            i = self.todo.pop(); f = F.fns[i]; ch = True
            while ch:
                ch = False
                for b, k, s in f.stmts():
                    if s[0] != "=": continue
                    rv = s[2]
                    if rv[0] == "agg":
                        if rv[1] == "adt":
                            names = self.names(rv, f, s)
                            for n, o in zip(names, rv[4]):
                                if self.op(f, o) and n != "id":
                                    key = (rv[2], n)
                                    if WRAP.search(rv[2]): ch |= self.put(f, s[1])
                                    elif key not in self.flds: self.flds[key] = f.id; self.todo |= self.readers.get(key, set()); ch = True
                        elif rv[1] == "closure": # captured
                            g = F.fns.get(rv[2])
                        elif any(self.op(f, o) for o in rv[4]): ch |= self.put(f, s[1])
                    elif rv[0] == "disc": pass
                    elif self.anyop(f, rv): ch |= self.put(f, s[1])
                for b, t in f.calls():
                    fn = t[1].get("fn", ""); tg = [x for x in F.targets(fn) if x in self.loc]
                    if SRC.match(fn) or (i in self.ambient and ATOM.search(fn)):
                        ch |= self.put(f, t[3]); self.srcs.add((i, b)); continue
                    if tg:
                        for x in tg:
                            g = F.fns[x]
                            if 0 in self.loc[x]: ch |= self.put(f, t[3])
                            for n, a in enumerate(t[2]):
                                if self.op(f, a) and n + 1 not in self.loc[x]: self.loc[x].add(n + 1); self.todo.add(x)
                        continue
                    if not any(self.op(f, a) for a in t[2]): continue
                    if CMP.search(fn) and self.limit(f, t): continue
                    ch |= self.put(f, t[3])
                    if re.search(r"::(push|push_str|insert|extend|insert_str|write_fmt|write_str)$", fn) and t[2][0][0] in ("cp", "mv"): ch |= self.back(f, t[2][0][1])
                # closures see their captures
        for i in self.ids: self.sinks(F.fns[i])
    def back(self, f, pc):
        ch = False; st = [pc[0]]; seen = set()
        while st:
            l = st.pop()
            if l in seen: continue
            seen.add(l)
            for b, k, s in f.stmts():
                if s[0] == "=" and s[1] == [l] and s[2][0] in ("ref", "use"):
                    q = s[2][2] if s[2][0] == "ref" else s[2][1][1] if s[2][1][0] in ("cp", "mv") else None
                    if q: ch |= self.put(f, q); st.append(q[0])
        return ch
    def names(self, rv, f, s):
        return rv[3] if isinstance(rv[3], list) and len(rv[3]) == len(rv[4]) else [str(k) for k in range(len(rv[4]))]
    def anyop(self, f, rv):
        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list): return self.ta(f, x[1])
                return any(walk(y) for y in x)
            return False
        if rv[0] == "ref": return self.ta(f, rv[2])
        return walk(rv[1:])
    def limit(self, f, t):
        """a comparison of an age with a limit the caller or the configuration gave"""
        for a in t[2]:
            if a[0] in ("cp", "mv") and self.ta(f, a[1]): continue
            if a[0] == "k" or not self.given(f, a[1], set()): return False
        return True
    def given(self, f, pc, seen):
        if fields(pc) : return True
        l = pc[0]
        if 1 <= l <= f.argc: return True
        if l in seen: return False
        seen.add(l); ds = []
        for b, k, s in f.stmts():
            if s[0] == "=" and s[1][0] == l: ds.append(s[2])
        return bool(ds) and all((d[0] == "ref" and self.given(f, d[2], seen)) or (d[0] == "use" and d[1][0] in ("cp", "mv") and self.given(f, d[1][1], seen)) for d in ds)
    def sinks(self, f):
        for b in f.rpo():
            t = f.blocks[b]["t"]
            if t[0] == "switch" and self.op(f, t[1]): self.bad[(f.id, "decides a branch")] = t[-1] if isinstance(t[-1], int) else f.line
            if t[0] == "assert": continue
        for l in self.loc[f.id]:
            if TEXT.match(f.locals[l]) and not self.silent(f, l): self.bad[(f.id, "becomes text")] = f.line
        for b, k, s in f.stmts():
            if s[0] == "=":
                for e in s[1][1:]:
                    if isinstance(e, list) and e[0] == "i" and e[1] in self.loc[f.id]: self.bad[(f.id, "becomes an index")] = s[-1]
    def silent(self, f, l, seen=None):
        """a text that only ever names a thing (stored as an `id`) or goes to the console"""
        seen = set() if seen is None else seen
        if (f.id, l) in seen: return True
        seen.add((f.id, l))
        if l == 0:
            for c in self.callers.get(f.id, ()):
                g = self.F.fns[c]
                for b, t in g.calls():
                    if f.id in self.F.targets(t[1].get("fn", "")) and (len(t[3]) > 1 and fields(t[3])[-1:] != [] and fields(t[3])[-1][1] != "id" or not self.silent(g, t[3][0], seen)): return False
        for b, k, s in f.stmts():
            if s[0] != "=": continue
            if s[2][0] == "agg" and s[2][1] == "adt" and not WRAP.search(s[2][2]):
                if any(o[0] in ("cp", "mv") and o[1][0] == l and n != "id" for n, o in zip(self.names(s[2], f, s), s[2][4])): return False
            elif self.mentions(s[2], l):
                fs = fields(s[1])
                if fs and fs[-1][1] == "id": continue
                if fs or not self.silent(f, s[1][0], seen): return False
        for b, t in f.calls():
            if any(self.mentions(a, l) for a in t[2]):
                fn = t[1].get("fn", "")
                if SILENT.search(fn) or fn.endswith("drop_in_place"): continue
                if any(x in self.loc for x in self.F.targets(fn)): return False
                if len(t[3]) == 1 and not self.silent(f, t[3][0], seen): return False
        return True
    def mentions(self, x, l):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list): return x[1][0] == l
            if x and x[0] == "ref": return x[2][0] == l
            return any(self.mentions(y, l) for y in x)
        return False
