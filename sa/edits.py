"""Editor document: per-path typestate of text writes, history records and announcements.

A text write is a mutating call on the document's rope (or an assignment of it). The state of a path is 0 (nothing
written), 1 (written, not yet covered) or 2 (covered in advance). A covering call (record or announcement) takes 1 to 0
and 0 to 2. Calls into the workspace are composed through summaries (state at entry -> (outcome, state) at exit), the
outcome of a fallible call is followed through `?` and matches, and a write of text that is exactly an earlier read of the
document's text takes the path back to 0 (the document is what it was)."""
import re
from dep import Dep
TEXT = ("text_rope", "text_content")
DOC = "EditorDocument"
WCALL = re.compile(r"ropey::rope::Rope::(insert|insert_char|remove|append|split_off)$|alloc::string::String::(insert|insert_str|drain|replace_range|push_str|push|remove|truncate|clear)$")
PURE = re.compile(r"(to_string|clone|deref|as_str|to_owned|into|from|as_ref|borrow|fmt|new|new_display|text|format|to_cow|chunks|collect|as_deref|into_owned|chars)$|Rope")
OKV = ("core::result::Result::Ok", "core::option::Option::Some"); ERV = ("core::result::Result::Err", "core::option::Option::None")
class Edits:
    def __init__(self, F, D=None):
        self.F = F; self.D = D or Dep(F); D = self.D
        self.fns = [f for f in F.fns.values() if "ass_editor" in f.id and f.blocks]
        self.prim = {}      # fn -> {block: call} direct text writes
        for f in self.fns:
            for b, t in f.calls():
                if WCALL.search(t[1].get("fn", "")) and t[2] and self.on_text(f, t[2][0], b): self.prim.setdefault(f.id, {})[b] = t
            for b, i, s in f.stmts():
                if s[0] == "=" and any(isinstance(e, list) and e[0] == "f" and e[1] in TEXT and e[3].endswith(DOC) for e in s[1][1:]):
                    self.prim.setdefault(f.id, {})[b] = s
        self.W = self.callers_of(set(self.prim))
        self.memo = {}
    def on_text(self, f, o, b):
        """the operand is a mutable borrow of the document's text (followed through reborrows and moves)"""
        l = o[1][0] if o[0] in ("cp", "mv") else None; n = 0; i = len(f.blocks[b]["s"])
        while l is not None and n < 8:
            n += 1
            ds, _ = self.D.reaching(f, l, b, i)
            if len(ds) != 1 or ds[0][2] != "=": return False
            b, i, _, s = ds[0]; rv = s[2]
            pl = rv[2] if rv[0] == "ref" else rv[1][1] if rv[0] == "use" and rv[1][0] in ("cp", "mv") else None
            if pl is None: return False
            if any(isinstance(e, list) and e[0] == "f" and e[1] in TEXT and e[3].endswith(DOC) for e in pl[1:]): return True
            l = pl[0]
        return False
    def callers_of(self, ids):
        """functions of the editor from which one of ids is reachable by calls"""
        rev = {}
        for x, cs in self.F.cg().items():
            for c in cs: rev.setdefault(c, []).append(x)
        out = set(); st = list(ids)
        while st:
            x = st.pop()
            if x in out: continue
            out.add(x); st += rev.get(x, [])
        return out

def receiver(E, f, o, b, fld):
    """the operand is a borrow of a place reached through the field (followed through reborrows and moves)"""
    l = o[1][0] if o[0] in ("cp", "mv") else None; n = 0; i = len(f.blocks[b]["s"])
    while l is not None and n < 8:
        n += 1
        ds, _ = E.D.reaching(f, l, b, i)
        if len(ds) != 1 or ds[0][2] != "=": return False
        b, i, _, s = ds[0]; rv = s[2]
        pl = rv[2] if rv[0] == "ref" else rv[1][1] if rv[0] == "use" and rv[1][0] in ("cp", "mv") else None
        if pl is None: return False
        if any(isinstance(e, list) and e[0] == "f" and e[1] == fld for e in pl[1:]): return True
        l = pl[0]
    return False
PART = re.compile(r"::(index|index_mut|get|slice|byte_slice|get_slice|text_range|split\w*|trim\w*|lines?|chars|skip|take|nth)$")
def whole(at):
    """exactly a read of the document's whole text"""
    return is_doc(at) and all((a[0] == "fld" and (a[1].endswith(DOC) or a[2] in TEXT or "Change" in a[1] or a[2] in ("text", "document", "doc", "inner"))) or a[0] == "site" or
        (a[0] == "call" and PURE.search(a[1]) and not PART.search(a[1])) or (a[0] == "p" and any(n in TEXT for n, _ in a[2])) for a in at)
class Typestate:
    """covers: functions that cover writes; gate: document field through which they do (while it is taken out, nothing covers)"""
    def __init__(self, E, covers, gate=None, effects=None):
        self.gate = gate; self.X = effects or Effects(E); self.rmemo = {}
        self.E = E; self.F = E.F; self.D = E.D
        self.R = E.callers_of(covers); self.covers = covers
        self.memo = {}; self.prog = set(); self.rawmemo = None; self.probe = None; self.opt = False
    def raw(self):
        """internal writers all of whose failures come from the writers' own bounds checks"""
        if self.rawmemo is None:
            r = set(self.E.prim); ch = True
            while ch:
                ch = False
                for f in self.E.fns:
                    if f.id in r or f.pub or f.id not in self.E.W or f.kind == "closure": continue
                    cs = [t[1].get("fn") for b, t in f.calls() if "Result<" in f.locals[t[3][0]].split("(")[0] and t[1].get("fn") in self.F.fns]
                    if cs and all(c in r for c in cs): r.add(f.id); ch = True
            self.rawmemo = r
        return self.rawmemo
    def summary(self, fid, init):
        """{(outcome, state)}; outcome ok/err; state (written, suspended)"""
        if not isinstance(init, tuple): return {(o, st[0]) for o, st in self.summary(fid, (init, 0))}
        key = (fid, init)
        if key in self.memo: return self.memo[key]
        if key in self.prog: return {("ok", init)}
        self.prog.add(key)
        self.memo[key] = r = {(o, s) for o, s, _ in self.walk(self.F.fns[fid], init)}
        self.prog.discard(key)
        return r
    def restore(self, f, t, b):
        """the call replaces text by exactly what the document's text was when it was read"""
        key = (f.id, b)
        if key not in self.rmemo:
            es = self.X.at(f, b, t)
            self.rmemo[key] = any(k == "del" for k, d, l in es) and any(k == "ins" and whole(d["text"]) for k, d, l in es)
        return self.rmemo[key]
    def write(self, st): return (1 if st[0] == 0 else st[0], st[1])
    def cover(self, st): return st if st[1] else ({0: 2, 1: 0, 2: 2}[st[0]], 0)
    def call(self, f, b, t, st):
        """[(outcome, state)]"""
        fn = t[1].get("fn", ""); last = fn.rsplit("::", 1)[-1]
        if self.E.prim.get(f.id, {}).get(b) is t: return [("ok", self.write(st))] + ([("err", st)] if self.opt else [])
        if self.gate and last in ("take", "replace") and t[2] and receiver(self.E, f, t[2][0], b, self.gate): return [("ok", (st[0], 1))]
        tg = [x for x in self.F.targets(fn) if x in self.F.fns] if fn else []
        if fn.startswith("dyn ") and fn.endswith("EditorCommand::execute"):
            return [("ok", st), ("ok", self.write(st)), ("err", st), ("err", self.write(st))]
        extra = [a for a in t[1].get("fa", ()) if a in self.F.fns]
        w = any(x in self.E.W for x in tg + extra); r = fn in self.covers or any(x in self.R for x in tg + extra)
        g = any(x in self.gaters() for x in tg)
        if not w and not g:
            if r: return [("ok", self.cover(st)), ("err", st)]
            return [("ok", st), ("err", st)]
        if w and self.restore(f, t, b):
            r = {u for x in tg for o, (s2, u) in self.summary(x, st)} or {st[1]}
            return [(o, (0 if o == "ok" or all(x in self.raw() for x in tg) else st[0], u)) for u in r for o in (("ok",) if all(x in self.raw() for x in tg) else ("ok", "err"))]
        out = set()
        for x in tg or extra:
            if x in self.E.W or x in self.R or x in self.gaters(): 
                m = self.summary(x, st)
                # a helper that may cover counts as covering
                if x not in self.E.W and x in self.R: m = {(o, self.cover(s2) if o == "ok" else s2) for o, s2 in m}
                out |= m
            else: out |= {("ok", st), ("err", st)}
        if not tg: out |= {("ok", st)}
        return list(out)
    def gaters(self):
        """functions that take the gate out or put it back"""
        if not hasattr(self, "gatememo"):
            g = set()
            for f in self.E.fns if self.gate else ():
                for b, t in f.calls():
                    if t[1].get("fn", "").rsplit("::", 1)[-1] in ("take", "replace") and t[2] and receiver(self.E, f, t[2][0], b, self.gate): g.add(f.id)
                for b, i, s in f.stmts():
                    if s[0] == "=" and self.gatewrite(s[1]): g.add(f.id)
            self.gatememo = self.E.callers_of(g)
        return self.gatememo
    def gatewrite(self, pl):
        return self.gate and any(isinstance(e, list) and e[0] == "f" and e[1] == self.gate and e[3].endswith(DOC) for e in pl[1:]) and \
               [e for e in pl[1:] if isinstance(e, list) and e[0] == "f"][-1][1] == self.gate
    def walk_strict(self, f):
        """outcomes of a raw writer without the exemption of raw writers"""
        self.rawmemo, keep = set(), self.raw()
        r = {(o, st[0]) for o, st, _ in self.walk(f, (0, 0))}
        self.rawmemo = keep
        return r
    def walk(self, f, init):
        """{(outcome, state, line)} over all paths"""
        israw = f.id in self.raw()
        if not isinstance(init, tuple): init = (init, 0)
        out = set(); seen = set(); work = [(0, init, frozenset())]
        while work:
            b, st, ann = work.pop()
            if (b, st, ann) in seen: continue
            seen.add((b, st, ann))
            if len(seen) > 60000: return out
            a = dict(ann); bl = f.blocks[b]
            for s in bl["s"]:
                if s[0] != "=": continue
                if self.E.prim.get(f.id, {}).get(b) is s: st = self.write(st)
                if self.gatewrite(s[1]): st = (st[0], 0)
                d = s[1]; rv = s[2]
                if len(d) == 1:
                    v = None
                    if rv[0] == "agg" and rv[1] == "adt":
                        if rv[2] in OKV or rv[2] in ERV: v = "ok" if rv[2] in OKV else "err"
                        # Ok/Err carried inside keeps only the outer outcome
                    elif rv[0] == "use" and rv[1][0] in ("cp", "mv") and len(rv[1][1]) == 1: v = a.get(rv[1][1][0])
                    elif rv[0] == "ref" and len(rv[2]) == 1: v = a.get(rv[2][0])
                    elif rv[0] == "disc" and len(rv[1]) == 1: v = ("d", a.get(rv[1][0])) if a.get(rv[1][0]) in ("ok", "err") else None
                    elif rv[0] == "disc" and rv[1][1:] == ["*"]: v = ("d", a.get(rv[1][0])) if a.get(rv[1][0]) in ("ok", "err") else None
                    if v: a[d[0]] = v
                    else: a.pop(d[0], None)
            t = bl["t"]; k = t[0]
            if k == "ret":
                ret = f.locals[0]
                o = a.get(0) if self.fallible(ret) else "ok"
                if o is None: o = "ok"
                if not (o == "err" and israw and init[0] == 0 and st[0] == 1): out.add((o, st, self.lastline(f, b)))
            elif k == "switch":
                o = t[1]; v = a.get(o[1][0]) if o[0] in ("cp", "mv") and len(o[1]) == 1 else None
                if isinstance(v, tuple):
                    src = v[1]; ty = ""
                    # Result: Ok=0 Err=1; ControlFlow: Continue=0 Break=1; Option: None=0 Some=1
                    for s in bl["s"]:
                        if s[0] == "=" and s[1] == o[1] and s[2][0] == "disc": ty = (s[2][2] if len(s[2]) > 2 else "") or f.locals[s[2][1][0]]
                    want = {"ok": "0", "err": "1"}[src]
                    if "Option<" in ty.split("(")[0][:24]: want = {"ok": "1", "err": "0"}[src]
                    tgt = [x for val, x in t[2] if val == want]
                    for x in (tgt or [t[3]]): work.append((x, st, self.fz(f, a)))
                elif v in ("T", "F"):
                    z = [x for val, x in t[2] if val == "0"]
                    x = (z[0] if z else t[3]) if v == "F" else t[3]
                    work.append((x, st, self.fz(f, a)))
                else:
                    for x in f.succ(b): work.append((x, st, self.fz(f, a)))
            elif k == "call":
                if self.probe is not None: self.probe.setdefault((f.id, b), set()).add(st[0])
                fn = t[1].get("fn", ""); last = fn.rsplit("::", 1)[-1]
                if t[4] < 0: continue
                dst = t[3]
                src = None
                for o in t[2][:1]:
                    if o[0] in ("cp", "mv") and len(o[1]) == 1: src = a.get(o[1][0])
                if last in ("branch", "map_err", "map", "ok", "as_ref", "as_mut", "and_then") and src in ("ok", "err") and ("Result" in fn or "Option" in fn):
                    a2 = dict(a); a2[dst[0]] = src
                    work.append((t[4], st, self.fz(f, a2))); continue
                if last == "from_residual" and len(dst) == 1:
                    a2 = dict(a); a2[dst[0]] = "err"; work.append((t[4], st, self.fz(f, a2))); continue
                if last in ("is_ok", "is_err", "is_some", "is_none") and src in ("ok", "err"):
                    a2 = dict(a); a2[dst[0]] = "T" if (last in ("is_ok", "is_some")) == (src == "ok") else "F"
                    work.append((t[4], st, self.fz(f, a2))); continue
                res = len(dst) == 1 and self.fallible(f.locals[dst[0]], 40)
                outs = self.call(f, b, t, st)
                if not res: outs = {x for x in outs if x[0] == "ok"} or set(outs)
                for o, s2 in outs:
                    a2 = dict(a)
                    if len(dst) == 1:
                        if res: a2[dst[0]] = o
                        else: a2.pop(dst[0], None)
                    work.append((t[4], s2, self.fz(f, a2)))
            else:
                for x in f.succ(b): work.append((x, st, self.fz(f, a)))
        return out
    def fallible(self, ty, n=None):
        h = ty.split("(")[0][:n]
        return "Result<" in h or (self.opt and h.startswith("core::option::Option<"))
    def fz(self, f, a): return frozenset(a.items())
    def lastline(self, f, b):
        return f.line

class Effects:
    """what a function does to the text, restated in terms of its parameters: insertions and deletions with the values
    their position and text are computed from"""
    def __init__(self, E):
        self.E = E; self.F = E.F; self.P = E.D; self.C = Dep(E.F); self.C.content = True
        self.memo = {}; self.prog = set()
        self.readers = {f.id for f in E.fns if f.id not in E.W and f.kind != "closure" and f.locals and
                        re.search(r"alloc::string::String|alloc::borrow::Cow", f.locals[0]) and "Vec" not in f.locals[0] and self.reads(f)}
        self.C = Dep(E.F); self.C.content = True; self.C.sites = self.readers
    def reads(self, f):
        return any(a[0] == "fld" and a[1].endswith(DOC) and a[2] in TEXT for a in self.C.ret(f.id, ()))
    def sub(self, D, g, t, b, at):
        fn, args = D.args_of(t); n = set()
        for a in at:
            if a[0] == "g": a = a[1]
            if a[0] == "p":
                if a[1] < len(args): n |= D.evalarg(g, args[a[1]], b, len(g.blocks[b]["s"]), a[2], set())
            else: n.add(a)
        return n
    def of(self, fid, depth=0):
        """[(kind, {start,end,text}, line)]"""
        if fid in self.memo: return self.memo[fid]
        if fid in self.prog or depth > 8: return []
        self.prog.add(fid)
        f = self.F.fns[fid]; out = []
        for b, t in f.calls(): out += self.at(f, b, t, depth)
        self.prog.discard(fid); self.memo[fid] = out
        return out
    def at(self, f, b, t, depth=0):
        """effects of one call in terms of f's own parameters"""
        fn = t[1].get("fn", ""); i = len(f.blocks[b]["s"]); out = []
        if self.E.prim.get(f.id, {}).get(b) is t:
            last = fn.rsplit("::", 1)[-1]
            if last.startswith("insert"):
                out.append(("ins", {"start": self.P.op(f, t[2][1], b, i), "text": self.C.op(f, t[2][2], b, i)}, t[-1]))
            elif last in ("remove", "drain"):
                r = t[2][1]
                S = lambda n: self.P.op(f, r, b, i, ((n, "core::ops::range::Range"),))
                out.append(("del", {"start": S("start"), "end": S("end")}, t[-1]))
            else: out.append(("other", {}, t[-1]))
            return out
        if fn.startswith("dyn "): return out
        tg = [x for x in self.F.targets(fn) if x in self.E.W and x in self.F.fns]
        if len(tg) > 4: return out
        for x in tg:
            for k, d, l in self.of(x, depth + 1):
                out.append((k, {n: self.sub(self.C if n == "text" else self.P, f, t, b, at) for n, at in d.items()}, t[-1]))
        return out
    def reaches(self, f, a, b):
        seen = set(); st = list(f.succ(a))
        while st:
            x = st.pop()
            if x == b: return True
            if x in seen: continue
            seen.add(x); st += f.succ(x)
        return False
    def near(self, f, b):
        """effects of f's calls that lie on a path to block b"""
        out = []
        for cb, t in f.calls():
            if cb != b and self.reaches(f, cb, b): out += [(cb,) + e for e in self.at(f, cb, t)]
        return out
def is_doc(at): return any(a[0] == "fld" and a[1].endswith(DOC) and a[2] in TEXT for a in at) or any(a[0] == "p" and any(n in TEXT for n, _ in a[2]) for a in at)
def params(at): return {(a[1], tuple(n for n, _ in a[2])) for a in at if a[0] == "p" and not any(n in TEXT for n, _ in a[2])}
def consts(at): return {a[1] for a in at if a[0] == "v" and a[1] not in ("0", 0)} | {a[1] for a in at if a[0] == "s"}
OFF = ("offset", "ass_editor::core::position::Position")
def off_path(F, *names):
    """field path of a byte offset inside a Range or Position field, from the types as declared"""
    pos = next((i for i in F.adts if i.endswith("::Position") and "core::position" in i), "Position")
    rng = next((i for i in F.adts if i.endswith("::Range") and "core::position" in i), "Range")
    return tuple((n, rng) for n in names) + (("offset", pos),)
class Records:
    """an aggregate that describes an edit (history operation, event) against what the function around it does"""
    def __init__(self, E, X, T, climb):
        self.E = E; self.X = X; self.T = T; self.K = climb; self.F = E.F
    def check(self, c, kind, spec):
        """spec: variant -> {field: role}; role in position,start/end range 'range', 'ins' (inserted text), 'del' (removed text)"""
        n = 0; F = self.F; X = self.X
        for f in self.E.fns:
            if f.derived or not f.file.endswith(".rs") or f.name == "clone": continue
            for b, i, s in f.stmts():
                if s[0] != "=" or s[2][0] != "agg" or s[2][1] != "adt": continue
                en, _, v = s[2][2].rpartition("::")
                if not en.endswith("::" + kind) or v not in spec: continue
                n += 1
                eff = X.near(f, b); where = f"{f.file}:{s[-1]} in {f.id}"
                ins = [e for e in eff if e[1] == "ins"]; dl = [e for e in eff if e[1] == "del"]
                for name, role in spec[v].items():
                    if name not in s[2][3]: continue
                    o = s[2][4][s[2][3].index(name)]; key = f"{kind}:{v}.{name}:{f.name}"
                    if role == "position" and len(ins) == 1:
                        r = X.P.op(f, o, b, i, off_path(F)); e = ins[0][2]["start"]
                        c.need(params(r) == params(e) and {x for x in consts(r)} == consts(e), key, f"{v} gives a position computed from other values than the place where the text was inserted", where)
                    if role == "range" and len(dl) == 1:
                        for end in ("start", "end"):
                            r = X.P.op(f, o, b, i, off_path(F, end)); e = dl[0][2][end]
                            c.need(params(r) == params(e) and consts(r) == consts(e), key + "." + end, f"the {end} of the range in {v} is computed from other values than the {end} of the removed text", where)
                    if role == "ins":
                        at = X.C.op(f, o, b, i)
                        if len(ins) == 1:
                            e = ins[0][2]["text"]
                            c.need(params(at) == params(e) and consts(at) == consts(e), key, f"the new text in {v} comes from other values than the text that was inserted", where)
                    if role == "del":
                        self.before(c, f, X.C.op(f, o, b, i), key, v, where, 0)
        return n
    def before(self, c, g, at, key, v, where, depth):
        sites = {a[2] for a in at if a[0] == "site" and a[1] == g.id}
        ps = {a for a in at if a[0] == "p" and not any(n in TEXT for n, _ in a[2])}
        if sites:
            T = self.T; T.probe = {}; T.memo = {}
            T.walk(g, 0); pr = T.probe; T.probe = None; T.memo = {}
            late = [b for b in sites if 1 in pr.get((g.id, b), ())]
            c.need(not late, key, f"the old text in {v} is read after the text was changed", where)
        elif is_doc(at): c.ok()
        elif ps and depth < 3:
            for h, line, (r,) in self.K.up(g, [at]): self.before(c, h, r, key, v, where + f" from {h.id}", depth + 1)
        elif not ps:
            c.bad(key, f"the old text in {v} is not read from the document", where)
