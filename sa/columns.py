"""Named columns of style and event lines: who reads, writes, copies and lists which."""
import re
from dep import Dep
from flow import labels, tests
from common import loc, short
EVENT = ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"]
STYLE = ["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut",
         "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding"]
EXTRA = {"E": ["MarginT", "MarginB", "Actor"], "S": ["MarginT", "MarginB", "RelativeTo", "AlphaLevel", "TertiaryColour"]}
def norm(s):
    s = s.replace("_", "").lower().replace("colour", "color")
    return {"actor": "name", "tertiarycolor": "outlinecolor", "fontsizebase": "fontsize"}.get(s, s)
KIND = {"E": (EVENT, {norm(x) for x in EVENT + EXTRA["E"]}), "S": (STYLE, {norm(x) for x in STYLE + EXTRA["S"]})}
DIST = {"E": {"layer", "start", "end", "effect", "text"}, "S": {norm(x) for x in STYLE} - {"name", "marginl", "marginr", "marginv"}}
CI = re.compile(r"eq_ignore_ascii_case|to_ascii_lowercase|to_lowercase|to_ascii_uppercase|to_uppercase")
def structs(F, kind):
    out = {}
    for a in F.adts.values():
        if not a["id"].startswith("ass_") or a.get("enum"): continue
        for vn, fs in a["variants"]:
            n = {norm(x[0]) for x in fs}
            if len(n & DIST[kind]) >= 5: out[a["id"]] = {x[0]: x[1] for x in fs}
    return out
def isgen(f): return "benchmark" in f.file or "/bin/" in f.file or "/benches/" in f.file
def consts(at): return {a[1] for a in at if a[0] == "s"} | {a[1][1] for a in at if a[0] == "g" and a[1][0] == "s"}
class Columns:
    def __init__(self, F, kind):
        self.F = F; self.kind = kind; self.std, self.names = KIND[kind]; self.S = structs(F, kind)
        self.D = Dep(F, control=False); self.D.arrays = True; self.DC = Dep(F, control=True)
        self.fns = [f for f in F.fns.values() if f.id.startswith("ass_") and f.blocks and not isgen(f) and not f.derived]
    def assigns(self):
        """(function, struct, field, operand, block, index, line) for every struct field given a value"""
        for f in self.fns:
            for b, i, s in f.stmts():
                if s[0] != "=": continue
                if s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] in self.S:
                    for nm, o in zip(s[2][3], s[2][4]): yield f, s[2][2], nm, o, b, i, s[-1]
                e = s[1][-1]
                if isinstance(e, list) and e[0] == "f" and e[3] in self.S and s[2][0] == "use": yield f, e[3], e[1], s[2][1], b, i, s[-1]
    def run(self, c):
        D = self.D; nread = ncopy = npos = nund = 0; bypos = {}
        for f, st, nm, o, b, i, line in self.assigns():
            x = norm(nm)
            if x not in self.names: continue
            at = D.op(f, o, b, i)
            cols = {norm(s) for s in consts(at)} & self.names
            calls = {a[1] for a in at if a[0] == "call"} | {a[1][1] for a in at if a[0] == "g" and a[1][0] == "call"}
            search = any(re.search(r"eq_ignore_ascii_case|PartialEq|HashMap|BTreeMap|position$", q) for q in calls)
            if cols and search:
                if x in cols and len(cols) > 3: nund += 1; continue   # everything a document holds flows in
                nread += 1
                c.need(cols == {x}, f"reader:{short(f.id)}:{nm}", f"{nm} of {st.split('::')[-1]} is filled from column {', '.join(sorted(cols))}", loc(f, line))
                c.need(any(CI.search(q) for q in calls), f"case:{short(f.id)}:{nm}", f"the column for {nm} is looked up by a case-sensitive name", loc(f, line))
                continue
            fl = {norm(a[2]) for a in at if a[0] == "fld" and a[1] in self.S} & self.names
            # the struct's own other parts (margin fallbacks, scaling factors) may take part; the field of that name must
            if fl:
                ncopy += 1
                alt = x in ("margint", "marginb") and fl == {"marginv"}
                strange = x.startswith("margin") and {g for g in fl if g.startswith("margin")} - {x, "marginv"}
                c.need((x in fl or alt) and not strange, f"copy:{short(f.id)}:{nm}", f"{nm} of {st.split('::')[-1]} is taken from {', '.join(sorted(fl))}", loc(f, line))
                continue
            k = self.position(f, o, b, i)
            if k is not None:
                npos += 1; bypos.setdefault(f.id, []).append(nm)
                c.need(k < len(self.std) and norm(self.std[k]) == x, f"position:{short(f.id)}:{nm}", f"{nm} of {st.split('::')[-1]} is taken from field {k + 1} of the line", loc(f, line))
                continue
            nund += 1
        c.counts.update({f"columns_read_{self.F.tag}": nread, f"columns_copied_{self.F.tag}": ncopy, f"columns_by_position_{self.F.tag}": npos, f"undecided_{self.F.tag}": nund})
        # a line read entirely by position: the document's Format line must take part
        for x, nms in sorted(bypos.items()):
            f = self.F.fns[x]
            if len(set(nms)) < 5: continue
            given = any(re.search(r"\[&('\w+ )?str\]|Vec<&('\w+ )?str|Vec<.*String>|Script|Section", f.locals[q]) for q in range(1, f.argc + 1))
            c.need(given, f"order:{short(x)}", f"the values of a line are taken by position ({len(set(nms))} columns) without the section's Format line", loc(f))
        self.setters(c); self.guards(c); self.flags(c); self.getters(c)
        if self.kind == "E": self.sides(c)
        nw = self.writers(c); nl = self.lists(c)
        return nread, ncopy, nw, nl
    def conds(self, f, b):
        """columns read by the branches that decide whether block b runs, nearest first"""
        if not hasattr(self, "_cd"): self._cd = {}
        k = (f.id, b)
        if k in self._cd: return self._cd[k]
        out = []; dom = f.dom(); q = b
        while q in dom and dom[q] != q:
            p = dom[q]; t = f.blocks[p]["t"]
            if t[0] == "switch" and t[1][0] in ("cp", "mv"):
                hits = [x for x in f.succ(p) if self.D._reaches(f, x, b, p)]
                fallible = any(z[0] == "=" and z[1] == t[1][1] and z[2][0] == "disc" and re.match(r"core::(ops::control_flow::ControlFlow|result::Result)", str(z[2][2]) if len(z[2]) > 2 else f.locals[z[2][1][0]]) for z in f.blocks[p]["s"])
                if len(hits) < len(f.succ(p)) and not fallible:
                    at = self.D.op(f, t[1], p, len(f.blocks[p]["s"]))
                    if not any(a[0] == "fld" and a[1] in self.S for a in at): at = {a[1] if a[0] == "g" else a for a in self.DC.op(f, t[1], p, len(f.blocks[p]["s"]))}
                    fl = {(a[1], norm(a[2])) for a in at if a[0] == "fld" and a[1] in self.S and norm(a[2]) in self.names}
                    if fl: out.append((fl, p))
            q = p
        self._cd[k] = out
        return out
    def guards(self, c):
        """a column copied under a test of columns: the column itself is among those tested"""
        n = 0
        for f, st, nm, o, b, i, line in self.assigns():
            x = norm(nm)
            if x not in self.names: continue
            src = {(a[1], norm(a[2])) for a in self.D.op(f, o, b, i) if a[0] == "fld" and a[1] in self.S and norm(a[2]) in self.names}
            if {y[1] for y in src} != {x}: continue
            cs = [{y[1] for y in fl} - {"name", "style"} for fl, _ in self.conds(f, b)]
            cs = [y for y in cs if y]
            if not cs: continue
            n += 1
            fam = {x, "marginv"} if x in ("margint", "marginb") else {x}
            c.need(any(y & fam for y in cs), f"guard:{short(f.id)}:{nm}", f"{nm} is copied when {', '.join(sorted(cs[0]))} is set, whatever {nm} itself holds", loc(f, line))
        c.counts[f"guarded_copies_{self.F.tag}"] = n
    def flags(self, c):
        """a flag constant named like a column goes with a test of that column"""
        n = 0
        for f in self.fns:
            for b, bl in enumerate(f.blocks):
                if bl.get("c"): continue
                for s in bl["s"] + [bl["t"]]:
                    if s[0] not in ("=", "call"): continue
                    for o in (ops(s[2]) if s[0] == "=" else s[2]):
                        if o[0] != "k": continue
                        m = re.search(r"TextFormatting(?:>|::\w+)*::([A-Z][A-Z_]+)$", str(o[1].get("def") or o[1].get("item") or o[1].get("const") or ""))
                        if not m or norm(m[1]) not in self.names: continue
                        cs = [{y[1] for y in fl} for fl, _ in self.conds(f, b)]
                        if not cs: continue
                        n += 1
                        c.need(norm(m[1]) in cs[0], f"flag:{short(f.id)}:{m[1]}", f"{m[1]} is switched on the value of {', '.join(sorted(cs[0]))}", loc(f, s[-1]))
        c.counts[f"flags_{self.F.tag}"] = n
    def getters(self, c):
        """a method named like a column returns that column"""
        n = 0
        for f in self.fns:
            own = (f.selfty or "").split("<")[0]
            if f.kind == "closure" or f.argc != 1 or own not in self.S: continue
            m = norm(f.id.split("::")[-1]).removesuffix("cs").removesuffix("time")
            if m not in self.names or m not in {norm(y) for y in self.S[own]}: continue
            fl = {norm(a[2]) for a in self.D.ret(f.id) if a[0] == "fld" and a[1] in self.S} & self.names
            fl |= {norm(a[2][-1][0]) for a in self.D.ret(f.id) if a[0] == "p" and a[2] and a[2][-1][1] in self.S} & self.names
            if not fl: continue
            n += 1
            c.need(m in fl, f"getter:{short(f.id)}", f"{f.id.split('::')[-1]} returns {', '.join(sorted(fl))}", loc(f))
        c.counts[f"getters_{self.F.tag}"] = n
    def sides(self, c):
        """an event's own margin takes the place of the style's margin of the same side"""
        M = {"marginl", "marginr", "marginv"}; ST = set(structs(self.F, "S")); n = 0; D = self.D
        both = ST | set(self.S)
        def of(at, who): return {norm(a[2]) for a in at if a[0] == "fld" and a[1] in who} & M
        for f in self.fns:
            if not any(isinstance(e, list) and e[0] == "f" and e[3] in self.S and norm(e[1]) in M for bl in f.blocks for s in bl["s"] if s[0] == "=" for pl in ([s[2][2]] if s[2][0] == "ref" else [s[2][1][1]] if s[2][0] == "use" and s[2][1][0] in ("cp", "mv") else []) for e in pl[1:]): continue
            for b, t in f.calls():
                if len(t[2]) < 2: continue
                at = [D.op(f, o, b, len(f.blocks[b]["s"])) for o in t[2]]
                for k, a in enumerate(at):
                    ev = of(a, self.S)
                    if len(ev) != 1 or of(a, ST): continue
                    for j, q in enumerate(at):
                        sv = of(q, ST)
                        if j == k or len(sv) != 1 or of(q, self.S): continue
                        n += 1
                        c.need(ev == sv, f"side:{short(f.id)}:{'.'.join(sorted(ev))}", f"the event's {next(iter(ev))} is paired with the style's {next(iter(sv))}", loc(f, t[-1]))
            defs = {}
            for b, i, s in f.stmts():
                if s[0] == "=" and len(s[1]) == 1 and s[2][0] == "use": defs.setdefault(s[1][0], []).append((b, i, s))
            for b, t in f.calls():
                if len(t[3]) == 1: defs.setdefault(t[3][0], []).append((b, None, t))
            for l, ds in defs.items():
                if len({d[0] for d in ds}) < 2 or not re.fullmatch(r"[fiu]\d+", f.locals[l]): continue
                test = None
                for b, i, s in ds:
                    cs = [({y[1] for y in fl if y[0] in self.S} & M, p) for fl, p in self.conds(f, b)]
                    cs = [y for y in cs if y[0]]
                    test = (test or set()) | (cs[0][0] if cs else set())
                if not test or len(test) != 1: continue
                sd = set()
                for b, i, s in ds: sd |= of(D.op(f, s[2][1], b, i) if i is not None else D.call(f, s, b, len(f.blocks[b]["s"]), (), set()), both)
                if not sd: continue
                n += 1
                c.need(sd == test, f"side:{short(f.id)}:{'.'.join(sorted(test))}", f"whether the event's {next(iter(test))} is set decides about {', '.join(sorted(sd))}", loc(f, ds[0][2][-1]))
        c.counts[f"sides_{self.F.tag}"] = n
    def setters(self, c):
        """a method named like a column sets that column"""
        n = 0
        for f in self.fns:
            m = norm(f.id.split("::")[-1]).removeprefix("set") if f.kind != "closure" else ""
            own = (f.selfty or "").split("<")[0]
            if m not in self.names or f.argc < 2 or not re.search(r"Builder|Command|Edit|Ops|Fluent", own): continue
            got = {}
            for b, i, s in f.stmts():
                if s[0] != "=": continue
                e = s[1][-1]
                if isinstance(e, list) and e[0] == "f" and e[3].split("<")[0] == own and norm(e[1]) in self.names and not (s[2][0] == "use" and s[2][1][0] in ("cp", "mv") and s[2][1][1][-1:] == [e]): got.setdefault(norm(e[1]), s[-1])
            for b, t in f.calls():
                if not re.search(r"::(insert|push|set_field)$", t[1].get("fn", "")): continue
                for o in t[2][1:]:
                    for k in consts(self.D.op(f, o, b, len(f.blocks[b]["s"]))):
                        if norm(k) in self.names: got.setdefault(norm(k), t[-1])
            if not got: continue
            n += 1
            for g, line in got.items():
                if g != m and m not in got: c.bad(f"setter:{short(f.id)}", f"{f.id.split('::')[-1]} sets {g}", loc(f, line)); break
            else: c.ok(f"{short(f.id)} sets its column")
        c.counts[f"setters_{self.F.tag}"] = n
    def position(self, f, o, b, i, depth=0):
        """k when the operand is (a trimmed) element k of a vector"""
        if o[0] not in ("cp", "mv") or depth > 12: return None
        pl = o[1]
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == "ci": return e[1] if len(e) < 4 or not e[3] else None
            if isinstance(e, list) and e[0] == "f": return None
        ds, _ = self.D.reaching(f, pl[0], b, i)
        if len(ds) != 1: return None
        db, di, k, s = ds[0]
        if k == "=":
            if s[2][0] == "use": return self.position(f, s[2][1], db, di, depth + 1)
            if s[2][0] == "ref": return self.position(f, ["cp", s[2][2]], db, di, depth + 1)
            if s[2][0] == "cast": return self.position(f, s[2][2], db, di, depth + 1)
            return None
        fn = s[1].get("fn", "")
        if re.search(r"::index$|::get$", fn) and len(s[2]) == 2 and "Vec" in (f.locals[s[2][0][1][0]] if s[2][0][0] in ("cp", "mv") else ""):
            at = self.D.op(f, s[2][1], db, len(f.blocks[db]["s"]))
            v = [a for a in at if a[0] == "v"]
            if len(at) == 1 and v: return int(str(v[0][1]).split("_")[0])
            return None
        if re.search(r"::(trim|to_string|to_owned|into|from|clone|deref|as_str|trim_start|trim_end|as_ref)$", fn) and s[2]: return self.position(f, s[2][0], db, len(f.blocks[db]["s"]), depth + 1)
        return None
    def reads(self, f):
        """(struct, field, block, line) for each column field read"""
        for b, i, s in f.stmts():
            if s[0] != "=": continue
            rv = s[2]
            pls = [rv[1][1]] if rv[0] == "use" and rv[1][0] in ("cp", "mv") else [rv[2]] if rv[0] == "ref" else [rv[1]] if rv[0] == "disc" else []
            for pl in pls:
                for e in pl[1:]:
                    if isinstance(e, list) and e[0] == "f" and e[3] in self.S: yield e[3], e[1], b, s[-1]
    def writers(self, c):
        n = 0; D = self.D; F = self.F
        for f in self.fns:
            rd = list(self.reads(f))
            if len({x[1] for x in rd}) < 5: continue
            ts = tests(F, D, f)
            named = [t for t in ts.values() if t[0] != "variant" and norm(t[1]) in self.names]
            if len(named) >= 5:
                L = labels(F, D, f, ts); got = {}
                for st, nm, b, line in rd:
                    ls = {l[1] for l in L[b] if l and l[0] != "variant" and norm(l[1]) in self.names}
                    if ls and None not in L[b]:
                        n += 1
                        c.need({norm(x) for x in ls} == {norm(nm)}, f"writer:{short(f.id)}:{nm}", f"{nm} is written under column {', '.join(sorted(ls))}", loc(f, line))
                for b, (k, s, pos, call, cb) in ts.items():
                    if k == "variant" or norm(s) not in self.names: continue
                    ci = k == "eq_ignore_ascii_case" or (s == s.lower() and any(a[0] == "call" and CI.search(a[1]) for o in call[2] for a in D.op(f, o, cb, len(f.blocks[cb]["s"]))))
                    if not ci: got.setdefault("cs", []).append(s)
                c.need(not got.get("cs"), f"writer-case:{short(f.id)}", f"columns {', '.join(sorted(got.get('cs', []))[:4])}… are matched case-sensitively, unlike when parsing", loc(f))
            # whole rows: an array (of values or format arguments) with one column field per element
            for b, i, s in f.stmts():
                if s[0] != "=" or s[2][0] != "agg" or s[2][1] != "array" or len(s[2][4]) < 8: continue
                if f.locals[0] == "bool": continue
                row = []
                for o in s[2][4]:
                    fl = {norm(a[2]) for a in D.op(f, o, b, i) if a[0] == "fld" and a[1] in self.S} & self.names
                    row.append(next(iter(fl)) if len(fl) == 1 else None)
                self.row(c, f, row, s[-1], "row"); n += 1
        return n
    def row(self, c, f, row, line, what):
        got = [x for x in row if x]
        if len(got) < 8: return
        std = [norm(x) for x in self.std]
        it = iter(std)
        c.need(all(x in it for x in got), f"{what}:{short(f.id)}", f"columns are written in the order {', '.join(got)}", loc(f, line))
    def lists(self, c):
        """constant column lists: default formats and Format lines"""
        n = 0; std = [norm(x) for x in self.std]
        def one(f, cols, line, what):
            nonlocal n
            g = [norm(x.strip()) for x in cols]
            if len(set(g) & DIST[self.kind]) < 4: return
            n += 1
            base = [x for x in g if x in std]
            c.need(base == std and all(x in self.names for x in g), f"{what}:{short(f.id)}", f"column list {', '.join(cols)[:120]} is not the standard order", loc(f, line))
        for f in self.fns:
            for bl in [f.blocks] + [p.get("blocks", []) for p in f.promoted]:
                for blk in bl:
                    for s in blk["s"]:
                        if s[0] != "=": continue
                        if s[2][0] == "agg" and s[2][1] == "array" and len(s[2][4]) >= 5:
                            v = [o[1].get("str") if o[0] == "k" else None for o in s[2][4]]
                            if all(v): one(f, v, s[-1], "default")
                        for o in ops(s[2]): self.fmt(f, o, one, s[-1])
                    if blk["t"][0] == "call":
                        for o in blk["t"][2]: self.fmt(f, o, one, blk["t"][-1])
        return n
    def fmt(self, f, o, one, line):
        if o[0] == "k" and isinstance(o[1].get("str"), str):
            for l in o[1]["str"].split("\n"):
                m = re.match(r"\s*Format:(.*)", l)
                if m and m[1].count(",") >= 5: one(f, m[1].split(","), line, "format-line")
def ops(rv):
    k = rv[0]
    if k == "use": return [rv[1]]
    if k == "agg": return rv[4]
    if k == "cast": return [rv[2]]
    return []
