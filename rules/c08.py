"""C08: everything that recognises section headers recognises the same ones, each as the same kind of section."""
import re
from dep import Dep
from flow import enum_names, tests, labels, EQ
from common import loc, short
NAMES = {"ScriptInfo": {"Script Info"}, "Styles": {"V4+ Styles", "V4 Styles", "V4++ Styles"}, "Events": {"Events"}, "Fonts": {"Fonts"}, "Graphics": {"Graphics"}}
KIND = {n: k for k, v in NAMES.items() for n in v}
ENUMS = ("ass_core::parser::ast::section::section_type::SectionType", "ass_core::parser::streaming::state::section_kind::SectionKind",
         "ass_core::parser::ast::section::section_enum::Section")
def key(s): return s.strip().strip("[]").strip()
def unit(f, blocks, o):
    """variant name of an operand holding a unit variant of one of the section enums"""
    if o[0] == "k":
        return None
    l = o[1][0]
    vs = {s[2][2].split("::")[-1] for bl in blocks for s in bl["s"] if s[0] == "=" and s[1] == [l] and s[2][0] == "agg" and s[2][1] == "adt"}
    return vs.pop() if len(vs) == 1 else None
def string(f, blocks, o):
    if o[0] == "k": return o[1].get("str") if isinstance(o[1].get("str"), str) else None
    if len(o[1]) != 1: return None
    ds = [s[2] for bl in blocks for s in bl["s"] if s[0] == "=" and s[1] == [o[1][0]]]
    if len(ds) != 1 or len([1 for bl in blocks if bl["t"][0] == "call" and bl["t"][3] == [o[1][0]]]): return None
    rv = ds[0]
    if rv[0] == "use": return string(f, blocks, rv[1])
    if rv[0] == "ref" and all(e == "*" for e in rv[2][1:]): return string(f, blocks, ["cp", [rv[2][0]]])
    return None
def run(c):
    c.rule = ("a section kind is chosen only under a test for one of its own headers and a header is produced only for its own kind; "
              "each dispatcher, lookup table and header list that knows a kind of section knows every header of that kind; the "
              "parser called for a header builds that kind of section")
    for F in c.load(("A", "B")):
        D = Dep(F, control=False); D.arrays = True
        fns = [f for f in F.fns.values() if f.crate in ("ass_core", "ass_editor") and f.blocks and "benchmark" not in f.file and "/bin/" not in f.file]
        n = sum(enum_names(F, D, fns, e, NAMES, c, "header", key) for e in ENUMS)
        disp = tabs = 0
        builds = {}
        def sections(fid):
            if fid not in builds:
                builds[fid] = set()
                for x in F.reach([fid]):
                    g = F.fns.get(x)
                    if g is None: continue
                    for b, i, s in g.stmts():
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2].startswith(ENUMS[2] + "::"): builds[fid].add(s[2][2].split("::")[-1])
            return builds[fid]
        for f in fns:
            ts = tests(F, D, f)
            eqs = {key(t[1]): t for t in ts.values() if t[0] in ("eq", "eq_ignore_ascii_case") and key(t[1]) in KIND}
            kinds = {KIND[k] for k in eqs}
            if len(kinds) >= 3:
                disp += 1
                for k in sorted(kinds):
                    miss = NAMES[k] - set(eqs)
                    c.need(not miss, f"headers:{short(f.id)}:{k}", f"the header{'s' if len(miss) > 1 else ''} {', '.join(sorted(miss))} of {k} sections {'are' if len(miss) > 1 else 'is'} not recognised", loc(f))
                L = labels(F, D, f, ts)
                for b, t in f.calls():
                    g = t[1].get("fn", "")
                    if g not in F.fns or None in L[b]: continue
                    ks = {KIND[key(l[1])] for l in L[b] if l and l[0] != "variant" and key(l[1]) in KIND}
                    bs = sections(g)
                    if len(bs) == 1 and ks:
                        n += 1
                        c.need(ks == bs, f"dispatch:{short(f.id)}:{','.join(sorted(ks))}", f"{short(g)}, which builds {', '.join(bs)} sections, is called for {', '.join(sorted(ks))} headers", loc(f, t[-1]))
            for blocks in [f.blocks] + [p.get("blocks", []) for p in f.promoted]:
                rows = []; row = []
                for bl in blocks:
                    for s in bl["s"]:
                        if s[0] != "=" or s[2][0] != "agg": continue
                        o = s[2][4]
                        if s[2][1] == "tuple" and len(o) == 2 and key(str(string(f, blocks, o[0]))) in KIND:
                            v = unit(f, blocks, o[1]); h = key(string(f, blocks, o[0]))
                            if v in NAMES: rows.append(h); c.need(h in NAMES[v], f"table:{short(f.id)}:{h}", f"the table maps {h} to {v}", loc(f, s[-1]))
                        if s[2][1] == "array" and len(o) >= 3:
                            hs = [key(str(string(f, blocks, x))) for x in o]
                            if sum(h in KIND for h in hs) >= 3 and sum(h in KIND for h in hs) == len(hs): row.append((hs, s[-1]))
                if len({KIND[h] for h in rows}) >= 3: row.append((rows, f.line))
                for hs, line in row:
                    tabs += 1
                    for k in sorted({KIND[h] for h in hs if h in KIND}):
                        miss = NAMES[k] - set(hs)
                        c.need(not miss, f"list:{short(f.id)}:{k}", f"a header list leaves out {', '.join(sorted(miss))}", loc(f, line))
        spellings(c, F, D, fns)
        c.floor(f"header associations in {F.tag}", n, 8); c.floor(f"header dispatchers in {F.tag}", disp, 2); c.count(f"header lists in {F.tag}", tabs)
SEARCH = re.compile(r"(<impl str>|str)::(find|rfind|contains|starts_with|ends_with|strip_prefix|matches|match_indices|rmatch_indices|split_once|rsplit_once)$|" + EQ.pattern)
def spellings(c, F, D, fns):
    """whoever looks for one spelling of the styles header in a text looks for all of them"""
    def root(f):
        while f.parent and f.parent in F.fns: f = F.fns[f.parent]
        return f
    def patterns(f, t):
        n = t[1].get("fn", "")
        if SEARCH.search(n) and len(t[2]) == 2: return [t[2][1]] if "PartialEq" not in n and not n.endswith("eq_ignore_ascii_case") else list(t[2])
        return [t[2][i] for g in F.targets(n) for i in pp.get(g, ()) if i < len(t[2])]
    pp = {}
    for _ in range(2):
        for f in fns:
            if f.kind == "closure": continue
            for b, t in f.calls():
                for o in patterns(f, t):
                    for a in D.op(f, o, b, len(f.blocks[b]["s"])):
                        if a[0] == "p" and a[1] < f.argc and f.locals[a[1] + 1] in ("&str", "&'_ str") or a[0] == "p" and a[1] < f.argc and re.fullmatch(r"&('\w+ )?(str|\[&('\w+ )?str\])", f.locals[a[1] + 1]): pp.setdefault(f.id, set()).add(a[1])
    got = {}
    for f in fns:
        for b, t in f.calls():
            for o in patterns(f, t):
                for a in D.op(f, o, b, len(f.blocks[b]["s"])):
                    if a[0] == "s" and key(a[1]) in NAMES["Styles"]: got.setdefault(root(f).id, {}).setdefault(key(a[1]), (f, t[-1]))
    for r, hs in sorted(got.items()):
        miss = NAMES["Styles"] - set(hs)
        f, line = sorted(hs.values(), key=lambda x: x[1])[0]
        c.need(not miss, f"spelling:{short(r)}", f"looks for {', '.join(sorted(hs))} but not for {', '.join(sorted(miss))}: the same section under another spelling of its header is passed over", loc(f, line))
    c.count(f"functions searching for a styles header in {F.tag}", len(got))
