"""C12: everything built in is registered, once, under its own name, and runs."""
import re
from dep import Dep
from common import loc, short
CORE = "ass_core::"
TRAITS = {"ass_core::analysis::linting::rule::LintRule": "id", "ass_core::plugin::traits::TagHandler": "name", "ass_core::plugin::traits::SectionProcessor": "name"}
def istest(p): return "test" in p or "/benches/" in p or "examples/" in p
def boxed(f, tr):
    """types put behind `dyn tr` in a body: [(type, line)]"""
    out = []
    for b, i, s in f.stmts():
        if s[0] == "=" and s[2][0] == "cast" and "Unsize" in s[2][1] and ("dyn " + tr) in s[2][3] and s[2][2][0] in ("cp", "mv"):
            m = re.search(r"Box<(ass_\w+::[\w:]+)", f.locals[s[2][2][1][0]])
            if m: out.append((m[1], s[-1]))
    return out
def flows_to(f, b0, d, pat):
    """calls matching pat that receive the value made in block b0 (through moves, references, loops and iterators)"""
    T = {d}; ch = True; hit = set()
    while ch:
        ch = False
        for b, i, s in f.stmts():
            if s[0] != "=": continue
            rv = s[2]; src = []
            if rv[0] in ("use", "cast", "un"): src = [rv[1] if rv[0] == "use" else rv[2]]
            elif rv[0] == "ref": src = [["cp", rv[2]]]
            elif rv[0] == "agg": src = rv[4]
            if any(o[0] in ("cp", "mv") and o[1][0] in T for o in src) and s[1][0] not in T: T.add(s[1][0]); ch = True
        for b, t in f.calls():
            if any(o[0] in ("cp", "mv") and o[1][0] in T for o in t[2]):
                if pat(t[1]): hit.add(b)
                if t[3][0] not in T: T.add(t[3][0]); ch = True
    return hit
DROP = re.compile(r"Iterator::(skip|take|step_by|take_while|skip_while|filter|filter_map|map_while)$|Vec.*::(truncate|pop|remove|swap_remove|drain|split_off|dedup\w*|retain\w*)$")
def taint(f, d):
    T = {d}; ch = True
    while ch:
        ch = False
        for b, i, s in f.stmts():
            if s[0] != "=": continue
            rv = s[2]
            src = [rv[1]] if rv[0] == "use" else [rv[2]] if rv[0] in ("cast", "un") else [["cp", rv[2]]] if rv[0] == "ref" else [["cp", rv[1]]] if rv[0] == "disc" else rv[4] if rv[0] == "agg" else list(rv[2:4]) if rv[0] == "bin" else []
            if any(isinstance(o, list) and o and o[0] in ("cp", "mv") and o[1][0] in T for o in src) and s[1][0] not in T: T.add(s[1][0]); ch = True
        for b, t in f.calls():
            if any(o[0] in ("cp", "mv") and o[1][0] in T for o in t[2]) and t[3][0] not in T: T.add(t[3][0]); ch = True
    return T
def loops(D, f):
    """(block of next, block entered with an item, blocks of the loop) for each loop over an iterator"""
    for b in f.rpo():
        t = f.blocks[b]["t"]
        if t[0] != "switch" or t[1][0] not in ("cp", "mv"): continue
        for s in f.blocks[b]["s"]:
            if s[0] == "=" and s[1] == t[1][1] and s[2][0] == "disc":
                ds = D.reaching(f, s[2][1][0], b, 99)[0]
                if len(ds) == 1 and ds[0][2] == "call" and ds[0][3][1].get("fn", "").endswith("::next"):
                    some1 = [x for v, x in t[2] if v == "1"] or [t[3]]
                    nb = ds[0][0]
                    fw = reachable(f, some1[0], {nb})
                    body = {x for x in fw if nb in reachable(f, x, set())}
                    if body: yield nb, some1[0], body, ds[0][3]
def reachable(f, a, avoid):
    seen = set(); st = [a]
    while st:
        y = st.pop()
        if y in seen or y in avoid: continue
        seen.add(y); st += f.succ(y)
    return seen
def each(D, f, nb, first, body, targets, okswitch):
    """blocks of the loop that branch between running a target and not, or between going on and leaving, without okswitch"""
    bad = []
    for s in body:
        t = f.blocks[s]["t"]
        if t[0] != "switch": continue
        hits = {}
        for x in f.succ(s):
            r = reachable(f, x, {nb})
            hits[x] = (bool(r & targets), x in body or x == nb, bool(reachable(f, x, targets) & {nb}) )
        # the target can be missed on one side although the other runs it
        if s in targets or not (reachable(f, first, targets) & {s}): miss = False
        else: miss = any(h[2] for h in hits.values()) and any(h[0] and not h[2] for h in hits.values())
        leave = any(h[1] for h in hits.values()) and any(not h[1] for h in hits.values()) and not all(f.blocks[x]["t"][0] == "unreachable" for x, h in hits.items() if not h[1])
        if (miss or leave) and not okswitch(s, t): bad.append((s, miss))
    return bad
def run(c):
    c.rule = ("every built-in implementation of the lint rule, tag handler and section processor traits is put in a factory's list exactly once, all under "
              "distinct constant names; a function that registers several factories registers all of them and every item; the registry stores an item under "
              "its own name and never over another; the linter leaves out no rule or issue except by its configuration, and issues carry their rule's name")
    for F in c.load(("A", "B")):
        D = Dep(F)
        facs = {}
        for tr, nm in TRAITS.items():
            short_tr = tr.rsplit("::", 1)[-1]
            impls = {i["self"].split("<")[0]: i for i in F.impls if i.get("trait") == tr and i["self"].startswith(CORE) and not istest(i["file"])}
            if not impls: continue
            fac = {}
            for f in F.fns.values():
                if f.crate == "ass_core" and f.blocks and not istest(f.file) and re.match(r"alloc::vec::Vec<alloc::boxed::Box<dyn " + tr, f.locals[0]):
                    got = boxed(f, tr)
                    if got: fac[f.id] = got
            facs[tr] = fac
            where = {}
            for fid, got in fac.items():
                seen = set()
                for ty, line in got:
                    c.need(ty not in seen, f"twice:{short_tr}:{ty.split('::')[-1]}", f"{ty.split('::')[-1]} is listed twice by {short(fid)}", loc(F.fns[fid], line)); seen.add(ty)
                    where.setdefault(ty, set()).add(fid)
            for ty, i in impls.items():
                c.need(ty in where or not fac, f"unlisted:{short_tr}:{ty.split('::')[-1]}", f"no list of built-in {short_tr}s contains {ty.split('::')[-1]}", f"{i['file']}:{i['line']}")
            names = {}
            for ty, i in impls.items():
                m = [x for x in i["items"] if x.endswith("::" + nm)]
                at = D.ret(m[0], ()) if m else set()
                s = {a[1] for a in at if a[0] == "s"}
                if len(s) != 1 or len(at) != 1: c.count(f"names not constant in {F.tag}", c.counts.get(f"names not constant in {F.tag}", 0) + 1); continue
                n = next(iter(s))
                c.need(n and n not in names, f"name:{short_tr}:{n}", f"{ty.split('::')[-1]} and {names.get(n, '').split('::')[-1]} share the name “{n}”", f"{i['file']}:{i['line']}")
                names[n] = ty
            c.floor(f"built-in {short_tr}s in {F.tag}", len(impls), 2)
            # functions that register what factories make
            for f in F.fns.values():
                if not f.blocks or istest(f.file) or f.kind == "closure": continue
                calls = [(b, t) for b, t in f.calls() if t[1].get("fn") in fac]
                if not calls or re.match(r"alloc::vec::Vec<alloc::boxed::Box<dyn|alloc::vec::Vec<&|core::option::Option", f.locals[0]): continue
                reg = lambda k: "register_" in k.get("fn", "") or any("register_" in F.fns[x].name or any("register_" in t2[1].get("fn", "") for _, t2 in F.fns[x].calls()) for x in k.get("fa", ()) if x in F.fns)
                regs = [(b, t) for b, t in calls if flows_to(f, b, t[3][0], reg)]
                if not any(reg(t[1]) for _, t in f.calls()): continue
                for b, t in calls:
                    c.need((b, t) in regs, f"dropped:{f.name}:{short(t[1]['fn'])}", f"what {short(t[1]['fn'])} makes is never registered by {short(f.id)}", loc(f, t[-1]))
                    for b2, x in f.calls():
                        if DROP.search(x[1].get("fn", "")) and x[2] and x[2][0][0] in ("cp", "mv") and x[2][0][1][0] in taint(f, t[3][0]):
                            c.bad(f"some:{f.name}:{short(t[1]['fn'])}", f"only some of what {short(t[1]['fn'])} makes is registered by {short(f.id)}", loc(f, x[-1]))
                    T = taint(f, t[3][0])
                    for nb, first, body, nx in loops(D, f):
                        if nx[3][0] not in T: continue
                        tg = {b2 for b2, x in f.calls() if b2 in body and reg(x[1])}
                        if not tg: continue
                        R = set().union(*[taint(f, f.blocks[b2]["t"][3][0]) for b2 in tg])
                        for s, miss in each(D, f, nb, first, body, tg, lambda s, w: w[1][0] in ("cp", "mv") and w[1][1][0] in R):
                            c.bad(f"some:{f.name}:{short(t[1]['fn'])}", f"{short(f.id)} passes over some of what {short(t[1]['fn'])} makes", loc(f, f.blocks[s]["t"][-1] if isinstance(f.blocks[s]["t"][-1], int) else None))
                        c.ok()
                if len({t[1]["fn"] for b, t in calls}) >= 3:
                    for x in fac: c.need(any(t[1]["fn"] == x for b, t in regs), f"unregistered:{f.name}:{short(x)}", f"{short(f.id)} registers the built-in {short_tr}s but not those of {short(x)}", loc(f))
            # built-ins registered one by one
            for f in F.fns.values():
                if f.crate != "ass_editor" or not f.blocks or istest(f.file): continue
                one = {ty for ty, l in boxed(f, tr) if ty in impls}
                if one and "register" in f.name: c.need(one == set(impls), f"unregistered:{f.name}", f"{short(f.id)} registers {', '.join(sorted(x.split('::')[-1] for x in one))} but not {', '.join(sorted(x.split('::')[-1] for x in set(impls) - one))}", loc(f))
        registry(c, F, D); linter(c, F, D, facs.get("ass_core::analysis::linting::rule::LintRule", {}))
def registry(c, F, D):
    n = 0
    for f in F.fns.values():
        if not f.blocks or f.crate != "ass_core" or istest(f.file) or f.kind == "closure" or not f.argc or "ExtensionRegistry" not in f.locals[1]: continue
        for b, t in f.calls():
            fn = t[1].get("fn", ""); i = len(f.blocks[b]["s"])
            if fn.endswith("HashMap::<K, V, S, A>::insert") or re.search(r"(Hash|BTree)Map.*::insert$", fn):
                n += 1
                flds = lambda o: {a[2] for a in D.op(f, o, b, i) if a[0] == "fld" and a[1].endswith("ExtensionRegistry")}
                m = flds(t[2][0]); key = D.op(f, t[2][1], b, i); val = D.op(f, t[2][2], b, i)
                # the names asked of the item inside the body, and which of them reach this insertion as the key
                asked = {x[1]["fn"].rsplit("::", 1)[-1] for b2, x in f.calls() if any(x[1].get("fn", "").startswith(p) for t2 in TRAITS for p in (t2 + "::", "dyn " + t2)) and b in flows_to(f, b2, x[3][0], lambda k: k is t[1])}
                pk = {a[1] for a in key if a[0] == "p"}; pv = {a[1] for a in val if a[0] == "p"}
                c.need(not (asked - {"name"}) and (pk == pv or not pv) and key, f"key:{f.name}", f"{short(f.id)} stores what it is given under something other than its own name", loc(f, t[-1]))
                ctl = D.ctl(f, b, set())
                c.need(any(a[0] == "call" and re.search(r"::(contains_key|get|entry|insert)$", a[1]) for a in ctl) and m <= {a[2] for a in ctl if a[0] == "fld"}, f"overwrite:{f.name}", f"{short(f.id)} can put one item in place of another", loc(f, t[-1]))
            if re.search(r"(Hash|BTree)Map.*::(get|remove|contains_key)$", fn) and f.pub and f.argc >= 2 and "&str" in f.locals[2]:
                n += 1
                k = {a[1] for a in D.op(f, t[2][1], b, i) if a[0] == "p"}
                c.need(k == {1}, f"lookup:{f.name}", f"{short(f.id)} looks up something other than the name it is given", loc(f, t[-1]))
    c.count(f"registry accesses in {F.tag}", n)
def linter(c, F, D, fac):
    n = 0
    for f in F.fns.values():
        if not f.blocks or f.crate != "ass_core" or istest(f.file): continue
        chk = [(b, t) for b, t in f.calls() if t[1].get("fn", "").endswith("LintRule::check_script") or t[1].get("fn", "").startswith("dyn ") and t[1]["fn"].endswith("::check_script")]
        for b, t in chk:
            n += 1
            for s in f.rpo():
                w = f.blocks[s]["t"]
                if w[0] != "switch" or w[1][0] not in ("cp", "mv"): continue
                from c09 import some
                if len({some(f, x, s, b) for x in f.succ(s)}) == 1: continue
                at = D.op(f, w[1], s, len(f.blocks[s]["s"]))
                nxt = any(x[0] == "=" and x[1] == w[1][1] and x[2][0] == "disc" and any(k == "call" and y[1].get("fn", "").endswith("::next") for _, _, k, y in D.reaching(f, x[2][1][0], s, 99)[0]) for x in f.blocks[s]["s"])
                c.need(nxt or any(a[0] == "fld" and a[1].endswith("LintConfig") for a in at), f"skipped:{f.name}", "whether a rule runs depends on something other than the configuration", loc(f, t[-1]))
            c.need(bool(flows_to(f, b, t[3][0], lambda k: re.search(r"::(extend\w*|append|push|chain|collect)$", k.get("fn", "")))), f"lost:{f.name}", "the issues a rule finds are not kept", loc(f, t[-1]))
            keep = flows_to(f, b, t[3][0], lambda k: re.search(r"::(extend\w*|append|push)$", k.get("fn", "")))
            T = taint(f, t[3][0])
            pc = [l for l in range(1, f.argc + 1) if "LintConfig" in f.locals[l]]
            TC = set().union(*[taint(f, l) for l in pc])
            cfg = lambda s, w: (w[1][0] in ("cp", "mv") and w[1][1][0] in TC) if pc else any(a[0] == "fld" and a[1].endswith("LintConfig") for a in D.op(f, w[1], s, len(f.blocks[s]["s"])))
            for nb, first, body, nx in loops(D, f):
                if b not in body or not keep: continue
                for s, miss in each(D, f, nb, b, body, keep, lambda s, w: w[1][0] in ("cp", "mv") and w[1][1][0] in T or cfg(s, w)):
                    c.bad(f"lost:{f.name}", "the issues a rule finds are not always kept" if miss else "the linter stops before every rule has run, for no reason of its configuration", loc(f, t[-1]))
                c.ok()
            for b2, x in f.calls():
                if re.search(r"Iterator::(skip|take|step_by|take_while|skip_while)$|Vec.*::(truncate|pop|remove|swap_remove|drain|split_off|dedup\w*)$", x[1].get("fn", "")):
                    arg = set().union(*[D.op(f, o, b2, len(f.blocks[b2]["s"])) for o in x[2][1:]] or [set()])
                    c.need(any(a[0] == "fld" and a[1].endswith("LintConfig") for a in arg), f"cut:{f.name}", "rules or issues are cut off by something other than the configured limit", loc(f, x[-1]))
                    if x[1]["fn"].endswith("truncate"):
                        lim = lambda o, b3, i3: o[0] in ("cp", "mv") and any(a[0] == "fld" and a[2] == "max_issues" for a in D.op(f, o, b3, i3)) and not any(a[0] == "call" and a[1].endswith("::len") for a in D.op(f, o, b3, i3))
                        zero = lambda o: o[0] == "k" and str(o[1].get("val", "")) == "0"
                        gs = [g for g in f.stmts() if g[2][0] == "=" and g[2][2][0] == "bin"]
                        tested = any(any(zero(o) for o in g[2][2][2:4]) and any(lim(o, g[0], g[1]) for o in g[2][2][2:4]) for g in gs) or any(f.blocks[w]["t"][0] == "switch" and lim(f.blocks[w]["t"][1], w, len(f.blocks[w]["s"])) for w in f.rpo())
                        own = any(x2[1].get("fn", "").startswith("ass_core::analysis::linting::config::LintConfig::") and "max" in x2[1]["fn"] or "NonZero" in x2[1].get("fn", "") for _, x2 in f.calls())
                        c.need(tested or own, f"cut-unlimited:{f.name}", "issues are cut off although no limit is set", loc(f, x[-1]))
    c.floor(f"linters in {F.tag}", n, 1)
    # issues carry the name and category of the rule that made them
    tr = "ass_core::analysis::linting::rule::LintRule"; m = 0
    for i in F.impls:
        if i.get("trait") != tr or istest(i["file"]) or not i["self"].startswith(CORE): continue
        it = {x.rsplit("::", 1)[-1]: x for x in i["items"]}
        if "id" not in it or "check_script" not in it: continue
        own = {a[1] for a in D.ret(it["id"], ()) if a[0] == "s"}; cat = {a[1] for a in D.ret(it["category"], ()) if a[0] in ("s", "v")} if "category" in it else set()
        for x in F.reach([it["check_script"]]):
            g = F.fns.get(x)
            if g is None or not g.blocks or g.crate != "ass_core": continue
            for b, t in g.calls():
                if t[1].get("fn", "").endswith("LintIssue::new"):
                    at = [D.op(g, o, b, len(g.blocks[b]["s"])) for o in t[2]]
                    h = F.fns.get(t[1]["fn"])
                    k = next((j for j in range(1, h.argc + 1) if re.search(r"&.*str$", h.locals[j])), None) if h else None
                    if k is None: continue
                    s = {a[1] for a in at[k - 1] if a[0] == "s"}
                    if s: m += 1; c.need(s == own, f"issue-id:{i['self'].split('::')[-1]}", f"{i['self'].split('::')[-1]} reports issues under “{', '.join(sorted(s))}”", loc(g, t[-1]))
    c.floor(f"issues made in {F.tag}", m, 5)
