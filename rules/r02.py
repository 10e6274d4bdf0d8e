"""R02: what one render leaves behind never shows in the next one."""
import re
from state import State
from dep import Dep
from climb import Climb
from memo import Memos
from common import loc, short
MAPTY = re.compile(r"^(std::collections::hash::map::HashMap|alloc::collections::btree::map::BTreeMap|ahash::hash_map::AHashMap|hashbrown::map::HashMap)<")
def history(F, S, entries):
    """fields of the receiver an entry point may read before overwriting them and that some entry point writes"""
    W = {}; H = {}
    for e in entries:
        for (pi, p), l in S.sum(e)["mw"].items():
            if pi == 1: W.setdefault(p, (e, l))
    for e in entries:
        for (pi, p), l in S.sum(e)["ue"].items():
            if pi != 1: continue
            for w in W:
                m = min(len(w), len(p))
                if w[:m] == p[:m]: H.setdefault(w, []).append((p, e, l))
    return W, H
def field_types(F):
    out = {}
    for a in F.adts.values():
        if a["id"].startswith("ass_renderer"):
            for vn, fs in a["variants"]:
                for x in fs: out.setdefault(x[0], set()).add((a["id"], x[1]))
    return out
def guards(F, D, f, b):
    """branches between entry and block b that can skip b: (block, atoms)"""
    out = []; dom = f.dom(); c = b
    while c in dom and dom[c] != c:
        p = dom[c]; t = f.blocks[p]["t"]
        if t[0] == "switch":
            hits = [x for x in f.succ(p) if D._reaches(f, x, b, p)]
            if len(hits) < len(f.succ(p)): out.append((p, D.op(f, t[1], p, len(f.blocks[p]["s"]))))
        c = p
    return out
def direct_writes(F, S, reach, name):
    """(function, block, line) writing a field of this name itself (not through a workspace callee)"""
    for x in reach:
        f = F.fns.get(x)
        if f is None or not f.blocks: continue
        s = S.sum(x)
        if not any(p and p[-1] == name for (_, p) in s["mw"]): continue
        roots = s["roots"]
        for b in f.rpo():
            for kind, q, line in s["ev"][b]:
                if kind in ("w", "k") and q[1] and q[1][-1] == name:
                    t = f.blocks[b]["t"]
                    if t[0] == "call" and line == t[-1] and S.tgts(t) and not any(st[0] == "=" and len(st[1]) > 1 and st[-1] == line for st in f.blocks[b]["s"]): continue
                    yield f, b, line
def entries_of(F): return sorted(x for x in F.fns if re.match(r"ass_renderer::renderer::Renderer::render_frame\w*$", x))
def run(c):
    c.rule = ("for every frame operation of the renderer: a field of the renderer, its pipeline, backend or event selector that "
              "some frame operation writes is overwritten on every path before the operation reads it, or it is a map used as "
              "memo table (decided by R03), or it is rebuilt/reused only under a comparison of a stored key with the current "
              "arguments, or a counter that only feeds itself, or it reaches nothing but the reported activation changes")
    for F in c.load(("A", "B")):
        S = State(F); D = Dep(F); ents = entries_of(F)
        W, H = history(F, S, ents)
        reach = [x for x in F.reach(ents) if x in F.fns]
        types = field_types(F); memos = memo_fields(F, W, H, reach, types)
        c.counts[f"fields_written_{F.tag}"] = len(W); c.counts[f"fields_carried_{F.tag}"] = len(H)
        c.floor(f"frame operations in {F.tag}", len(ents), 3)
        c.floor(f"per-frame fields in {F.tag}", len(W), 15)
        for w in W:
            if w not in H: c.ok(f"{'.'.join(w)} is overwritten before it is read")
        for w, uses in sorted(H.items()):
            name = w[-1]; tys = types.get(name, set())
            key = "carried:" + ".".join(w)
            e, l = uses[0][1], uses[0][2]
            # memo table
            if name in memos:
                c.ok(f"{'.'.join(w)} is a memo table"); continue
            if counter_only(F, reach, name, {o for o, t in tys if t in ("usize", "u64", "u32")}):
                c.ok(f"{'.'.join(w)} is a counter that only feeds itself"); continue
            if w[0] == "event_selector" and selection_only(F, D, name):
                c.ok(f"{'.'.join(w)} reaches only the reported activation changes"); continue
            why = guarded(F, S, D, reach, ents, w, name, H)
            if why is None: c.ok(f"{'.'.join(w)} is reused only under a comparison with the current arguments")
            else: c.bad(key, f"{'.'.join(w)} carries state from an earlier frame into this one: {why}", f"{F.fns[e].file}:{l} in {e}")
def memo_fields(F, W, H, reach, types):
    """map fields carried across operations whose every insertion has a value determined by its key"""
    owners = {o for w in W for o, t in types.get(w[-1], ())}
    mf = {w[-1] for w in H if types.get(w[-1]) and all(MAPTY.match(t) for _, t in types[w[-1]])}
    D = Dep(F, control=True); ids = set(reach); M = Memos(F, D, Climb(F, D, ids), ids, owners); bad = set()
    for f, b, t, cn in M.sites(sorted(ids), mf):
        if cn in mf and M.verdict(f, b, t, mf): bad.add(cn)
    return mf - bad
def counter_only(F, reach, name, owners):
    if not owners: return False
    seen = 0
    for x in reach:
        f = F.fns[x]
        for b, i, s in f.stmts():
            if s[0] != "=": continue
            rd = [pl for pl in places(s[2]) if any(isinstance(e, list) and e[0] == "f" and e[1] == name and e[3] in owners for e in pl[1:])]
            for pl in rd:
                seen += 1
                if s[2][0] == "bin" and s[2][1].startswith("Add"): continue
                if s[2][0] == "use" and len(s[1]) == 1: 
                    # temp feeding an addition
                    tmp = s[1][0]
                    if any(s2[0] == "=" and s2[2][0] == "bin" and s2[2][1].startswith("Add") and any(o[0] in ("cp", "mv") and o[1][0] == tmp for o in s2[2][2:4]) for _, _, s2 in f.stmts()): continue
                return False
    return True
def places(rv):
    k = rv[0]
    if k in ("ref",): return [rv[2]]
    if k in ("raw", "disc"): return [rv[1]]
    ops = {"use": [1], "cast": [2], "bin": [2, 3], "un": [2], "repeat": [1]}.get(k, [])
    out = [rv[j][1] for j in ops if rv[j][0] in ("cp", "mv")]
    if k == "agg": out += [o[1] for o in rv[4] if o[0] in ("cp", "mv")]
    return out
def selection_only(F, D, name):
    g = "ass_renderer::renderer::event_selector::EventSelector::select_active"
    if g not in F.fns: return False
    ty = "ass_renderer::renderer::event_selector::ActiveEvents"
    at = D.ret(g, (("0", "core::result::Result::Ok"), ("events", ty)))
    return bool(at) and not any(a[0] == "fld" and a[2] == name for a in at) and not any(a[0] == "p" and a[1] == 0 and any(q[0] == name for q in a[2]) for a in at)
def guarded(F, S, D, reach, ents, w, name, H):
    """None when every write of the field, or every read outside the key comparison, is under a test of stored key vs arguments"""
    keynames = {name} | {p[-1] for h, us in H.items() for (p, _, _) in us if h == w and p}
    ws = list(direct_writes(F, S, reach, name))
    mates = set()
    for f, b, l in ws:
        for h in H:
            if h != w and h[:-1] == w[:-1] and any(ff.id == f.id for ff, _, _ in direct_writes(F, S, reach, h[-1])): mates.add(h[-1])
    keynames |= mates
    # fields of the stored value's own type take part in the comparison (key objects with a matches method)
    for a in F.adts.values():
        if a["id"].startswith("ass_renderer"):
            for vn, fs in a["variants"]:
                for x in fs:
                    if x[0] == name:
                        for t in re.findall(r"ass_renderer::[\w:]+", x[1]):
                            b_ = F.adts.get(t)
                            if b_: keynames |= {y[0] for _, ff in b_["variants"] for y in ff}
    def test(atoms, argc):
        k = any(a[0] == "fld" and a[2] in keynames for a in atoms) or any(a[0] == "p" and a[1] == 0 and a[2] and a[2][-1][0] in keynames for a in atoms)
        v = any(a[0] == "p" and a[1] > 0 for a in atoms)
        return k and v
    bad = None
    for f, b, l in ws:
        if not any(test(at, f.argc) for _, at in guards(F, D, f, b)):
            bad = f"written unconditionally at {f.file}:{l} in {short(f.id)}"; break
    if ws and bad is None: return None
    # reads
    rbad = None
    for (p, e, l) in H[w]:
        f = F.fns[e]
        s = S.sum(e)
        for b in f.rpo():
            for kind, q, line in s["ev"][b]:
                if kind == "r" and line == l and q[1] == p:
                    t = f.blocks[b]["t"]
                    gs = guards(F, D, f, b)
                    if any(test(at, f.argc) for _, at in gs): continue
                    if t[0] == "call" and line == t[-1]:
                        at = set()
                        for a in t[2]: at |= D.op(f, a, b, len(f.blocks[b]["s"]))
                        n = t[4]
                        if test(at, f.argc) and f.locals[t[3][0]] == "bool": continue   # the comparison itself
                    rbad = f"read at {f.file}:{line} without comparing its key to the arguments"
    return rbad if rbad else (None if H[w] else bad)
