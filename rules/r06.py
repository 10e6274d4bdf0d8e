"""R06: a frame is reused only while nothing it was made from has changed."""
import re
from assume import Assume
from dep import Dep
from common import short
MOVING = ("t(", "t (", "move(", "fad(", "fade(", "fad10", "k10", "K10", "kf10", "ko10")
FRAME = "ass_renderer::renderer::frame::Frame"
def framey(ty): return FRAME in ty
def isframe(ty): return re.sub(r"'\w+ ?|&|mut ", "", ty).strip() == FRAME
def entries_of(F): return sorted(x for x, f in F.fns.items() if re.match(r"ass_renderer::renderer::Renderer::\w+$", x) and f.pub and f.sig and framey(f.sig.rsplit("->", 1)[-1]))
def makes(F):
    """functions that may render the active events anew"""
    roots = {x for x in F.fns if re.search(r"::process_events$", x)}
    out = set()
    for x in F.fns:
        if x.startswith("ass_renderer") and roots & set(F.reach([x])): out.add(x)
    return out | roots
def fresh_blocks(F, f, mk):
    out = set()
    for b, t in f.calls():
        if any(x in mk or x.endswith("::process_events") for x in F.targets(t[1].get("fn", ""))): out.add(b)
    return out
def before(f, stop):
    """blocks reachable without passing one of stop"""
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if b not in stop: st.extend(f.succ(b))
    return seen
def reuse_sites(F, f, mk, helpers):
    """calls that hand out an earlier frame before anything was rendered: (block, line, kind)"""
    pre = before(f, fresh_blocks(F, f, mk)); out = []
    for b, t in f.calls():
        if b not in pre or len(t[3]) != 1: continue
        n = t[1].get("fn", ""); dt = f.locals[t[3][0]]
        if any(x in helpers for x in F.targets(n)): out.append((b, t[-1], "helper", n)); continue
        if isframe(dt) and t[2] and t[2][0][0] in ("cp", "mv") and len(t[2][0][1]) == 1 and f.locals[t[2][0][1][0]].startswith("&") and isframe(f.locals[t[2][0][1][0]]): out.append((b, t[-1], "copy", n))
    return out
def guards(F, D, f, b):
    out = []; dom = f.dom(); c = b
    while c in dom and dom[c] != c:
        p = dom[c]; t = f.blocks[p]["t"]
        if t[0] == "switch":
            hits = [x for x in f.succ(p) if D._reaches(f, x, b, p)]
            if len(hits) < len(f.succ(p)): out.append(p)
        c = p
    return out
def slice_calls(F, D, A, f, b):
    """calls whose results the branch at the end of b looks at (locally), with the fields read on the way"""
    from assume import places
    t = f.blocks[b]["t"]; calls = []; fields = set(); seen = set()
    st = [t[1][1]] if t[1][0] in ("cp", "mv") else []
    while st:
        pl = st.pop()
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == "f": fields.add((e[3], e[1]))
        l = pl[0]
        if l in seen or 1 <= l <= f.argc: continue
        seen.add(l)
        for bb, bl in enumerate(f.blocks):
            if bl.get("c"): continue
            for s in bl["s"]:
                if s[0] == "=" and s[1][0] == l: st.extend(places(s[2]))
            tt = bl["t"]
            if tt[0] == "call" and (tt[3][0] == l or any(o[0] in ("cp", "mv") and len(o[1]) == 1 and f.locals[o[1][0]].startswith("&mut") and refs_to(f, o[1][0]) == l for o in tt[2])):
                calls.append((bb, tt)); st.extend(o[1] for o in tt[2] if o[0] in ("cp", "mv"))
    return calls, fields, seen
def refs_to(f, r):
    for bl in f.blocks:
        for s in bl["s"]:
            if s[0] == "=" and s[1] == [r] and s[2][0] == "ref" and len(s[2][2]) == 1: return s[2][2][0]
    return None
AST = re.compile(r"ass_core::parser::ast::")
def ast_reads(F, roots):
    """fields of the parsed script read by these functions: (type, field) -> one reader"""
    from assume import places
    out = {}
    for x in F.reach(roots):
        f = F.fns.get(x)
        if f is None or f.derived or f.crate not in ("ass_core", "ass_renderer"): continue
        if f.trait and re.search(r"::(Debug|Clone|PartialEq|Eq|Hash|Serialize|Deserialize|Display|Default|PartialOrd|Ord)$", f.trait): continue
        for bl in f.blocks:
            if bl.get("c"): continue
            pls = []
            for s in bl["s"]:
                if s[0] == "=": pls += places(s[2])
            t = bl["t"]
            if t[0] == "call": pls += [o[1] for o in t[2] if o[0] in ("cp", "mv")]
            if t[0] == "switch" and t[1][0] in ("cp", "mv"): pls.append(t[1][1])
            for pl in pls:
                for e in pl[1:]:
                    if isinstance(e, list) and e[0] == "f" and AST.match(e[3]) and not re.fullmatch(r"\d+", e[1]):
                        out.setdefault((e[3].split("<")[0], e[1]), x)
    return out
def run(c):
    c.rule = ("every place where a frame operation hands out a frame rendered earlier (before rendering anything) is unreachable when an "
              "active event carries a tag that moves with time (evaluated over the branch conditions for each of \\t, \\move, \\fad, "
              "\\fade, \\k, \\K, \\kf, \\ko); the key a stored frame is compared by and the key it is stored under read every "
              "field of the script that rendering reads; a frame given by the caller is handed back only after looking at the "
              "events that were showing in it, and a backend that redraws over its pixels clears them first")
    for F in c.load(("A", "B")):
        D = Dep(F); mk = makes(F); ents = entries_of(F)
        c.floor(f"frame operations in {F.tag}", len(ents), 2)
        # helpers that only look frames up
        helpers = {}
        for x, f in F.fns.items():
            if x.startswith("ass_renderer::renderer::") and f.blocks and f.kind != "closure" and x not in ents and x not in mk and f.sig and framey(f.sig.rsplit("->", 1)[-1]) and not x.startswith(FRAME):
                if reuse_sites(F, f, mk, ()): helpers[x] = f
        sites = 0
        for e in ents:
            f = F.fns[e]
            rs = reuse_sites(F, f, mk, helpers)
            for b, line, kind, n in rs:
                sites += 1; c.counts[f"reuses_{F.tag}"] = sites
                where = f"{f.file}:{line} in {e}"
                moving(c, F, D, f, b, where, e)
                gs = guards(F, D, f, b)
                if kind == "copy" and from_param(f, f.blocks[b]["t"]): shown(c, F, D, f, b, gs, where, e)
                else: keyed(c, F, D, f, b, gs, where, e, mk, helpers.get(n))
        ghosts(c, F, D)
def from_param(f, t):
    """the frame handed out is one the caller gave"""
    l = t[2][0][1][0]; seen = set()
    while l not in seen:
        seen.add(l)
        if 1 <= l <= f.argc: return isframe(f.locals[l])
        for bl in f.blocks:
            for s in bl["s"]:
                if s[0] == "=" and s[1] == [l] and s[2][0] in ("use", "ref"):
                    pl = s[2][2] if s[2][0] == "ref" else s[2][1][1] if s[2][1][0] in ("cp", "mv") else None
                    if pl and all(x == "*" for x in pl[1:]): l = pl[0]
    return False
def moving(c, F, D, f, b, where, e):
    bad = []
    for tag in MOVING:
        A = Assume(F, D, tag)
        cyc = A.cyclic(f)
        if any(x in cyc and f.blocks[x]["t"][0] == "call" and A.speaks([y for y in A.calls_of(f.blocks[x]["t"]) if "bool" in F.fns[y].sig.rsplit("->", 1)[-1]]) for x in cyc):
            c.count(f"undecided_loop_{short(e)}", 1); continue
        hits = [x for x in A.walk(f, {b}) if x[0] == "at"]
        if any(x[2] for x in hits): bad.append((tag, A.partial))
        elif hits: c.counts["undecided"] = c.counts.get("undecided", 0) + 1
        else: c.ok(f"\\{tag} keeps {short(e)} from reusing a frame")
    if bad:
        tag, part = bad[0]
        why = f"only part of the active events is looked at ({part.split('::')[-1]})" if part else "no branch on the way depends on it"
        c.bad(f"moving:{short(e)}", f"an earlier frame is shown again although an active event may carry \\{tag.rstrip('(10 ')} ({len(bad)} of {len(MOVING)} forms): {why}", where)
def keyed(c, F, D, f, b, gs, where, e, mk, helper):
    """the comparison must look at every field of the script that rendering looks at"""
    A = Assume(F, D, "t"); roots = set()
    for g in gs:
        calls, _, _ = slice_calls(F, D, A, f, g)
        for bb, t in calls:
            ids = [x for x in A.calls_of(t) if any("parser::" in F.fns[x].locals[q] for q in range(1, F.fns[x].argc + 1)) and x not in mk]
            ty = f.locals[t[3][0]]
            if ids and "ActiveEvents" not in ty and not re.search(r"Resolution|\(u32, u32\)", ty): roots |= set(ids)
            roots |= {x for x in A.closures(f, t, bb)}
    if helper: roots.add(helper.id)
    if not roots: c.counts["undecided_key"] = c.counts.get("undecided_key", 0) + 1; return
    cmp_ = set(ast_reads(F, roots))
    # the key under which frames are stored: functions of the key's owner that build it
    owners = {re.sub(r"::\w+$", "", x) for x in roots if F.fns[x].kind != "closure"}
    build = {x for x, g in F.fns.items() if g.kind != "closure" and g.sig and re.sub(r"::\w+$", "", x) in owners and re.search(r"-> (ass_renderer\S*|Self)$", re.sub(r"<.*?>", "", g.sig)) and not g.derived and any("parser::" in g.locals[q] for q in range(1, g.argc + 1))}
    st = set(ast_reads(F, build)) if build else None
    render = ast_reads(F, [x for x in F.fns if re.search(r"::(prepare_script|process_events)$", x) and F.fns[x].blocks])
    names = {}
    miss = []
    for k, reader in sorted(render.items()):
        if k in cmp_ and (st is None or k in st): c.ok(f"{k[0].split('::')[-1]}.{k[1]} is part of the key")
        else: miss.append((k, reader))
    for x in sorted(F.reach(roots)):
        g = F.fns.get(x)
        if g is None or g.crate != "ass_renderer" or g.kind != "closure" or not re.search(r"frame_key|FrameKey|Key", x): continue
        for l in range(2, g.argc + 1):
            if not re.search(r"\(&('\w+ )?str, &('\w+ )?str\)", g.locals[l]): continue
            from assume import places
            rd = {e[1] for bl in g.blocks for st_ in bl["s"] if st_[0] == "=" for pl in places(st_[2]) if pl[0] == l for e in pl[1:] if isinstance(e, list) and e[0] == "f" and e[3] == "tuple"}
            if rd and rd != {"0", "1"}: c.bad(f"key:pair:{short(g.parent or x)}", "only one half of a (name, value) pair of the script is part of the key of the stored frame", where)
    for x in sorted(roots):
        g = F.fns[x]
        if g.kind != "closure" and g.locals[0] == "bool" and g.argc >= 2: whole(c, F, D, g, where)
    for k, reader in miss:
        if k[1] in ("span",): continue
        side = "compared" if k not in cmp_ else "stored"
        c.bad(f"key:{k[0].split('::')[-1]}:{k[1]}", f"rendering reads {k[0].split('::')[-1]}.{k[1]} (in {short(reader)}) but the key of the stored frame is {side} without it", where)
def whole(c, F, D, g, where):
    """plain fields of the key are compared for equality with what is asked for now"""
    ty = re.sub(r"&|'\w+ ?|mut ", "", g.locals[1]).strip()
    a = F.adts.get(ty.split("<")[0])
    if not a or not ty.startswith("ass_renderer"): return
    eqs = []
    for b, t in g.calls():
        if re.search(r"::(eq|ne)$", t[1].get("fn", "")) and len(t[2]) == 2: eqs.append([D.op(g, o, b, len(g.blocks[b]["s"])) for o in t[2]])
    for b, i, s in g.stmts():
        if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Eq", "Ne"): eqs.append([D.op(g, o, b, i) for o in s[2][2:4]])
    for vn, fs in a["variants"]:
        for name, fty in [(x[0], x[1]) for x in fs]:
            if not re.fullmatch(r"[iu](8|16|32|64|size)|bool|\(([iu](8|16|32|64|size)(, )?)+\)", fty): continue
            got = set()
            for l, r in eqs:
                for p, q in ((l, r), (r, l)):
                    if any(y[0] == "p" and y[1] > 0 for y in q):
                        for y in p:
                            if y[0] == "p" and y[1] == 0 and y[2] and y[2][0][0] == name: got.add(tuple(z[0] for z in y[2][1:2]))
            parts = fty.count(",") + 1 if fty.startswith("(") else 0
            if () in got or parts and {(str(n),) for n in range(parts)} <= got: c.ok(f"{name} of the key is compared")
            elif eqs or not any(isinstance(e, list) and len(e) == 4 and e[0] == "f" and e[1] == name and str(e[3]).split("<")[0] == ty for x in F.reach([g.id]) if x in F.fns and x != g.id for bl in F.fns[x].blocks for s_ in bl["s"] for e in flat(s_)): c.bad(f"key:whole:{name}", f"the stored {name} is not compared for equality with the one asked for now", f"{g.file}:{g.line} in {g.id}")
            else: c.counts["undecided_key"] = c.counts.get("undecided_key", 0) + 1
def flat(x):
    if isinstance(x, list):
        yield x
        for y in x:
            yield from flat(y)
def shown(c, F, D, f, b, gs, where, e):
    A = Assume(F, D, "t"); src = False; active = False
    for g in gs:
        calls, fields, seen = slice_calls(F, D, A, f, g)
        for bb, t in calls:
            ty = f.locals[t[3][0]]
            takes = any(o[0] in ("cp", "mv") and "container::Script" in D.placety(f, o[1]) for o in t[2])
            if takes and "ActiveEvents" in ty: active = True
            elif takes: src = True
        if any(n in ("newly_active", "newly_inactive", "is_dirty") for _, n in fields): src = True
    if src: c.ok(f"{short(e)} looks at the events of the script before handing back the caller's frame")
    elif active: c.bad(f"ended:{short(e)}", "the caller's frame is handed back after looking only at the events active now: an event that has ended since stays on screen", where)
    else: c.counts["undecided_shown"] = c.counts.get("undecided_shown", 0) + 1
def ghosts(c, F, D):
    """layers drawn over pixels of an earlier frame"""
    for x, f in sorted(F.fns.items()):
        if not re.search(r"::composite_layers_incremental$", x) or not f.blocks or f.argc < 4: continue
        prev = [l for l in range(1, f.argc + 1) if re.fullmatch(r"&('\w+ )?\[u8\]", f.locals[l])]
        if not prev: continue
        seeds = []; draws = set(); clears = set()
        for b, t in f.calls():
            n = t[1].get("fn", "")
            if re.search(r"::(copy_from_slice|clone_from_slice|extend_from_slice|to_vec|from_vec)$", n) and any(o[0] in ("cp", "mv") and any(a[0] == "p" and a[1] + 1 in prev for a in D.op(f, o, b, len(f.blocks[b]["s"]))) for o in t[2]): seeds.append((b, t[-1]))
            if re.search(r"::(fill|clear\w*|erase\w*|fill_rect)$", n): clears.add(b)
            if any("IntermediateLayer" in F.fns[y].locals[q] for y in F.targets(n) if y in F.fns for q in range(1, F.fns[y].argc + 1)) and re.search(r"draw|composite|render|paint|blend", n.split("::")[-1]): draws.add(b)
        bad = None
        for b, line in seeds:
            seen = set(); st = list(f.succ(b))
            while st:
                y = st.pop()
                if y in seen or y in clears: continue
                seen.add(y); st.extend(f.succ(y))
            if seen & draws: bad = line
        owner = (f.selfty or x).split("::")[-1]
        if bad: c.bad(f"ghost:{owner}", "layers are drawn over the pixels of the previous frame without clearing them: what moved or ended stays visible", f"{f.file}:{bad} in {x}")
        else: c.ok(f"{owner} never draws over the previous frame's pixels")
