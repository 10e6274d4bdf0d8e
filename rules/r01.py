"""R01: a frame is a function of script, time, size and installed fonts."""
import re
import effects as E
from dep import Dep
from common import loc, short
FORBID = {"clock", "random", "thread", "process", "network", "console", "address", "type-identity"}
def roots_of(F):
    return [x for x, f in F.fns.items() if f.kind != "closure" and f.pub and
            (x.startswith("ass_renderer::renderer::Renderer::") or x.startswith("ass_renderer::renderer::event_selector::EventSelector::")
             or x.startswith("ass_renderer::renderer::probing::BackendProber::"))]
def font_context(F, f):
    """the body (or its closures) loads fonts into a font database"""
    ids = [f.id] + F.children.get(f.id, [])
    if f.parent: ids.append(f.parent)
    for i in ids:
        g = F.fns.get(i)
        if g is None: continue
        for b, t in g.calls():
            if "fontdb::Database::load" in t[1].get("fn", ""): return True
    return False
def font_path(F, D, f, o, b, i, depth=0, seen=None):
    """path operand of a read comes from the font database"""
    seen = seen if seen is not None else set()
    atoms = D.op(f, o, b, i)
    if any((a[0] == "call" and "fontdb" in a[1]) or (a[0] == "fld" and "fontdb" in a[1]) for a in atoms): return True
    ps = {a[1] for a in atoms if a[0] == "p"}
    if not ps or depth > 4: return False
    # a closure's captures: look at the parent through its parameters
    g = f
    while g.kind == "closure" and g.parent in F.fns: g = F.fns[g.parent]
    if g.id in seen: return True
    seen.add(g.id); found = False
    for h in F.fns.values():
        for hb, ht in h.calls():
            if ht[1].get("fn") == g.id:
                found = True
                if not any(font_path(F, D, h, a, hb, len(h.blocks[hb]["s"]), depth + 1, seen) for a in ht[2]): return False
    return found
def run(c):
    c.rule = ("from every public operation of the renderer, event selector and backend prober, through pipelines and backends: "
              "no reachable call of a clock, randomness, thread, process, network or console facility; file access only to "
              "load fonts; no pointer value used other than as an offset; no hash-map iteration whose order can reach "
              "anything but an order-insensitive consumer, an eviction or a later sort; ambient mutable state only as a "
              "keyed memo table, a once-initialised value without inputs, or a mode cell (decided by R03 and R04)")
    for F in c.load(("A", "B")):
        D = Dep(F)
        roots = roots_of(F)
        ids, R = E.reach_local(F, roots)
        ids = [i for i in ids if "::debug::libass" not in i]
        n = 0
        for f, b, t, callee in E.external_calls(F, ids):
            n += 1
            k = E.classify(callee)
            key = f"{k}:{short(f.id)}:{callee}"
            if k in FORBID:
                c.bad(key, f"reaches {callee} ({k}): {E.path_to(R, f.id)}", loc(f, t[-1]))
            elif k == "environment":
                c.need(font_context(F, f), key, f"reads the environment outside font discovery: {callee}: {E.path_to(R, f.id)}", loc(f, t[-1]))
            elif k == "filesystem" and not font_context(F, f):
                ok = bool(t[2]) and font_path(F, D, f, t[2][0], b, len(f.blocks[b]["s"]))
                c.need(ok, key, f"accesses a file other than a font: {callee}: {E.path_to(R, f.id)}", loc(f, t[-1]))
            else: c.ok()
        for i in ids:
            f = F.fns[i]
            for s, why in E.addr_casts(f):
                c.bad(f"address:{short(f.id)}:{why}", f"a pointer's integer value is {why}: {E.path_to(R, i)}", loc(f))
            c.ok()
        sites = E.hash_sites(F, ids)
        for f, b, t, callee in sites:
            why = E.order_escapes(F, f, b, t)
            if why: c.bad(f"hash-order:{short(f.id)}", f"hash iteration order {why}: {E.path_to(R, f.id)}", loc(f, t[-1]))
            else: c.ok(f"hash iteration in {short(f.id)} line {t[-1]} is order-insensitive")
        for fid, st in sorted(E.statics_used(F, ids)):
            g = F.fns.get(st)
            ty = g.locals[0] if g and g.locals else "?"
            if "LocalKey<core::cell::RefCell<std::collections::hash::map::HashMap<" in ty: c.ok(f"memo table {st}")
            elif "LocalKey<core::cell::RefCell<core::option::Option<" in ty: c.ok(f"mode cell {st}")
            elif re.search(r"OnceLock<|LazyLock<|OnceCell<", ty) and "LocalKey" not in ty:
                c.ok(f"once-initialised {st}")
            elif "__RUST_STD" in st: c.ok()
            elif E.MUT_STATIC.search(ty) or ty == "?" or "LocalKey" in ty:
                c.bad(f"static:{st}", f"ambient mutable state {st}: {ty}", loc(F.fns[fid]))
            else: c.ok()
        c.counts[f"reached_{F.tag}"] = len(ids); c.counts[f"calls_{F.tag}"] = n; c.counts[f"hash_sites_{F.tag}"] = len(sites)
        c.floor(f"functions reached in {F.tag}", len(ids), 300)
