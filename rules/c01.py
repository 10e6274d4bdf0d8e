"""C01: core results are a function of the arguments alone."""
import effects as E
from common import loc, short
FORBID = {"clock", "environment", "random", "thread", "process", "network", "filesystem", "console", "address", "type-identity"}
def roots_of(F):
    return [x for x, f in F.fns.items() if f.crate == "ass_core" and f.kind != "closure" and f.pub
            and "::utils::hashers::" not in x]
def run(c):
    c.rule = ("from every public function of the core crate except the random-state hash-map constructors: no reachable call "
              "of a clock, environment, randomness, thread, process, network, file or console facility; no mutable static or "
              "thread-local; no pointer value used other than as an offset or ordering within one buffer; no hash-map "
              "iteration whose order reaches anything but an order-insensitive consumer or a later sort")
    for F in c.load():
        roots = roots_of(F)
        ids, R = E.reach_local(F, roots)
        ncalls = 0
        for f, b, t, callee in E.external_calls(F, ids):
            ncalls += 1
            k = E.classify(callee)
            if k in FORBID:
                c.bad(f"{k}:{short(f.id)}:{callee}", f"reaches {callee} ({k}): {E.path_to(R, f.id)}", loc(f, t[-1]))
            else: c.ok()
        for i in ids:
            f = F.fns[i]
            for s, why in E.addr_casts(f):
                c.bad(f"address:{short(f.id)}:{why}", f"a pointer's integer value is {why}", loc(f))
            c.ok()
        sites = E.hash_sites(F, ids)
        for f, b, t, callee in sites:
            why = E.order_escapes(F, f, b, t)
            if why: c.bad(f"hash-order:{short(f.id)}", f"hash iteration order {why}: {E.path_to(R, f.id)}", loc(f, t[-1]))
            else: c.ok(f"hash iteration in {short(f.id)} is order-insensitive")
        for fid, st in sorted(E.statics_used(F, ids)):
            g = F.fns.get(st)
            ty = g.locals[0] if g and g.locals else "?"
            if E.MUT_STATIC.search(ty) or ty == "?" or "LocalKey" in ty:
                c.bad(f"static:{st}", f"ambient mutable state {st}: {ty}", loc(F.fns[fid]))
            else: c.ok()
        c.counts[f"reached_{F.tag}"] = len(ids); c.counts[f"calls_{F.tag}"] = ncalls; c.counts[f"hash_sites_{F.tag}"] = len(sites)
        c.floor(f"functions reached in {F.tag}", len(ids), 900)
