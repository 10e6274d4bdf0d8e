"""E06: editor results are a function of the documents, the arguments and the earlier calls."""
import effects as E
from clock import Clock
from common import loc, short
FORBID = {"environment", "random", "thread", "process", "network", "address", "type-identity"}
def private(f): return f.kind == "closure" or not (f.pub or f.trait)
def run(c):
    c.rule = ("from every public or trait function of the editor crate: no reachable call of an environment, randomness, thread, "
              "process or network facility and no pointer value used as data; a clock reading or the value of a counter shared by all documents, followed through locals, fields, "
              "parameters and results, decides no branch except against an age limit given by the caller or the configuration, "
              "becomes no index and no text except an identifier; no hash-map iteration whose order reaches a result, a stored "
              "value or an ordered effect, followed through private functions and closures to their callers; no mutable static")
    for F in c.load():
        roots = [x for x, f in F.fns.items() if f.crate == "ass_editor" and f.kind != "closure" and (f.pub or f.trait)]
        ids, R = E.reach_local(F, roots)
        n = 0
        for f, b, t, callee in E.external_calls(F, ids):
            n += 1; k = E.classify(callee)
            if k in FORBID: c.bad(f"{k}:{short(f.id)}:{callee}", f"reaches {callee} ({k}): {E.path_to(R, f.id)}", loc(f, t[-1]))
            else: c.ok()
        for i in ids:
            f = F.fns[i]
            for s, why in E.addr_casts(f): c.bad(f"address:{short(f.id)}:{why}", f"a pointer's integer value is {why}", loc(f))
            c.ok()
        ambient = set()
        for fid, st in sorted(E.statics_used(F, ids)):
            g = F.fns.get(st); ty = g.locals[0] if g and g.locals else "?"
            if "sync::atomic::Atomic" in ty: ambient.add(fid)      # its readings are followed like those of a clock
            elif E.MUT_STATIC.search(ty) or ty == "?" or "LocalKey" in ty: c.bad(f"static:{st}", f"ambient mutable state {st}: {ty}", loc(F.fns[fid]))
            else: c.ok()
        K = Clock(F, ids, ambient)
        for (fid, what), line in K.bad.items():
            c.bad(f"clock:{short(fid)}:{what}", f"a clock reading {what}: {E.path_to(R, fid)}", loc(F.fns[fid], line))
        c.ok(f"clock readings of {F.tag} end in statistics, time stamps and identifiers only" if not K.bad else None)
        sites = [x for x in E.hash_sites(F, ids) if "fmt::Debug" not in x[0].id]
        for f, b, t, callee in sites:
            why = E.order_escapes(F, f, b, t, follow=private)
            if why: c.bad(f"hash-order:{short(f.id)}", f"hash iteration order {why}: {E.path_to(R, f.id)}", loc(f, t[-1]))
            else: c.ok(f"hash iteration in {short(f.id)} is order-insensitive")
        c.counts[f"reached_{F.tag}"] = len(ids); c.counts[f"calls_{F.tag}"] = n; c.counts[f"clock_sources_{F.tag}"] = K.sources; c.counts[f"hash_sites_{F.tag}"] = len(sites)
        c.floor(f"functions reached in {F.tag}", len(ids), 900)
