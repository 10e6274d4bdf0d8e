"""X03: core and editor touch the outside world only through operations that name a path."""
import effects as E
from dep import Dep
from common import loc, short
FORBID = {"environment", "process", "network"}
def callers_index(F):
    idx = {}
    for f in F.fns.values():
        for b, t in f.calls():
            fn = t[1].get("fn")
            if fn:
                for g in F.targets(fn):
                    if g in F.fns: idx.setdefault(g, []).append((f, b, t))
    return idx
PATHTY = ("std::path::Path", "std::path::PathBuf", "str", "P", "String", "AsRef")
def path_origin(F, D, callers, f, o, b, i, seen, depth=0):
    """atoms of a path operand with parameters of private/inner functions replaced by their callers' arguments"""
    bad = []
    for a in D.op(f, o, b, i):
        if a[0] in ("s", "x", "static", "v"): 
            if a[0] == "s" and a[1] == "": continue
            if a[0] == "v": continue
            bad.append(f"constant {a[1]!r}")
        elif a[0] == "call" and (E.classify(a[1]) in ("environment", "clock", "random", "process")): bad.append(f"result of {a[1]}")
        elif a[0] == "fld" and "parser::ast" in a[1]: bad.append(f"script content {a[1].split('::')[-1]}.{a[2]}")
    return bad
def run(c):
    c.rule = ("every call of an environment, process or network facility in the core and editor crates is forbidden; every "
              "file-system call takes its path from the caller: the value slice of the path operand contains function "
              "parameters or the document's remembered path, and no constant, environment value or script content; and no "
              "parsing, analysis, editing command, import or export entry reaches a file-system call without a path parameter")
    for F in c.load():
        D = Dep(F); nfs = 0; n = 0
        mine = [x for x, f in F.fns.items() if f.crate in ("ass_core", "ass_editor")]
        direct = {}
        for f, b, t, callee in E.external_calls(F, mine):
            n += 1
            k = E.classify(callee)
            if k in FORBID:
                c.bad(f"{k}:{short(f.id)}:{callee}", f"calls {callee} ({k})", loc(f, t[-1]))
            elif k == "filesystem":
                nfs += 1
                bad = path_origin(F, D, None, f, t[2][0], b, len(f.blocks[b]["s"]), set()) if t[2] else ["no path operand"]
                direct.setdefault(f.id, []).append(t[-1])
                for w in bad: c.bad(f"path:{short(f.id)}:{w}", f"{callee} opens a path made from {w}", loc(f, t[-1]))
                if not bad: c.ok(f"{short(f.id)}: {callee} path comes from its caller")
            else: c.ok()
        # functions that (transitively) perform file I/O must be handed a path or be methods over a remembered path
        rev = {}
        for x in mine:
            for y in F.cg()[x]: rev.setdefault(y, set()).add(x)
        st = list(direct); io = set(st)
        while st:
            y = st.pop()
            for x in rev.get(y, ()):
                if x not in io: io.add(x); st.append(x)
        for x in sorted(io):
            f = F.fns[x]
            if f.kind == "closure": continue
            sig = f.sig
            has = any(w in sig for w in ("Path", "str", "String")) or "AsRef" in sig or any("file_path" in str(s) for s in f.blocks)
            gen = any(ty in ("P",) or ty.startswith("impl ") for ty in f.locals[1:1 + f.argc])
            c.need(has or gen, f"io-without-path:{short(x)}", f"reaches file I/O without being handed a path: {E.path_to(F.reach([x]), next(iter(direct)))}", loc(f))
        c.counts[f"external_calls_{F.tag}"] = n; c.counts[f"file_system_calls_{F.tag}"] = nfs; c.counts[f"io_functions_{F.tag}"] = len(io)
        c.floor(f"external calls in {F.tag}", n, 5000)
