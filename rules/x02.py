"""X02: what parsing returns is an unchanging view of the text, and types meant for several threads can go there."""
import re
from common import loc, short
CELL = re.compile(r"\b(Unsafe|Ref|Once|Lazy|Sync\w*)?Cell\b|\b(Mutex|RwLock|ReentrantLock|OnceLock|LazyLock|Atomic\w+|Condvar|ArcSwap\w*|Bump)\b")
LOCK = re.compile(r"\b(Mutex|RwLock|ReentrantLock)<")
OWNED = re.compile(r"(^|[<(, \[])(alloc::string::String|alloc::borrow::Cow<|alloc::boxed::Box<str>|alloc::(rcs::)?(sync|rc|arc)::\w+<str>|alloc::vec::Vec<(u8|char)>|smallvec::\S+\[u8)")
LEAK = re.compile(r"(::leak$|mem::forget$|ManuallyDrop::<.*>::new$|::into_raw(_parts)?$)")
ID = re.compile(r"\bass_\w+(?:::\w+)+")
def istest(p): return "test" in p or "/benches/" in p or "examples/" in p
def closure(F, roots):
    """types reachable through fields: id -> path of fields"""
    seen = {r: r.split("::")[-1] for r in roots if r in F.adts}; st = list(seen)
    while st:
        a = st.pop()
        for vn, fs in F.adts[a]["variants"]:
            for fl in fs:
                for x in ID.findall(fl[1]):
                    if x in F.adts and x not in seen: seen[x] = f"{seen[a]}.{fl[0]}"; st.append(x)
    return seen
def run(c):
    c.rule = ("type walk from the script, its sections, deltas, issues and analyses through all fields: no interior mutability anywhere, and in the syntax "
              "tree no owned text; no allocation is leaked in the core; rustc's own Send/Sync verdict for every public type of the core and the renderer, for "
              "the document, and for every public editor type that holds a lock, in three feature sets")
    for F in c.load():
        A = {i: d for i, d in F.adts.items() if not istest(d["file"])}
        pub = [i for i, d in A.items() if d["pub"] and i.startswith("ass_core::")]
        script = [i for i in pub if i.endswith(("::Script", "::ScriptAnalysis")) or "::parser::ast::" in i or "::parser::script::" in i]
        cl = closure(F, script); n = 0
        for i, path in cl.items():
            if i.startswith("ass_core::plugin::"): continue
            for vn, fs in A.get(i, {"variants": []})["variants"]:
                for fl in fs:
                    n += 1
                    m = CELL.search(fl[1])
                    c.need(not m and fl[3][2] is not False, f"interior:{i.split('::')[-1]}:{fl[0]}", f"{path}.{fl[0]} can change through a shared reference ({m[0] if m else fl[1]})", f"{A[i]['file']}:{A[i]['line']}")
        c.floor(f"fields reachable from scripts in {F.tag}", n, 60)
        ast = closure(F, [i for i in pub if "::parser::ast::" in i]); n = 0
        for i in ast:
            if "::parser::ast::" not in i: continue
            for vn, fs in A.get(i, {"variants": []})["variants"]:
                for fl in fs:
                    n += 1
                    c.need(not OWNED.search(fl[1]), f"copied:{i.split('::')[-1]}:{fl[0]}", f"{i.split('::')[-1]}.{fl[0]} owns its text instead of borrowing it from the source", f"{A[i]['file']}:{A[i]['line']}")
        c.floor(f"syntax tree fields in {F.tag}", n, 30)
        n = 0
        for f in F.fns.values():
            if f.crate != "ass_core" or istest(f.file): continue
            for b, t in f.calls():
                n += 1
                if LEAK.search(t[1].get("fn", "")): c.bad(f"leak:{f.id}", f"{short(f.id)} leaks memory that outlives the script", loc(f, t[-1]))
        c.ok(n=1); c.count(f"core calls searched for leaks in {F.tag}", n)
        n = 0
        for i, d in A.items():
            if not d["pub"] or d["gen"] or "::debug::" in i: continue
            types = [fl[1] for vn, fs in d["variants"] for fl in fs]
            guard = any(re.search(r"Guard<", t) for t in types)
            cr = i.split("::")[0]
            locked = any(LOCK.search(t) for t in types) or any(LOCK.search(fl[1]) for x in closure(F, [i]) if "::thread_safety::" in x for vn, fs in A.get(x, d)["variants"] for fl in fs)
            if cr == "ass_editor" and not locked and not i.endswith("::EditorDocument"): continue
            n += 1
            send, sync, _ = d["auto"]
            why = next((f"its field {fl[0]} is not" for vn, fs in d["variants"] for fl in fs if not (fl[3][0] and fl[3][1])), "")
            if not guard: c.need(send, f"send:{i.split('::')[-1]}", f"{i.split('::')[-1]} cannot be moved to another thread: {why}", f"{d['file']}:{d['line']}")
            if not i.endswith("::EditorDocument"): c.need(sync, f"sync:{i.split('::')[-1]}", f"{i.split('::')[-1]} cannot be shared between threads: {why}", f"{d['file']}:{d['line']}")
        c.floor(f"types judged for threads in {F.tag}", n, 60)
