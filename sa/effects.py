"""Ambient-effect and nondeterminism sources over the call graph.

Every external callee and every cast in a reachable body is classified; a class that the property forbids is an
obligation failure at that call site. Hash-order iteration is followed forward inside the body: it is discharged when
the order cannot reach anything but order-insensitive consumers."""
import re
from common import loc, short

CLASSES = [
    ("clock", r"std::time::(Instant|SystemTime)\b|^<std::time::(Instant|SystemTime)|chrono::"),
    ("environment", r"^<?std::env::"),
    ("filesystem", r"^<?std::fs::|std::path::Path::(exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link|try_exists)$|std::io::stdio::(stdin|Stdin)|fontdb::Database::load_(system_fonts|fonts_dir|font_file|fonts_from)|^tempfile::"),
    ("network", r"^<?std::net::|std::os::unix::net"),
    ("process", r"^<?std::process::|^std::os::unix::process"),
    ("thread", r"std::thread::(functions::)?(spawn|current|sleep|park|yield_now|available_parallelism)|std::thread::(Builder|id|Thread)\b|std::thread::builder|std::thread::current"),
    ("console", r"std::io::stdio::(_print|_eprint|print_to|stdout|stderr|Stdout|Stderr)|std::io::stdio::_e?print"),
    ("random", r"^<?(rand|getrandom|fastrand|uuid)::|std::hash::random::RandomState|ahash::random_state::RandomState::(new|hash_one|build_hasher)|<ahash::random_state::RandomState as .*>::(default|build_hasher|hash_one)|<std::hash::random::RandomState as .*::(build_hasher|hash_one)"),
    ("address", r"core::fmt::rt::Argument.*::new_pointer|core::ptr::(const_ptr|mut_ptr).*::(addr|expose_provenance|to_bits)$|core::ptr::hash$|<\*(const|mut) .*Hash>::hash|^<\*(const|mut)"),
    ("type-identity", r"core::any::type_name"),
]
CLASSES = [(n, re.compile(r)) for n, r in CLASSES]
MUT_STATIC = re.compile(r"Cell<|RefCell|Mutex|RwLock|Once|Lazy|Atomic")
HASHITER = re.compile(r"(hash::map::HashMap|hash::set::HashSet|hashbrown|AHashMap|AHashSet).*::(iter|iter_mut|keys|values|values_mut|into_iter|drain|into_keys|into_values|difference|union|intersection|symmetric_difference|extract_if)$")
HASHTY = re.compile(r"^(&('[a-z_]+ |)(mut )?)?(std::collections::hash::(map::HashMap|set::HashSet)|hashbrown::[a-z]+::Hash(Map|Set)|ahash::hash_(map|set)::AHash(Map|Set))<")

def classify(callee):
    for n, r in CLASSES:
        if r.search(callee): return n
    return None

def reach_local(F, roots):
    R = F.reach(roots)
    return [x for x in R if x in F.fns], R

def path_to(R, x, n=6):
    out = []
    while x is not None and len(out) < n: out.append(short(x) if not x.startswith("drop:") else x); x = R.get(x)
    return " <- ".join(out)

def external_calls(F, ids):
    for x in ids:
        f = F.fns[x]
        for b, t in f.calls():
            c = t[1].get("fn")
            if c and c not in F.fns: yield f, b, t, c
            for a in t[1].get("fa", ()):
                if a not in F.fns: yield f, b, t, a

def addr_casts(f):
    """casts of a pointer to an integer whose value can leave the body as anything but an offset or an ordering"""
    src = {}
    for b, i, s in f.stmts():
        if s[0] == "=" and s[2][0] == "cast" and "ExposeProvenance" in s[2][1]: src[s[1][0]] = s
    if not src: return []
    taint = set(src); bad = []
    def used(o): return o[0] in ("cp", "mv") and o[1][0] in taint
    for _ in range(12):
        n = len(taint); bad = []
        for b, i, s in f.stmts():
            if s[0] != "=": continue
            rv = s[2]
            if rv[0] == "use" and used(rv[1]):
                taint.add(s[1][0])
            elif rv[0] == "ref" and rv[2][0] in taint: taint.add(s[1][0])
            elif rv[0] == "bin":
                u = used(rv[2]), used(rv[3])
                if any(u):
                    op = rv[1]
                    if op.startswith("Sub") and all(u): pass
                    elif op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Cmp"): pass
                    elif op.startswith("Add") or op.startswith("Sub"): taint.add(s[1][0])
                    else: bad.append((f.blocks[b]["s"], f"arithmetic {op}"))
            elif rv[0] == "agg" and any(used(o) for o in rv[4]):
                if "range" in str(rv[2]).lower() or rv[1] == "tuple": taint.add(s[1][0])
                elif rv[1] == "closure": pass   # closure body analysed on its own through its captured reference
                else: bad.append((s, f"stored in {rv[2]}"))
            elif rv[0] == "cast" and used(rv[2]): bad.append((s, "cast"))
        for b, t in f.calls():
            for a in t[2]:
                if used(a):
                    n_ = t[1].get("fn", "")
                    if re.search(r"::(saturating_sub|checked_sub|wrapping_sub|contains|cmp|partial_cmp|eq|ne|lt|le|gt|ge|max|min|new)$", n_):
                        if n_.endswith(("::max", "::min", "Range", "::new")): taint.add(t[3][0])
                    else: bad.append((t, f"passed to {n_}"))
        if len(taint) == n: break
    if 0 in taint: bad.append((None, "returned"))
    return bad

# ---------------------------------------------------------------- hash order
PASS = re.compile(r"::(map|filter|filter_map|cloned|copied|into_iter|iter|iter_mut|by_ref|flat_map|flatten|chain|inspect|as_ref|as_mut|deref|deref_mut|borrow|map_while|as_slice|as_mut_slice|unwrap|unwrap_or_default|expect|branch|clone|to_vec|to_string|to_owned|from|into|peekable|size_hint|into_owned|drain|into_values|into_keys)$")
OK_TERM = re.compile(r"::(count|len|is_empty|any|all|contains|contains_key|sum|max|min|max_by_key|min_by_key|size_hint|for_each_unordered|is_some|is_none|drop|retain|clear)$")
SORT = re.compile(r"::(sort|sort_by|sort_by_key|sort_by_cached_key|sort_unstable|sort_unstable_by|sort_unstable_by_key)$")
UNORD_TY = re.compile(r"^(alloc::collections::btree|std::collections::hash|hashbrown|ahash|fst::|core::option::Option<\(\)>)")
ELEM_OK = re.compile(r"::(remove|insert|entry|contains|contains_key|get|eq|ne|remove_entry|drop|is_some|is_none|deref|as_str|clone|cloned|copied|borrow|to_owned|to_string|len|is_empty|into_owned|remove_\w+)$")

def hash_sites(F, ids):
    out = []
    for x in ids:
        f = F.fns[x]
        if f.derived: continue
        for b, t in f.calls():
            c = t[1].get("fn", "")
            if c in F.fns: continue
            hit = HASHITER.search(c)
            if not hit and c.endswith("::into_iter") and t[1].get("ga") and HASHTY.match(t[1]["ga"][0] or ""): hit = True
            if not hit and re.search(r"::(extend|from_iter)$", c) and any(HASHTY.match(g or "") for g in t[1].get("ga", [])[1:]): hit = True
            if hit: out.append((f, b, t, c))
    return out

GROW = re.compile(r"::(push|push_back|push_front|push_str|extend|extend_from_slice|append)$")
EVICT = re.compile(r"::(take|next|nth|skip|step_by)$")
MAPREM = re.compile(r"(HashMap|BTreeMap|HashSet).*::(remove|remove_entry)$")
def order_escapes(F, f, b0, t0, seed=None, follow=None, depth=0):
    """None when the iteration order started at (b0,t0) (or the ordered values in seed) reaches only order-insensitive
    consumers, else a description.  follow(f) is true for functions whose results may be judged at their callers."""
    ty = f.locals
    kind = dict(seed or {})            # local -> "seq" (ordered container/iterator) | "elem" (arbitrary element)
    if t0 is not None:
        kind[t0[3][0]] = "seq"
        if re.search(r"::(extend)$", t0[1].get("fn", "")): return "extends a sequence in hash order"
    def k_of(o): return kind.get(o[1][0]) if o[0] in ("cp", "mv") else None
    def shared(t):
        for a in t[2]:
            if a[0] in ("cp", "mv") and ("&mut" in ty[a[1][0]] or "dyn core::ops::Fn" in ty[a[1][0]]): return False
        return True
    def bases(l):
        seen = set(); st = [l]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            for b, i, s in f.stmts():
                if s[0] == "=" and s[1] == [x]:
                    if s[2][0] == "ref": st.append(s[2][2][0])
                    elif s[2][0] == "use" and s[2][1][0] in ("cp", "mv"): st.append(s[2][1][1][0])
        return seen
    def local(t): return [x for x in F.targets(t[1].get("fn", "")) if x in F.fns and F.fns[x].blocks]
    grown = set()
    for _ in range(40):
        n = len(kind)
        for b, i, s in f.stmts():
            if s[0] != "=": continue
            rv = s[2]; k = None
            if rv[0] in ("use",): k = k_of(rv[1])
            elif rv[0] == "ref": k = kind.get(rv[2][0])
            elif rv[0] == "cast": k = k_of(rv[2])
            elif rv[0] == "disc": k = None
            elif rv[0] == "agg":
                ks = [k_of(o) for o in rv[4]]
                if rv[1] == "closure": k = None
                elif "seq" in ks: k = "seq"
                elif "elem" in ks: k = "elem"
            elif rv[0] == "bin": k = None
            if k and s[1][0] not in kind: kind[s[1][0]] = k
        for b, t in f.calls():
            ks = [k_of(a) for a in t[2]]
            if not any(ks): continue
            c = t[1].get("fn", "")
            d = t[3][0]
            if c.endswith("::next") or c.endswith("::next_back"):
                if d not in kind: kind[d] = "elem"
            elif c.endswith("::collect") or c.endswith("::from_iter") or c.endswith("::collect_into"):
                if not UNORD_TY.match(ty[d]) and d not in kind: kind[d] = "seq" if "seq" in ks else "elem"
            elif GROW.search(c) and t[2] and t[2][0][0] in ("cp", "mv") and any(ks[1:]):
                for x in bases(t[2][0][1][0]):
                    if x not in kind and not 1 <= x <= f.argc: kind[x] = "seq"; grown.add(x)
            elif PASS.search(c):
                if d not in kind: kind[d] = "seq" if "seq" in ks else "elem"
            elif "seq" not in ks and (local(t) or c not in F.fns and not c.startswith(("core::", "alloc::", "std::"))) and shared(t):
                if d not in kind and not re.match(r"^(bool|\(\))$", ty[d]): kind[d] = "elem"
        if len(kind) == n: break
    # sort calls clean sequences: the local (and everything sharing it) from that block on
    sorts = []
    for b, t in f.calls():
        if SORT.search(t[1].get("fn", "")) and k_of(t[2][0]) == "seq": sorts.append(b)
    def cleaned(b):
        return any(f.dominates(sb, b) and sb != b for sb in sorts)
    evicts = None
    for b, t in f.calls():
        ks = [k_of(a) for a in t[2]]
        if not any(ks) or (b == b0): continue
        c = t[1].get("fn", "ptr")
        if SORT.search(c) or cleaned(b): continue
        if c.endswith(("::next", "::next_back", "::collect", "::from_iter")): continue
        if OK_TERM.search(c): continue
        if "seq" in ks and PASS.search(c): continue
        if "seq" not in ks and (ELEM_OK.search(c) or PASS.search(c)): continue
        if GROW.search(c) and t[2][0][0] in ("cp", "mv") and any(x in grown or kind.get(x) == "seq" for x in bases(t[2][0][1][0])): continue
        if EVICT.search(c) and "seq" in ks and not c.endswith("::next") and only_evicts(F, f, kind, t0): continue
        if "seq" not in ks and shared(t) and (local(t) or not c.startswith(("core::", "alloc::", "std::"))): continue
        if "seq" in ks and depth < 4 and (tg := local(t)) and shared(t):
            why = None
            for x in tg:
                g = F.fns[x]
                why = why or order_escapes(F, g, -1, None, {n + 1: k for n, k in enumerate(ks) if k}, None, depth + 1)
            if not why: continue
        return f"reaches {c.split('::')[-2] + '::' + c.split('::')[-1] if '::' in c else c} at line {t[-1]}"
    # returned / stored
    for b, i, s in f.stmts():
        if s[0] != "=" or cleaned(b): continue
        d = s[1]
        if kind.get(d[0]) == "seq" and len(d) > 1 and any(isinstance(e, list) and e[0] == "f" for e in d[1:]) and not (t0 is None and 1 <= d[0] <= f.argc):
            return f"stored in a field at line {s[-1] if isinstance(s[-1], int) else f.line}"
    # an entry taken without a choice of its own (the first the table happens to give) that is kept
    first = set()
    if t0 is not None:
        raw = {t0[3][0]}
        for _ in range(6):
            for b, i, s in f.stmts():
                if s[0] == "=" and s[2][0] in ("ref", "use", "agg"):
                    os_ = [["cp", s[2][2]]] if s[2][0] == "ref" else [s[2][1]] if s[2][0] == "use" else s[2][4] if s[2][1] == "adt" else []
                    for o in os_:
                        if o[0] in ("cp", "mv") and len(s[1]) == 1:
                            if o[1][0] in raw: raw.add(s[1][0])
                            if o[1][0] in first: first.add(s[1][0])
            for b, t in f.calls():
                c = t[1].get("fn", "")
                if not t[2] or t[2][0][0] not in ("cp", "mv"): continue
                a = t[2][0][1][0]
                if a in raw and re.search(r"::(cloned|copied|into_iter|by_ref|map|keys|values)$", c): raw.add(t[3][0])
                elif a in raw and c.endswith("::next") and not loops(f, b): first.add(t[3][0])
                elif a in first and (PASS.search(c) or ELEM_OK.search(c)): first.add(t[3][0])
    for b, i, s in f.stmts():
        if s[0] == "=" and any(isinstance(e, list) and e[0] == "f" and not re.search(r"Option|Result|tuple", str(e[3])) for e in s[1][1:]) and s[2][0] in ("use", "agg"):
            if any(o[0] in ("cp", "mv") and o[1][0] in first for o in ([s[2][1]] if s[2][0] == "use" else s[2][4])): return f"picks the value stored in a field at line {s[-1] if isinstance(s[-1], int) else f.line}"
    back = None
    if 0 in kind and not sorts: back = "is returned"
    elif 0 in kind:
        # return value assigned in a block not dominated by a sort
        for b, i, s in f.stmts():
            if s[0] == "=" and s[1][0] == 0 and s[2][0] in ("use", "agg") and not cleaned(b):
                ops = [s[2][1]] if s[2][0] == "use" else s[2][4]
                if any(k_of(o) for o in ops): back = "is returned unsorted"
    if back and follow and depth < 4 and follow(f):
        sites = callers_of(F, f)
        for g, b, t in sites:
            why = order_escapes(F, g, b, None, {t[3][0]: kind[0]}, follow, depth + 1)
            if why: return f"{back} and {why} in {short(g.id)}"
        if sites: return None
    return back
def loops(f, b):
    seen = set(); st = list(f.succ(b))
    while st:
        x = st.pop()
        if x == b: return True
        if x not in seen: seen.add(x); st += f.succ(x)
    return False
def only_evicts(F, f, kind, t0):
    """entries taken in hash order that are only removed again from the cache they came from"""
    c = " ".join(str(e[1]) for b, i, s in f.stmts() if s[0] == "=" and s[2][0] == "ref" for e in s[2][2][1:] if isinstance(e, list) and e[0] == "f")
    if not re.search(r"cache|memo", c): return False
    rem = [t for b, t in f.calls() if re.search(r"::(remove|remove_entry)$", t[1].get("fn", ""))]
    return bool(rem) and 0 not in kind
def callers_of(F, f):
    """call sites whose result is f's result; for a closure, the calls in its parent that take the closure"""
    out = []
    if f.kind == "closure":
        g = F.fns.get(f.parent)
        if not g: return out
        cl = {s[1][0] for b, i, s in g.stmts() if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure" and s[2][2] == f.id}
        for b, t in g.calls():
            if any((a[0] in ("cp", "mv") and a[1][0] in cl) or (a[0] == "k" and f.id in str(a[1])) for a in t[2]): out.append((g, b, t))
        return out
    for g in F.fns.values():
        for b, t in g.calls():
            if f.id in F.targets(t[1].get("fn", "")): out.append((g, b, t))
    return out

# ---------------------------------------------------------------- ambient state
def statics_used(F, ids):
    """(function, static id) for every static or thread-local mentioned by a reachable body"""
    out = set()
    def w(f, x):
        if isinstance(x, dict):
            if "static" in x: out.add((f.id, x["static"]))
            if "const" in x and "LocalKey" in str(x.get("ty", "")): out.add((f.id, x["const"]))
            for y in x.values(): w(f, y)
        elif isinstance(x, list):
            if x and x[0] == "tls": out.add((f.id, x[1]))
            for y in x: w(f, y)
    for i in ids:
        f = F.fns[i]; w(f, f.blocks)
        for p in f.promoted: w(f, p.get("blocks", []))
    return out
