"""Which test led here: for each block, the named tests (string comparison, prefix test, enum variant) whose positive edge
reaches it before any other such test."""
import re
EQ = re.compile(r"(str as core::cmp::PartialEq|PartialEq for str>::eq|PartialEq<.*>::eq|::eq_ignore_ascii_case$)|::(starts_with|ends_with|strip_prefix|contains)$|PartialEq.*::eq$")
def strconst(D, f, o, b, i):
    at = D.op(f, o, b, i)
    s = [a[1] for a in at if a[0] == "s"]
    return s[0] if len(s) == 1 and len(at) == 1 else None
def tests(F, D, f):
    """block -> (kind, name, positive successor, call or None) for switch blocks on a named test"""
    out = {}
    for b in f.rpo():
        t = f.blocks[b]["t"]
        if t[0] != "switch": continue
        o = t[1]
        if o[0] not in ("cp", "mv") or len(o[1]) != 1: continue
        r = resolve(F, D, f, o[1][0], b, len(f.blocks[b]["s"]), t)
        if r: out[b] = r
    return out
def resolve(F, D, f, l, b, i, t, neg=False, depth=0):
    ds, _ = D.reaching(f, l, b, i)
    if len(ds) != 1 or depth > 6: return None
    db, di, k, s = ds[0]
    if k == "=":
        rv = s[2]
        if rv[0] == "use" and rv[1][0] in ("cp", "mv") and len(rv[1][1]) == 1: return resolve(F, D, f, rv[1][1][0], db, di, t, neg, depth + 1)
        if rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("cp", "mv") and len(rv[2][1]) == 1: return resolve(F, D, f, rv[2][1][0], db, di, t, not neg, depth + 1)
        if rv[0] == "disc":
            ty = rv[2] if len(rv) > 2 else ""
            if ty.startswith("core::option::Option") and len(rv[1]) == 1:
                d2, _ = D.reaching(f, rv[1][0], db, di)
                if len(d2) == 1 and d2[0][2] == "call":
                    c = named(F, D, f, d2[0][3], d2[0][0])
                    if c:
                        pos = [x for v, x in t[2] if v == "1"]
                        return (c[0], c[1], pos[0] if pos else t[3], d2[0][3], d2[0][0])
                return None
            en = ty.split("<")[0]
            ad = F.adts.get(en)
            if ad and ad.get("enum"):
                return ("variant", en, {x: ad["variants"][int(v)][0] for v, x in t[2] if int(v) < len(ad["variants"])}, None, None)
        return None
    c = named(F, D, f, s, db)
    if not c: return None
    zero = [x for v, x in t[2] if v == "0"]
    if not zero: return None
    return (c[0], c[1], zero[0] if neg else t[3], s, db)
def named(F, D, f, call, b):
    fn = call[1].get("fn", "")
    if not EQ.search(fn) or len(call[2]) != 2: return None
    n = len(f.blocks[b]["s"])
    for o in (call[2][1], call[2][0]):
        s = strconst(D, f, o, b, n)
        if s is not None: return (fn.split("::")[-1], s)
    return None
def labels(F, D, f, ts=None):
    """block -> set of (kind, name); None in the set: also reached without a positive test"""
    ts = ts if ts is not None else tests(F, D, f)
    lab = {b: set() for b in f.rpo()}
    def flood(start, l):
        st = [start]; seen = set()
        while st:
            b = st.pop()
            if b in seen or b not in lab: continue
            seen.add(b); lab[b].add(l)
            if b in ts: continue
            st += f.succ(b)
    flood(0, None)
    for b, (k, n, pos, call, cb) in ts.items():
        if k == "variant":
            for x, v in pos.items(): flood(x, (k, v))
            for x in f.succ(b):
                if x not in pos: flood(x, None)
        else:
            flood(pos, (k, n))
            for x in f.succ(b):
                if x != pos: flood(x, None)
    return lab
def enum_names(F, D, fns, enum, names, c, tag, key=lambda s: s):
    """string <-> variant: a variant built under a test for a known name, or a known name produced under a test for a
    variant, must belong together. names: variant -> names"""
    known = {n for v in names.values() for n in v}; n = 0
    for f in fns:
        if not any(enum in l for l in f.locals): continue
        ts = tests(F, D, f)
        if not ts: continue
        L = labels(F, D, f, ts)
        for b, i, s in f.stmts():
            if s[0] != "=": continue
            rv = s[2]; v = None
            if rv[0] == "agg" and rv[1] == "adt" and rv[2].startswith(enum + "::"): v = rv[2].split("::")[-1]
            if v in names:
                for l in L[b]:
                    if l and l[0] != "variant" and key(l[1]) in known and None not in L[b]:
                        n += 1
                        c.need(key(l[1]) in names[v], f"{tag}:{v}:{key(l[1])}", f"{v} is chosen for “{l[1]}”", f"{f.file}:{s[-1]} in {f.id}")
            ks = [o[1]["str"] for o in ([rv[1]] if rv[0] == "use" else rv[4] if rv[0] == "agg" else []) if o[0] == "k" and isinstance(o[1].get("str"), str)]
            vs = {l[1] for l in L[b] if l and l[0] == "variant" and l[1] in names}
            for k in ks:
                if key(k) in known and vs and None not in L[b]:
                    n += 1
                    c.need(any(key(k) in names[x] for x in vs), f"{tag}:{','.join(sorted(vs))}:{key(k)}", f"“{k}” is produced for {', '.join(sorted(vs))}", f"{f.file}:{s[-1]} in {f.id}")
    return n
