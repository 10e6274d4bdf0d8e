"""R03: memo tables of the renderer: the key carries everything the value was made from, injectively."""
import re
from state import State
from dep import Dep
from climb import Climb
from memo import Memos, describe
from common import loc, short
import r02
LOSSY = re.compile(r"::(round|floor|ceil|trunc|rint|len|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|trim|trim_start|trim_end|abs|as_ptr|signum|fract|clamp|min|max|count_ones)$")
THROUGH = re.compile(r"::(to_bits|clone|to_string|to_owned|into|from|to_vec|as_str|deref|as_bytes|borrow|to_path_buf|cloned|copied|as_ref|into_boxed_str)$")
NARROW = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64}
def lossy(F, D, f, o, b, i, depth=0):
    """description when the last steps producing a key component lose information"""
    if o[0] not in ("cp", "mv") or depth > 14: return None
    pl = o[1]
    if any(isinstance(e, list) for e in pl[1:]): return None
    ds, _ = D.reaching(f, pl[0], b, i)
    if len(ds) != 1: return None
    db, di, k, s = ds[0]
    if k == "=":
        rv = s[2]
        if rv[0] == "use": return lossy(F, D, f, rv[1], db, di, depth + 1)
        if rv[0] == "ref": return lossy(F, D, f, ["cp", rv[2]], db, di, depth + 1)
        if rv[0] == "cast":
            if rv[1].startswith("FloatToInt"): return "a float is truncated to an integer"
            if rv[1].startswith("IntToInt") and rv[2][0] in ("cp", "mv") and len(rv[2][1]) == 1:
                a, z = NARROW.get(f.locals[rv[2][1][0]], 0), NARROW.get(rv[3], 0)
                if z and a > z: return f"an integer is narrowed to {rv[3]}"
            return lossy(F, D, f, rv[2], db, di, depth + 1)
        if rv[0] == "bin" and rv[1].split("With")[0] in ("Div", "Rem", "Shr", "BitAnd"): return f"information is dropped by {rv[1]}"
        if rv[0] == "agg" and rv[1] in ("tuple", "array", "adt"):
            for x in rv[4]:
                r = lossy(F, D, f, x, db, di, depth + 1)
                if r: return r
        return None
    fn = s[1].get("fn", "")
    if LOSSY.search(fn): return f"a component goes through {fn.split('::')[-1]}"
    if fn.endswith("::map") and len(s[2]) == 2:
        fc = D.findclosure(f, s[2][1], db, di)
        if fc:
            g = F.fns.get(fc[0][2])
            for gb, gi, gs in g.stmts():
                if gs[0] == "=" and gs[2][0] == "cast" and gs[2][1].startswith("FloatToInt"): return "a float is truncated to an integer"
            for gb, gt in g.calls():
                if LOSSY.search(gt[1].get("fn", "")): return f"a component goes through {gt[1]['fn'].split('::')[-1]}"
        return lossy(F, D, f, s[2][0], db, di, depth + 1)
    if THROUGH.search(fn) and s[2]: return lossy(F, D, f, s[2][0], db, di, depth + 1)
    return None
def keytype(f, t):
    o = t[2][1] if len(t[2]) > 1 else None
    if o and o[0] in ("cp", "mv") and len(o[1]) == 1: return f.locals[o[1][0]]
    return None
def strip(t): return re.sub(r"'\w+ ?", "", re.sub(r"^(&('\w+ )?(mut )?)+", "", t)).strip()
def valuetype(f, t):
    o = t[2][-1] if t[2] else None
    return strip(f.locals[o[1][0]]).split("<")[0].split("::")[-1] if o and o[0] in ("cp", "mv") and len(o[1]) == 1 else "value"
def inputtype(F, f, a):
    """the type of an input, so that a finding is not identified by the name of a variable"""
    if a[0] == "p" and not a[2]: return strip(f.locals[a[1] + 1]) if a[1] + 1 < len(f.locals) else None
    n, o = (a[2][-1][0], a[2][-1][1]) if a[0] == "p" else (a[2], a[1]) if a[0] == "fld" else (None, None)
    ad = F.adts.get(o)
    for vn, fs in (ad["variants"] if ad else ()):
        for x in fs:
            if x[0] == n: return (strip(x[1]) + ("" if re.search("[A-Z]", x[1]) else " " + n))
    return None
def setup(F):
    S = State(F); D = Dep(F, control=True); ents = r02.entries_of(F)
    W, H = r02.history(F, S, ents); ids = set(F.reach(ents)); C = Climb(F, D, ids); T = r02.field_types(F)
    owners = {o for w in W for o, t in T.get(w[-1], ())}
    mf = {w[-1] for w in H if T.get(w[-1]) and all(r02.MAPTY.match(t) for _, t in T[w[-1]])}
    return S, D, ents, W, H, ids, T, mf, Memos(F, D, C, ids, owners)
def run(c):
    c.rule = ("every insertion into a table that outlives a frame (thread-local maps, map fields carried across frames): each input "
              "the stored value is computed from - restated through the callers - is carried by the key, decides whether the "
              "entry is stored at all, is itself such a table, or is fixed at construction; no key component is rounded, "
              "truncated, case-folded or shortened on its way into the key")
    for F in c.load(("A", "B")):
        S, D, ents, W, H, ids, T, mf, M = setup(F)
        n = 0; ktypes = set()
        for f, b, t, cn in M.sites(sorted(x for x in ids if x in F.fns), mf):
            n += 1
            cname = cn.replace("tls:", "").split("ass_renderer::")[-1]
            bad = M.verdict(f, b, t, mf)
            if not bad: c.ok(f"{cname}: key determines the value inserted in {short(f.id)}")
            seen = set()
            vt = valuetype(f, t)
            for g, l, miss in bad:
                for a in sorted(miss, key=str):
                    d = re.sub(r"^arg\d+\.(self(\.|__))?", "", describe([a])[0]); ty = inputtype(F, g, a)
                    if (d, ty) in seen: continue
                    seen.add((d, ty))
                    c.bad(f"memo:{vt}:{ty or d}", f"the value stored in {cname} depends on {d}, which its key does not carry", loc(g, l))
            kt = keytype(f, t)
            if kt: ktypes.add((kt, cname))
        for kt, cname in sorted(ktypes):
            aggs = 0
            for x in sorted(ids):
                f = F.fns.get(x)
                if f is None: continue
                for b, i, s in f.stmts():
                    if s[0] == "=" and s[2][0] == "agg" and len(s[1]) == 1 and f.locals[s[1][0]] == kt and s[2][1] in ("adt", "tuple") and len(s[2][4]) > 0:
                        aggs += 1
                        for nm, o in zip(s[2][3] or range(len(s[2][4])), s[2][4]):
                            why = lossy(F, D, f, o, b, i)
                            c.need(not why, f"lossy:{cname}:{nm}", f"key component {nm} of {cname} is not injective: {why}", loc(f, s[-1] if isinstance(s[-1], int) else None))
            c.counts[f"key_sites_{cname}_{F.tag}"] = aggs
        c.floor(f"memo tables in {F.tag}", n, 8)
