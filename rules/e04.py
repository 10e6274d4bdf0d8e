"""E04: the undo history is last-in first-out, within its limits, and a new edit invalidates what was undone."""
import copy
from edits import Edits, Typestate, Effects, receiver
from e01 import stack_calls, entries, direction, PUSH, POP
from common import loc, short
FIELDS = ("undo_stack", "redo_stack")
END = {"push_front": "front", "push_back": "back", "pop_front": "front", "pop_back": "back", "front": "front", "back": "back",
       "front_mut": "front", "back_mut": "back", "push": "back", "pop": "back", "last": "back", "truncate": "back"}
class Moves(Typestate):
    """a path on which an entry has been taken off a stack must put it on a stack"""
    def __init__(self, E, prim, covers, X):
        E2 = copy.copy(E); E2.prim = prim; E2.W = E.callers_of(set(prim))
        super().__init__(E2, covers, None, X); self.opt = True; self.W0 = E.W
    def raw(self): return set()
    def restore(self, f, t, b): return False
    def call(self, f, b, t, st):
        # putting back the whole text read earlier cannot fail
        if any(x in self.W0 for x in self.F.targets(t[1].get("fn", ""))) and Typestate.restore(self, f, t, b): return [("ok", st)]
        return super().call(f, b, t, st)
def entry(ty): return "HistoryEntry" in ty
def run(c):
    c.rule = ("every push, take, peek and trim of the undo and redo stacks is classified by the end it works on; limits are tested after every push; "
              "memory accounting accompanies every push and pop; typestate: an edit that succeeds has dropped the redo entries, an entry taken off one stack is put on a stack on every way out")
    for F in c.load(("A", "B", "C")):
        E = Edits(F); X = Effects(E); D = E.D
        calls = stack_calls(F, E, tuple(END) + ("clear", "drain", "split_off", "remove", "pop_if"))
        at = {}; trims = []
        for f, b, t, fld in calls:
            last = t[1]["fn"].rsplit("::", 1)[-1]
            if last in ("pop_front", "pop_back", "pop") and not entry(f.locals[0]) and not moved(f, t): trims.append((f, b, t, fld))
            elif last in END and last != "truncate": at.setdefault(fld, {}).setdefault(END[last], []).append((f, t, last))
            elif last == "truncate": trims.append((f, b, t, fld))
        c.floor(f"stack operations in {F.tag}", len(calls), 8)
        top = {}
        for fld in FIELDS:
            ends = at.get(fld, {})
            tops = {e for e, l in ends.items() if any(x[2] in PUSH + ("push",) for x in l)}
            top[fld] = next(iter(tops)) if len(tops) == 1 else None
            c.need(len(tops) == 1, f"ends:{fld}", f"entries are pushed on {len(tops)} ends of {fld}", next((loc(x[0], x[1][-1]) for l in ends.values() for x in l), "-"))
            for e, l in ends.items():
                for f, t, last in l:
                    c.need(top[fld] in (None, e), f"end:{fld}:{f.name}:{last}", f"{short(f.id)} uses the {e} of {fld}, entries are pushed at the {top[fld]}", loc(f, t[-1]))
        for f, b, t, fld in trims:
            e = END[t[1]["fn"].rsplit("::", 1)[-1]]
            c.need(top[fld] is None or e != top[fld], f"trim:{fld}:{f.name}", f"{short(f.id)} drops the newest entry of {fld}, not the oldest", loc(f, t[-1]))
        limits(c, F, E, calls, trims)
        memory(c, F, E, calls)
        # a new edit drops the redo entries
        clr = {}
        for f, b, t, fld in calls:
            if fld == "redo_stack" and t[1]["fn"].rsplit("::", 1)[-1] in ("clear", "drain", "truncate", "split_off"): clr.setdefault(f.id, set()).add(b)
        for f in E.fns:     # assigned afresh or taken out
            for b, i, s in f.stmts():
                if s[0] == "=" and len(s[1]) > 1 and isinstance(s[1][-1], list) and s[1][-1][0] == "f" and s[1][-1][1] == "redo_stack": clr.setdefault(f.id, set()).add(b)
            for b, t in f.calls():
                if t[1].get("fn", "").rsplit("::", 1)[-1] in ("take", "replace", "swap") and t[2] and receiver(E, f, t[2][0], b, "redo_stack"): clr.setdefault(f.id, set()).add(b)
        c.floor(f"places that drop redo entries in {F.tag}", len(clr), 1)
        must = mustcall(F, E, clr)
        undopush = {}
        for f, b, t, fld in calls:
            if fld == "undo_stack" and t[1]["fn"].rsplit("::", 1)[-1] in PUSH + ("push",): undopush.setdefault(f.id, set()).add(b)
        cov = recorders(F, E, undopush, clr, must)
        T = Typestate(E, cov, "history", X); n = 0
        takes = {}
        for f, b, t, fld in calls:
            if t[1]["fn"].rsplit("::", 1)[-1] in POP + ("pop",) and (f, b, t, fld) not in trims: takes.setdefault(fld, {}).setdefault(f.id, {})[b] = t
        R = {fld: E.callers_of(set(takes.get(fld, {}))) for fld in FIELDS}
        direct = {f.id: [fld for fld in FIELDS if f.id in R[fld]] for f in E.fns}
        for f in entries(E):
            if direction(F, E, X, f): continue
            n += 1
            c.need(("ok", 1) not in T.summary(f.id, 0), f"redo-kept:{f.name}", f"{short(f.id)} can change the text and succeed while the entries undone before it can still be redone", loc(f))
        c.floor(f"editing operations in {F.tag}", n, 60)
        push = {fld: {f.id for f, b, t, g in calls if g == fld and t[1]["fn"].rsplit("::", 1)[-1] in PUSH + ("push",)} for fld in FIELDS}
        reach = clearers(F, set(clr))
        m = 0
        for f in E.fns:
            if f.kind == "closure" or not f.pub or entry(f.locals[0]) or f.id not in R["undo_stack"] | R["redo_stack"]: continue
            for fld, other in (("undo_stack", "redo_stack"), ("redo_stack", "undo_stack")):
                if f.id not in R[fld]: continue
                m += 1; word = "undo" if fld == "undo_stack" else "redo"
                s = Moves(E, takes[fld], push["undo_stack"] | push["redo_stack"], X).summary(f.id, 0)
                c.need(not any(w == 1 for o, w in s), f"entry-lost:{word}:{f.name}", f"{short(f.id)} takes an entry off the {word} stack and a way out puts it on neither stack", loc(f))
                s = Moves(E, takes[fld], push[other], X).summary(f.id, 0)
                c.need(("ok", 1) not in s, f"not-moved:{word}:{f.name}", f"{short(f.id)} succeeds without moving the entry it took off the {word} stack to the other one", loc(f))
            c.need(f.id not in reach, f"redo-dropped:{f.name}", f"{short(f.id)} drops the entries that could still be redone", loc(f))
        c.floor(f"undo and redo operations in {F.tag}", m, 2)
def recorders(F, E, sites, clr, must):
    """functions that put an entry on the undo stack and drop the redo entries with it, on every path"""
    sites = {k: set(v) for k, v in sites.items()}; ok = set(); done = set(); ch = True
    while ch:
        ch = False
        for f in E.fns:
            for b, t in f.calls():
                fn = t[1].get("fn")
                if fn in sites and fn not in ok and fn in done and b not in sites.setdefault(f.id, set()): sites[f.id].add(b); done.discard(f.id); ch = True
        for fid in list(sites):
            f = F.fns[fid]
            if fid in done or not sites[fid]: continue
            done.add(fid); ch = True
            if not any(before(f, b, clr, must) and escapes(F, f, b, clr, must) for b in sites[fid]): ok.add(fid)
            else: ok.discard(fid)
    return ok
def before(f, b, ts, m):
    """a path from the start to block b avoids every test"""
    st = [0]; seen = set()
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen or x in ts.get(f.id, ()): continue
        seen.add(x); t = f.blocks[x]["t"]
        if t[0] == "call" and t[1].get("fn") in m: continue
        st += f.succ(x)
    return False
def moved(f, t):
    """the popped entry is put on another queue in the same body"""
    return any(x[1].get("fn", "").rsplit("::", 1)[-1] in PUSH for b, x in f.calls())
def clearers(F, clr):
    rev = {}
    for x, cs in F.cg().items():
        for y in cs: rev.setdefault(y, []).append(x)
    out = set(); st = list(clr)
    while st:
        x = st.pop()
        if x in out: continue
        out.add(x); st += rev.get(x, [])
    return out
def limits(c, F, E, calls, trims):
    """after an entry is put on the undo stack both limits are tested, and the test leads to dropping old entries"""
    D = E.D; tests = {"max_entries": {}, "max_memory": {}}; tfn = {f.id for f, b, t, fld in trims if fld == "undo_stack"}
    for f in E.fns:
        for b, i, s in f.stmts():
            if s[0] != "=" or s[2][0] not in ("bin", "cbin") or s[2][1] not in ("Gt", "Ge", "Lt", "Le"): continue
            sides = [D.op(f, o, b, i) for o in s[2][2:4]]
            for k, lim in enumerate(sides):
                for fld in tests:
                    if any(n == fld for a in lim for n in names(a)):
                        if f.id in tfn and any(E_reach(f, b, tb) for g, tb, t, x in trims if g is f): tests[fld].setdefault(f.id, set()).add(b)
                        if fld == "max_entries" and "len" in callees(sides[1 - k]) and not any(a[0] == "v" and a[1] not in ("0", 0) for a in lim | sides[1 - k]):
                            op = s[2][1] if k == 1 else {"Gt": "Lt", "Ge": "Le", "Lt": "Gt", "Le": "Ge"}[s[2][1]]
                            if f.id in tfn: c.need(op in ("Gt", "Le"), f"limit-off-by-one:{f.name}", f"{short(f.id)} drops an entry although the number of entries is within the limit", loc(f, s[-1]))
    for fld, ts in tests.items():
        c.floor(f"tests of {fld} in {F.tag}", len(ts), 1)
        must = mustcall(F, E, ts)
        for f, b, t, g in calls:
            if g != "undo_stack" or t[1]["fn"].rsplit("::", 1)[-1] not in PUSH + ("push",): continue
            c.need(not escapes(F, f, b, ts, must), f"unbounded:{fld}:{f.name}", f"{short(f.id)} puts an entry on the undo stack and a way out does not enforce {fld}", loc(f, t[-1]))
    mem = [f for f, b, t, g in trims if g == "undo_stack" and f.id in tests["max_memory"] and E_reach(f, b, b) and any(E_reach(f, b, x) and E_reach(f, x, b) for x in tests["max_memory"][f.id])]
    if tests["max_memory"]: c.need(bool(mem), "memory-once", "entries are dropped at most once for the memory limit, however far it is exceeded", loc(F.fns[next(iter(tests["max_memory"]))]))
def names(a):
    return [a[2]] if a[0] == "fld" else [n for n, _ in a[2]] if a[0] == "p" else []
def callees(at): return {a[1].rsplit("::", 1)[-1] for a in at if a[0] == "call"}
def E_reach(f, a, b):
    seen = set(); st = list(f.succ(a))
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); st += f.succ(x)
    return False
def mustcall(F, E, ts):
    """functions every path of which passes a test"""
    m = set(); ch = True
    while ch:
        ch = False
        for f in E.fns:
            if f.id in m or not (f.id in ts or any(t[1].get("fn") in m for b, t in f.calls())): continue
            if not escapes(F, f, None, ts, m): m.add(f.id); ch = True
    return m
def escapes(F, f, b, ts, m):
    """a path from after block b (from the start for None) to a return avoids every test"""
    st = [0] if b is None else list(f.succ(b)); seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x in ts.get(f.id, ()): continue
        t = f.blocks[x]["t"]
        if t[0] == "call" and t[1].get("fn") in m: continue
        if t[0] == "ret": return True
        st += f.succ(x)
    return False
def memory(c, F, E, calls):
    """pushes add to the memory count, pops take off, clearing resets"""
    D = E.D; adj = {}
    for f in E.fns:
        for b, i, s in f.stmts():
            if s[0] == "=" and s[2][0] in ("bin", "cbin") and s[2][1].startswith(("Add", "Sub")) and any(n == "current_memory" for o in s[2][2:3] for a in D.op(f, o, b, i) for n in names(a)):
                adj.setdefault(f.id, set()).add(s[2][1][:3])
            if s[0] == "=" and len(s[1]) > 1 and isinstance(s[1][-1], list) and s[1][-1][1] == "current_memory" and s[2][0] == "use" and s[2][1][0] == "k": adj.setdefault(f.id, set()).add("Zero")
        for b, t in f.calls():
            last = t[1].get("fn", "").rsplit("::", 1)[-1]
            k = "Add" if last in ("saturating_add", "wrapping_add", "add_assign", "checked_add") else "Sub" if last in ("saturating_sub", "wrapping_sub", "sub_assign", "checked_sub") else None
            if k and t[2] and any(n == "current_memory" for a in D.op(f, t[2][0], b, len(f.blocks[b]["s"])) for n in names(a)): adj.setdefault(f.id, set()).add(k)
    c.floor(f"functions that keep the memory count in {F.tag}", len(adj), 3)
    K = {}
    for g in E.fns:
        for b, t in g.calls(): K.setdefault(t[1].get("fn"), []).append(g)
    for f, b, t, fld in calls:
        last = t[1]["fn"].rsplit("::", 1)[-1]
        want = {"Add"} if last.startswith("push") else {"Sub", "Zero"} if last.startswith("pop") or last in ("clear", "drain", "truncate") else None
        if not want: continue
        near = set(adj.get(f.id, ()))
        for b2, t2 in f.calls(): near |= adj.get(t2[1].get("fn"), set())
        for g in F.fns.values():
            if g.kind == "closure" and g.id.startswith(f.id + "::"): near |= adj.get(g.id, set())
        if not near & want and K.get(f.id): near |= set.intersection(*[set(adj.get(g.id, ())) for g in K[f.id]])
        c.need(bool(near & want), f"memory:{f.name}:{last}", f"{short(f.id)} {'adds an entry without adding' if 'Add' in want else 'drops an entry without taking off'} its size {'to' if 'Add' in want else 'from'} the memory count", loc(f, t[-1]))
