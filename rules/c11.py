"""C11: every change made through a script is in its list of changes while tracking is on."""
import re
from dep import Dep
from edits import Typestate, Effects
from common import loc, short
SCRIPT = "::Script"
MUT = re.compile(r"::(push|push_front|push_back|insert|insert_str|push_str|remove|swap_remove|pop|clear|truncate|extend|extend_from_slice|append|retain|retain_mut|drain|split_off|sort\w*|reverse|swap|rotate_\w+|dedup\w*|resize\w*|fill|replace|take|splice|set_len|write|get_or_insert\w*)$")
def onsec(pl): return any(isinstance(e, list) and e[0] == "f" and e[1] == "sections" and e[3].endswith(SCRIPT) for e in pl[1:])
class ScriptEdits:
    """writes to what a script's sections hold, through any chain of mutable borrows"""
    def __init__(self, F):
        self.F = F; self.D = Dep(F)
        self.fns = [f for f in F.fns.values() if f.crate == "ass_core" and f.blocks]
        self.prim = {}; self.up = {}   # closure -> captured names that are borrows of the sections
        work = [f for f in self.fns if f.kind != "closure"] + sorted((f for f in self.fns if f.kind == "closure"), key=lambda f: f.id)
        for _ in range(2):
            for f in work: self.scan(f)
        self.W = self.callers_of(set(self.prim))
    def scan(self, f):
        if not any("Script" in l or l.startswith("&mut") or "closure" in l for l in f.locals): return
        T = set(); ch = True; n = 0
        cap = self.up.get(f.id, set())
        def tainted(pl):
            if pl[0] in T: return True
            return pl[0] == 1 and any(isinstance(e, list) and e[0] == "f" and e[3] == "closure" and e[1] in cap for e in pl[1:])
        while ch and n < 12:
            ch = False; n += 1
            def add(l):
                nonlocal ch
                if l not in T: T.add(l); ch = True
            for b, i, s in f.stmts():
                if s[0] != "=": continue
                rv = s[2]; d = s[1][0]
                if len(s[1]) > 1: continue
                if rv[0] == "ref" and rv[1] == 1 and (onsec(rv[2]) or tainted(rv[2])): add(d)
                elif rv[0] == "use" and rv[1][0] in ("cp", "mv") and tainted(rv[1][1]) and "&mut" in f.locals[d]: add(d)
                elif rv[0] == "cast" and rv[2][0] in ("cp", "mv") and tainted(rv[2][1]): add(d)
                elif rv[0] == "agg":
                    for j, o in enumerate(rv[4]):
                        if o[0] in ("cp", "mv") and tainted(o[1]) and "&mut" in f.locals[o[1][0]]:
                            if rv[1] == "closure": self.up.setdefault(rv[2], set()).add(rv[3][j])
                            else: add(d)
            for b, t in f.calls():
                if len(t[3]) == 1 and re.search(r"&('\S+ )?mut |IterMut|Entry", f.locals[t[3][0]]) and any(o[0] in ("cp", "mv") and tainted(o[1]) for o in t[2]): add(t[3][0])
        for b, i, s in f.stmts():
            if s[0] == "=" and len(s[1]) > 1 and (onsec(s[1]) or (tainted(s[1]) and "*" in s[1][1:])): self.prim.setdefault(f.id, {})[b] = s
        for b, t in f.calls():
            fn = t[1].get("fn", "")
            if t[2] and t[2][0][0] in ("cp", "mv") and fn not in self.F.fns and (MUT.search(fn)) and tainted(t[2][0][1]): self.prim.setdefault(f.id, {})[b] = t
            if len(t[3]) > 1 and (onsec(t[3]) or (tainted(t[3]) and "*" in t[3][1:])): self.prim.setdefault(f.id, {})[b] = t
    def on_text(self, f, o, b): return False
    def callers_of(self, ids):
        rev = {}
        for x, cs in self.F.cg().items():
            for c in cs: rev.setdefault(c, []).append(x)
        out = set(); st = list(ids)
        while st:
            x = st.pop()
            if x in out: continue
            out.add(x); st += [y for y in rev.get(x, []) if y in self.F.fns and self.F.fns[y].crate == "ass_core"]
        return out
class NoRestore:
    def at(self, f, b, t): return []
def run(c):
    c.rule = ("typestate over all paths of every public operation on a script that can change its sections or their lines: a successful exit has handed "
              "a change to the tracker; the tracker keeps whatever it is handed while it is on")
    for F in c.load(("A", "B", "C")):
        E = ScriptEdits(F); D = E.D
        # by what they do: functions that push onto the tracker's list
        rec = set()
        for f in E.fns:
            if f.argc < 2 or "ChangeTracker" not in f.locals[1] or "&mut" not in f.locals[1]: continue
            for b, t in f.calls():
                if t[1].get("fn", "").endswith("::push") and any(a[0] == "p" and a[1] == 1 for a in D.op(f, t[2][1], b, len(f.blocks[b]["s"]))): 
                    rec.add(f.id)
                    at = {a for a in D.ctl(f, b, set()) if a[0] == "fld" or (a[0] == "p" and a[1] != 0)}
                    c.need(not any(a[0] == "p" for a in at) and {a[2] for a in at if a[0] == "fld"} <= {"enabled"}, "kept", "whether a change handed to the tracker is kept depends on more than whether tracking is on", loc(f, t[-1]))
        c.floor(f"ways to record in {F.tag}", len(rec), 1); c.floor(f"writes to sections in {F.tag}", sum(map(len, E.prim.values())), 4)
        T = Typestate(E, rec, None, NoRestore()); n = 0
        T.rawmemo = set()
        for f in E.fns:
            if f.id not in E.W or f.kind == "closure" or not f.pub or f.derived or f.argc < 1: continue
            if not re.match(r"&('\S+ )?mut .*script::container::Script<", f.locals[1]): continue
            n += 1
            c.need(("ok", 1) not in T.summary(f.id, 0), f"untracked:{f.name}", f"{short(f.id)} can change the script and succeed without recording a change", loc(f))
        c.floor(f"changing operations in {F.tag}", n, 6)
        for f in E.fns:
            if f.argc and re.match(r"&('\S+ )?mut .*ChangeTracker<", f.locals[1]) and f.id not in rec:
                for b, t in f.calls():
                    fn = t[1].get("fn", "")
                    if re.search(r"Vec.*::(clear|truncate|pop|remove|drain|retain|dedup\w*)$", fn):
                        c.need(f.name == "clear", f"dropped:{f.name}", f"{f.name} of the tracker drops recorded changes", loc(f, t[-1]))
        clear = {f.id for f in E.fns if f.argc and "ChangeTracker" in f.locals[1] and any(re.search(r"Vec.*::(clear|truncate|drain|retain|pop|remove)$", t[1].get("fn", "")) for b, t in f.calls())}
        clearers = E.callers_of(clear) - E.W
        own = next((i for i in F.adts if i.endswith("::Script") and i.startswith("ass_core")), "")
        for f in E.fns:
            if f.derived: continue
            scr = [l for l in range(1, f.argc + 1) if re.match(r"&('\S+ )?mut .*script::container::Script<", f.locals[l])]
            if f.id in E.W and f.kind != "closure":
                for b, t in f.calls():
                    c.need(t[1].get("fn") not in clearers, f"cleared:{f.name}", f"{short(f.id)} drops the changes recorded so far", loc(f, t[-1]))
            for b, i, s in f.stmts():
                if s[0] != "=": continue
                e = s[1][-1]
                if isinstance(e, list) and e[0] == "f" and e[1] == "change_tracker" and e[3] == own:
                    at = D.op(f, s[2][1], b, i) if s[2][0] == "use" else set()
                    c.need(any(a[0] == "fld" and a[2] == "change_tracker" for a in at), f"replaced:{f.name}", f"{short(f.id)} puts a tracker without the changes recorded so far in place", loc(f, s[-1]))
                if scr and s[1] == [scr[0], "*"] and s[2][0] == "use":
                    at = D.op(f, s[2][1], b, i, (("change_tracker", own),))
                    c.need(any(a[0] == "p" and a[1] == scr[0] - 1 for a in at), f"replaced:{f.name}", f"{short(f.id)} replaces the script by one without the changes recorded so far", loc(f, s[-1]))
                if not scr or s[2][0] != "agg" or s[2][1] != "adt" or "::Change::" not in s[2][2]: continue
                v = s[2][2].rsplit("::", 1)[-1]
                for n, o in zip(s[2][3], s[2][4]):
                    at = D.op(f, o, b, i); key = f"content:{v}.{n}:{f.name}"
                    held = any(a[0] == "fld" and a[2] == "sections" and a[1].endswith(SCRIPT) for a in at)
                    if n == "old_content": c.need(held, key, "the old content recorded is not taken from the script", loc(f, s[-1]))
                    if n in ("new_content", "content"): c.need(not held and any(a[0] == "p" and a[1] != scr[0] - 1 for a in at), key, "the new content recorded is not what the operation was given", loc(f, s[-1]))
                    if n == "index" and held and not any(a[0] == "v" for a in at):
                        late = [t for cb, t in f.calls() if t[1].get("fn", "").endswith("::len") and t[2] and any(a[0] == "fld" and a[2] == "sections" for a in D.op(f, t[2][0], cb, len(f.blocks[cb]["s"])))
                                and any(reaches(f, w, cb) for w in E.prim.get(f.id, ()))]
                        c.need(not late, key, "the index recorded is read after the section was added", loc(f, s[-1]))
            if f.id in E.prim and "LineContent" in f.locals[0]:
                for w, x in E.prim[f.id].items():
                    if isinstance(x[1], dict): continue
                    late = [t for cb, t in f.calls() if cb != w and re.search(r"::clone$", t[1].get("fn", "")) and reaches(f, w, cb) and not reaches(f, cb, w) and any(k in f.locals[t[3][0]] for k in ("Style<", "Event<"))]
                    c.need(not late, f"old-read-late:{short(f.id)}", "the old content is copied after it was overwritten", loc(f, x[-1]))
def reaches(f, a, b):
    seen = set(); st = list(f.succ(a))
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); st += f.succ(x)
    return False
