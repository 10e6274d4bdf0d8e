"""E01: every change of the document's text can be undone exactly and redone exactly."""
import re
from edits import Edits, Typestate, Effects, Records, receiver, params, is_doc
from climb import Climb
from common import loc, short
OP = {"Insert": {"position": "position", "text": "ins"}, "Delete": {"range": "range", "deleted_text": "del"},
      "Replace": {"range": "range", "old_text": "del", "new_text": "ins"}}
PUSH = ("push_front", "push_back"); POP = ("pop_front", "pop_back")
def stack_calls(F, E, names):
    """[(fn, block, call, stack field)] queue operations on the undo and redo stacks"""
    out = []
    for f in E.fns:
        for b, t in f.calls():
            last = t[1].get("fn", "").rsplit("::", 1)[-1]
            if last in names and t[2] and ("VecDeque" in t[1].get("fn", "") or "Vec<" in t[1].get("fn", "") or "Vec" in t[1].get("fn", "")):
                for fld in ("undo_stack", "redo_stack"):
                    if receiver(E, f, t[2][0], b, fld): out.append((f, b, t, fld))
    return out
def entries(E):
    """operations a user can call that may change a document's text; commands run inside execute_command, which records them"""
    for f in E.fns:
        if f.id in E.W and f.kind != "closure" and (f.pub or f.trait) and not (f.trait or "").endswith("EditorCommand"): yield f
def flds(at, stack=None):
    """Operation variant -> fields mentioned"""
    out = {}
    for a in at:
        if a[0] == "fld" and "::Operation::" in a[1]: out.setdefault(a[1].rsplit("::", 1)[-1], set()).add(a[2])
    return out
def run(c):
    c.rule = ("typestate over all paths of every public operation that can change the text: a successful exit has recorded the change; "
              "each recorded operation gives the position, range and inserted text of the edit made around it and old text read before it; "
              "undo applies the inverse edit of each kind of operation and redo the same edit, decided from the values the edits' positions and texts are computed from")
    for F in c.load(("A", "B", "C")):
        E = Edits(F); X = Effects(E); K = Climb(F, X.C)
        push = stack_calls(F, E, PUSH)
        cov = {f.id for f, b, t, fld in push if fld == "undo_stack"}
        c.floor(f"ways to record in {F.tag}", len(cov), 1); c.floor(f"text writes in {F.tag}", sum(map(len, E.prim.values())), 2)
        T = Typestate(E, cov, "history", X); n = 0
        c.count(f"functions that take out or put back the history in {F.tag}", len(T.gaters()))
        for f in E.fns:
            if f.kind == "closure" or not (f.pub or f.trait) or f.id not in T.gaters(): continue
            lost = any(u for o, (w, u) in T.summary(f.id, (0, 0)))
            c.need(not lost, f"history-lost:{f.name}", f"{short(f.id)} takes the undo history out of the document and a way out does not put it back", loc(f))
        for f in entries(E):
            dirs = direction(F, E, X, f)
            if dirs: continue
            n += 1
            c.need(("ok", 1) not in T.summary(f.id, 0), f"unrecorded:{f.name}", f"{short(f.id)} can change the text and succeed without recording the change in the undo history", loc(f))
        c.floor(f"editing operations in {F.tag}", n, 60)
        # the recorded result must count as a change
        gates = {}
        for f in E.fns:
            for b, t in f.calls():
                if t[1].get("fn") in cov:
                    for a in X.P.ctl(f, b, set()):
                        if a[0] == "p" and a[2] and a[2][-1][1].endswith("CommandResult"): gates.setdefault(f.id, set()).add((a[1], a[2]))
        c.count(f"recording gates in {F.tag}", len(gates))
        for f in E.fns:
            for b, t in f.calls():
                for k, path in gates.get(t[1].get("fn"), ()):
                    at = X.P.op(f, t[2][k], b, len(f.blocks[b]["s"]), path)
                    vs = {a[1] for a in at if a[0] == "v"}
                    c.need(not (vs == {"0"} and not any(a[0] == "p" for a in at)), f"recorded-as-unchanged:{f.name}", f"the change is recorded with a result that says {path[-1][0]} = false, which the history ignores", loc(f, t[-1]))
        c.count(f"operations recorded in {F.tag}", Records(E, X, T, K).check(c, "Operation", OP))
        inverse(c, F, E, X)
DIRS = {}
def direction(F, E, X, f):
    """which stack the edits of a function take their values from"""
    key = (F.tag, f.id)
    if key not in DIRS:
        out = set()
        for k, d, l in X.of(f.id):
            for at in d.values():
                for a in at:
                    if a[0] == "fld" and a[2] in ("undo_stack", "redo_stack"): out.add(a[2])
                    if a[0] == "p" and any(n in ("undo_stack", "redo_stack") for n, _ in a[2]): out |= {n for n, _ in a[2] if n in ("undo_stack", "redo_stack")}
        DIRS[key] = out
    return DIRS[key]
def mention(at, v, name, sub=None):
    return any(a[0] == "fld" and a[1].endswith("::Operation::" + v) and a[2] == name for a in at)
def reads(at, v, name, end):
    """the value is computed from the given end of the operation's range"""
    for a in at:
        if a[0] == "p":
            ns = [n for n, o in a[2]]
            if name in ns and end in ns[ns.index(name):]: return True
    return False
# direction -> variant -> kind -> (fields start may use / must use, fields end must use, text field)
INV = {"undo_stack": {"Insert": ("del", "position", {"text"}, None), "Delete": ("ins", "range", None, "deleted_text"),
                      "Replace": ("both", "range", {"new_text"}, "old_text")},
       "redo_stack": {"Insert": ("ins", "position", None, "text"), "Delete": ("del", "range", {"range", "deleted_text"}, None),
                      "Replace": ("both", "range", {"range", "old_text"}, "new_text")}}
def inverse(c, F, E, X):
    n = 0
    for f in E.fns:
        if f.id not in E.W or f.kind == "closure" or not f.pub: continue
        dirs = direction(F, E, X, f)
        if len(dirs) != 1: continue
        d0 = next(iter(dirs)); word = "undo" if d0 == "undo_stack" else "redo"
        got = {v: set() for v in INV[d0]}
        for kind, d, line in X.of(f.id):
            m = {}
            for at in d.values():
                for v, fs in flds(at).items(): m.setdefault(v, set()).update(fs)
            for v in m:
                if v in got: got[v].add(kind)
            if len(m) != 1: continue
            v = next(iter(m))
            if v not in INV[d0]: continue
            want, start, endf, text = INV[d0][v]; where = f"{f.file}:{line} in {f.id}"; key = f"{word}:{v}:{kind}"
            n += 1
            if kind != want and want != "both":
                c.bad(key, f"{word} of {v} {'inserts' if kind == 'ins' else 'deletes'} text", where); continue
            c.need(mention(d["start"], v, start), key + ":start", f"{word} of {v} edits at a place not computed from the operation's {start}", where)
            if kind == "del" and endf:
                ok = any(mention(d["end"], v, x) for x in endf)
                if v == "Replace" and word == "undo" and reads(d["end"], v, "range", "end"): ok = False
                if v == "Replace" and word == "redo" and mention(d["end"], v, "new_text"): ok = False
                c.need(ok, key + ":end", f"{word} of {v} removes a span whose end is not computed from the operation's {' or '.join(sorted(endf))}", where)
            if kind == "ins" and text:
                other = {"old_text", "new_text", "text", "deleted_text"} - {text}
                c.need(mention(d["text"], v, text) and not any(mention(d["text"], v, x) for x in other), key + ":text", f"{word} of {v} inserts something other than the operation's {text}", where)
        for v, (want, *_r) in INV[d0].items():
            ks = {"del", "ins"} if want == "both" else {want}
            c.need(ks <= got[v], f"{word}:{v}:missing", f"{word} does nothing about the {' and '.join(sorted(ks - got[v]))} part of {v}", loc(f))
    c.floor(f"inverse edits in {F.tag}", n, 6)
