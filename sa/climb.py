"""Restating value slices one call level up: parameter atoms of a body are replaced by what its callers pass."""
class Climb:
    def __init__(self, F, D, scope=None):
        self.F = F; self.D = D; self.callers = {}
        for g in F.fns.values():
            if scope is not None and g.id not in scope: continue
            for b, t in g.calls():
                fn = t[1].get("fn")
                if not fn: continue
                for x in F.targets(fn):
                    if x in F.fns: self.callers.setdefault(x, []).append((g, b, t))
            for b, i, s in g.stmts():
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure": self.callers.setdefault(s[2][2], []).append((g, b, (i, s)))
    def up(self, f, sets):
        """[(caller, line, [restated sets])] for every place that invokes or builds f"""
        out = []
        for (g, b, t) in self.callers.get(f.id, ()):
            if isinstance(t, tuple):
                i, s = t; names, ops = s[2][3], s[2][4]
                r = []
                for at in sets:
                    n = set()
                    for a in at:
                        if a[0] == "g": n |= {("g", x) if x[0] != "g" else x for x in (self.D.subst_closure(g, a[1], names, ops, b, i, set()) if a[1][0] == "p" and a[1][1] == 0 else {a[1]})}
                        elif a[0] == "p" and a[1] == 0: n |= self.D.subst_closure(g, a, names, ops, b, i, set())
                        elif a[0] == "p": n.add(("clarg", f.id, a[1]))
                        else: n.add(a)
                    r.append(n)
                out.append((g, s[-1] if isinstance(s[-1], int) else g.line, r)); continue
            if f.kind == "closure": continue
            fn, args = self.D.args_of(t); i = len(g.blocks[b]["s"]); r = []
            for at in sets:
                n = set()
                for a in at:
                    if a[0] == "g" and a[1][0] == "p":
                        if a[1][1] < len(args): n |= {("g", x) if x[0] != "g" else x for x in self.D.evalarg(g, args[a[1][1]], b, i, a[1][2], set())}
                    elif a[0] == "p":
                        if a[1] < len(args): n |= self.D.evalarg(g, args[a[1]], b, i, a[2], set())
                    else: n.add(a)
                r.append(n)
            out.append((g, t[-1], r))
        return out
