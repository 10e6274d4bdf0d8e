"""Fact base: MIR of the workspace crates as dumped by driver/ (one instance per feature config)."""
import json, os, re, sys
from collections import defaultdict

class Fn:
    __slots__ = ("d", "id", "kind", "file", "line", "name", "blocks", "locals", "argc", "crate", "promoted",
                 "parent", "trait", "selfty", "names", "_pred", "_succ", "_dom", "_pdom", "_rpo", "pub", "derived", "intrait", "_defs", "sig")
    def __init__(self, d, crate):
        self.d = d; self.id = d["id"]; self.kind = d["kind"]; self.file = d["file"]; self.line = d["line"]
        self.name = d["name"]; self.blocks = d.get("blocks", []); self.locals = d.get("locals", []); self.argc = d.get("argc", 0)
        self.crate = crate; self.promoted = d.get("promoted", []); self.parent = d.get("parent")
        self.trait = d.get("trait"); self.selfty = d.get("self"); self.names = d.get("names", {})
        self.pub = d.get("pub"); self.derived = d.get("derived"); self.intrait = d.get("intrait"); self.sig = d.get("sig", "")
        self._pred = self._succ = self._dom = self._pdom = self._rpo = self._defs = None

    # ---- CFG (unwind edges excluded) ----
    def succ(self, b):
        if self._succ is None:
            self._succ = [term_succ(bl["t"]) for bl in self.blocks]
        return self._succ[b]
    def preds(self):
        if self._pred is None:
            p = defaultdict(list)
            for b in range(len(self.blocks)):
                if self.blocks[b].get("c"): continue
                for s in self.succ(b): p[s].append(b)
            self._pred = p
        return self._pred
    def rpo(self):
        if self._rpo is None:
            seen = set(); out = []
            st = [(0, iter(self.succ(0)))] if self.blocks else []
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(self.succ(s)))); break
                else:
                    out.append(b); st.pop()
            self._rpo = out[::-1]
        return self._rpo
    def dom(self):
        """immediate dominators over reachable non-unwind CFG"""
        if self._dom is None:
            rpo = self.rpo(); idx = {b: i for i, b in enumerate(rpo)}; pr = self.preds()
            idom = {rpo[0]: rpo[0]} if rpo else {}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    ps = [p for p in pr[b] if p in idom]
                    n = ps[0]
                    for p in ps[1:]:
                        a, c = n, p
                        while a != c:
                            while idx[a] > idx[c]: a = idom[a]
                            while idx[c] > idx[a]: c = idom[c]
                        n = a
                    if idom.get(b) != n: idom[b] = n; ch = True
            self._dom = idom
        return self._dom
    def dominates(self, a, b):
        d = self.dom()
        if b not in d: return False
        while True:
            if a == b: return True
            n = d[b]
            if n == b: return False
            b = n
    def calls(self):
        for b in self.rpo():
            t = self.blocks[b]["t"]
            if t[0] == "call": yield b, t
    def stmts(self):
        for b in self.rpo():
            for i, s in enumerate(self.blocks[b]["s"]): yield b, i, s

def term_succ(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch":
        r = []
        for _, b in t[2]:
            if b not in r: r.append(b)
        if t[3] not in r: r.append(t[3])
        return r
    if k == "drop": return [t[3]]
    if k == "call": return [t[4]] if t[4] >= 0 else []
    if k == "assert": return [t[5]]
    return []

class Facts:
    def __init__(self, directory, tag, crates=("ass_core", "ass_editor", "ass_renderer")):
        self.tag = tag; self.fns = {}; self.adts = {}; self.impls = []; self.traits = {}; self.unsafe = []; self.dups = []
        for c in crates:
            p = os.path.join(directory, f"{c}.{tag}.jsonl")
            if not os.path.exists(p): continue
            ended = False
            with open(p) as f:
                for line in f:
                    d = json.loads(line); k = d["k"]
                    if k == "fn":
                        if d["id"] in self.fns: self.dups.append(d["id"]); d["id"] += "#%d" % len(self.dups)
                        self.fns[d["id"]] = Fn(d, c)
                    elif k == "adt": self.adts[d["id"]] = d
                    elif k == "impl": self.impls.append(d)
                    elif k == "trait": self.traits[d["id"]] = d
                    elif k == "unsafe": self.unsafe.append(d)
                    elif k == "end": ended = True
            if not ended: raise SystemExit(f"facts for {c}.{tag} incomplete")
        self.children = defaultdict(list)
        for f in self.fns.values():
            if f.parent: self.children[f.parent].append(f.id)
        # trait method -> impls
        self.trait_impls = defaultdict(list)
        for f in self.fns.values():
            if f.trait: self.trait_impls[f"{f.trait}::{f.name}"].append(f.id)
        self._cg = None

    def norm(self, i):
        return i

    def callees(self, fid):
        """every local or external function a body may invoke or hand out (calls, closures built, fn items mentioned)."""
        f = self.fns[fid]; out = []
        bodies = [f.blocks] + [p.get("blocks", []) for p in f.promoted]
        for blocks in bodies:
            for bl in blocks:
                for s in bl["s"]:
                    self._fnrefs(s, out)
                t = bl["t"]
                if t[0] == "call":
                    c = t[1]
                    if "fn" in c:
                        out.extend(self.targets(c["fn"]))
                        for x in c.get("fa", ()): out.extend(self.targets(x))
                    self._fnrefs(t[2], out)
                elif t[0] == "drop":
                    out.append("drop:" + t[2])
        return out
    def targets(self, n):
        """possible bodies of a named callee (dyn and unresolved trait calls expand to every impl)"""
        if n.startswith("dyn "): n = n[4:]
        f = self.fns.get(n)
        if f is not None and not f.intrait: return [n]
        return [n] + self.trait_impls.get(n, [])
    def _fnrefs(self, x, out):
        if isinstance(x, list):
            if len(x) > 1 and x[0] == "agg" and isinstance(x[1], str) and x[1].startswith("closure"):
                pass
            for y in x: self._fnrefs(y, out)
        elif isinstance(x, dict):
            if "fn" in x: out.extend(self.targets(x["fn"]))
            if "closure" in x: out.append(x["closure"])
            if "const" in x: out.append(x["const"])
            if "static" in x: out.append(x["static"])
    def cg(self):
        if self._cg is None:
            self._cg = {}
            for fid in self.fns:
                seen = []
                for c in self.callees(fid):
                    if c not in seen: seen.append(c)
                # closures nested in a body are considered invoked by it
                for c in self.children.get(fid, ()):
                    if c not in seen: seen.append(c)
                self._cg[fid] = seen
        return self._cg
    def reach(self, roots):
        cg = self.cg(); seen = {}; st = [(r, None) for r in roots]
        while st:
            x, p = st.pop()
            if x in seen: continue
            seen[x] = p
            if x in cg:
                for c in cg[x]:
                    if c not in seen: st.append((c, x))
        return seen
