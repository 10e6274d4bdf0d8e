"""Shared frame of every check: extraction of facts from /repo's current tree, reporting, evidence, known findings."""
import json, os, re, subprocess, sys, time, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
from facts import Facts

class Check:
    def __init__(self, pid, tier="quick"):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.viol = {}      # key -> (message, location)
        self.counts = {}    # evidence counters
        self.oblig = 0; self.disch = 0
        self.samples = []; self.notes = []
        self.configs = []; self.assumptions = []; self.trusted = []
        self.rule = ""
        self.level = "other"
        self.factsdir = None

    # ----- facts -----
    def load(self, configs=("A", "B", "C")):
        d = os.environ.get("FACTS_REUSE")
        if d:
            self.factsdir = d
        else:
            d = tempfile.mkdtemp(prefix="facts.", dir=self._cache())
            self.factsdir = d
            have = []
            for cf in configs:
                r = subprocess.run([os.path.join(V, "tools", "extract.sh"), d, cf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 0: have.append(cf)
                elif cf != configs[0]: print(f"NOTE property={self.pid} feature set {cf} does not compile and was not analysed"); self.counts[f"feature set {cf} not compiling"] = 1
                else: break
            if have: configs = tuple(have); r.returncode = 0
            if r.returncode != 0:
                sys.stderr.write(r.stdout)
                print(f"ERROR property={self.pid} /repo's current tree could not be analysed (exit {r.returncode})")
                shutil.rmtree(d, ignore_errors=True)
                sys.exit(2)
        out = []
        for c in configs:
            out.append(Facts(d, c)); self.configs.append(c)
        if not os.environ.get("FACTS_REUSE"): shutil.rmtree(d, ignore_errors=True)
        self.counts["functions_loaded"] = {f.tag: len(f.fns) for f in out}
        return out
    def _cache(self):
        p = os.path.join(V, ".cache"); os.makedirs(p, exist_ok=True); return p

    # ----- obligations -----
    def ok(self, sample=None, n=1):
        self.oblig += n; self.disch += n
        if sample and len(self.samples) < 40 and sample not in self.samples: self.samples.append(sample)
    def bad(self, key, msg, loc=""):
        self.oblig += 1
        if key not in self.viol: self.viol[key] = (msg, loc)
    def need(self, cond, key, msg, loc=""):
        if cond: self.ok()
        else: self.bad(key, msg, loc)
        return cond
    def floor(self, name, got, least):
        self.counts[name] = got
        if got < least:
            self.bad(f"floor:{name}", f"analysed only {got} {name}, expected at least {least}: an anchor of the rule is missing")
        else: self.ok()
    def count(self, name, n): self.counts[name] = n

    # ----- finish -----
    def finish(self):
        known = load_known(self.pid)
        new = {k: v for k, v in self.viol.items() if k not in known}
        old = {k: v for k, v in self.viol.items() if k in known}
        ev = os.path.join(V, "evidence"); os.makedirs(ev, exist_ok=True)
        replay = os.path.join(ev, f"{self.pid}.violations.txt")
        if new:
            with open(replay, "w") as f:
                f.write(f"rule: {self.rule}\n")
                for k, (m, l) in sorted(new.items()): f.write(f"{k}\n    {l}\n    {m}\n")
        elif os.path.exists(replay): os.remove(replay)
        wall = round(time.time() - self.t0, 2)
        for k, (m, l) in sorted(old.items()):
            print(f"KNOWN-FINDING: property={self.pid} {k}: {m} [{l}]")
        doc = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.level,
            "coverage": {
                "obligations": self.oblig, "discharged": self.disch,
                "checker_cmd": f"python3 /verif/check.py {self.pid} --tier {self.tier}",
                "trusted_base": ["rustc nightly MIR construction and trait resolution", "driver/src/main.rs (fact dump)",
                                 "sa/*.py rule engine"] + self.trusted,
                "explanation": "static analysis of the compiler's MIR of /repo's current tree; every obligation listed in counts was generated from that tree and decided by the rule: " + self.rule,
                "rule": self.rule, "configs": self.configs, "counts": self.counts,
                "known_findings": sorted(old), "samples": self.samples[:40],
            },
            "assumptions": self.assumptions, "wall_s": wall,
        }
        if new: doc["violations"] = [f"{k}: {m} [{l}]" for k, (m, l) in sorted(new.items())]
        with open(os.path.join(ev, f"{self.pid}.json"), "w") as f: json.dump(doc, f, indent=1, default=str)
        print(f"{self.pid}: {self.disch}/{self.oblig} obligations discharged in configs {','.join(self.configs)} ({wall}s); counts {json.dumps(self.counts)}")
        if new:
            for k, (m, l) in sorted(new.items()):
                print(f"  {k}: {m} [{l}]")
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        return 0

def load_known(pid):
    out = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S.*?) :: (.*)", line.strip())
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def short(i):
    """readable function name without line numbers"""
    i = re.sub(r"<impl ([^>]*?)(?:<[^<>]*>)?>", lambda m: "<" + m.group(1).split("::")[-1] + ">", i)
    parts = re.split(r"::(?![^<]*>)", i)
    return "::".join(parts[-3:])
def loc(f, line=None): return f"{f.file}:{line if line else f.line} in {f.id}"
