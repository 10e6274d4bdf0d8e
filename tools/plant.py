#!/usr/bin/env python3
"""plant.py SPEC.py...: make /verif/seeded/<ID> from a spec (ID, PROP, NEEDS, BREAKS, EDITS, DEMO, optional DEPS), after
confirming in /repo's working tree (undone straight afterwards): builds, stable tests pass, demo fails with it, demo passes
without it. Also says which check catches it. Options: --nocheck, --notest."""
import json, os, re, subprocess, sys, shutil
V = "/verif"; R = "/repo"
FEATS = {"ass-core": "", "ass-editor": "", "ass-renderer": ""}
SH = '''#!/bin/bash
# builds the demonstration against the crates of the current directory (/repo) in a scratch directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$here/main.rs" "$T/src/main.rs"; cp "$repo/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ass-core = { path = "$repo/crates/ass-core"%s }
ass-editor = { path = "$repo/crates/ass-editor"%s }
ass-renderer = { path = "$repo/crates/ass-renderer"%s }
E
sed -i '%s' "$T/Cargo.toml"
cd "$T"
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target} CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
cargo build --offline -q 2>"$T/log" || { tail -20 "$T/log"; exit 2; }
exec_ok=0; timeout 120 "$CARGO_TARGET_DIR/debug/demo" || exec_ok=$?
exit $exec_ok
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(path):
    g = {}; exec(open(path).read(), g)
    d = f"{V}/seeded/{g['ID']}"; os.makedirs(d, exist_ok=True)
    use = g.get("DEPS", ["ass-core"])
    drop = ";".join(f"/^{k} =/d" for k in FEATS if k not in use) or ";"
    fe = g.get("FEATURES", {})
    ff = [(", " + fe[k]) if k in fe else "" for k in FEATS]
    open(f"{d}/main.rs", "w").write(g["DEMO"])
    open(f"{d}/demo.sh", "w").write(SH % (*ff, drop)); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "dirty /repo"
    env = dict(os.environ, DEMO_TARGET="/tmp/demotarget")
    r0 = sh(f"bash {d}/demo.sh", cwd=R, env=env)
    print(g["ID"], "demo unchanged:", r0.returncode, r0.stdout.strip()[-300:])
    try:
        for f, a, b in g["EDITS"]:
            p = f"{R}/crates/{f}"; s = open(p).read()
            assert s.count(a) >= 1, ("missing", f, a[:80])
            open(p, "w").write(s.replace(a, b, 1))
        diff = subprocess.run(f"git -C {R} diff", shell=True, stdout=subprocess.PIPE, text=True).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        # every removed line must come from the original repository
        for m in re.finditer(r"^--- a/(.*)$", diff, re.M):
            base = sh(f"git -C {R} show $(git -C {R} rev-list --max-parents=0 HEAD | tail -1):{m.group(1)}").stdout.split("\n")
            sect = diff.split(f"--- a/{m.group(1)}")[1].split("\ndiff --git")[0]
            own = [l[1:] for l in sect.split("\n") if l.startswith("-") and l[1:] not in base and l.strip("-").strip()]
            if own: print("   WARNING: removed lines not of the original:", own[:2])
        r1 = sh(f"bash {d}/demo.sh", cwd=R, env=env)
        print("   demo patched:", r1.returncode, r1.stdout.strip()[-300:])
        if "--notest" not in sys.argv:
            r2 = sh(f"(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json) >/tmp/b.log 2>&1; python3 /tmp/cmp.py")
            print("   tests:", r2.stdout.strip()[-300:])
        if "--nocheck" not in sys.argv:
            r3 = sh(f"python3 {V}/check.py {g['PROP']}")
            print("   check:", r3.returncode, "\n".join(l[:240] for l in r3.stdout.splitlines() if not l.startswith(g["PROP"] + ":"))[:700])
    finally:
        subprocess.run(f"git -C {R} checkout -q -- .", shell=True)
for p in [a for a in sys.argv[1:] if not a.startswith("--")]: one(p)
