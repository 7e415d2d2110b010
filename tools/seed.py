#!/usr/bin/env python3
"""Make planted bugs: seed.py SPEC.py [ID...]

SPEC.py calls B(id, property, edits, demo, needs, breaks) for each bug. For each one the patch is
made in a scratch copy of /repo, and kept under /verif/seeded/ID only if it builds, the stable
tests pass, and the demonstration passes without and fails with it."""
import json, os, re, subprocess, sys, shutil
SCRATCH = "/tmp/seedrepo"
OUT = "/verif/seeded"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
DEMO = '''#!/bin/bash
# Run in the repository. Exits 0 if the property holds for the case in main.rs.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/crate/src" "$tmp/work"
cp "$here/main.rs" "$tmp/crate/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/crate/Cargo.lock"
cat >"$tmp/crate/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
over = { path = "$repo" }
num-bigint = "0.2"
num-rational = "0.2"
num-traits = "0.2"
END
cd "$tmp/crate" || exit 2
export CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target} CARGO_NET_OFFLINE=true
cargo build -q --offline >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
export RUST_BACKTRACE=0
cd "$tmp/work" && timeout -s KILL 120 "$CARGO_TARGET_DIR/debug/demo"
'''
ASAN = DEMO.replace('cargo build -q --offline', 'export RUSTFLAGS=-Zsanitizer=address ASAN_OPTIONS=detect_leaks=0\ncargo +nightly build -q --offline --target x86_64-unknown-linux-gnu').replace('$CARGO_TARGET_DIR/debug/demo', '$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/demo')
bugs = []
def B(id, prop, edits, demo, needs, breaks, asan=False): bugs.append((id, prop, edits, demo, needs, breaks, asan))
def sh(cmd, cwd=None, timeout=600, **env):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")
def orig_lines():
    """Lines of each file at HEAD that are the original's."""
    own = {}
    for f in sh("git ls-files src", SCRATCH)[1].split():
        out = sh(f"git blame -s {f}", SCRATCH)[1].splitlines()
        own[f] = out
    return own
def stable(cwd):
    rc, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd)
    ok = set(re.findall(r"^test (\S+?)(?: - .*)? \.\.\. ok", out, re.M))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [t for t in base if not t.startswith("doc:") and t.split("::", 2 if t.startswith("over:") else 1)[-1].split("::")[-1] not in {o.split("::")[-1] for o in ok}]
    if "most_specific" not in out or re.search(r"most_specific.*FAILED", out): miss.append("doc")
    return miss, out
def run(b):
    id, prop, edits, demo, needs, breaks, asan = b
    sh("git checkout -q -- . && git clean -qfd src", SCRATCH)
    d = f"/tmp/seedout/{id}"
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(ASAN if asan else DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(demo)
    tgt = "/tmp/seedtarget-asan" if asan else "/tmp/seedtarget"
    rc, out = sh(f"bash {d}/demo.sh", SCRATCH, DEMO_TARGET=tgt)
    if rc: return f"demo fails on the unchanged tree ({rc}):\n{out[-1500:]}"
    for e in edits:
        f, old, new = e[:3]; n = e[3] if len(e) > 3 else 1
        p = f"{SCRATCH}/src/{f}"; s = open(p).read()
        if s.count(old) != n: return f"{f}: {s.count(old)} matches, not {n}: {old!r}"
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff", SCRATCH)
    open(d + "/patch.diff", "w").write(diff)
    # removed lines must be the original's
    own = []
    cur = None; ln = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: ln = int(m.group(1)) - 1; continue
        if l.startswith("---") or l.startswith("+++"): continue
        if l.startswith("-"):
            ln += 1
            bl = sh(f"git blame -s -l -L {ln},{ln} HEAD -- {cur}", SCRATCH)[1]
            if not (bl.startswith("^") or sh(f"git merge-base --is-ancestor {bl.split()[0]} d105c25", SCRATCH)[0] == 0): own.append(bl.strip())
        elif l.startswith(" "): ln += 1
    miss, out = stable(SCRATCH)
    if miss: return f"stable tests fail: {miss}\n{out[-1500:] if 'error' in out else ''}"
    rc, out = sh(f"bash {d}/demo.sh", SCRATCH, DEMO_TARGET=tgt)
    if rc == 0: return "demo passes with the change"
    if rc in (2, 3): return f"demo does not build with the change: {out[-800:]}"
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    note = f" (demo rc={rc}: {out.strip()[-160:]!r})"
    if own: note += f" NOTE own lines: {own}"
    dst = f"{OUT}/{id}"
    if os.path.isdir(dst): shutil.rmtree(dst)
    shutil.copytree(d, dst)
    return "kept" + note
if __name__ == "__main__":
    spec = sys.argv[1]; want = sys.argv[2:]
    if not os.path.isdir(SCRATCH): sh(f"cp -a /repo {SCRATCH}")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", SCRATCH)
    exec(compile(open(spec).read(), spec, "exec"))
    for b in bugs:
        if want and b[0] not in want: continue
        print(b[0], "->", run(b), flush=True)
    sh("git checkout -q -- .", SCRATCH)
