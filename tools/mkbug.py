#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from bugs.py: applies the edits in a scratch copy
of /repo, builds, runs the stable tests, runs the demonstration with and
without the change, and keeps the bug only if all of that is as it should be.

  mkbug.py ID...|all
"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS

SCR = "/tmp/bugscratch"
REPO = SCR + "/repo"
SEEDED = "/verif/seeded"
DEMO = '''#!/bin/bash
# Exit 0: the property holds in this demonstration. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
unset CARGO_TARGET_DIR RUSTFLAGS RUSTDOCFLAGS
export CARGO_NET_OFFLINE=true
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
crevice = { path = "$repo"FEATURES }
bytemuck = "1"
mint = "0.5.9"
EXTRA
EOF
cd "$d" || exit 3
timeout 200 cargo run --quiet --offline
'''

MIRI = """env -u RUSTUP_TOOLCHAIN MIRIFLAGS="-Zmiri-disable-stacked-borrows" MIRI_SYSROOT=/root/.cache/miri cargo +nightly miri run --quiet --offline"""

def sh(cmd, cwd=None, timeout=900):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", INSTA_UPDATE="no", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             VK_DRIVER_FILES="/usr/share/vulkan/icd.d/lvp_icd.json", VK_ICD_FILENAMES="/usr/share/vulkan/icd.d/lvp_icd.json",
             MESA_SHADER_CACHE_DISABLE="true")
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def stable_tests():
    c1, a = sh("cargo test --workspace --features test-all-math-libraries --no-fail-fast --offline -- --test-threads 8 2>&1", REPO)
    c2, b = sh("cargo test -p crevice-tests --features wgpu-validation --no-fail-fast --offline -- --test-threads 4 2>&1", REPO)
    b = re.sub(r"^( +Running .*/)crevice_tests-", r"\1crevice_tests_wgpu-", b, flags=re.M)
    open(SCR + "/main.log", "w").write(a); open(SCR + "/wgpu.log", "w").write(b)
    sh(f"python3 /opt/vp/results.py {SCR}/o.json cargo:{SCR}/main.log cargo:{SCR}/wgpu.log")
    o = json.load(open(SCR + "/o.json"))
    return o, a + b

def main():
    want = sys.argv[1:]
    names = list(BUGS) if want == ["all"] else want
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    if not os.path.isdir(REPO):
        os.makedirs(SCR, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", REPO])
    subprocess.check_call(["git", "-C", REPO, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", REPO, "reset", "-q", "--hard", head])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = []
    for n in names:
        b = BUGS[n]
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
        d = f"{SEEDED}/{n}"
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(b["demo"])
        feats = b.get("features", [])
        open(d + "/demo.sh", "w").write(DEMO.replace("FEATURES", ", features = " + json.dumps(feats) if feats else "").replace("EXTRA", "\n".join(b.get("deps", []))).replace("cargo run --quiet --offline", MIRI if b.get("miri") else "cargo run --quiet --offline" + (" --release" if b.get("release") else "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        c, o = sh(f"bash {d}/demo.sh", REPO)
        if c != 0:
            bad.append(n); print(n, "DEMO FAILS ON CLEAN", o[-2500:]); continue
        for f, old, new in b["edits"]:
            s = open(f"{REPO}/{f}").read()
            assert s.count(old) == 1, (n, f, s.count(old), old)
            open(f"{REPO}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", REPO, "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        c, o = sh(f"bash {d}/demo.sh", REPO)
        if c == 0 or "error: could not compile" in o:
            bad.append(n); print(n, "DEMO PASSES WITH PATCH" if c == 0 else "DEMO DOES NOT COMPILE", o[-2500:]); continue
        demo_out = o.strip().split("\n")
        r, t = stable_tests()
        ok = set(r.get("passed", []))
        miss = stable - ok
        if miss:
            bad.append(n); print(n, "TESTS FAIL", sorted(miss)[:5], t[-1500:] if len(miss) > 20 else ""); continue
        print(n, "ok:", [l for l in demo_out if "panicked" not in l and l.strip()][:2])
        sys.stdout.flush()
    subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    print("bad:", bad)

main()
