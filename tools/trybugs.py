#!/usr/bin/env python3
"""Runs the checks against planted bugs in copies of /repo and /verif.

  trybugs.py [--all-props] [--lane N] ID...|all
"""
import json, os, re, shutil, subprocess, sys, time

args = sys.argv[1:]
every = "--all-props" in args
lane = "0"
if "--lane" in args:
    i = args.index("--lane"); lane = args[i + 1]; del args[i:i + 2]
args = [a for a in args if not a.startswith("--")]
D = f"/tmp/try{lane}"
names = sorted(os.listdir("/verif/seeded")) if args == ["all"] else args
os.makedirs(D, exist_ok=True)
subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", D + "/repo/"]) if shutil.which("rsync") else subprocess.check_call(f"rm -rf {D}/repo && mkdir -p {D}/repo && cd /repo && git archive HEAD | tar x -C {D}/repo && cd {D}/repo && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True)
os.makedirs(D + "/verif", exist_ok=True)
for f in ("check", "known-findings.txt", "MANIFEST.json"):
    shutil.copy("/verif/" + f, D + "/verif/" + f)
subprocess.check_call(f"rm -rf {D}/verif/sim && cp -a /verif/sim {D}/verif/sim", shell=True)
for f in ("check", "sim/Cargo.toml"):
    p = f"{D}/verif/{f}"
    s = open(p).read()
    open(p, "w").write(s.replace('"/repo"', f'"{D}/repo"'))
res = {}
for n in names:
    subprocess.check_call(["git", "-C", D + "/repo", "checkout", "-q", "--", "."])
    patch = f"/verif/seeded/{n}/patch.diff"
    prop = json.load(open(f"/verif/seeded/{n}/meta.json"))["property"]
    if subprocess.call(["git", "-C", D + "/repo", "apply", patch]):
        print(n, "PATCH DOES NOT APPLY"); continue
    props = [prop] + ([f"C{k:02d}" for k in range(1, 12) if f"C{k:02d}" != prop] if every else [])
    row = []
    for p in props:
        cmd = [D + "/verif/check", p] + (["--runs", "20000"] if p != prop else [])
        t = time.time()
        r = subprocess.run(cmd, capture_output=True, text=True, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        v = [l for l in r.stdout.splitlines() if l.startswith("violation of")]
        tag = {0: "quiet", 1: "CAUGHT", 2: "error"}.get(r.returncode, str(r.returncode))
        if p == prop:
            print(f"{n} [{p}] {tag} {time.time() - t:.0f}s {v[0][:260] if v else r.stderr[-600:] if r.returncode != 0 else r.stderr[-200:]}", flush=True)
            if r.returncode == 1 and v:
                m = re.search(r"replay=(\S+)", r.stdout)
                rp = subprocess.run([D + "/verif/check", "replay", m.group(1)], capture_output=True, text=True)
                print("   replay:", rp.returncode, [l for l in rp.stdout.splitlines() if l.startswith("exactly")], os.path.getsize(m.group(1)), flush=True)
        elif r.returncode:
            row.append(p + ("" if r.returncode == 1 else "(error)"))
    if every:
        print("   also:", row, flush=True)
subprocess.check_call(["git", "-C", D + "/repo", "checkout", "-q", "--", "."])
