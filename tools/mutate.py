#!/usr/bin/env python3
"""Systematic small mutations of crevice: which of them pass the stable tests,
and does any check notice those?

  mutate.py survive OUT [LANE/N]    mutants that build and pass the stable tests -> OUT (json lines)
  mutate.py checks OUT RES [LANE/N] runs the simulator's properties, shortened, against each of them
"""
import json, os, re, subprocess, sys, shutil, hashlib, time

FILES = ["src/std140/writer.rs", "src/std430/writer.rs", "src/std140/sizer.rs", "src/std430/sizer.rs",
         "src/std140/traits.rs", "src/std430/traits.rs", "src/std140/primitives.rs", "src/std430/primitives.rs",
         "src/std140/dynamic_uniform.rs", "src/bool.rs", "src/util.rs", "src/internal.rs", "src/glsl.rs",
         "src/imp/imp_mint.rs", "src/imp/imp_cgmath.rs", "src/imp/imp_glam.rs", "src/imp/imp_nalgebra.rs",
         "crevice-derive/src/lib.rs", "crevice-derive/src/layout.rs", "crevice-derive/src/glsl.rs"]
SWAPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " = "), (r" % ", " / "), (r" == ", " != "), (r" != ", " == "),
         (r" > ", " >= "), (r" > ", " < "), (r" < ", " <= "), (r" \|\| ", " && "), (r" && ", " || "),
         (r"\btrue\b", "false"), (r"\.fuse\(\)", ""), (r"\bfor item in iter\b", "for item in iter.skip(1)"),
         (r"(\w[\w.]*\(.*\))\?;", r"let _ = \1;"), (r"\bf32\b", "f64"), (r"\bf64\b", "f32"), (r"\bi32\b", "u32"), (r"\bu32\b", "i32"),
         (r"\bVector2\b", "Point2"), (r"\bx, y\b", "y, x"), (r"\by, z\b", "z, y"), (r"\bz, w\b", "w, z"), (r"as u32", "as u8 as u32"),
         (r"\bself\.offset\b", "0"), (r"\bself\.\$field\b", "self.x"), (r"write_all", "write"), (r"size_of::<T>\(\)", "size_of_val(&value)"),
         (r"\.unraw\(\)", ""), (r"index \+ 1", "index"), (r"\.unwrap_or\(quote!\(#struct_alignment\)\)", ".unwrap_or(quote!(0usize))"),
         (r"\bmax\(", "min("), (r"\"std140\", 16", "\"std140\", 0"), (r"\"std430\", 0", "\"std430\", 16"), (r"vec(\d) (I|U|B|D)Vec\d", r"vec\1 \2Vec\1")]


def mutants(repo):
    for f in FILES:
        text = open(f"{repo}/{f}").read()
        stop = text.find("#[cfg(test)]")
        lines = text.split("\n")
        pos, depth, doc = 0, 0, False
        for i, l in enumerate(lines):
            at = pos
            pos += len(l) + 1
            if 0 <= stop <= at:
                break
            t = l.strip()
            if t.startswith("/**"):
                doc = True
            if doc:
                doc = "*/" not in t
                continue
            if not t or t.startswith(("//", "#[doc", "use ", "*/", "mod ", "#![")):
                if not t.startswith("#[doc"):
                    continue
            seen = set()

            def put(new):
                if new != l and new not in seen:
                    seen.add(new)
                    yield (f, i, l, new)
            for a, b in SWAPS:
                for m in re.finditer(a, l):
                    yield from put(l[:m.start()] + m.expand(b) + l[m.end():])
            for m in re.finditer(r"(?<![\w.\"])\d+(?![\w.])", l):
                n = int(m.group())
                for v in {n + 1, max(n - 1, 0), n // 2, n * 2}:
                    yield from put(l[:m.start()] + str(v) + l[m.end():])
            m = re.match(r"\s+(\w+): (\w+),$", l)
            if m and re.match(r"I?U?D?B?Vec\d", m.group(2)):
                for v in "234":
                    yield from put(l.replace(m.group(2), m.group(2)[:-1] + v))
            if t.endswith(";") and not t.startswith(("let ", "type ", "const ", "pub ", "}", "impl", "return")):
                yield from put("")
            if re.match(r"(mint|glam|cgmath|nalgebra)::.*=>", t):
                g = re.sub(r"(\d)(<|,)", lambda k: str(2 + (int(k.group(1)) - 1) % 3) + k.group(2), l)
                yield from put(g)


def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", INSTA_UPDATE="no", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", VK_DRIVER_FILES="/usr/share/vulkan/icd.d/lvp_icd.json",
             VK_ICD_FILENAMES="/usr/share/vulkan/icd.d/lvp_icd.json", MESA_SHADER_CACHE_DISABLE="true")
    e.update(env or {})
    try:
        p = subprocess.run(["timeout", "-k", "5", str(timeout), "bash", "-c", cmd], cwd=cwd, env=e, capture_output=True, text=True, errors="replace")
    except Exception as x:
        return 99, str(x)
    return p.returncode, p.stdout + p.stderr


def tests(repo, scr):
    c, o = sh("cargo build --offline -p crevice --features test-all-math-libraries 2>&1", repo, 120)
    if c:
        return "build"
    c1, a = sh("cargo test --workspace --features test-all-math-libraries --no-fail-fast --offline -- --test-threads 4 2>&1", repo, 240)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    open(scr + "/main.log", "w").write(a)

    def passed(*logs):
        sh(f"python3 /opt/vp/results.py {scr}/o.json " + " ".join("cargo:" + l for l in logs), repo)
        try:
            return set(json.load(open(scr + "/o.json")).get("passed", []))
        except Exception:
            return set()
    if re.search(r"^test .* \.\.\. FAILED|error: could not compile|panicked", a, re.M):
        return "tests"
    c2, b = sh("cargo test -p crevice-tests --features wgpu-validation --no-fail-fast --offline -- --test-threads 4 2>&1", repo, 240)
    b = re.sub(r"^( +Running .*/)crevice_tests-", r"\1crevice_tests_wgpu-", b, flags=re.M)
    open(scr + "/wgpu.log", "w").write(b)
    miss = stable - passed(scr + "/main.log", scr + "/wgpu.log")
    return "tests" if miss else "survives"


def copy(scr):
    repo = scr + "/repo"
    if not os.path.isdir(repo):
        os.makedirs(scr, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", repo])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    subprocess.check_call(["git", "-C", repo, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", repo, "reset", "-q", "--hard", head])
    return repo


def apply(repo, m):
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    f, i, old, new = m
    ls = open(f"{repo}/{f}").read().split("\n")
    assert ls[i] == old, (ls[i], old)
    ls[i] = new
    open(f"{repo}/{f}", "w").write("\n".join(ls))


def main():
    what, out = sys.argv[1:3]
    lane, n = (sys.argv[-1].split("/") + ["1"])[:2] if re.match(r"\d+/\d+$", sys.argv[-1]) else ("0", "1")
    scr = f"/tmp/mut{lane}"
    repo = copy(scr)
    mine = lambda k: k % int(n) == int(lane)
    if what == "list":
        for m in mutants(repo):
            print(m)
    if what == "survive":
        for k, m in enumerate(list(mutants(repo))):
            if not mine(k):
                continue
            apply(repo, m)
            r = tests(repo, scr)
            with open(out, "a") as f:
                f.write(json.dumps({"k": k, "m": m, "r": r}) + "\n")
    if what == "checks":
        res = sys.argv[3]
        ms = [json.loads(l) for l in open(out)]
        ms = [m for m in ms if m["r"] == "survives"]
        # There are very many of these, and they are much alike.
        ms = [m for m in ms if not ("primitives" in m["m"][0] or "/imp_" in m["m"][0]) or m["k"] % 4 == 1]
        v = scr + "/verif"
        os.makedirs(v, exist_ok=True)
        subprocess.check_call(f"rm -rf {v}/sim && cp -a /verif/sim {v}/sim", shell=True)
        p = f"{v}/sim/Cargo.toml"
        s = open(p).read()
        open(p, "w").write(s.replace('"/repo"', f'"{repo}"'))
        for j, d in enumerate(ms):
            if not mine(j):
                continue
            apply(repo, d["m"])
            env = {"SIM_SCHEMA_SEED": "1", "SIM_CORPUS": "24", "CARGO_TARGET_DIR": scr + "/target", "CARGO_INCREMENTAL": "0"}
            sh("touch " + repo + "/src/lib.rs " + repo + "/crevice-derive/src/lib.rs", repo)
            c, o = sh("cargo build --offline --profile sim 2>&1", v + "/sim", 600, env)
            hits = {}
            if c:
                hits["build"] = o[-600:]
            else:
                for prop, runs in [("C01", 30000), ("C02", 30000), ("C03", 30000), ("C04", 20000), ("C05", 20000), ("C06", 20000), ("C07", 20000), ("C08", 2000), ("C09", 10000), ("C10", 10000), ("C11", 10000)]:
                    c, o = sh(f"{scr}/target/sim/crevice-sim check --prop {prop} --runs {runs} --seed 1 --known /verif/known-findings.txt", v, 120, env)
                    if c:
                        # One that notices is enough.
                        mm = re.search(r'"msg": "(.*)"', o)
                        hits[prop] = (mm.group(1) if mm else o[-300:])[:200]
                        break
            with open(res, "a") as f:
                f.write(json.dumps({"m": d["m"], "hits": hits}) + "\n")


main()
