#!/usr/bin/env python3
"""Decide one property: compile its harnesses together with /repo's current source to LLVM IR,
execute them symbolically (engine/), replay any counterexample natively, write the evidence file.

usage: run.py PROP [--only HARNESS] [--keep]     (VERIF_TIER=quick|thorough)
Exit 0: holds on everything explored; 1: VIOLATION printed; 2: the check could not decide.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ENGINE = os.path.join(V, "engine")
TOOLCHAIN = "stable"
T0 = time.time()
EXTRA = ("C31", "C32", "C33", "C34")


def sh(cmd, env=None, cwd=None, timeout=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def build_engine():
    exe = os.path.join(V, "build", "symex")
    srcs = [os.path.join(ENGINE, f) for f in ("symex.cpp", "ir.cpp", "expr.cpp", "ir.h", "expr.h")]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in srcs):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    rc, out = sh(["g++", "-O2", "-std=c++17", "-o", tmp] + srcs[:3] + ["-lz3", "-lpthread"])
    if rc:
        die("engine does not build\n" + out)
    os.rename(tmp, exe)
    return exe


def cargo_env(target, extra_flags="", toolchain=TOOLCHAIN):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN=toolchain, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["RUSTFLAGS"] = extra_flags
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def crate(kind, bdir, feats):
    """a private copy of the crate manifest, so that concurrent checks do not share lock files"""
    d = os.path.join(bdir, kind)
    os.makedirs(d, exist_ok=True)
    s = open(os.path.join(V, "harness", kind, "Cargo.toml")).read()
    s = s.replace('"../src/', '"%s/harness/src/' % V).replace('"../stubs/', '"%s/harness/stubs/' % V)
    open(os.path.join(d, "Cargo.toml"), "w").write(s)
    shutil.copy(os.path.join(V, "harness", "Cargo.lock.seed"), os.path.join(d, "Cargo.lock"))
    return d


def features(prop, tier):
    """harness features: the tier, and what only one property's harness depends on"""
    f = (["thorough"] if tier == "thorough" else []) + ([prop.lower()] if prop in EXTRA else [])
    return ["--features", ",".join(f)] if f else []


def build_ir(prop, bdir, tier):
    d = crate("ir", bdir, "")
    t = os.path.join(bdir, "t-ir")
    cmd = ["cargo", "rustc", "--release", "--offline"] + features(prop, tier) + ["--", "--cfg", 'prop="%s"' % prop.lower(), "--emit=llvm-ir"]
    rc, out = sh(cmd, env=cargo_env(t, "-C no-vectorize-loops -C no-vectorize-slp -C symbol-mangling-version=v0"), cwd=d)
    ll = os.path.join(t, "release", "deps", "h.ll")
    if rc or not os.path.exists(ll):
        die("harness does not compile against the current tree\n" + out[-6000:])
    return ll


def listed(prop, k):
    """this finding in the committed file"""
    p = "%s: property=%s " % (k, prop)
    with open(os.path.join(V, "known_findings.txt")) as f:
        return next((l[len(p):].strip() for l in f if l.startswith(p)), None)


def build_native(prop, bdir, tier, asan=False):
    d = crate("native", os.path.join(bdir, "asan") if asan else bdir, "")
    t = os.path.join(bdir, "t-asan" if asan else "t-nat")
    cmd = ["cargo", "rustc", "--offline", "--bin", "replay"] + features(prop, tier)
    flags = ""
    if asan:
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        flags = "-Zsanitizer=address"
    cmd += ["--", "--cfg", 'prop="%s"' % prop.lower()]
    rc, out = sh(cmd, env=cargo_env(t, flags, "nightly" if asan else TOOLCHAIN), cwd=d)
    if rc:
        die("native replayer does not compile\n" + out[-6000:])
    return os.path.join(t, "x86_64-unknown-linux-gnu" if asan else "", "debug", "replay")


def parse_harnesses(prop):
    src = open(os.path.join(V, "harness", "src", prop.lower() + ".rs")).read()
    m = re.search(r"harnesses!\s*\{", src)
    body = src[m.end():]
    hs = []
    for m in re.finditer(r"((?:[ \t]*///[^\n]*\n)*)[ \t]*fn (\w+)\(\)\s*\{", body):
        doc = [l.strip()[3:].strip() for l in m.group(1).splitlines() if l.strip()]
        # body extent: up to the matching brace
        i, d = m.end(), 1
        while d and i < len(body):
            d += {"{": 1, "}": -1}.get(body[i], 0)
            i += 1
        opts = {}
        text = []
        for l in doc:
            mm = re.match(r"@(\w+)\s*(.*)", l)
            if mm:
                opts[mm.group(1)] = mm.group(2).strip()
            else:
                text.append(l)
        reach = set(int(x) for x in re.findall(r"nd::reach\((\d+)\)", body[m.end():i]))
        if "reach" in opts:
            reach |= set(int(x) for x in re.split(r"[ ,]+", opts["reach"]))
        hs.append(dict(name=m.group(2), text=" ".join(text), opts=opts, reach=reach))
    return hs


def native(exe, harness, hexin, timeout=30):
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run([exe, harness, hexin], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=lim,
                           env={"RUST_BACKTRACE": "0", "PATH": os.environ.get("PATH", ""), "ASAN_OPTIONS": "detect_leaks=0"})
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build_engine()
        return 0
    prop = args[0].upper()
    only = args[args.index("--only") + 1] if "--only" in args else None
    keep = "--keep" in args
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deadline = T0 + (820 if tier == "quick" else 6 * 3600)
    evdir = os.path.join(V, "evidence")
    os.makedirs(evdir, exist_ok=True)
    bdir = os.path.join(V, "build", "%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    try:
        return check(prop, only, tier, seed, deadline, evdir, bdir, keep)
    finally:
        if keep:
            print("kept", bdir)
        else:
            shutil.rmtree(bdir, ignore_errors=True)


def check(prop, only, tier, seed, deadline, evdir, bdir, keep):
    hs = parse_harnesses(prop)
    if only:
        hs = [h for h in hs if re.fullmatch(only, h["name"])]
    hs = [h for h in hs if not ("tier" in h["opts"] and h["opts"]["tier"] != tier)]
    with cf.ThreadPoolExecutor(3) as ex:
        fe = ex.submit(build_engine)
        fi = ex.submit(build_ir, prop, bdir, tier)
        fn = ex.submit(build_native, prop, bdir, tier)
        exe, ll, nat = fe.result(), fi.result(), fn.result()
    t_build = time.time() - T0

    stop = [float("inf")]

    def run(h):
        out = os.path.join(bdir, h["name"] + ".json")
        left = deadline - time.time() - 20
        key = "timeout" if tier == "quick" else "thorough_timeout"
        tmo = float(h["opts"].get(key, 600 if tier == "quick" else 3 * 3600))
        if "--tmo" in sys.argv:
            tmo = float(sys.argv[sys.argv.index("--tmo") + 1])
        cmd = [exe, ll, h["name"], "--out", out, "--timeout", str(max(5, min(tmo, left)))] + h["opts"].get("args", "").split()
        hard = time.time() + min(max(5, min(tmo, left)) + 60, max(5, left + 15))
        log = os.path.join(bdir, h["name"] + ".log")
        t = time.time()
        rc = "stopped"
        if time.time() < stop[0]:
            with open(log, "w") as lf:
                p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT)
                while True:
                    try:
                        rc = p.wait(0.1)
                        break
                    except subprocess.TimeoutExpired:
                        if time.time() > min(hard, stop[0]):
                            p.kill()
                            p.wait()
                            break
        txt = open(log, errors="replace").read() if os.path.exists(log) else ""
        try:
            r = json.load(open(out))
        except Exception as e:
            r = dict(status="error", incomplete=["engine: rc=%s %s %s" % (rc, e, txt[-500:])], samples=[], reached=[], functions=[])
        r["engine_output"] = txt[-2000:]
        # once there is a counterexample the others get a little longer, no more
        if r["status"] == "violation" and "known" not in h["opts"]:
            stop[0] = min(stop[0], time.time() + 20)
        if "-v" in sys.argv:
            print("%-28s %-10s %6.1fs %s" % (h["name"], r["status"], time.time() - t, r.get("paths")), flush=True)
        return r

    hs.sort(key=lambda h: -float(h["opts"].get("cost", 1)))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, hs))

    errors, violations, known = [], [], []
    nval = 0
    samples = []
    functions = {}
    tot = dict(paths=0, forks=0, assumed_away=0, instrs=0, asserts=0, symbolic_asserts=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, solver_s=0.0)
    per = []
    for h, r in zip(hs, res):
        for k in tot:
            tot[k] += r.get(k, 0)
        for f in r.get("functions", []):
            if f[0].startswith("src/") or "/repo/src/" in f[0] or "/repo/crates/" in f[0]:
                key = f[0].split("/repo/")[-1] + " " + f[1]
                functions[key] = functions.get(key, 0) + f[2]
        per.append(dict(harness=h["name"], bound=h["text"], status=r["status"], paths=r.get("paths", 0), instrs=r.get("instrs", 0), asserts=r.get("asserts", 0),
                        queries=r.get("queries", 0), solver_s=r.get("solver_s", 0), wall_s=r.get("wall_s", 0), reached=sorted(r.get("reached", []))))
        if "-v" in sys.argv:
            print(json.dumps(per[-1]))
        if r["status"] == "violation":
            v = r["violation"]
            # native replay
            rc, out = native(nat, h["name"], v["inputs"], (60 if v["kind"] == "hang" else 30) if not violations else 10)
            ok = rc in (99, 101, 98, -6, -11, "timeout")
            how = "dev profile"
            if not ok and v["kind"] == "memory":
                a = build_native(prop, bdir, tier, asan=True)
                rc, out = native(a, h["name"], v["inputs"])
                ok = rc not in (0, 77)
                how = "AddressSanitizer build"
            rec = dict(property=prop, harness=h["name"], kind=v["kind"], message=v["msg"], inputs=v["inputs"], stack=v["stack"], native_result=rc, native_output=out[-3000:], native_build=how, reproduced=ok,
                       replay="build harness/native with --cfg prop=\"%s\" and run: replay %s %s" % (prop.lower(), h["name"], v["inputs"]))
            os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
            path = os.path.join(evdir, "replays", "%s-%s.json" % (prop, h["name"]))
            json.dump(rec, open(path, "w"), indent=1)
            if not ok:
                errors.append("%s: counterexample (%s: %s) does not reproduce natively (rc %s)\n%s\n%s" % (h["name"], v["kind"], v["msg"], rc, v["inputs"], v["stack"]))
            elif "known" in h["opts"] and v["kind"] == "assert" and rc == 99 and listed(prop, h["opts"]["known"]):
                known.append((h["opts"]["known"], h, v))
            else:
                violations.append((h, v, path, rc, out))
            continue
        if r["status"] != "ok":
            errors.append("%s: %s %s" % (h["name"], r["status"], "; ".join(r.get("incomplete", []))[:1500]))
        else:
            missing = h["reach"] - set(r["reached"])
            if missing:
                errors.append("%s: witness %s never reached (vacuous)" % (h["name"], sorted(missing)))
            if not r["asserts"] and "nopanic" not in h["opts"]:
                errors.append("%s: no assertion evaluated" % h["name"])
        for s in r.get("samples", []):
            rc, out = native(nat, h["name"], s["inputs"])
            obs = [int(x) for x in re.findall(r"^OBS (\d+)", out, re.M)]
            if rc != 0 or obs != s["observed"]:
                errors.append("%s: engine and native execution disagree on %s: rc %s native %s engine %s\n%s" % (h["name"], s["inputs"][:4000], rc, obs[:40], s["observed"][:40], out[-500:]))
                break
            nval += 1
            if len(samples) < 24 and len([x for x in samples if x["harness"] == h["name"]]) < 3:
                samples.append(dict(harness=h["name"], inputs=s["inputs"][:256], observed=s["observed"][:16]))
    for h, v, path, rc, out in violations:
        print("%s: %s: %s\n  inputs %s\n%s  native: rc %s %s" % (h["name"], v["kind"], v["msg"], v["inputs"][:2000], v["stack"], rc, out[-400:]))
    if keep or "-v" in sys.argv:
        for k, n in sorted(functions.items()):
            print("FN", k, n)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["paths"] + tot["assumed_away"], transitions=tot["instrs"], traces_validated_against_impl=nval, samples=samples or [p["harness"] for p in per],
                            harnesses=per, functions_encoded=sorted(functions), functions_encoded_count=len(functions), queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"],
                            queries_unknown=tot["unknown"], solver_s=round(tot["solver_s"], 3), assertions_checked=tot["asserts"], assertions_on_symbolic_values=tot["symbolic_asserts"],
                            build_s=round(t_build, 1), undecided=errors[:10],
                            explanation="states = completed symbolic paths (each covers every input satisfying its path condition); transitions = LLVM IR instructions executed; IR regenerated from /repo on this run"),
              assumptions=["bounds stated per harness under coverage.harnesses", "memchr/hashbrown/indexmap/crc32fast/simd-adler32 replaced by loop models (native replay uses the real crates)", "alloc::fmt::format returns an empty string", "malloc never fails up to 64 MiB"],
              wall_s=round(time.time() - T0, 1), violations=len(violations))
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    for k, h, v in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, listed(prop, k)))
    if violations:
        for h, v, path, rc, out in violations:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors:
            print("UNDECIDED: " + e)
        return 2
    print("%s %s: %d harnesses, %d paths, %d queries, %.1fs solver, %d traces validated, %.1fs" % (prop, tier, len(hs), tot["paths"], tot["queries"], tot["solver_s"], nval, time.time() - T0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
