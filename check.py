#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decides one property.
   check.py --replay FILE.json: replays a recorded counterexample."""
import glob
import json, os, re, shutil, subprocess, sys, time, tempfile, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, COMMON

ENGINE = os.path.join(VERIF, "engine/target/release/symex")
REPLAY = os.path.join(VERIF, "replay/target/replay")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUST_BACKTRACE"):
    ENV.pop(k, None)


class Broken(Exception):
    pass


def run(cmd, cwd=None, timeout=850, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout


def build_tools():
    rc, out = run(["cargo", "build", "--release", "--offline", "-q"], os.path.join(VERIF, "engine"))
    if rc:
        raise Broken("engine build failed:\n" + out[-3000:])
    os.makedirs(os.path.dirname(REPLAY), exist_ok=True)
    rc, out = run(["gcc", "-O1", "-rdynamic", "-o", REPLAY, os.path.join(VERIF, "replay/replay.c"), "-ldl"])
    if rc:
        raise Broken("replay build failed:\n" + out[-3000:])


def sources():
    h = hashlib.sha1()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build_harness(crate, features, default=True):
    d = os.path.join(VERIF, crate)
    cmd = ["cargo", "rustc", "--release", "--offline", "-q", "--features", ",".join(features)]
    if not default:
        cmd += ["--no-default-features"]
    # one target directory per variant of the dependencies
    tgt = os.path.join(d, "target" if default else "target-nodef")
    cmd += ["--target-dir", tgt, "--", "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
    ll = os.path.join(tgt, "release/deps/h.ll")
    # times of files do not tell whether they changed: their contents do
    mark, now = os.path.join(tgt, "sources"), sources()
    if not os.path.exists(mark) or open(mark).read() != now:
        for f in glob.glob(os.path.join(tgt, "release/.fingerprint/laps*")) + glob.glob(os.path.join(tgt, "release/.fingerprint/h-*")):
            shutil.rmtree(f, ignore_errors=True)
        os.makedirs(tgt, exist_ok=True)
        open(mark, "w").write(now)
    rc, out = run(cmd, d)
    if rc:
        raise Broken("harness build failed:\n" + out[-6000:])
    so = os.path.join(tgt, "release/libh.so")
    if not os.path.exists(ll) or not os.path.exists(so):
        raise Broken("harness build left no IR")
    return ll, so


REPS = 100000  # how often the threads of a replay repeat what they do


def replay_native(so, entry, v, seed):
    """Runs a counterexample; one that needs threads to interleave in a certain
    way is run many times over."""
    data = bytes.fromhex(v["input"])
    if "[schedule: " not in v["msg"]:
        return native(so, entry, data, seed)
    for reps in (1, REPS, REPS, 5 * REPS):
        r = native(so, entry, data, seed, timeout=100, reps=reps)
        if r[0] != "ok":
            break
    return r


def native(so, entry, data, seed=0, timeout=60, reps=1):
    """-> (kind, detail, observations, cover)"""
    d = tempfile.mkdtemp(prefix="vr-")
    try:
        inp, rep = os.path.join(d, "in"), os.path.join(d, "rep")
        open(inp, "wb").write(data)
        try:
            r = subprocess.run([REPLAY, so, entry, inp, rep], cwd=d, env=dict(ENV, SYM_SEED=str(seed), SYM_REPS=str(reps)),
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            return "hang", "no end within %d s" % timeout, [], 0
        txt = open(rep).read() if os.path.exists(rep) else ""
        obs = [int(x) for x in re.findall(r"^obs (\d+)$", txt, re.M)]
        cov = re.findall(r"^cover (\d+)$", txt, re.M)
        cov = int(cov[0]) if cov else 0
        if rc == 0:
            return "ok", "", obs, cov
        if rc == 3:
            return "assert", re.findall(r"^assert (\d+)$", txt, re.M)[0], obs, cov
        if rc == 4:
            return "assume", "", obs, cov
        if rc < 0:
            return "crash", "signal %d" % -rc, obs, cov
        return "error", "exit %d %s" % (rc, txt[-300:]), obs, cov
    finally:
        shutil.rmtree(d, ignore_errors=True)


def source_line(crate, feature, line):
    p = os.path.join(VERIF, crate, "src", feature + ".rs")
    try:
        ls = open(p).read().split("\n")
        n = int(line)
        return "%s/src/%s.rs:%d: %s" % (crate, feature, n, ls[n - 1].strip())
    except Exception:
        return "line %s" % line


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) input=(\S+) (.*)", l.strip())
            if m:
                out.append(dict(property=m[1], entry=m[2], inputs=m[3].split(","), what=m[4]))
    return out


def is_known(prop, entry, v):
    for k in load_known():
        if k["property"] == prop and k["entry"] == entry and v["input"] in k["inputs"]:
            return k
    return None


def do_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[prop]
    feature = cfg.get("feature", prop.lower())
    feats = [feature] + (["thorough"] if tier == "thorough" else [])
    budget = 800 if tier == "quick" else 3000
    build_tools()
    builds = {}
    res = []
    violations, broken, notes, known = [], [], [], []
    validated = 0
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    for ent in cfg["entries"]:
        if ent["thorough_only"] and tier != "thorough":
            continue
        variant = ent.get("default", True)
        crate = ent.get("crate") or cfg.get("crate", "harness")
        if (crate, variant) not in builds:
            builds[crate, variant] = build_harness(crate, feats, variant)
        ll, so = builds[crate, variant]
        left = budget - (time.time() - t0)
        tm = ent["time"][1 if tier == "thorough" else 0]
        if left < 5:
            notes.append("%s not run: time budget exhausted" % ent["name"])
            continue
        for hs in ent["seeds"]:
            out = tempfile.mktemp(prefix="symex-", suffix=".json")
            cmd = [ENGINE, ll, "--entry", ent["name"], "--time", str(min(tm, max(left, 5))), "--out", out,
                   "--jobs", str(os.cpu_count() or 8), "--seed", str(hs), "--traces-every", "7", "--max-traces", "24"]
            if ent["steps"]:
                cmd += ["--max-steps", str(ent["steps"])]
            cmd += ent["opts"]
            try:
                rc, txt = run(cmd, timeout=min(tm, left) + 90)
            except subprocess.TimeoutExpired:
                notes.append("%s: engine did not stop in time" % ent["name"])
                continue
            if not os.path.exists(out):
                broken.append("engine failed on %s: %s" % (ent["name"], txt[-1500:]))
                continue
            r = json.load(open(out))["entries"][0]
            os.unlink(out)
            r["hash_seed"] = hs
            res.append(r)
            print("%s" % txt.strip().split("\n")[0], flush=True)
            for i in r["incomplete"]:
                (broken if i.startswith("engine error") else notes).append("%s: %s" % (ent["name"], i))
            # traces against the native build
            for t in r["traces"]:
                k, d, obs, cov = native(so, ent["name"], bytes.fromhex(t["input"]), hs)
                if k != "ok" or obs != t["obs"]:
                    broken.append("%s: native run disagrees with a symbolic path on %s: %s %s %s instead of %s" % (ent["name"], t["input"], k, d, obs, t["obs"]))
                else:
                    validated += 1
            # counterexamples
            seen = set()
            for v in r["violations"]:
                k, d, obs, cov = replay_native(so, ent["name"], v, hs)
                if k in ("ok", "assume", "error"):
                    broken.append("%s: counterexample %s (%s %s) does not reproduce natively: %s %s" % (ent["name"], v["input"], v["kind"], v["msg"], k, d))
                    continue
                what = "%s: %s" % (v["kind"], v["msg"])
                if k == "assert":
                    what = "assertion " + source_line(crate, feature, d)
                kf = is_known(prop, ent["name"], v)
                if kf:
                    known.append(kf)
                    continue
                key = (k, d if k == "assert" else v["stack"][-1])
                if key in seen:
                    continue
                seen.add(key)
                name = "%s-%s-%s.json" % (prop, ent["name"], hashlib.sha1(v["input"].encode()).hexdigest()[:8])
                path = os.path.join(rdir, name)
                json.dump(dict(property=prop, tier=tier, crate=crate, features=feats, default=variant, entry=ent["name"],
                               hash_seed=hs, input=v["input"], engine=v, native=[k, d], what=what), open(path, "w"), indent=1)
                violations.append((path, what, k, d))
            want = 0
            for c in ent["covers"]:
                want |= 1 << c
            if not r["violations"] and (r["cover"] & want) != want:
                broken.append("%s: vacuous: covers %s not reached" % (ent["name"], [c for c in ent["covers"] if not r["cover"] >> c & 1]))
            if violations:
                break
        if violations:
            break
    wall = time.time() - t0
    tot = lambda k: sum(r[k] for r in res)
    funcs = sorted({f for r in res for f in r["functions"]})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("forks"), traces_validated_against_impl=validated,
            samples=[dict(entry=r["entry"], input_hex=t["input"], observed=t["obs"]) for r in res for t in r["traces"][:3]][:12],
            explanation="states: symbolic paths followed to their end, each standing for all inputs that satisfy its path condition; transitions: forks of the symbolic execution. "
                        "Every branch is decided by the byte-domain procedure or z3 and every assertion that depends on symbolic data by z3.",
            bounds=cfg["bounds"], outside_bounds=cfg.get("outside", ""),
            entries=[{k: r[k] for k in r if k not in ("functions", "traces", "violations")} for r in res],
            assertions=tot("asserts"), assertions_by_solver=tot("asserts_solver"),
            solver_queries=tot("queries"), solver_sat=tot("sat"), solver_unsat=tot("unsat"), solver_unknown=tot("unknown"),
            solver_seconds=round(tot("solver_s"), 3), byte_domain_decisions=tot("dom_decisions"), instructions=tot("steps"),
            functions_encoded=funcs, incomplete=notes,
        ),
        assumptions=COMMON + cfg.get("assumptions", []),
        wall_s=round(wall, 2), violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in {json.dumps(k, sort_keys=True) for k in known}:
        print("KNOWN-FINDING: property=%s %s" % (prop, json.loads(k)["what"]))
    for n in notes:
        print("INCOMPLETE: " + n)
    for b in broken:
        print("CHECK-ERROR: " + b)
    if violations:
        for path, what, k, d in violations:
            print("%s (native: %s %s)" % (what, k, d))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken:
        return 2
    print("OK %s: %d paths, %d queries, %.1f s solver, %.1f s wall" % (prop, tot("paths"), tot("queries"), tot("solver_s"), wall))
    return 0


def do_replay(path):
    r = json.load(open(path))
    build_tools()
    ll, so = build_harness(r["crate"], r["features"], r["default"])
    k, d, obs, cov = replay_native(so, r["entry"], r["engine"], r["hash_seed"])
    print(r["what"])
    print("native run: %s %s" % (k, d))
    return 0 if k == "ok" else 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(do_replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        sys.exit(do_check(a[0], tier))
    except Broken as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)


if __name__ == "__main__":
    main()
