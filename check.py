#!/usr/bin/env python3
"""Build one property's harness from /repo's working tree, explore, and report.

usage: check.py <property> [quick|thorough] [--suite NAME] [--keep]
exit 0: held on everything explored (known findings are printed); exit 1: VIOLATION line printed; 2: check error.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
CXX = "g++"
WARN = ["-w"]

# harness -> library sources it needs (falls back to all sources if that does not link)
BASE = ["definitions"]
KF = BASE + ["observer-base", "zero-delay-observer", "kalman-filter-base", "state-vector-arithmetics",
             "linear-kalman-filter", "extended-kalman-filter", "dynamical-system-functor-base",
             "probability-law-simulation"]
SENS = ["algebraic-sensor", "sensor-base", "accelerometer-gyrometer", "accelerometer-gyrometer-magnetometer",
        "linear-acceleration", "rotation-velocity", "magnetic-field", "gaussian-white-noise",
        "probability-law-simulation"]
LIPM = ["lipm-dcm-estimator", "unidim-lipm-dcm-estimator"]
NEEDS = {
    "C01": BASE, "C02": BASE + ["logger"], "C03": KF, "C04": KF, "C05": KF,
    "C06": KF + LIPM + ["tilt-estimator"],
    "C07": KF, "C08": KF, "C09": KF,
    "C10": KF + SENS + ["kinetics-observer"], "C11": KF + SENS + ["kinetics-observer"],
    "C12": KF + SENS + ["kinetics-observer"],
    "C13": KF + ["dynamical-system-simulator"],
    "C14": KF + LIPM,
    "C15": BASE + SENS,
    "C16": KF + SENS + ["imu-dynamical-system", "imu-magnetometer-dynamical-system", "imu-mltpctive-dynamical-system",
                        "imu-fixed-contact-dynamical-system", "stable-imu-fixed-contact-dynamical-system",
                        "bidim-elastic-inv-pendulum-dyn-sys"],
    "C17": KF + SENS + ["imu-elastic-local-frame-dynamical-system"],
    "C18": KF + SENS + ["imu-elastic-local-frame-dynamical-system", "imu-fixed-contact-dynamical-system",
                        "ekf-flexibility-estimator-base", "fixed-contact-ekf-flex-estimator-imu",
                        "flexibility-estimator-base", "model-base-ekf-flex-estimator-imu"],
    "C19": KF + ["tilt-estimator"], "C20": KF,
    "C21": None,
    "C22": None,
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            h.update(os.path.join(d, f).encode())
            h.update(read(os.path.join(d, f)))
    return h.hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def build(prop, tier, cache):
    """returns path of harness binary built from REPO's current tree"""
    os.makedirs(cache, exist_ok=True)
    inc = os.path.join(cache, "include", "state-observation")
    os.makedirs(inc, exist_ok=True)
    cfg = read(os.path.join(REPO, "include/state-observation/config.h.in")).decode()
    cfg = cfg.replace("$<CONFIG:Debug>", "1")
    cfg = re.sub(r"\$<CONFIG:\w+>", "0", cfg)
    cfgp = os.path.join(inc, "config.h")
    if not os.path.exists(cfgp) or read(cfgp).decode() != cfg:
        with open(cfgp, "w") as f:
            f.write(cfg)
    opt = ["-O1", "-g0", "-ftrivial-auto-var-init=pattern"]
    if tier == "thorough":
        opt = ["-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
               "-fno-sanitize=alignment"]
    if prop == "C21":
        # every function entry of the library is a point where the running call can be preempted
        opt = opt + ["-fno-gnu-unique", "-finstrument-functions",
                     "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,/verif/src," + SRC]
    common = opt + WARN + ["-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(SRC, "monitor.hpp"),
                           "-I", os.path.join(REPO, "include"), "-I", os.path.join(cache, "include"), "-I", SRC,
                           "-isystem", "/usr/include/eigen3"]
    hdr = tree_hash(os.path.join(REPO, "include")) + sha(cfg, read(os.path.join(SRC, "monitor.hpp")))
    own = sha(*[read(os.path.join(SRC, f)) for f in sorted(os.listdir(SRC)) if f.endswith(".hpp")])

    def compile_one(src, std, extra):
        key = sha(hdr, extra, read(src), " ".join(common), std, src)
        o = os.path.join(cache, os.path.basename(src)[:-4] + "-" + key + ".o")
        if not os.path.exists(o):
            tmp = o + ".tmp%d" % os.getpid()
            rc, log = run([CXX, "-std=" + std] + common + ["-c", src, "-o", tmp])
            if rc:
                raise BuildError(src + "\n" + log[-4000:])
            os.replace(tmp, o)
        return o

    allsrc = sorted(f[:-4] for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp"))
    harness = os.path.join(SRC, prop.lower() + ".cpp")

    def attempt(names):
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            h = ex.submit(compile_one, harness, "c++17", own)
            objs = [ex.submit(compile_one, os.path.join(REPO, "src", n + ".cpp"), "c++11", "") for n in names]
            ho = h.result()
            ol = [o.result() for o in objs]
        exe = os.path.join(cache, prop.lower() + "-" + sha(ho, *ol))
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            rc, log = run([CXX] + opt + [ho] + ol + ["-o", tmp, "-lboost_timer", "-lboost_system", "-lpthread"])
            if rc:
                raise BuildError("link\n" + log[-4000:])
            os.replace(tmp, exe)
        return exe

    wanted = NEEDS.get(prop)
    if wanted and all(w in allsrc for w in wanted):
        try:
            return attempt(sorted(set(wanted)))
        except BuildError as e:
            if not str(e).startswith("link"):
                raise
    return attempt(allsrc)


def load_known():
    p = os.path.join(VERIF, "known-findings.txt")
    known = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) at=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    i = 0
    while i < len(args):
        if args[i] in ("quick", "thorough"):
            tier = args[i]
        elif args[i] == "--suite":
            i += 1
            only = args[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cache = os.path.join(VERIF, "build")
    try:
        exe = build(prop, tier, cache)
    except BuildError as e:
        sys.stderr.write("BUILD ERROR " + str(e) + "\n")
        return 2
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    try:
        out = os.path.join(work, "out.json")
        budget = 600 if tier == "quick" else 7200
        cmd = [exe, "--tier", tier, "--out", out, "--work", work, "--workers", str(os.cpu_count() or 4),
               "--budget", str(budget)]
        if only:
            cmd += ["--suite", only]
        env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_abort=0:handle_segv=0",
                   UBSAN_OPTIONS="abort_on_error=1", MALLOC_PERTURB_="128", MC_SCRATCH=work, VERIF_SEED=str(seed))
        r = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.DEVNULL)
        if not os.path.exists(out):
            sys.stderr.write("harness produced no result (status %d)\n" % r.returncode)
            return 2
        res = json.load(open(out))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = load_known()
    bad, seen = [], []
    for v in res["violations"]:
        at = v["suite"] + "/" + v["key"]
        k = [x for x in known if x[0] == prop and x[1] == at.replace(" ", "_")]
        if k:
            seen.append(k[0])
        else:
            bad.append(v)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))

    S = res["suites"]
    wall = time.time() - t0
    meta = {}
    mp = os.path.join(VERIF, "tools", "coverage-notes.json")
    if os.path.exists(mp):
        meta = json.load(open(mp)).get(prop, {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(s["states"] for s in S),
            "transitions": sum(s["transitions"] for s in S),
            "traces_validated_against_impl": sum(s["executions"] for s in S),
            "distinct_outcomes": sum(s["outcomes"] for s in S),
            "exhaustive_within_bounds": all(s["complete"] for s in S),
            "suites": [{k: s[k] for k in ("name", "executions", "transitions", "states", "outcomes", "max_choices",
                                           "pruned", "complete", "secs")} for s in S],
            "samples": [{"suite": s["name"], "execution": s["sample"]} for s in S if s["sample"]][:6],
            "how": "every choice vector of each suite is executed on the real code built from /repo and compared step by "
                   "step with an independent reference model; states are distinct hashes of (model state, observations)",
            "bounds": meta.get("bounds", ""),
        },
        "assumptions": meta.get("assumptions", []) + [
            "library assertions enabled (Debug semantics); floating-point results compared up to rounding"],
        "build_s": round(tb, 2), "wall_s": round(wall, 2), "violations": len(bad),
        "known_findings_seen": [k[2] for k in seen],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if bad:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(bad):
            rp = os.path.join(rd, "%s-%d.json" % (prop, n))
            v["how_to_replay"] = "%s %s; then <harness> --tier %s --replay %s %s" % (
                "python3 /verif/check.py", prop, tier, v["suite"], " ".join(map(str, v["path"])))
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  [%s/%s] %s" % (v["suite"], v["key"], v["msg"][:600]))
            for l in v["trace"][-12:]:
                print("    " + l[:300])
            if n >= 4:
                break
        return 1
    print("%s: held; executions=%d transitions=%d states=%d build=%.1fs wall=%.1fs%s" % (
        prop, ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["transitions"],
        ev["coverage"]["states"], tb, wall, "" if ev["coverage"]["exhaustive_within_bounds"] else " (INCOMPLETE)"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
