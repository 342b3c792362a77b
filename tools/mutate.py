#!/usr/bin/env python3
"""Development helper: systematic single-edit mutants of the library against the checks (never run by a check).

usage: mutate.py WORKER NWORKERS PER_FILE SEED [FILTER]   works in /tmp/mut<WORKER>; appends to /tmp/mutants.jsonl
Every mutant is one token-level edit. It is 'caught' when one of the checks mapped to its file exits 1, 'nobuild' when
that edit does not compile, otherwise it 'survives' and is looked at by hand (equivalent, outside the statements, or a gap).
"""
import json, os, random, re, shutil, subprocess, sys
W, N, PER, SEED = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
FILT = sys.argv[5] if len(sys.argv) > 5 else ""
I = "include/state-observation/"
MAP = {
 I+"tools/definitions.hxx": ["C01", "C02"], I+"tools/definitions.hpp": ["C01"], "src/definitions.cpp": ["C01", "C02"],
 "src/logger.cpp": ["C02"], I+"tools/logger.hxx": ["C02"],
 "src/observer-base.cpp": ["C03", "C04"], "src/zero-delay-observer.cpp": ["C03"],
 "src/kalman-filter-base.cpp": ["C04", "C05", "C06"], "src/linear-kalman-filter.cpp": ["C04", "C06"],
 "src/extended-kalman-filter.cpp": ["C05", "C06"], "src/state-vector-arithmetics.cpp": ["C05"],
 I+"tools/rigid-body-kinematics.hxx": ["C07", "C09", "C08"],
 "src/kinetics-observer.cpp": ["C11", "C12", "C10"], I+"dynamics-estimators/kinetics-observer.hxx": ["C10"],
 "src/dynamical-system-simulator.cpp": ["C13"],
 "src/lipm-dcm-estimator.cpp": ["C14", "C06"], "src/unidim-lipm-dcm-estimator.cpp": ["C14", "C06"],
 I+"dynamics-estimators/lipm-dcm-estimator.hpp": ["C14"], I+"dynamics-estimators/unidim-lipm-dcm-estimator.hpp": ["C14"],
 "src/algebraic-sensor.cpp": ["C15"], "src/accelerometer-gyrometer.cpp": ["C15"],
 "src/accelerometer-gyrometer-magnetometer.cpp": ["C15"], "src/linear-acceleration.cpp": ["C15"],
 "src/rotation-velocity.cpp": ["C15"], "src/magnetic-field.cpp": ["C15"], "src/gaussian-white-noise.cpp": ["C15"],
 "src/probability-law-simulation.cpp": ["C15"],
 "src/imu-dynamical-system.cpp": ["C16"], "src/imu-magnetometer-dynamical-system.cpp": ["C16"],
 "src/imu-mltpctive-dynamical-system.cpp": ["C16"], "src/imu-fixed-contact-dynamical-system.cpp": ["C16"],
 "src/stable-imu-fixed-contact-dynamical-system.cpp": ["C16"], "src/bidim-elastic-inv-pendulum-dyn-sys.cpp": ["C16"],
 "src/imu-elastic-local-frame-dynamical-system.cpp": ["C17"],
 I+"flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp": ["C17"],
 "src/ekf-flexibility-estimator-base.cpp": ["C18"], "src/fixed-contact-ekf-flex-estimator-imu.cpp": ["C18"],
 "src/flexibility-estimator-base.cpp": ["C18"], "src/model-base-ekf-flex-estimator-imu.cpp": ["C18"],
 I+"flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp": ["C18"],
 "src/tilt-estimator.cpp": ["C19"], I+"observer/tilt-estimator.hpp": ["C19"],
 I+"tools/miscellaneous-algorithms.hpp": ["C20"],
}
OPS = [(r"(?<=[\w\)\]] )\+(?= [\w\(])", "-"), (r"(?<=[\w\)\]] )-(?= [\w\(])", "+"), (r"(?<=[\w\)\]] )\*(?= [\w\(])", "/"),
       (r"(?<=\w) \+= (?=\S)", " = "), (r"(?<=\w) -= (?=\S)", " += "), (r" \+= ", " -= "),
       (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])3(?![\w.])", "2"),
       (r"\.transpose\(\)", ""), (r"\.head<3>", ".tail<3>"), (r"\.tail<3>", ".head<3>"), (r"\bif\((?=.)", "if(!"),
       (r"\+\+", "--"), (r"\bsizePos\b", "sizeOri"), (r"Tangent\(\)", "()"), (r"-(?=[a-zA-Z(])", ""), (r"0\.5", "1.0"),
       (r"cross\(", "cross(-"), (r"\bk\b", "(k+1)"), (r"\bdt_?\b", "(2*dt)"), (r"push_back", "push_back"), (r"\bx\b(?=\.)", "x"),
       (r"\.inverse\(\)", ""), (r"noalias\(\) =", "noalias() +="), (r"\bmax\b", "min"), (r"\bmin\b", "max")]

def sites(path):
    out, com = [], False
    for ln, l in enumerate(open("/repo/" + path).read().splitlines()):
        s = l.strip()
        if com:
            if "*/" in s: com = False
            continue
        if s.startswith("/*"):
            com = "*/" not in s
            continue
        if not s or s.startswith(("//", "*", "#", "typedef", "using", "namespace", "template", "class", "struct", "static const")) or "BOOST_ASSERT" in s \
           or "&&" in s and '"' in s or "assert" in s.lower() or "cout" in s or s.startswith('"'):
            continue
        code = l.split("//")[0]
        for k, (pat, rep) in enumerate(OPS):
            for m in re.finditer(pat, code):
                new = code[:m.start()] + rep + code[m.end():] + l[len(code):]
                if new != l: out.append((ln, new, "op%d" % k))
        if re.match(r"^\s+[\w\.\(\)\[\]<>:,\*&\->\s]+(=|\+=|-=|\().*;\s*$", code) and not re.match(r"^\s*(return|const|double|Vector\w*|Matrix\w*|Index|unsigned|int|bool|Kinematics|Quaternion|Orientation|auto|typedef|std)\b[^(]*\s+[&\w]", code):
            out.append((ln, re.match(r"^\s*", l).group(0) + ";", "delete"))
        if re.match(r"^\s*return .*;$", code) and code.count("(") == 0:
            pass
    return out

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

D = "/tmp/mut%d" % W
os.makedirs(D, exist_ok=True)
if not os.path.exists(D + "/verif"):
    run(["git", "clone", "-q", "/verif", D + "/verif"])
if not os.path.exists(D + "/repo"):
    run(["git", "clone", "-q", "/repo", D + "/repo"])
for n in ("verif", "repo"):
    run(["git", "-C", D + "/" + n, "fetch", "-q", "origin"]); run(["git", "-C", D + "/" + n, "reset", "-q", "--hard", "origin/HEAD"])
run(["cp", "-r", "/verif/src", D + "/verif/"]); run(["cp", "/verif/check.py", D + "/verif/"])
rng = random.Random(SEED)
todo = []
for f in sorted(MAP):
    if FILT and FILT not in f: continue
    s = sites(f)
    n = max(4, min(len(s), int(PER * len(open("/repo/" + f).read().splitlines()) / 200)))
    dele = [x for x in s if x[2] == "delete"]; oth = [x for x in s if x[2] != "delete"]
    rng.shuffle(dele); rng.shuffle(oth)
    todo += [(f, x) for x in dele[:n // 3] + oth[:n - min(len(dele), n // 3)]]
rng.shuffle(todo)
print(len(todo), "mutants", flush=True)
for i, (f, (ln, new, kind)) in enumerate(todo):
    if i % N != W: continue
    p = D + "/repo/" + f
    orig = open(p).read()
    L = orig.splitlines()
    old = L[ln]
    L[ln] = new
    open(p, "w").write("\n".join(L) + "\n")
    res, by = "survives", ""
    for c in MAP[f]:
        try:
            r = run(["python3", "check.py", c, "quick"], cwd=D + "/verif", env=dict(os.environ, MC_REPO=D + "/repo", MC_FAST="1"), timeout=900)
        except subprocess.TimeoutExpired:
            res, by = "timeout", c; break
        if r.returncode == 1: res, by = "caught", c; break
        if r.returncode != 0:
            res = "nobuild" if "BUILD ERROR" in r.stdout else "error"; by = c; break
    open(p, "w").write(orig)
    with open("/tmp/mutants.jsonl", "a") as o:
        o.write(json.dumps(dict(file=f, line=ln + 1, kind=kind, old=old.strip(), new=new.strip(), res=res, by=by)) + "\n")
    objs = [os.path.join(D, "verif/build", x) for x in os.listdir(D + "/verif/build")]
    objs = sorted((x for x in objs if os.path.isfile(x)), key=os.path.getmtime)
    for x in objs[:-150]: os.remove(x)
    run(["pkill", "-f", D + "/verif/build/"])
