"""mkseed: create seeded/<id> from an edit of /repo (development helper)."""
import json, os, subprocess, shutil
R = os.environ.get("MKREPO", "/repo")
def mk(sid, prop, edits, demo, needs, breaks):
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["git", "-C", R, "diff", "--quiet"])
    try:
        for f, a, b in edits:
            p = R + "/" + f
            s = open(p).read()
            assert s.count(a) == 1, (sid, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", R, "diff"], text=True))
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    open(d + "/demo.cpp", "w").write(demo)
    if sid != "s01": shutil.copy("/verif/seeded/s01/demo.sh", d + "/demo.sh")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"))
