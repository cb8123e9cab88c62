"""overlay.py <seed id> [check...]: run checks against a planted bug through a build overlay, leaving
/repo's files alone (for use while something else reads them)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ.setdefault("VERIF_SEED", "1")
import run
seed = sys.argv[1]
d = V + "/seeded/" + seed
w = tempfile.mkdtemp()
rep = {}
try:
    for l in open(d + "/patch.diff"):
        if l.startswith("+++ b/"):
            f = l[6:].strip()
            os.makedirs(os.path.dirname(w + "/" + f) or w, exist_ok=True)
            shutil.copy("/repo/" + f, w + "/" + f)
            rep["/repo/" + f] = w + "/" + f
    subprocess.run(["patch", "-s", "-p1", "-d", w, "-i", d + "/patch.diff"], check=True)
    ov = w + "/ov.json"
    json.dump({"Replace": rep}, open(ov, "w"))
    g0, d0 = run.goenv, json.dump
    def goenv():
        e = g0(); e["GOFLAGS"] = "-mod=readonly -overlay=" + ov; return e
    def dump(o, f, **k):
        if isinstance(o, dict) and "Replace" in o: o["Replace"].update(rep)
        return d0(o, f, **k)
    run.goenv, run.json.dump = goenv, dump
    for c in sys.argv[2:] or [json.load(open(d + "/meta.json"))["property"]]:
        rc = run.check(c, "quick")
        print(seed, c, {0: "MISSED", 1: "caught"}.get(rc, "no answer"))
finally:
    shutil.rmtree(w)
