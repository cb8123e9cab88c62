"""mk(): write one planted bug under /verif/seeded from an edit of /repo's text.
Checks that the changed lines come from the original repository."""
import json, os, re, shutil, subprocess, tempfile
BASE = "031ad93"
DEMO = '''#!/bin/bash
# exit 0 when the behaviour holds, nonzero when it is broken; run with cwd /repo
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" >"$t/o.json"
timeout 200 go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestZZDemo$' %(flags)s./%(pkg)s
'''
def mk(id, prop, pkg, edits, demo, needs, breaks, flags=""):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    files = {}
    for f, old, new in edits:
        src = files.get(f) or open("/repo/" + f).read()
        assert src.count(old) == 1, (id, f, src.count(old), old)
        files[f] = src.replace(old, new)
    out = ""
    for f, text in files.items():
        os.makedirs(os.path.dirname(w + "/a/" + f), exist_ok=True); os.makedirs(os.path.dirname(w + "/b/" + f), exist_ok=True)
        shutil.copy("/repo/" + f, w + "/a/" + f); open(w + "/b/" + f, "w").write(text)
        p = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        out += "diff --git a/%s b/%s\n" % (f, f) + re.sub(r"^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", p, flags=re.M)
        ln = 0; orig = False
        for l in p.splitlines():
            m = re.match(r"@@ -(\d+)", l)
            if m: ln = int(m.group(1)) - 1; continue
            if l.startswith("---") or l.startswith("+++") or l.startswith("+"): continue
            ln += 1
            if l.startswith("-"):
                b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (ln, ln), f], stdout=subprocess.PIPE, text=True).stdout
                if b.startswith("^") or b.startswith(BASE): orig = True
                else: print(id, "NOT ORIGINAL:", b.strip())
        if not orig: print(id, f, "changes no original line")
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, flags=flags and flags + " ")); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id, "written")


PYDEMO = open("/tmp/seeds/py/demo.sh").read() if os.path.exists("/tmp/seeds/py/demo.sh") else ""
def mkpy(id, prop, edits, py, needs, breaks):
    """the same, with a demonstration in Python that drives the built program in a terminal"""
    mk(id, prop, ".", edits, "", needs, breaks)
    d = "/verif/seeded/" + id
    os.remove(d + "/demo_test.go")
    open(d + "/demo.sh", "w").write(PYDEMO)
    open(d + "/demo.py", "w").write(open("/tmp/seeds/py/lib.py").read() + py)
