#!/usr/bin/env python3
"""Decide one property: build its harness from /repo's working tree, search
generated cases in parallel worker processes, write the evidence file.

    run.py C01 [quick|thorough]     exit 0 held / 1 violated / 2 no answer
    run.py --replay FILE            run the one case in a replay file
    run.py --list                   the properties this driver knows
    run.py --build                  compile every harness once (setup)

VERIF_SEED seeds every random choice. What each property generates and how it is
judged is in harness/props/*; sizes are in checks.json.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
CHECKS = json.load(open(os.path.join(HERE, "checks.json")))
KNOWN = os.path.join(HERE, "known_findings.json")
GOBIN = "/opt/veriftools/go1.27.3/bin"

EXIT_FAIL, EXIT_USAGE, EXIT_HANG, EXIT_MEM, EXIT_RACE = 90, 96, 97, 98, 66


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off",
             LANG="C.UTF-8", TERM="xterm")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = GOBIN + ":" + e.get("PATH", "/usr/bin:/bin")
    return e


class NoAnswer(Exception):
    pass


def build(prop, work):
    """Compile the property's test binary from the current trees."""
    c = CHECKS[prop]
    out = os.path.join(work, "bin.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if c.get("race"):
        cmd.append("-race")
    cwd = HARNESS
    if c.get("inpkg"):
        # the check needs names that are not exported: it is compiled into the package
        # through an overlay, with /repo's go.mod plus the generator library
        ov = {"Replace": {}}
        for dst, src in c["overlay"].items():
            ov["Replace"][os.path.join("/repo", dst)] = os.path.join(HARNESS, src)
        ovf = os.path.join(work, "overlay.json")
        json.dump(ov, open(ovf, "w"))
        mod = os.path.join(work, "go.mod")
        shutil.copy(os.path.join(HARNESS, "inpkg", "go.mod"), mod)
        shutil.copy(os.path.join(HARNESS, "inpkg", "go.sum"), os.path.join(work, "go.sum"))
        cmd += ["-overlay", ovf, "-modfile", mod]
        cwd = "/repo"
    cmd.append(c["pkg"])
    p = subprocess.run(cmd, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise NoAnswer("the harness does not build against /repo's working tree:\n" + p.stdout[-4000:])
    if c.get("promq"):
        # the check runs the command itself
        p = subprocess.run(["go", "build"] + (["-race"] if c["promq"] == "race" else []) + ["-o", os.path.join(work, "promq"), "."], cwd="/repo", env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise NoAnswer("promq does not build from /repo's working tree:\n" + p.stdout[-4000:])
    return out


def launch(prop, binary, out, seed, checks, budget, timeout, replay=None, trace=False, hang=None):
    c = CHECKS[prop]
    os.makedirs(out, exist_ok=True)
    e = goenv()
    e.update(KIT_OUT=out, KIT_SEED=str(seed), KIT_CHECKS=str(checks), KIT_BUDGET=str(budget),
             KIT_KNOWN=KNOWN, KIT_CORPUS=os.path.join(HERE, "corpus", prop), TMPDIR=out,
             GORACE="halt_on_error=1 exitcode=%d" % EXIT_RACE, GOTRACEBACK="all")
    e.setdefault("GOMAXPROCS", str(c.get("gomaxprocs", 2)))
    e["KIT_PROMQ"] = os.path.join(os.path.dirname(binary), "promq")
    for k in ("KIT_REPLAY", "KIT_TRACE", "KIT_HANG"):
        e.pop(k, None)
    if replay:
        e["KIT_REPLAY"] = replay
    if trace:
        e["KIT_TRACE"] = "1"
    if hang:
        e["KIT_HANG"] = str(hang)
    log = open(os.path.join(out, "log"), "wb")
    p = subprocess.Popen([binary, "-test.run", "^Test%s$" % c.get("test", prop), "-test.timeout", "0"],
                         cwd=out, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
                         start_new_session=True)
    log.close()
    return p


def wait(p, until):
    while p.poll() is None:
        if time.time() > until:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            return "timeout"
        time.sleep(0.02)
    return p.returncode


def log_of(out, n=6000):
    try:
        b = open(os.path.join(out, "log"), "rb").read()
    except OSError:
        return ""
    t = b.decode("utf-8", "replace")
    return t if len(t) <= n else t[: n // 2] + "\n[...]\n" + t[-n // 2 :]


def read(out, name):
    try:
        return json.load(open(os.path.join(out, name)))
    except (OSError, ValueError):
        return None


CRASH = re.compile(r"fatal error: |WARNING: DATA RACE|^panic: |unexpected signal|runtime error:|goroutine stack exceeds", re.M)


def judge(prop, binary, work, rc, out, seed, sizes):
    """What a worker's ending means: None, or a failure (dict)."""
    if rc == 0:
        r = read(out, "result.json")
        if r and r.get("done"):
            return None
        raise NoAnswer("a worker ended without a result:\n" + log_of(out))
    if rc == EXIT_FAIL:
        f = read(out, "failure.json")
        if f:
            return f
    if rc in (EXIT_HANG, EXIT_MEM):
        f = read(out, "current.json")
        if not f:
            raise NoAnswer("the watchdog ended a worker outside a case:\n" + log_of(out))
        # the machine may just have been busy: the same case, alone, with more room
        got = confirm(prop, binary, work, f, hang=CHECKS[prop].get("confirm_hang", 60), tries=1)
        if got is None:
            raise NoAnswer("a case did not end in time, but ended when run alone:\n" + json.dumps(f)[:2000])
        return shrink(prop, binary, work, got)
    text = log_of(out, 20000)
    if rc != "timeout" and CRASH.search(text) and ("/repo/" in text or "instrumentation-tools/" in text):
        f = read(out, "current.json")
        if not f:
            o2 = out + ".trace"
            p = launch(prop, binary, o2, seed, sizes["checks"], sizes["budget"], 0, trace=True)
            wait(p, time.time() + 4 * sizes["budget"] + 120)
            f = read(o2, "current.json")
        if f:
            f["sig"] = "fatal"
            f["message"] = text[-6000:]
            got = confirm(prop, binary, work, f, hang=60, tries=3)
            if got:
                return got
            if CHECKS[prop].get("schedules"):
                f["recurs"] = False
                return f
        raise NoAnswer("a worker crashed, and the case did not do it again:\n" + text)
    raise NoAnswer("a worker ended with %s:\n%s" % (rc, text[-6000:]))


n_confirm = 0


def confirm(prop, binary, work, f, hang, tries):
    """Run one case in a fresh process; the failure it shows, or None."""
    global n_confirm
    for _ in range(tries):
        n_confirm += 1
        out = os.path.join(work, "confirm%d" % n_confirm)
        os.makedirs(out)
        cf = os.path.join(out, "case.json")
        json.dump(f, open(cf, "w"))
        p = launch(prop, binary, out, 1, 1, 1, 0, replay=cf, hang=hang)
        rc = wait(p, time.time() + 3 * hang + 60)
        if rc == EXIT_FAIL:
            got = read(out, "failure.json")
            got["recurs"] = True
            return got
        if rc in (EXIT_HANG, EXIT_MEM):
            got = read(out, "current.json") or dict(f)
            got["recurs"] = True
            return got
        text = log_of(out, 12000)
        if rc not in (0, EXIT_USAGE, "timeout") and CRASH.search(text):
            got = dict(f)
            got["message"], got["recurs"] = text[-6000:], True
            return got
    return None


def smaller(v):
    """Structurally smaller variants of a JSON value, most drastic first."""
    if isinstance(v, list):
        n = len(v)
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                yield v[:i] + v[i + k:]
            k //= 2
        for i, x in enumerate(v):
            for y in smaller(x):
                yield v[:i] + [y] + v[i + 1:]
    elif isinstance(v, dict):
        for k, x in v.items():
            for y in smaller(x):
                d = dict(v)
                d[k] = y
                yield d
    elif isinstance(v, str) and len(v) > 1:
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]


def shrink(prop, binary, work, f):
    """Shrinking of a case that does not end: only for properties whose oracle
    rejects cases outside its domain by itself (checks.json: json_shrink)."""
    if not CHECKS[prop].get("json_shrink"):
        return f
    until = time.time() + 45
    best, progress = f, True
    while progress and time.time() < until:
        progress = False
        for c in smaller(best["case"]):
            if time.time() > until:
                break
            g = dict(best)
            g["case"] = c
            got = confirm(prop, binary, work, g, hang=3, tries=1)
            if got and got.get("sig") == best.get("sig"):
                best, progress = got, True
                break
    final = confirm(prop, binary, work, best, hang=30, tries=1)
    return final or f


def violation(prop, f):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(f.get("case"), sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    f["property"] = prop
    json.dump(f, open(path, "w"), indent=1)
    print("property %s broke: %s" % (prop, f.get("sig")))
    print(str(f.get("message", ""))[:3000])
    print("case: " + json.dumps(f.get("case"))[:1500])
    print("VIOLATION property=%s replay=%s" % (prop, path))


def evidence(prop, tier, seed, results, failures, wall, sizes):
    c = CHECKS[prop]
    ev, hashes, samples, tags, corpus, rule, known = 0, set(), [], {}, 0, "", set()
    for r in results:
        ev += r["evaluations"]
        hashes.update(r.get("hashes") or [])
        for s in r.get("samples") or []:
            if len(samples) < 6 and s not in samples:
                samples.append(s)
        for k, n in (r.get("tags") or {}).items():
            tags[k] = tags.get(k, 0) + n
        corpus = max(corpus, r.get("corpus", 0))
        rule = r.get("rule") or rule
        known.update(r.get("known") or [])
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(hashes), "rule": rule,
            "samples": samples or ["(the run failed before a sample was kept)"],
            "classes": dict(sorted(tags.items())), "workers": sizes["workers"],
            "regression_cases": corpus,
        },
        "wall_s": round(wall, 2), "violations": len(failures),
        "assumptions": c.get("assumptions", []),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    json.dump(doc, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    return doc


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED") or 1)
    c = CHECKS[prop]
    sizes = dict(c["sizes"][tier])
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        binary = build(prop, work)
        tb = time.time() - t0
        procs = []
        for w in range(sizes["workers"]):
            s = (seed * 1000003 + w * 7919 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16)) % (1 << 61) + 1
            out = os.path.join(work, "w%d" % w)
            procs.append((launch(prop, binary, out, s, sizes["checks"], sizes["budget"], 0), out, s))
        until = time.time() + 3 * sizes["budget"] + 240
        results, failures, trouble = [], [], []
        pending = list(procs)
        while pending:
            for item in list(pending):
                p, out, s = item
                if p.poll() is None and time.time() < until:
                    continue
                pending.remove(item)
                rc = wait(p, until)
                if rc in (0,):
                    r = read(out, "result.json")
                    if r:
                        results.append(r)
                try:
                    f = judge(prop, binary, work, rc, out, s, sizes)
                    if f:
                        failures.append(f)
                except NoAnswer as e:
                    trouble.append(str(e))
                if failures:
                    # one is enough
                    for q, _, _ in pending:
                        try:
                            os.killpg(q.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        q.wait()
                    pending = []
                    break
            time.sleep(0.02)
        wall = time.time() - t0
        if trouble and not failures:
            sys.stderr.write("no answer for %s:\n%s\n" % (prop, trouble[0]))
            return 2
        doc = evidence(prop, tier, seed, results, failures, wall, sizes)
        if failures:
            violation(prop, failures[0])
            return 1
        cov = doc["coverage"]
        print("%s held: %d cases (%d distinct non-trivial), %d regression cases, build %.1fs, wall %.1fs"
              % (prop, cov["evaluations"], cov["distinct_nontrivial"], cov["regression_cases"], tb, wall))
        if cov["distinct_nontrivial"] < CHECKS[prop].get("floor", 20):
            sys.stderr.write("no answer for %s: hardly anything was generated\n" % prop)
            return 2
        return 0
    except NoAnswer as e:
        sys.stderr.write("no answer for %s: %s\n" % (prop, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    f = json.load(open(path))
    prop = f["property"]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        binary = build(prop, work)
        got = confirm(prop, binary, work, f, hang=60, tries=3 if CHECKS[prop].get("schedules") else 1)
        if got:
            print("property %s broke: %s\n%s" % (prop, got.get("sig"), str(got.get("message"))[:4000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s held on %s" % (prop, path))
        return 0
    except NoAnswer as e:
        sys.stderr.write(str(e) + "\n")
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    if len(argv) >= 1 and argv[0] == "--list":
        print("\n".join(sorted(CHECKS)))
        return 0
    if len(argv) == 2 and argv[0] == "--replay":
        return replay(argv[1])
    if len(argv) == 1 and argv[0] == "--build":
        done = set()
        for prop in sorted(CHECKS):
            c = CHECKS[prop]
            key = (c["pkg"], c.get("race", False), json.dumps(c.get("overlay", {})))
            if key in done:
                continue
            done.add(key)
            work = tempfile.mkdtemp(prefix="verif-build-")
            try:
                build(prop, work)
            except NoAnswer as e:
                sys.stderr.write("%s: %s\n" % (prop, e))
                return 2
            finally:
                shutil.rmtree(work, ignore_errors=True)
        print("built %d harnesses" % len(done))
        return 0
    if not argv or argv[0] not in CHECKS:
        sys.stderr.write(__doc__)
        return 2
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[0], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
