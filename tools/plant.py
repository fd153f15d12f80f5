#!/usr/bin/env python3
"""Tries the planted bugs of /verif/seeded: does each build, pass the stable tests, show in its demo, and do the checks see it?

usage: plant.py [--no-check] [--jobs N] [ID...]      (prints one line per bug)
The author's side: plant(id, property, edits, demo, ...) writes seeded/<id>/ (see the scripts that call it).
"""
import json, os, subprocess, sys, shutil, concurrent.futures as cf, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")
REPO = "/repo"
RESULTS = os.path.join(VERIF, "tools", "planted.json")
ORIG = "2fcd16b"
DEMO = r'''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is broken.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
R=$PWD
%(build)s || exit 99
cd "$W" && timeout 200 %(env)s./demo > out.txt 2>&1
rc=$?
[ $rc = 0 ] || tail -n 20 out.txt
exit $rc
'''
FL = '-std=c++17 -g -I"$D" -I"$R/src/include" -I"$R/_build/include/falcon"'
BUILD = {
    "lib": 'g++ %s -O1 "$D/demo.cpp" -o "$W/demo" -L"$R/_build/lib" -lfalcon_engine -Wl,-rpath,"$R/_build/lib" -pthread' % FL,
    "fut": 'g++ %s -O1 "$D/demo.cpp" -o "$W/demo" -L"$R/_build/lib" -lfalcon_fut -Wl,-rpath,"$R/_build/lib" -pthread' % FL,
    "tsan": 'g++ %s -O1 -fsanitize=thread "$D/demo.cpp" "$R"/src/engine/*.cpp -o "$W/demo" -pthread' % FL,
    "asan": 'g++ %s -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS "$D/demo.cpp" "$R"/src/engine/*.cpp -o "$W/demo" -pthread' % FL,
}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(bid, prop, edits, demo, needs, breaks, kind="lib", env="", extra=None, files=None):
    """edits: [(file, old, new)], old must occur once (or (file, old, new, n) for the n-th)."""
    work = "/tmp/plant_w"
    shutil.rmtree(work, ignore_errors=True)
    sh("git -C %s worktree prune; git clone -q %s %s" % (REPO, REPO, work))
    for e in edits:
        path = os.path.join(work, e[0])
        s = open(path).read()
        if e[1] not in s:       # leading blanks might differ
            want = [l.strip() for l in e[1].strip("\n").split("\n")]
            have = s.split("\n")
            at = [i for i in range(len(have)) if [l.strip() for l in have[i:i + len(want)]] == want]
            assert len(at) == 1, (bid, e[0], at, e[1])
            e = (e[0], "\n".join(have[at[0]:at[0] + len(want)]), e[2].strip("\n"))
        n = s.count(e[1])
        if len(e) == 3:
            assert n == 1, (bid, e[0], n, e[1])
            s = s.replace(e[1], e[2])
        else:
            parts = s.split(e[1])
            k = e[3]
            assert n > k, (bid, n)
            s = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
        open(path, "w").write(s)
    d = os.path.join(SEED, bid)
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C %s diff" % work).stdout
    assert diff, bid
    # only lines of the original repository may change
    blame = {}
    touched_orig = False
    cur = None
    for line in diff.split("\n"):
        m = re.match(r"--- a/(.*)", line)
        if m:
            cur = m.group(1)
            blame[cur] = sh("git -C %s blame -s HEAD -- %s" % (REPO, cur)).stdout.split("\n")
            continue
        m = re.match(r"@@ -(\d+)", line)
        if m:
            no = int(m.group(1))
            continue
        if line.startswith("-") and not line.startswith("---"):
            if ORIG in blame[cur][no - 1]:
                touched_orig = True
            else:
                print("WARNING %s changes a line of a fix: %s" % (bid, line))
            no += 1
        elif line.startswith(" "):
            no += 1
    if not touched_orig:
        print("WARNING %s removes no original line" % bid)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(demo.strip() + "\n")
    for name, text in (files or {}).items():
        open(os.path.join(d, name), "w").write(text)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(build=BUILD[kind] + (" " + extra if extra else ""), env=env))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)


INNER = r'''
mount --bind %(copy)s /repo || exit 9
cd /repo || exit 9
bash /opt/vp/build.sh > %(copy)s.log 2>&1 || { echo BUILD-FAILED; exit 0; }
'''


def trial(bid, check=True):
    d = os.path.join(SEED, bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    copy = "/tmp/plant_%s" % bid
    shutil.rmtree(copy, ignore_errors=True)
    sh("cp -a %s %s" % (REPO, copy))
    out = []
    demo_dir = copy + ".demo"
    shutil.rmtree(demo_dir, ignore_errors=True)
    shutil.copytree(d, demo_dir, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        r = sh("cd %s && bash %s/demo.sh" % (copy, demo_dir))
        # (the clean copy's libraries are those of /repo; the rpath names the copy)
        if r.returncode != 0:
            out.append("DEMO-FAILS-UNCHANGED(%d) %s" % (r.returncode, (r.stdout + r.stderr)[-600:]))
        r = sh("git -C %s apply %s/patch.diff" % (copy, d))
        if r.returncode:
            return bid, meta["property"], ["PATCH " + r.stderr]
        r = sh("unshare -m bash -c '%s bash /opt/vp/test.sh %s.json; bash %s/demo.sh >%s.demo.out 2>&1; echo rc=$?'" % (INNER % dict(copy=copy), copy, demo_dir, copy))
        if "BUILD-FAILED" in r.stdout:
            out.append("BUILD " + open(copy + ".log").read()[-500:])
        else:
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base if isinstance(base, list) else base.get("stable", base.get("passed"))
            o = json.load(open(copy + ".json"))
            miss = set(stable) - set(o["passed"])
            if miss:
                out.append("TESTS-FAIL %s" % sorted(miss)[:4])
            m = re.search(r"rc=(\d+)", r.stdout)
            if not m or m.group(1) in ("0", "99"):
                out.append("DEMO-NOT-FAILING(%s) %s" % (m and m.group(1), open(copy + ".demo.out").read()[-500:]))
        if not out:
            out.append("valid")
        if check:
            r = sh("%s/bin/check %s" % (VERIF, meta["property"]), env=dict(os.environ, VERIF_REPO=copy, VERIF_OUT=copy + ".out", VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            out.append("CAUGHT" if r.returncode == 1 and v and ("property=" + meta["property"]) in v[0] else "MISSED(rc=%d) %s" % (r.returncode, r.stderr[-300:] if r.returncode not in (0, 1) else ""))
    finally:
        for p in (copy, demo_dir, copy + ".out"):
            shutil.rmtree(p, ignore_errors=True)
        for p in (".log", ".json", ".demo.out"):
            if os.path.exists(copy + p):
                os.unlink(copy + p)
    return bid, meta["property"], out


def main():
    args = sys.argv[1:]
    check = "--no-check" not in args
    jobs = 4
    if "--jobs" in args:
        i = args.index("--jobs")
        jobs = int(args[i + 1])
        del args[i:i + 2]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEED))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in cf.as_completed([ex.submit(trial, i, check) for i in ids]):
            bid, prop, out = f.result()
            if check:
                known = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
                known[bid] = "; ".join(o.split("\n")[0].strip() for o in out)
                json.dump(known, open(RESULTS, "w"), indent=0, sort_keys=True)
            print("%-34s %s %s" % (bid, prop, "; ".join(out)), flush=True)


if __name__ == "__main__":
    main()
