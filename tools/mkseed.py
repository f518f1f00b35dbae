#!/usr/bin/env python3
"""mkseed.py [id-substring] [--jobs=N] [--check]: planted bugs.  tools/seeds/<id>.txt describes one:
    property: C01
    needs: ...
    breaks: ...
    ---- path/of/file.go
    old
    ====
    new
    (more ---- parts)
    >>>> main.go          (files of the demonstration)
    ...
Writes seeded/<id>/ (patch.diff, demo.sh, meta.json, ...), then confirms in scratch copies of /repo: the demonstration passes
without and fails with the change, the change builds and passes the stable tests.  --check also runs the check of the property."""
import sys, os, shutil, subprocess, tempfile, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
jobs = int(([a[7:] for a in sys.argv if a.startswith("--jobs=")] + ["1"])[0])
docheck = "--check" in sys.argv
DEMO = """#!/bin/bash
# exit 0: the property holds in this demonstration, 1: it is broken
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_demo/main.go\\":\\"$here/main.go\\"}}" > "$w/o.json"
go build %s -overlay "$w/o.json" -o "$w/demo" ./zz_demo || exit 3
cd "$w"
timeout 120 ./demo
"""


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def one(sid):
    out = ["--- " + sid]
    text = open(os.path.join(V, "tools/seeds", sid + ".txt")).read()
    main, *files = text.split("\n>>>> ")
    head, *parts = main.split("\n---- ")
    meta = dict(l.split(": ", 1) for l in head.strip().splitlines() if l and not l.startswith("flags"))
    flags = ([l[7:] for l in head.splitlines() if l.startswith("flags: ")] + [""])[0]
    dst = os.path.join(V, "seeded", sid)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for f in files:
        name, body = f.split("\n", 1)
        open(os.path.join(dst, name.strip()), "w").write(body.rstrip("\n") + "\n")
    open(os.path.join(dst, "demo.sh"), "w").write(DEMO % flags)
    os.chmod(os.path.join(dst, "demo.sh"), 0o755)
    json.dump(dict(property=meta["property"], needs=meta["needs"], what_it_breaks=meta["breaks"]), open(os.path.join(dst, "meta.json"), "w"), indent=1)
    d = tempfile.mkdtemp(prefix="srepo-", dir="/tmp")
    try:
        r = d + "/repo"
        subprocess.check_call(["cp", "-a", "/repo", r])
        q = sh("bash %s/demo.sh" % dst, r)
        out.append("   demo without: rc %d" % q.returncode + ("  <-- BAD\n" + q.stdout[-1500:] if q.returncode else ""))
        for p in parts:
            f, body = p.split("\n", 1)
            old, new = (body.rstrip("\n") + "\n").split("\n====\n")
            old, new = old.strip("\n"), new.strip("\n")
            fp = os.path.join(r, f.strip())
            s = open(fp).read()
            assert s.count(old) == 1, "%s: %d x %s" % (sid, s.count(old), old)
            open(fp, "w").write(s.replace(old, new))
        sh("gofmt -l .", r)
        diff = subprocess.check_output(["git", "diff"], cwd=r, text=True)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        q = sh("bash %s/demo.sh" % dst, r)
        out.append("   demo with: rc %d %s" % (q.returncode, "" if q.returncode in (1, 2, 66, 124) else "  <-- BAD") + " " + q.stdout[-200:].replace("\n", " | "))
        w = d + "/w"
        os.mkdir(w)
        q = sh("python3 /opt/vp/run_tests.py %s; python3 /opt/vp/results.py %s/out.json gojson:%s/log.json" % (w, d, w), r)
        res = json.load(open(d + "/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [t for t in base if t not in res["passed"]]
        out.append("   stable tests failing: %s%s" % (bad, "  <-- BAD" if bad else ""))
        if docheck:
            q = subprocess.run(["python3", V + "/bin/check.py", meta["property"]], env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            det = [l[:250] for l in q.stdout.splitlines() if "rejected by" in l or "ERROR" in l or "died" in l][:1]
            out.append("   check %s: rc %d %s" % (meta["property"], q.returncode, det))
    except Exception as e:
        out.append("   FAILED %r" % e)
    finally:
        shutil.rmtree(d)
    return "\n".join(out)


ids = sorted(f[:-4] for f in os.listdir(os.path.join(V, "tools/seeds")) if f.endswith(".txt"))
ids = [i for i in ids if not args or args[0] in i]
with ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
