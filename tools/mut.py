#!/usr/bin/env python3
"""mut.py MUTANTS.txt [name-substring] [--jobs N]: each mutant in a scratch copy of /repo, run the checks named by it.
Block format:
@@@@ name | file | C05,C06
old
====
new
(several replacements in one mutant: separated by a line ####)"""
import sys, os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
args = [a for a in sys.argv[1:] if not a.startswith("--")]
jobs = int(([a[7:] for a in sys.argv if a.startswith("--jobs=")] + ["1"])[0])
text = open(args[0]).read()
flt = args[1] if len(args) > 1 else ""


def one(b):
    head, body = b.split("\n", 1)
    name, f, pids = [x.strip() for x in head.split("|")]
    out = ["--- " + name]
    d = tempfile.mkdtemp(prefix="mrepo-", dir="/tmp")
    r = d + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", r])
        for part in body.split("\n####\n"):
            old, new = (part + "\n").split("\n====\n")
            old, new = old.strip("\n"), new.strip("\n")
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) < 1:
                return "\n".join(out + ["   NOT FOUND: " + old])
            open(p, "w").write(s.replace(old, new, 1))
        for pid in pids.split(","):
            t0 = time.time()
            q = subprocess.run(["python3", "/verif/bin/check.py", pid.strip()], env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            det = [l[:300] for l in q.stdout.splitlines() if "rejected by" in l or "ERROR" in l or "died" in l][:1]
            out.append("   %s rc %d %.0fs %s" % (pid, q.returncode, time.time() - t0, det))
            if q.returncode == 2:
                out.append(q.stdout[-1500:])
    finally:
        shutil.rmtree(d)
    return "\n".join(out)


blocks = [b for b in text.split("@@@@ ")[1:] if flt in b.split("\n", 1)[0]]
with ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, blocks):
        print(r, flush=True)
