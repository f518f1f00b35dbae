"""Shared machinery of the checks.

A check = (1) TLC explores the design specification exhaustively within small constants,
(2) scenarios are produced (by TLC from the specification, and by seeded generators),
(3) a Go driver built from /repo's working tree executes them on the real code and records traces,
(4) TLC decides whether every recorded trace is a behaviour of the specification,
(5) rejected traces are re-executed and, when the real code shows the behaviour again, reported.

Only two outcomes are verdicts: exit 0 and exit 1 with a VIOLATION line. Everything else is exit 2.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


def clean(evs):
    """the events up to the first with a null in it, which becomes one that no specification knows"""
    def has(x):
        return x is None or isinstance(x, dict) and any(has(y) for y in x.values()) or isinstance(x, list) and any(has(y) for y in x)
    for i, e in enumerate(evs):
        if has(e):
            return evs[:i] + [{"e": "garbage", "how": "garbage"}]
    return evs


def goenv():
    e = dict(os.environ)
    ver = os.environ.get("PLZ_GO", "go1.23.12")
    e.update(HOME="/root", LANG="C.UTF-8", TZ="Asia/Shanghai",
             PATH="/opt/veriftools/%s/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin" % ver,
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTRACEBACK="single")
    return e


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.rng = random.Random("%s/%s/%s" % (pid, SEED, TIER))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.models = []
        self.notes = []
        self.assumptions = []
        self.violations = []
        self.cov = {}
        self.level = "model_checking"
        self.findings = load_findings(pid)
        self.known_hit = {}

    # ---------------------------------------------------------------- TLC
    def stage(self):
        """a private copy of the specs directory (TLC drops files beside the spec)"""
        d = os.path.join(self.tmp, "specs")
        if not os.path.isdir(d):
            shutil.copytree(SPECS, d)
        return d

    def tlc(self, module, cfg, env=None, args=(), timeout=600, workers="auto", heap="4g", check=True):
        d = self.stage()
        meta = tempfile.mkdtemp(prefix="meta-", dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss16m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-config", cfg] + list(args) + [module]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out after %ss on %s" % (timeout, module))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        r = dict(rc=p.returncode, out=out, generated=gen, distinct=dist, secs=time.time() - t)
        if check and p.returncode != 0:
            raise CheckError("TLC failed (rc %d) on %s/%s:\n%s" % (p.returncode, module, cfg, tail(out, 60)))
        return r

    def model(self, module, cfg=None, timeout=700, env=None, **kw):
        """exhaustive exploration of the design spec; a violated property is a defect of the specification -> error"""
        cfg = cfg or module + ".cfg"
        r = self.tlc(module, cfg, timeout=timeout, env=env, **kw)
        if "Model checking completed. No error has been found" not in r["out"]:
            raise CheckError("model %s did not complete:\n%s" % (module, tail(r["out"], 60)))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append(dict(model=module, config=cfg, distinct_states=r["distinct"], generated=r["generated"], secs=round(r["secs"], 1)))
        log("model %s/%s: %d distinct states, %d generated, %.1fs" % (module, cfg, r["distinct"], r["generated"], r["secs"]))
        return r

    def generate(self, module, cfg=None, simulate=None, depth=None, env=None, timeout=600, seed=None, workers=1):
        """behaviours of the specification, as JSON values written by the spec itself (one per line)"""
        cfg = cfg or module + ".cfg"
        out = os.path.join(self.tmp, "gen-%s-%d.ndjson" % (module, int(time.time() * 1e6) % 10**9))
        open(out, "w").close()
        e = dict(env or {}, GEN=out)
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth or 40), "-seed", str(seed if seed is not None else SEED), "-aril", "0"]
        r = self.tlc(module, cfg, env=e, args=args, workers=workers, timeout=timeout)
        if not simulate:
            self.states += r["distinct"]
            self.transitions += r["generated"]
        res, seen = [], set()
        with open(out) as f:
            for line in f:
                line = line.strip()
                if line and line not in seen:
                    seen.add(line)
                    res.append(json.loads(line))
        os.unlink(out)
        log("generate %s: %d distinct behaviours (%.1fs)" % (module, len(res), r["secs"]))
        if not res:
            raise CheckError("spec %s generated no behaviour:\n%s" % (module, tail(r["out"], 40)))
        self.models.append(dict(generator=module, config=cfg, behaviours=len(res), distinct_states=r["distinct"], secs=round(r["secs"], 1)))
        return res

    # ---------------------------------------------------------------- driver
    def build(self, pkg, race=False, tags="", overlay=None):
        """overlay: {path relative to the repository: file under /verif/overlay}"""
        exe = os.path.join(self.tmp, pkg.replace("/", "_") + ("_race" if race else ""))
        mod = os.path.join(self.tmp, "harness")
        if not os.path.isdir(mod):
            shutil.copytree(HARNESS, mod)
            if REPO != "/repo":
                p = os.path.join(mod, "go.mod")
                s = open(p).read().replace("=> /repo", "=> " + REPO)
                open(p, "w").write(s)
        cmd = ["go", "build", "-o", exe]
        if race:
            cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
        if tags:
            cmd += ["-tags", tags]
        if overlay:
            oj = exe + ".overlay.json"
            with open(oj, "w") as f:
                json.dump({"Replace": {os.path.join(REPO, k): os.path.join(VERIF, "overlay", v) for k, v in overlay.items()}}, f)
            cmd += ["-overlay", oj]
        cmd += ["./" + pkg]
        p = subprocess.run(cmd, cwd=mod, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("driver %s does not build:\n%s" % (pkg, p.stdout))
        return exe

    def drive(self, exe, cases, procs=1, **kw):
        """drive1 over several driver processes at once"""
        if procs <= 1 or len(cases) <= 1:
            return self.drive1(exe, cases, **kw)
        from concurrent.futures import ThreadPoolExecutor
        parts = [cases[i::procs] for i in range(procs)]
        parts = [p for p in parts if p]
        with ThreadPoolExecutor(len(parts)) as ex:
            res = list(ex.map(lambda ip: self.drive1(exe, ip[1], tag="p%d" % ip[0], **kw), list(enumerate(parts))))
        by = {r["id"]: r for rs in res for r in rs}
        return [by[c["id"]] for c in cases if c["id"] in by]

    def drive1(self, exe, cases, timeout=300, args=(), env=None, isolate_crash=True, tag="", patience=100):
        """Run the driver over the cases. Each result is {"id":..,"ev":[..]}.  A driver that dies (fatal error,
        unrecovered panic in a goroutine of the library) yields a crash event for the case it was executing,
        and the remaining cases are resumed in a fresh process."""
        results = {}
        todo = list(cases)
        rounds = crashes = stuck = 0
        while todo:
            rounds += 1
            if rounds > 400:
                raise CheckError("driver died too often")
            if crashes >= 6:  # enough to judge; the rest would only repeat it
                log("driver died %d times, %d cases not executed" % (crashes, len(todo)))
                break
            inp = os.path.join(self.tmp, "in-%s-%d.ndjson" % (tag, int(time.time() * 1e6)))
            outp = os.path.join(self.tmp, os.path.basename(inp).replace("in-", "out-"))
            with open(inp, "w") as f:
                for c in todo:
                    f.write(json.dumps(c) + "\n")
            e = goenv()
            e.update(env or {})
            e["VERIF_SCRATCH"] = self.tmp
            hung = False
            with open(outp + ".err", "w") as ef:
                p = subprocess.Popen([exe, inp, outp] + list(args), env=e, stdout=subprocess.DEVNULL, stderr=ef, cwd=self.tmp,
                                     preexec_fn=None if exe.endswith("_race") else limit_memory)
                t0 = last = time.time()
                size = -1
                while True:
                    try:
                        p.wait(0.5)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    n = os.path.getsize(outp) if os.path.exists(outp) else 0
                    if n != size:
                        size, last = n, time.time()
                    if time.time() - t0 > timeout:
                        p.kill()
                        p.wait()
                        raise CheckError("driver %s exceeded %ss" % (os.path.basename(exe), timeout))
                    if time.time() - last > patience:
                        hung = True
                        p.kill()
                        p.wait()
                        break
            stderr = open(outp + ".err", errors="replace").read()
            os.unlink(outp + ".err")
            got, started = {}, None
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        line = line.strip()
                        if not line:
                            continue
                        try:
                            o = json.loads(line)
                        except ValueError:
                            continue
                        if "start" in o:
                            started = o["start"]
                        else:
                            got[o["id"]] = o
                os.unlink(outp)
            os.unlink(inp)
            results.update(got)
            if p.returncode == 0:
                missing = [c for c in todo if c["id"] not in got]
                if missing:
                    raise CheckError("driver returned 0 but %d cases have no trace (first %s)\n%s" % (len(missing), missing[0]["id"], tail(stderr, 20)))
                break
            if p.returncode == 3:  # driver asks for a fresh process (a case left goroutines stuck)
                rest = [c for c in todo if c["id"] not in got]
                if len(rest) == len(todo):
                    raise CheckError("driver made no progress\n" + tail(stderr, 40))
                todo = rest
                stuck += 1
                if stuck >= 3 and todo:  # enough to judge; each of them costs a lot of waiting
                    log("driver got stuck %d times, %d cases not executed" % (stuck, len(todo)))
                    break
                continue
            if not isolate_crash or started is None or (p.returncode == -9 and not hung):
                raise CheckError("driver died (rc %d):\n%s" % (p.returncode, tail(stderr, 60)))
            log("driver died in case %s (rc %d): %s" % (started, p.returncode, first_line(stderr)))
            if p.returncode == 4 and got:  # an earlier case may have damaged its memory: once more, in a fresh process
                crashes += 1
                todo = [c for c in todo if c["id"] not in results]
                continue
            if p.returncode == 4:
                raise CheckError("driver reported an internal error:\n" + tail(stderr, 40))
            crashes += 3 if hung else 1
            results[started] = {"id": started, "ev": [{"e": "hang" if hung else "crash", "rc": p.returncode, "msg": first_line(stderr)}]}
            todo = [c for c in todo if c["id"] not in results]
        missing = [c["id"] for c in cases if c["id"] not in results]
        if missing and not crashes and not stuck:
            raise CheckError("no trace for %s" % missing[:3])
        return [results[c["id"]] for c in cases if c["id"] in results]

    # ---------------------------------------------------------------- trace validation
    def validate(self, module, traces, cfg=None, shards=None, timeout=800, env=None, heap="3g", dfs=False):
        """TLC decides which recorded traces are behaviours of the specification. Returns the rejected ones
        as (trace, index of the first event that no behaviour explains)."""
        cfg = cfg or module + ".cfg"
        # no specification has a transition that ends the process, or never ends
        dead = [(t, 1) for t in traces if len(t["ev"]) == 1 and t["ev"][0]["e"] in ("crash", "hang")]
        traces = [t for t in traces if not (len(t["ev"]) == 1 and t["ev"][0]["e"] in ("crash", "hang"))]
        if not traces:
            self.traces += len(dead)
            return dead
        for t in traces:  # a driver never writes null, unless its memory was damaged: no behaviour has that
            if "null" in json.dumps(t["ev"]):
                t["ev"] = clean(t["ev"])
        shards = shards or max(1, min(8, len(traces) // 200))
        d = self.stage()
        procs, rejected = [], []
        for s in range(shards):
            part = traces[s::shards]
            f = os.path.join(self.tmp, "tr-%s-%d-%d.ndjson" % (module, s, int(time.time() * 1e6) % 10**9))
            with open(f, "w") as fh:
                for t in part:
                    fh.write(json.dumps(dict(id=str(t["id"]), par=t.get("par", {"_": 0}), ev=t["ev"])) + "\n")
            meta = tempfile.mkdtemp(prefix="meta-", dir=self.tmp)
            e = dict(os.environ, TRACE=f)
            e.update(env or {})
            jopts = ["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []
            cmd = ["java"] + jopts + ["-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-workers", "1", "-metadir", meta,
                   "-deadlock", "-noGenerateSpecTE", "-config", cfg, module]
            of = open(f + ".log", "w")
            procs.append((subprocess.Popen(cmd, cwd=d, env=e, stdout=of, stderr=subprocess.STDOUT), part, f, meta, of))
        deadline = time.time() + timeout
        err = None
        for p, part, f, meta, of in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                err = "trace validation of %s timed out" % module
            of.close()
            out = open(f + ".log").read()
            shutil.rmtree(meta, ignore_errors=True)
            if err:
                continue
            if "TRACES-CHECKED" not in out:
                err = "trace validation of %s broke (rc %s):\n%s" % (module, p.returncode, tail(out, 50))
                continue
            n = int(re.search(r'TRACES-CHECKED", (\d+)', out).group(1))
            if n != len(part):
                err = "trace validation saw %d of %d traces" % (n, len(part))
                continue
            for c, l in re.findall(r'REJECT", (\d+), (\d+)', out):
                rejected.append((part[int(c) - 1], int(l)))
            m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
            if m:
                self.events += int(m[-1][1].replace(",", ""))
            os.unlink(f)
        if err:
            raise CheckError(err)
        self.traces += len(traces) + len(dead)
        return dead + rejected

    # ---------------------------------------------------------------- verdicts
    def judge(self, module, exe, cases, traces, rerun=3, must_repeat=False, **vkw):
        """validate, then confirm each rejection by executing the same case again in a fresh process.
        must_repeat: the case is deterministic, so an unrepeatable rejection is an error of the harness;
        otherwise (schedule-dependent cases) the recorded trace itself is the evidence."""
        byid = {c["id"]: c for c in cases}
        dargs = vkw.pop("drive_args", {})
        if not self.samples:
            for t in traces[: 2]:
                self.samples.append(dict(case=trim(byid.get(t["id"])), trace=trim(t["ev"], 12)))
        rej = self.validate(module, traces, **vkw)
        if not rej:
            return
        new = []
        for t, l in rej:
            k = self.match_finding(byid.get(t["id"]), t, l)
            if k:
                self.known_hit.setdefault(k["id"], k)
            else:
                new.append((t, l))
        if not new:
            return
        log("%d trace(s) rejected, re-executing" % len(new))
        confirmed = False
        for t, l in new[:5]:
            if len(self.violations) >= 2:
                break
            c = byid[t["id"]]
            got = None
            for _ in range(rerun):
                t2 = self.drive(exe, [c], **dargs)
                r2 = self.validate(module, t2, **vkw)
                if r2:
                    got = r2[0]
                    break
            if got:
                self.violation(c, got[0], got[1], module, repeated=True)
                confirmed = True
            elif not must_repeat or t["ev"][-1]["e"] == "crash":
                self.violation(c, t, l, module, repeated=False)
                confirmed = True
        if not confirmed and not self.violations:
            raise CheckError("rejected trace could not be reproduced: %s" % json.dumps(new[0][0])[:2000])

    def violation(self, case, trace, l, module, repeated):
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        h = hashlib.sha1(json.dumps([case, l], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(EVID, "replay", "%s-%s.json" % (self.pid, h))
        ev = trace["ev"]
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, spec=module, case=case, rejected_event_index=l,
                           rejected_event=ev[l - 1] if 0 < l <= len(ev) else None,
                           trace=ev, reproduced=repeated, seed=SEED, tier=TIER), f, indent=1)
        self.violations.append(path)
        log("rejected by %s at event %d: %s" % (module, l, json.dumps(ev[l - 1] if 0 < l <= len(ev) else None)[:600]))

    def match_finding(self, case, trace, l):
        for k in self.findings:
            if k.get("status") != "known":
                continue
            m = k.get("match", {})
            if k.get("event") and trace["ev"][-1]["e"] != k["event"]:
                continue
            if all(case is not None and str(case.get(x)) == str(v) for x, v in m.items()) and m:
                return k
        return None

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   trace_states=self.events, samples=self.samples[:4] or ["none"], models=self.models)
        cov.update(self.cov)
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        p = os.path.join(EVID, self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, v))
        log("%s %s seed=%d: %d model states, %d traces, %d violations, %.1fs" % (self.pid, TIER, SEED, self.states, self.traces, len(self.violations), wall))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def limit_memory():
    """a driver that runs away dies of it by itself"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))


def load_findings(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == pid]


def log(s):
    print("[check] " + s, file=sys.stderr, flush=True)


def tail(s, n):
    return "\n".join((s or "").splitlines()[-n:])


def first_line(s):
    for x in (s or "").splitlines():
        if x.strip():
            return x.strip()[:300]
    return ""


def trim(x, n=40):
    if isinstance(x, list) and len(x) > n:
        return x[:n] + ["... %d more" % (len(x) - n)]
    return x


def main(pid, body):
    ck = Check(pid)
    try:
        body(ck)
        rc = ck.finish()
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e), file=sys.stderr)
        rc = 2
        if ck.violations:  # what was confirmed before stands
            try:
                rc = ck.finish()
            except Exception as e:
                print("ERROR property=%s %s" % (pid, e), file=sys.stderr)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        ck.cleanup()
    sys.stdout.flush()
    sys.exit(rc)
