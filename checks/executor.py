from vc import TIER, log
import json

PROCS = 24


def gen_cases(ck, want_panics):
    rng = ck.rng
    thorough = TIER == "thorough"
    beh = ck.generate("ExecutorGen", "ExecutorGen.cfg" if not thorough else "ExecutorGen3.cfg")
    rng.shuffle(beh)
    beh = beh[: 2500 if thorough else 350]
    cases = []
    for i, ops in enumerate(beh):
        ops = [dict(o) for o in ops]
        for o in ops:
            if o["op"] == "go":
                o["val"] = rng.randrange(7)
                if o["how"] == "panic" and want_panics is False and rng.random() < .3:
                    o["how"] = "ok"
        cases.append(dict(id="spec-%d" % i, ops=ops))
    # seeded random scenarios: more tasks, hand-overs from within tasks, concurrent hand-overs, several waiters
    n = 1200 if thorough else 200
    for i in range(n):
        cases.append(dict(id="rnd-%d" % i, ops=random_ops(rng), slow=160 if i % 4 == 0 else 0))
    return cases


def random_ops(rng):
    ops, live, nt, nw, ns = [], [], 0, 0, 0
    nwait = rng.choice([1, 1, 1, 2, 3])
    for _ in range(rng.randrange(5, 14)):
        r = rng.random()
        if r < .42 and nt < 8:
            if rng.random() < .25 and nt <= 5:
                sub = []
                for _ in range(rng.randrange(2, 4)):
                    nt += 1
                    sub.append(mk(rng, nt))
                    if not sub[-1].get("free"):
                        live.append(nt)
                ops.append(dict(op="goall", ops=sub))
            else:
                nt += 1
                o = mk(rng, nt)
                if live and rng.random() < .35:
                    o["by"] = rng.choice(live)
                if not o.get("free"):
                    live.append(nt)
                ops.append(o)
        elif r < .62 and live:
            t = rng.choice(live)
            live.remove(t)
            ops.append(dict(op="release", t=t))
        elif r < .74 and ns < 3:
            ns += 1
            ops.append(dict(op="stop", s=ns))
        elif r < .92 and nw < nwait:
            nw += 1
            ops.append(dict(op="wait", w=nw, free=rng.random() < .5, ms=rng.choice([1, 110, 240, 350])))
        elif nw and rng.random() < .3:
            w = rng.randrange(1, nw + 1)
            if not any(o["op"] == "wait" and o["w"] == w and o["free"] for o in ops) and not any(o["op"] == "ctxend" and o["w"] == w for o in ops):
                ops.append(dict(op="ctxend", w=w))
        else:
            ops.append(dict(op="pause", ms=rng.choice([1, 60, 130])))
    if nw == 0:
        ops.append(dict(op="wait", w=1, free=True, ms=240))
    return ops


def mk(rng, t):
    return dict(op="go", t=t, site=rng.randrange(1, 4), how=rng.choice(["ok", "ok", "panic", "panic", "stop", "exit"]),
                val=rng.randrange(7), free=rng.random() < .3)


def run(ck):
    ck.model("Executor", "MCExecutorLive.cfg")
    if TIER == "thorough":
        ck.model("Executor", "MCExecutor.cfg")
    exe = ck.build("c01")
    cases = gen_cases(ck, None)
    traces = ck.drive(exe, cases, procs=PROCS, timeout=700)
    ck.cov["distinct_event_kinds"] = sorted({e["e"] for t in traces for e in t["ev"]})
    ck.cov["events_recorded"] = sum(len(t["ev"]) for t in traces)
    ck.judge("ExecutorTrace", exe, cases, traces)
    if ck.violations:
        return
    st = [dict(id="stampede-%d" % i, execs=e, tasks=n, sites=s, panics=p) for i, (e, n, s, p) in
          enumerate([(400, 2, 1, 0), (300, 3, 1, 1), (300, 4, 2, 2), (150, 8, 1, 4), (100, 8, 3, 8), (20, 100, 3, 30)] * (8 if TIER == "thorough" else 2))]
    st += [dict(id="starved-%d" % i, spin=s, tasks=n, sites=k) for i, (s, n, k) in enumerate([(30, 1, 1), (40, 3, 3), (30, 6, 2)])]
    traces = ck.drive(exe, st, procs=2, timeout=700)
    ck.cov["tasks_in_stampedes"] = sum(c.get("execs", 1) * c["tasks"] for c in st)
    ck.judge("ExecutorTrace", exe, st, traces)
    ck.assumptions += ["task bodies, gates and the panic hook belong to the driver; the waiter polls at an unspecified interval, so only the order of observable events is judged",
                       "a step that must happen is given 25 s before it counts as never happening"]
