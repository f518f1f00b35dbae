from vc import TIER
KINDS = ["plain", "box", "ptr", "str"]


def script(rng, b, i):
    k = rng.randrange(4)
    ops = []
    for o in b:
        o = dict(o)
        if o.get("kind") == "plain":
            o["kind"] = rng.choice(["plain", "ptr", "str"])
        ops.append(o)
    return dict(id="spec-%d" % i, mode="script", ops=ops, keys=k, progs=[], roots=[])


def call(rng, wr, depth=0):
    inner = []
    for _ in range(rng.randrange(0, 6)):
        r = rng.random()
        if r < .4:
            inner.append(dict(op="set", k=rng.randrange(1, 11), kind=rng.choice(KINDS), n=rng.randrange(1, 60)))
        elif r < .6:
            inner.append(dict(op="get", k=rng.randrange(1, 11)))
        elif r < .75:
            inner.append(dict(op="mutate", k=rng.randrange(1, 11), n=rng.randrange(100, 160)))
        elif r < .85:
            inner.append(dict(op="delete"))
        elif depth < 2:
            inner.append(call(rng, wr, depth + 1))
    return dict(op="call", w=rng.randrange(1, wr + 1), how=rng.choice(["return", "return", "panic"]), ops=inner)


def long_script(rng, i):
    """longer scripts over more goroutines, keys and nested wrapping; one function started several times"""
    ops, run, wr, st, nxt = [], [1], 0, {1: False}, 2
    ng = rng.randrange(3, 12)
    for _ in range(rng.randrange(8, 40)):
        g = rng.choice(run)
        r = rng.random()
        if r < .18 and wr < 12:
            wr += 1
            ops.append(dict(op="wrap", g=g, w=wr, empty=rng.random() < .25))
        elif r < .42 and wr and nxt <= ng:
            ops.append(dict(op="start", g=nxt, w=rng.randrange(1, wr + 1)))
            run.append(nxt)
            nxt += 1
        elif r < .50 and wr:
            ops.append(dict(call(rng, wr), g=g))
        elif r < .68:
            ops.append(dict(op="set", g=g, k=rng.randrange(1, 11), kind=rng.choice(KINDS), n=rng.randrange(1, 60)))
        elif r < .80:
            ops.append(dict(op="mutate", g=g, k=rng.randrange(1, 11), n=rng.randrange(100, 160)))
        elif r < .88:
            ops.append(dict(op="get", g=g, k=rng.randrange(1, 11)))
        elif r < .92:
            ops.append(dict(op="reset", g=g, k=rng.randrange(1, 11), kind=rng.choice(KINDS), n=rng.randrange(1, 60)))
        elif r < .94:
            ops.append(dict(op="delete", g=g))
        elif len(run) > 1:
            g = rng.choice(run[1:])
            ops.append(dict(op="end", g=g, how=rng.choice(["return", "panic", "goexit"])))
            run.remove(g)
    return dict(id="long-%d" % i, mode="script", ops=ops, keys=rng.randrange(4), progs=[], roots=[])


def conc(rng, i):
    n = rng.randrange(6, 25)
    roots = list(range(1, rng.randrange(2, 6)))
    progs = [[] for _ in range(n)]
    nxt = [len(roots) + 1]
    wn = [0]

    def fill(g, depth):
        p = progs[g - 1]
        p.append(dict(op="reset", k=1, kind=rng.choice(KINDS), n=g)) if depth == 0 else None
        for _ in range(rng.randrange(4, 20)):
            r = rng.random()
            if r < .3:
                p.append(dict(op="set", k=rng.randrange(1, 11), kind=rng.choice(KINDS), n=rng.randrange(1, 60)))
            elif r < .55:
                p.append(dict(op="get", k=rng.randrange(1, 11)))
            elif r < .65:
                p.append(dict(op="mutate", k=rng.randrange(1, 11), n=rng.randrange(100, 160)))
            elif r < .7:
                p.append(dict(op="yield"))
            elif nxt[0] <= n and wn[0] < 38:
                wn[0] += 1
                w, c = wn[0], nxt[0]
                nxt[0] += 1
                p.append(dict(op="wrap", w=w, empty=rng.random() < .2))
                if rng.random() < .5:
                    p.append(dict(op="set", k=rng.randrange(1, 11), kind=rng.choice(KINDS), n=rng.randrange(1, 60)))
                p.append(dict(op="spawn", g=c, w=w))
                fill(c, depth + 1)
        if depth:
            p.append(dict(op="end", how=rng.choice(["return", "return", "panic", "goexit"])))
    for r in roots:
        fill(r, 0)
    return dict(id="conc-%d" % i, mode="conc", ops=[], keys=rng.randrange(4), progs=progs, roots=roots)


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("Gls", "MCGls.cfg")
    ck.model("GlsImpl", "MCGlsImplL.cfg" if thorough else "MCGlsImpl.cfg")
    beh = ck.generate("GlsGen", "GlsGen7.cfg" if thorough else "GlsGen5.cfg")
    rng.shuffle(beh)
    cases = [script(rng, b, i) for i, b in enumerate(beh[: 12000 if thorough else 1500])]
    cases += [long_script(rng, i) for i in range(3000 if thorough else 500)]
    cc = [conc(rng, i) for i in range(2000 if thorough else 400)]
    exe = ck.build("c07")
    traces = ck.drive(exe, cases, procs=8, timeout=600)
    ck.cov["events_recorded"] = sum(len(t["ev"]) for t in traces)
    ck.judge("GlsTrace", exe, cases, traces)
    if ck.violations:
        return
    traces = ck.drive(exe, cc, procs=4, timeout=600)
    ck.cov["events_recorded"] += sum(len(t["ev"]) for t in traces)
    ck.judge("GlsTrace", exe, cc, traces)
    if ck.violations:
        return
    # the same under the race detector, which stops the process at the first unsynchronized access
    race = ck.build("c07", race=True)
    rc = [dict(c, id="race-" + c["id"]) for c in cc[: 600 if thorough else 120]]
    env = dict(GORACE="halt_on_error=1 exitcode=66")
    traces = ck.drive(race, rc, procs=4, timeout=600, env=env)
    ck.judge("GlsTrace", race, rc, traces, drive_args=dict(env=env))
    ck.assumptions += ["what a goroutine has after it called a wrapped function itself: nothing or what it had before",
                       "the race detector sees the accesses of the executed schedules only"]
