from vc import TIER
OVERLAY = {"countlog/output/lumberjack/zz_verif.go": "lumberjack.go.txt"}
NAMES = ["foo.log", "foo", "a.b.log", "sub/dir/x.log", "foo-bar.log", "x-1.log"]
FMTS = ["", "", "20060102-1504", "2006-01-02", "2006", "2006-01-02T15-04-05"]
TICKS = [0.001, 0.001, 0.3, 1, 60, 3600, 86400, -60]


def dress(rng, ops, i, kind):
    mb, maxsize = 1, rng.choice([4, 5])
    out = []
    for o in ops:
        o = dict(o)
        if o["op"] == "tick":
            o["sec"] = rng.choice(TICKS)
        out.append(o)
    c = dict(id="%s-%d" % (kind, i), kind="c05", name=rng.choice(NAMES), fmt=rng.choice(FMTS), local=rng.random() < .3, maxsize=maxsize, mb=mb,
             hasinit=False, init=None, other=rng.sample(["other.log", "zz", "foo.log.bak", "foo.txt"], rng.randrange(0, 2)), ops=out, msgs=[], grp=[])
    if c["name"] in c["other"]:
        c["other"] = []
    if rng.random() < .4:
        c["hasinit"] = True
        c["init"] = [200 + j for j in range(rng.choice([0, 1, 2, 3, 4, 5, 7]))]
    return c


def random_case(rng, i):
    mode = rng.random()
    if mode < .2:
        maxsize, mb = 0, 1
    elif mode < .4:
        maxsize, mb = rng.choice([1, 2, 3]), rng.choice([7, 16])
    else:
        maxsize, mb = rng.randrange(1, 24), 1
    mx = (maxsize or 100) * mb
    ops, seq, exists = [], 0, False
    for _ in range(rng.randrange(3, 25)):
        r = rng.random()
        if r < .55:
            n = rng.choice([0, 1, mx // 2, mx - 1, mx, mx + 1, rng.randrange(0, mx + 1), rng.randrange(0, mx + 1)])
            ops.append(dict(op="write", n=n))
            exists = exists or n <= mx
        elif r < .65:
            ops.append(dict(op="rotate"))
            exists = True
        elif r < .72:
            ops.append(dict(op="close"))
        elif r < .79:
            ops.append(dict(op="restart"))
        elif r < .86 and exists:
            how = rng.choice(["renamed", "created"])
            ops.append(dict(op="died", how=how))
            exists = how == "created"
        else:
            ops.append(dict(op="tick"))
    c = dress(rng, ops, i, "rnd")
    c["maxsize"], c["mb"] = maxsize, mb
    if c["hasinit"]:
        c["init"] = [rng.randrange(256) for _ in range(rng.choice([0, 1, mx - 1, mx, mx + 3]))]
    return c


def conc_case(rng, i):
    maxsize = rng.randrange(4, 30)
    n = rng.randrange(4, 14)
    g = rng.randrange(2, 5)
    msgs = [[j + 1] + [rng.randrange(256) for _ in range(rng.randrange(0, min(maxsize, 12)))] for j in range(n)]
    grp = [rng.randrange(g) for _ in range(n)]
    c = dress(rng, [], i, "conc")
    c.update(maxsize=maxsize, mb=1, fmt="", msgs=msgs, grp=grp, hasinit=False, init=None)
    return c


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("Rolling", "MCRollingQ.cfg")
    if thorough:
        for cfg in ("MCRollingA.cfg", "MCRollingB.cfg", "MCRollingC.cfg"):
            ck.model("Rolling", cfg)
    beh = ck.generate("RollingGen", "RollingGen5.cfg" if thorough else "RollingGen4.cfg")
    rng.shuffle(beh)
    beh = beh[: 20000 if thorough else 2500]
    cases = [dress(rng, b, i, "spec") for i, b in enumerate(beh)]
    cases += [random_case(rng, i) for i in range(6000 if thorough else 800)]
    conc = [conc_case(rng, i) for i in range(2000 if thorough else 300)]
    exe = ck.build("c05", overlay=OVERLAY)
    traces = ck.drive(exe, cases, procs=8, timeout=700)
    ck.cov["events_recorded"] = sum(len(t["ev"]) for t in traces)
    ck.cov["backups_seen"] = sum(len(t["ev"][-1].get("dir", {}).get("baks", [])) for t in traces if t["ev"])
    ck.judge("RollingTrace", exe, cases, traces, must_repeat=True)
    if not ck.violations:
        traces = ck.drive(exe, conc, procs=4, timeout=700)
        ck.judge("RollingTrace", exe, conc, traces)
    ck.assumptions += ["one process writes to the file", "a crash leaves the files as the completed system calls made them (no lost page cache)",
                       "the clock and the size of a megabyte are replaced through the package's own test variables"]
