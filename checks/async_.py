from vc import TIER
PROCS = 24


def contents(rng, ids):
    m = {}
    for i in ids:
        k = rng.random()
        if k < .12:
            m[str(i)] = []
        elif k < .3:
            m[str(i)] = [rng.choice([1, 2])]                      # equal messages
        elif k < .36:
            m[str(i)] = [i] + [rng.randrange(256) for _ in range(rng.choice([31, 63, 64, 127, 128, 255, 600, 1500]))]
        else:
            m[str(i)] = [i] + [rng.randrange(256) for _ in range(rng.randrange(6))]
    return m


def random_case(rng, mode, i):
    cap = rng.choice([1, 1, 2, 3, 5])
    ops, w, closed = [], 0, False
    conc = 0
    for _ in range(rng.randrange(4, 16)):
        r = rng.random()
        if r < .35 and w < 18:
            w += 1
            ops.append(dict(op="write", w=w, ret=(mode == "drop" and not closed)))
        elif r < .55 and w < 16 and conc < 2:
            conc += 1
            n = rng.randrange(2, 4)
            ops.append(dict(op="writeall", ws=list(range(w + 1, w + n + 1))))
            w += n
        elif r < .85:
            ops.append(dict(op="sink", fail=rng.random() < .3, pan=rng.random() < .15))
        elif r < .93:
            ops.append(dict(op="pause", ms=rng.choice([1, 3])))
        elif not closed and w and rng.random() < .6:
            closed = True
            ops.append(dict(op="close"))
        elif rng.random() < .2:
            ops.append(dict(op="free"))
    if not closed and rng.random() < .4:
        if rng.random() < .5:
            ops.append(dict(op="pause", ms=2))
        ops.append(dict(op="close"))
    return dict(id="rnd-%d" % i, mode=mode, cap=cap, closable=rng.random() < .6, cerr=rng.choice(["", "close failed"]), free=rng.random() < .25,
                shared=False, short=rng.random() < .2, msg=contents(rng, range(1, w + 1)), ops=ops)


def sequential_case(rng, mode, i):
    """one caller, one buffer used again and again, as the event writer does"""
    cap = rng.choice([1, 2, 4])
    ops, w = [], 0
    room = cap + 1
    for _ in range(rng.randrange(3, 14)):
        if rng.random() < .6 and (mode == "drop" or room > 0):
            w += 1
            room -= 1
            ops.append(dict(op="write", w=w, ret=True))
        else:
            room = min(room + 1, cap + 1)
            ops.append(dict(op="sink", fail=rng.random() < .2, pan=rng.random() < .1))
    if rng.random() < .4:
        ops.append(dict(op="close"))
    free = mode == "drop" and rng.random() < .3
    m = {str(j): [j] * rng.randrange(1, 9) for j in range(1, w + 1)}
    return dict(id="seq-%d" % i, mode=mode, cap=cap, closable=rng.random() < .5, cerr=rng.choice(["", "close failed"]), free=free, shared=True, short=False, msg=m, ops=ops)


def make_run(mode):
    def run(ck):
        thorough = TIER == "thorough"
        rng = ck.rng
        ck.model("AsyncWriter", "MCAsyncLive.cfg")
        if thorough:
            ck.model("AsyncWriter", "MCAsync.cfg")
        beh = [b for b in ck.generate("AsyncGen", "AsyncGenL.cfg" if thorough else "AsyncGen.cfg") if b["mode"] == mode]
        rng.shuffle(beh)
        beh.sort(key=lambda b: -len(b["ops"]))
        beh = beh[: 6000 if thorough else 700]
        cases = []
        for i, b in enumerate(beh):
            n = sum(1 for o in b["ops"] if o["op"] == "write")
            cases.append(dict(id="spec-%d" % i, mode=mode, cap=b["cap"], closable=b["closable"], cerr=rng.choice(["", "close failed"]), free=False, shared=False,
                              short=rng.random() < .2, msg=contents(rng, range(1, n + 1)), ops=b["ops"]))
        cases += [random_case(rng, mode, i) for i in range(2500 if thorough else 300)]
        cases += [sequential_case(rng, mode, i) for i in range(1500 if thorough else 200)]
        # a sink that takes its time, but not more than the grace period, with everything queued when Close is called
        for i in range(60 if thorough else 16):
            n = rng.randrange(6, 12)
            cases.append(dict(id="pace-%d" % i, mode=mode, cap=n + 1, closable=True, cerr="", free=True, shared=False, short=False, pace=rng.randrange(350, 560) // n,
                              msg=contents(rng, range(1, n + 1)), ops=[dict(op="write", w=j, ret=True) for j in range(1, n + 1)] + [dict(op="close")]))
        exe = ck.build("c03")
        traces = ck.drive(exe, cases, procs=PROCS, timeout=800)
        ck.cov["events_recorded"] = sum(len(t["ev"]) for t in traces)
        ck.cov["cases_with_drops"] = sum(1 for t in traces if any(e["e"] == "Drop" for e in t["ev"]))
        ck.cov["cases_with_close"] = sum(1 for t in traces if any(e["e"] == "CRet" for e in t["ev"]))
        ck.cov["cases_past_grace"] = sum(1 for t in traces if t.get("par", {}).get("slow"))
        ck.judge("AsyncTrace", exe, cases, traces)
        if ck.violations:
            return
        st = [dict(id="stampede-%d" % i, mode=mode, cap=cap, rounds=(4000 if thorough else 600) if cap == 1 else 300, writers=n, msg={}, ops=[])
              for i, (cap, n) in enumerate([(1, 2), (1, 3), (1, 4), (1, 8), (2, 4), (2, 6), (3, 4), (7, 8)] * (4 if thorough else 1))]
        st += [dict(id="default-%d" % i, mode=mode, cap=1024, default=True, rounds=1, writers=n, msg={}, ops=[]) for i, n in enumerate([1000, 1024, 1026, 1100])]
        st += [dict(id="nocb-%d" % i, mode=mode, cap=cap, nocb=True, rounds=1, writers=n, msg={}, ops=[])
               for i, (cap, n) in enumerate([(1, 1), (2, 12), (4, 900), (8, 1009), (8, 1010), (3, 1500), (5, 2600)])]
        traces = ck.drive(exe, st, procs=2, timeout=800)
        ck.cov["stampedes"] = sum(c["rounds"] for c in st)
        ck.judge("AsyncTrace", exe, st, traces)
        ck.assumptions += ["the drop callback belongs to the driver and does not panic",
                           "messages not delivered by a Close that took more than 0.9 s are not judged (the documented grace is one second)",
                           "a step that must happen is given 10 s or more before it counts as never happening"]
    return run
