from vc import TIER

OUT = ["ok", "ok", "ok", "err", "err", "same", "typednil", "multi", "struct", "known", "known"]
PROPS = ["none", "two", "room", "room", "room1", "room2", "room2", "room3", "room4", "full", "err", "odd"]


def op(rng, q, fn, props):
    ids = list(range(1, len(q) + 1))
    for i in range(1, len(q)):
        if rng.random() < .1:
            j = rng.randrange(i)
            ids[i], q = ids[j], q[:i] + [q[j]] + q[i + 1:]
    return dict(fn=fn, q=q, ids=ids, props=props, wrap=rng.random() < .3)


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("ClosingImpl", "MCClosing.cfg")
    if thorough:
        ck.model("ClosingImpl", "MCClosingL.cfg")
    cases = []

    def add(kind, gs):
        cases.append(dict(id="%s-%d" % (kind, len(cases)), gs=gs, min=rng.choice([10, 10, 30, 50])))
    for g in ck.generate("ClosingGen", "ClosingGen4.cfg" if thorough else "ClosingGen3.cfg"):
        add("all", [[op(rng, g["q"], g["fn"], g["props"])]])
    for _ in range(1500 if thorough else 300):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            q = [rng.choice(OUT) for _ in range(rng.choice([0, 1, 2, 5, 20, 100]))]
            ops.append(op(rng, q, rng.choice(["CloseAll", "CloseAll", "Merge"]), rng.choice(PROPS)))
        add("long", [ops])
    # several callers; the errors tell whose a log is, where the properties do not
    for _ in range(3000 if thorough else 400):
        gs = []
        for g in range(rng.choice([2, 3, 4])):
            ops = []
            for _ in range(rng.choice([1, 2, 4])):
                q = [rng.choice(["ok", "err", "err", "same"]) for _ in range(rng.choice([1, 2, 3, 6]))]
                if "err" not in q and "same" not in q:
                    q.append("err")
                fn = rng.choice(["CloseAll", "CloseAll", "Close", "Merge"])
                ops.append(op(rng, [q[-1] if q[-1] != "ok" else "err"] if fn == "Close" else q, fn, rng.choice(["room", "room", "two", "full"])))
            for o in ops:   # what is logged when all is well says nothing about whose it is
                if o["props"] == "room" and not any(x != "ok" for x in o["q"]):
                    o["props"] = "two"
            gs.append(ops)
        add("par", gs)
    exe = ck.build("c16")
    seq = [c for c in cases if len(c["gs"]) == 1]
    traces = ck.drive(exe, seq, procs=4, timeout=300)
    ck.judge("ClosingTrace", exe, seq, traces, must_repeat=True, shards=6)
    par = [c for c in cases if len(c["gs"]) > 1]
    traces = ck.drive(exe, par, procs=2, timeout=300)
    ck.judge("ClosingTrace", exe, par, traces, shards=4)
    ck.assumptions += ["a resource whose Close panics, or is nil, is not considered", "where the properties do not pair up, it is left open what is logged"]
