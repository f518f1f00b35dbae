from vc import TIER
from jsonval import B

NAMES = ["a", "b", "user", "k1", "dim", "x.y", "é", "c", "d", "e", "f", ""]
POOL = ["", "a", "b", "ab", "bc", "c", "1", "01", "a,b", ",", "agg", "counter", "日本", "x" * 40, "\x00"]


def prop(key, val):
    return dict(key=B(key), val=B(val))


def layout(rng, uid, ndims=None, kind=None):
    """a place of the code that logs: its event, its properties, which of them are dimensions"""
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6]) if ndims is None else ndims
    names = rng.sample([x for x in NAMES if x != ""], n) if rng.random() < .9 else [rng.choice(NAMES) for _ in range(n)]
    dims = list(names)
    rng.shuffle(dims)
    if rng.random() < .1:
        dims.insert(rng.randrange(len(dims) + 1), rng.choice(["nope", "", "agg"]))
    if n and rng.random() < .05:
        dims.append(rng.choice(dims))
    props = [prop(x, rng.choice(POOL)) for x in names]
    for _ in range(rng.choice([0, 0, 1, 2])):   # properties that are no dimensions
        props.insert(rng.randrange(len(props) + 1), prop(rng.choice(["other", "z"]), rng.choice(POOL)))
    agg = ""
    r = rng.random()
    if kind == "other":
        if r < .4:
            props.insert(rng.randrange(len(props) + 1), prop("agg", rng.choice(["sum", "", "Counter"])))
        elif r < .6:
            agg = "histogram"
    elif r < .75:
        props.insert(rng.randrange(len(props) + 1), prop("agg", "counter"))
    else:
        agg = "counter"
        if r < .8:
            props.append(prop("agg", "counter"))
    if dims or rng.random() < .2:
        props.insert(rng.randrange(len(props) + 1), prop("dim", ",".join(dims)))
    return dict(agg=B(agg), event=B("ev%s" % uid), props=props)


def fixed(p):
    """agg and dim are what they are at the place of the call"""
    return bytes(p["key"]).decode() in ("agg", "dim")


def values(rng, site, pool=POOL, bad=0):
    return [dict(str=True, s=p["val"]) if fixed(p) else dict(str=rng.random() >= bad, s=B(rng.choice(pool))) for p in site["props"]]


def differ(rng, site):
    """values that differ in few places from each other"""
    base = values(rng, site)
    out = [base]
    for _ in range(4):
        v = [dict(x) for x in rng.choice(out)]
        free = [i for i, p in enumerate(site["props"]) if not fixed(p)]
        if free:
            i = rng.choice(free)
            v[i] = dict(str=True, s=B(rng.choice(POOL)))
            if len(free) > 1 and rng.random() < .3:
                j, k = rng.sample(free, 2)
                v[j], v[k] = v[k], v[j]
        out.append(v)
    free = [i for i, p in enumerate(site["props"]) if not fixed(p)]
    if len(free) > 1 and rng.random() < .5:   # the same when they are put together
        i, j = sorted(rng.sample(free, 2))
        sep = rng.choice([",", "", "|", "\x00"])
        mid = sep + rng.choice(["", bytes(site["props"][j]["key"]).decode() + sep])
        for a, b in (("1" + mid + "2", "3"), ("1", "2" + mid + "3")):
            v = [dict(x) for x in base]
            v[i], v[j] = dict(str=True, s=B(a)), dict(str=True, s=B(b))
            out.append(v)
    rng.shuffle(out)
    return out


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("CounterImpl", "MCCounterL.cfg" if thorough else "MCCounter.cfg")
    ck.model("CounterImpl", "MCCounterLive.cfg")
    if thorough:
        ck.model("CounterImpl", "MCCounterX.cfg")
    uid = [0]

    def name():
        uid[0] += 1
        return "c-%d" % uid[0]
    gen = ck.generate("CounterGen", "CounterGen6.cfg" if thorough else "CounterGen5.cfg")
    rng.shuffle(gen)
    cases = []
    for g in gen[: 12000 if thorough else 2100]:
        s = layout(rng, name(), rng.choice([1, 2, 3]))
        vs = differ(rng, s)
        ops, x = [], 0
        for o in g["ops"]:
            o = dict(o)
            if o["op"] == "export":
                x += 1
                o["s"] = 1
            if o["op"] != "count":
                o["x"] = x
            ops.append(o)
        cases.append(dict(id="gen-%d" % len(cases), kind="ops", sites=[s], collector=True, gs=3, xs=x, keys=[dict(s=1, vals=vs[0]), dict(s=1, vals=vs[1])], ops=ops))
    for _ in range(2500 if thorough else 400):
        sites = [layout(rng, name(), kind="other" if rng.random() < .12 else None) for _ in range(rng.choice([1, 1, 2, 3]))]
        coll = rng.random() < .95
        keys = []
        for i, s in enumerate(sites):
            for v in differ(rng, s):
                keys.append(dict(s=i + 1, vals=v))
            if rng.random() < .2:
                keys.append(dict(s=i + 1, vals=values(rng, s, bad=.4)))
        good = [i + 1 for i, s in enumerate(sites) if coll and (bytes(s["agg"]) == b"counter" or not s["agg"] and any(p["key"] == B("agg") and p["val"] == B("counter") for p in s["props"]))]
        handled = [k for k in range(len(keys)) if keys[k]["s"] in good]
        ops, x, live = [], 0, []
        for _ in range(rng.choice([4, 8, 16])):
            r = rng.random()
            if r < .6 and handled:
                ops.append(dict(op="count", g=rng.randrange(1, 4), k=1 + rng.choice(handled)))
            elif r < .72 and good and len(live) < 2:
                x += 1
                live.append(x)
                ops.append(dict(op="export", x=x, s=rng.choice(good)))
            elif r < .9 and live:
                ops.append(dict(op="release", x=rng.choice(live), pan=rng.random() < .2))
            elif live:
                ops.append(dict(op="finish", x=live.pop(rng.randrange(len(live)))))
        cases.append(dict(id="rnd-%d" % len(cases), kind="ops", sites=sites, collector=coll, gs=3, xs=x, keys=keys, ops=ops))
    exe = ck.build("c10")
    traces = ck.drive(exe, cases, procs=16, timeout=800)
    ck.cov["points_judged"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "Point")
    ck.cov["counts_during_an_export"] = sum(overlaps(t["ev"]) for t in traces)
    ck.judge("CounterTrace", exe, cases, traces, shards=8)
    if ck.violations:
        return
    bulk = []
    for i in range(60 if thorough else 12):
        sites = [layout(rng, name(), rng.choice([0, 1, 2, 3, 5])) for _ in range(rng.choice([1, 2]))]
        keys = [dict(s=j + 1, vals=v) for j, s in enumerate(sites) for v in differ(rng, s)]
        gs = rng.choice([2, 4, 17, 40])
        n = (60000 if thorough else 30000) // gs
        counts = [dict(g=g + 1, k=k + 1, n=rng.randrange(n)) for g in range(gs) for k in rng.sample(range(len(keys)), min(3, len(keys)))]
        bulk.append(dict(id="bulk-%d" % i, kind="bulk", sites=sites, collector=True, gs=gs, xs=1, keys=keys, counts=counts, exporters=rng.choice([1, 1, 2])))
    # large counts, exported seldom
    for n in (65535, 65536, 300000):
        site = layout(rng, name(), rng.choice([0, 1]))
        gs = rng.choice([1, 2])
        bulk.append(dict(id="large-%d" % n, kind="bulk", sites=[site], collector=True, gs=gs, xs=1, keys=[dict(s=1, vals=values(rng, site))], exporters=0,
                         counts=[dict(g=g + 1, k=1, n=n) for g in range(gs)]))
    # as many different values as there are users
    for i in range(10 if thorough else 3):
        site = layout(rng, name(), rng.choice([1, 1, 2]))
        vals = [[dict(v) for v in values(rng, site)] for _ in range(300)]
        for j, v in enumerate(vals):
            for v1, p in zip(v, site["props"]):
                if not fixed(p):
                    v1.update(str=True, s=B("user-%d" % (j // 2 * 2 + (j % 2 and rng.randrange(2)))))
        keys = [dict(s=1, vals=v) for v in vals]
        gs = rng.choice([1, 2])
        bulk.append(dict(id="many-%d" % i, kind="bulk", sites=[site], collector=True, gs=gs, xs=1, keys=keys,
                         counts=[dict(g=rng.randrange(gs) + 1, k=k + 1, n=rng.choice([1, 1, 2, 50])) for k in rng.sample(range(len(keys)), len(keys))],
                         exporters=rng.choice([0, 1])))
    traces = ck.drive(exe, bulk, procs=2, timeout=800)
    ck.cov["counted_in_bulk"] = sum(n["n"] for c in bulk for n in c["counts"])
    ck.judge("CounterTrace", exe, bulk, traces, shards=4)
    if ck.violations:
        return
    # the race detector watches the same
    race = ck.build("c10", race=True)
    some = [dict(c, id="race-" + c["id"], counts=[dict(n, n=n["n"] // 20) for n in c["counts"]]) for c in bulk[:: 2]]
    traces = ck.drive(race, some, procs=2, timeout=800, env={"GORACE": "halt_on_error=1 exitcode=66"})
    ck.judge("CounterTrace", race, some, traces, drive_args=dict(env={"GORACE": "halt_on_error=1 exitcode=66"}))
    if ck.violations:
        return
    # through the logger, with the exporters it starts
    logged = []
    for i in range(24 if thorough else 8):
        sites = [layout(rng, name()) for _ in range(rng.choice([1, 3, 6]))]
        for s in list(sites):   # other properties with the same event
            if rng.random() < .5:
                t = layout(rng, "")
                t["event"] = s["event"]
                sites.append(t)
        for s in sites:   # an event of the logger is counted when a property says so
            if s["agg"]:
                s["agg"] = []
                s["props"] = [p for p in s["props"] if p["key"] != B("agg")] + [prop("agg", "counter")]
        u = name()
        sites.append(dict(agg=[], event=B("ev%s" % u), props=[prop("agg", "counter"), prop("dim", "user"), prop("user", "")]))
        keys = [dict(s=j + 1, vals=v) for j, s in enumerate(sites) for v in differ(rng, s)]
        gs = rng.choice([1, 3, 8])
        counts = [dict(g=g + 1, k=k + 1, n=rng.choice([1, 2, 30])) for g in range(gs) for k in rng.sample(range(len(keys)), max(1, len(keys) // 2))]
        logged.append(dict(id="logged-%d" % i, kind="logged", sites=sites, collector=True, gs=gs, xs=1, keys=keys, counts=counts))
    auto = []
    for i in range(3):
        s = layout(rng, name(), 1)
        auto.append(dict(id="auto-%d" % i, kind="auto", sites=[s], collector=True, gs=1, xs=1, keys=[dict(s=1, vals=values(rng, s))], wanted=3, default=i == 2))
    some = logged + auto
    traces = ck.drive(exe, some, procs=11, timeout=800)
    ck.judge("CounterTrace", exe, some, traces, shards=6)
    ck.assumptions += ["dimension values are strings; an event with another value there is not counted, and must not disturb the others",
                       "the collector does not count events of the counter that is being exported to it"]


def overlaps(ev):
    run, n = 0, 0
    for e in ev:
        if e["e"] == "ECall":
            run += 1
        elif e["e"] in ("ERet", "EFail"):
            run -= 1
        elif e["e"] == "CCall" and run:
            n += 1
    return n
