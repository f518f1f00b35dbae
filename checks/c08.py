from vc import TIER
import jsonval
from jsonval import B
from args import arg

FNS = ["Trace", "Debug", "Info", "Warn", "Error", "Fatal"]
CALLS = ["TraceCall", "DebugCall", "InfoCall"]
MINS = [0, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 60, 70]
KEYS = ["a", "b", "key", "k_1", "user", "timer", "ctx", "é"]


def err(rng):
    return dict(fail=True, err=jsonval.rstr(rng), how=rng.choice(["new", "new", "ptr", "nilptr", "str", "wrap"]))


def template(rng, uid, keys):
    parts = ["%s " % uid]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        parts.append(rng.choice(["plain text", "{%s}", " {%s} ", "= {%s}", ": "]).replace("%s", rng.choice(keys) if keys else "nope"))
    if rng.random() < .06:
        parts.append(rng.choice(["{nope}", "{", "{a b}"]))
    if rng.random() < .15:
        parts.insert(0, rng.choice(["event!", "callee!"]))
    return "".join(parts)


def props(rng, n=None):
    ks = rng.sample(KEYS, rng.choice([0, 1, 1, 2, 3, 5]) if n is None else n)
    return [arg(rng, k) for k in ks]


def agg():
    return [dict(key=B("agg"), kind="str", s=B("counter"))]


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("MCDispatch")
    cases = []
    uid = [0]


    def name():
        uid[0] += 1
        return "c%s-%d" % ("t" if thorough else "q", uid[0])
    # all histories of two minima and an event
    gen = ck.generate("DispatchGen", "DispatchGenL.cfg" if thorough else "DispatchGen.cfg")
    rng.shuffle(gen)
    by = {}
    for g in gen:
        by.setdefault(g["coll"], []).append(g)
    for coll, gs in by.items():
        for i in range(0, len(gs), 25):
            ops = []
            for g in gs[i:i + 25]:
                a = props(rng, rng.choice([0, 1, 2]))
                if g["agg"]:
                    a = a + agg() if rng.random() < .5 else agg() + a
                tpl = B(template(rng, name(), [bytes(x["key"]).decode() for x in a]))
                for m in g["hist"]:
                    ops.append(dict(op="setmin", m=m))
                    o = dict(op="call", fn=g["fn"], ctx=g["ctx"], lv=g["lv"], tpl=tpl, args=a)
                    if g["failed"]:
                        o.update(err(rng))
                    ops.append(o)
            cases.append(dict(id="gen-%d" % len(cases), min=10, coll=coll, mine=coll and i % 2 == 0, ops=ops))

    def call(name, ctxs, tpl=None, a=None):
        ctx = rng.choice(ctxs)
        fn = rng.choice(FNS + CALLS + (["LogAccess"] if ctx else ["Log"]))
        if a is None:
            a = props(rng)
            if rng.random() < .15:
                a.insert(rng.randrange(len(a) + 1), agg()[0])
        if tpl is None:
            tpl = B(template(rng, name, [bytes(x["key"]).decode() for x in a]))
        o = dict(op="call", fn=fn, ctx=ctx, lv=rng.choice(MINS + [-1, 100]) if fn == "Log" else 0, tpl=tpl, args=a)
        if fn in CALLS + ["LogAccess"] and rng.random() < .5:
            o.update(err(rng))
        return o

    def history(n):
        ops, tpls = [], []
        for _ in range(n):
            r = rng.random()
            if r < .15:
                ops.append(dict(op="setmin", m=rng.choice(MINS)))
            elif r < .25:
                ops.append(dict(op="add", ctx=rng.randrange(1, 4), args=[arg(rng, rng.choice(KEYS))], how=rng.choice(["", "", "spi"])))
            elif r < .29:
                ops.append(dict(op="suppress", ctx=rng.randrange(1, 4), m=rng.choice(MINS)))
            elif r < .33:
                ops.append(dict(op="should", m=rng.choice(MINS)))
            elif r < .37:
                ops.append(dict(op="timer", fn=rng.choice(["Trace", "Debug", "Info"])))
            elif r < .40:
                ops.append(dict(op="panic", fail=rng.random() < .3, err=jsonval.rstr(rng), args=props(rng)))
            elif r < .42:
                ops.append(dict(op="wrap", ctx=rng.randrange(1, 4)))
            else:
                old = rng.choice(tpls) if tpls and rng.random() < .5 else None
                # an event of the same name again: with the same properties, or others
                o = call(name(), [0, 0, 1, 2, 3], old and old["tpl"], old and old["args"] if rng.random() < .5 else None)
                tpls.append(o)
                ops.append(o)
        return ops
    for _ in range(2500 if thorough else 350):
        cases.append(dict(id="hist-%d" % len(cases), min=rng.choice(MINS), coll=rng.random() < .5, mine=rng.random() < .5, ops=history(rng.choice([6, 12, 20]))))
    exe = ck.build("c08")
    traces = ck.drive(exe, cases, procs=8, timeout=600)
    ck.cov["calls_judged"] = sum(len(t["ev"]) for t in traces)
    ck.cov["events_output"] = sum(len(e["outs"]) for t in traces for e in t["ev"] if e["e"] == "Call")
    ck.judge("DispatchTrace", exe, cases, traces, shards=8, must_repeat=True)
    if ck.violations:
        return
    conc = []
    for i in range(1200 if thorough else 160):
        pars = []
        shared = [(B(template(rng, name(), ["a"])), props(rng)) for _ in range(2)]
        ctx = rng.random() < .5
        for g in range(3 if ctx else rng.choice([2, 4, 8])):
            ops = []
            for _ in range(rng.choice([4, 8])):
                if ctx and rng.random() < .25:
                    ops.append(dict(op="add", ctx=g + 1, args=[arg(rng, rng.choice(KEYS))], how=rng.choice(["", "spi"])))
                    continue
                t = rng.choice(shared) if rng.random() < .8 else (B(template(rng, name(), [])), props(rng))
                o = call("", [g + 1] if ctx else [0], t[0], t[1])
                o["args"] = o["args"] + [dict(key=B("gid"), kind="json", t=dict(t="int"), val=dict(i=str(g + 1)), v=dict(k="int", t=B(str(g + 1))))]
                ops.append(o)
            pars.append(ops)
        conc.append(dict(id="conc-%d" % i, min=rng.choice(MINS), coll=rng.random() < .5, mine=rng.random() < .5, ops=[], pars=pars))
    traces = ck.drive(exe, conc, procs=4, timeout=600)
    ck.cov["calls_judged"] += sum(len(t["ev"]) for t in traces)
    ck.judge("DispatchTrace", exe, conc, traces, shards=8)
    ck.assumptions += ["keys are strings and each has a value (other argument lists: C09)", "two values are the same if they have the same type and the same fmt text",
                       "a context that suppresses levels must keep back Trace, and may keep back the other functions below the given level"]
