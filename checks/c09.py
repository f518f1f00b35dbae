from vc import TIER
import jsonval, loglib
from jsonval import B
from args import arg
from loglib import log_op

CALLS = ["TraceCall", "DebugCall", "InfoCall"]
ANY = ["Info", "Info", "Warn", "Error", "Fatal", "Debug"]
FMTS = ["json", "compact", "hrf", "hrftime", "printf"]


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("MCDispatch")
    uid = [0]

    def nid():
        uid[0] += 1
        return "q%dw" % uid[0]

    def base():
        """the properties of an event, as they are at first"""
        return [arg(rng, k, rng.choice([None, "str", "flat", "self"])) for k in rng.sample(loglib.KEYS, rng.choice([1, 2, 2, 3]))]

    def step(k, tpl, a, conc=False):
        """one call of an event: k says what is special about it"""
        a = [loglib.same_shape(rng, x, 10**12) for x in a]
        kw = dict(fn=rng.choice(ANY))
        if k == "types":
            a = [arg(rng, bytes(x["key"]).decode()) for x in a]
        elif k == "names":
            ks = rng.sample(loglib.KEYS, len(a))
            a = [dict(x, key=B(y)) for x, y in zip(a, ks)]
        elif k == "order":
            rng.shuffle(a)
        elif k == "fewer":
            a = a[:-1]
        elif k == "more":
            a.insert(rng.randrange(len(a) + 1), arg(rng, rng.choice(loglib.KEYS)))
        elif k == "none":
            a = []
        elif k == "call":
            kw["fn"] = rng.choice(CALLS)
        elif k == "failed":
            kw.update(fn=rng.choice(CALLS), fail=True, err=jsonval.rstr(rng), how=rng.choice(["new", "ptr"]))
        elif k == "logs":
            a.append(dict(key=B(rng.choice(loglib.KEYS)), kind="logs", s=B("z%dw" % rng.randrange(10**9))))
        elif k == "unnamed":
            a.append(dict(key=B("x"), kind="nil"))
        elif k == "nokey":
            a.insert(rng.randrange(len(a) + 1), dict(arg(rng, "n"), nk=True))
        elif k == "nilkey":
            a.insert(rng.randrange(len(a) + 1), dict(arg(rng, "n"), nk=True, nilkey=True))
        elif k == "boom":
            a.insert(rng.randrange(len(a) + 1), dict(key=B(rng.choice(loglib.KEYS)), kind=rng.choice(loglib.BAD), s=B("boom")))
        elif k == "errpanic":
            kw.update(fn=rng.choice(CALLS), fail=True, err=B("x"), how=rng.choice(["nilptr", "panic"]))
        elif k in ("werr", "wpanic", "wshort", "wlogs"):
            kw["fault"] = k[1:]
        o = log_op(rng, nid(), tpl, a, **kw)
        if k == "odd":
            o["odd"] = True
            o["args"] = o["args"] + [arg(rng, "last")]
        if not conc:
            o["ctx"] = rng.choice([0, 0, 0, 1, 2])
            if rng.random() < .1:
                o["args"] = o["args"] + [dict(key=B("agg"), kind="str", s=B("counter"))] if not o.get("odd") else o["args"]
        return o
    cases = []

    def case(id, ops, **kw):
        f = kw.pop("f", None) or rng.choice(FMTS)
        cases.append(dict(dict(id="%s-%d" % (id, len(cases)), min=5, coll=rng.choice(["", "", "yes", "handlepanic"]), fmt=loglib.fmt(rng, f, rng.choice(["{message}", "{level} {event} {message}|{line}"])),
                               lay=loglib.TLAYS, ops=ops), **kw))

    def named(a, f=None):
        """a template for an event with these properties; a printf layout shows nothing but the message"""
        uid[0] += 1
        t = loglib.title(rng, [bytes(x["key"]).decode() for x in a], rng.choice(["template", "template", "event"]), "e%d " % uid[0])
        return B(t + " {id}")
    gen = [g["h"] for g in ck.generate("LogGen", "LogGen3.cfg" if thorough else "LogGen.cfg")]
    for r in range(1 if thorough else 2):
        rng.shuffle(gen)
        for i in range(0, len(gen), 12):
            ops, f = [], FMTS[(i // 12 + r) % 5]
            for h in gen[i:i + 12]:
                a = base()
                tpl = named(a)
                for k in h + ["same"]:
                    ops.append(step(k, tpl, a))
            case("gen", ops, f=f)
    kinds = ["same", "same", "types", "names", "order", "fewer", "more", "none", "call", "failed", "logs", "unnamed", "nokey", "nilkey", "odd", "boom", "errpanic", "werr", "wpanic", "wshort", "wlogs"]
    for _ in range(1500 if thorough else 150):
        ops, evs = [], []
        for _ in range(rng.choice([8, 15, 30])):
            r = rng.random()
            if r < .05:
                ops.append(dict(op="setmin", m=rng.choice([5, 10, 30, 45])))
            elif r < .12:
                ops.append(dict(op="add", ctx=rng.choice([1, 2]), args=[arg(rng, rng.choice(loglib.KEYS + loglib.ODDKEYS)) if rng.random() < .8 else dict(key=B("c"), kind=rng.choice(loglib.BAD), s=B("c"))]))
            elif r < .17:
                k = rng.choice([("ka", "kb"), ("xyz", "xyw"), ("q1", "q2")])
                uid[0] += 1
                tpl = B("e%d {%s} {%s} {id}" % (uid[0], k[0], k[1]))
                for x in (k[0], k[1], k[0]):
                    ops.append(dict(op="stack", tpl=tpl, id=nid(), args=[arg(rng, x, "str")]))
            else:
                if not evs or rng.random() < .25:
                    a = base()
                    evs.append((named(a), a))
                tpl, a = rng.choice(evs)
                ops.append(step(rng.choice(kinds), tpl, a))
        case("hist", ops, coll=rng.choice(["", "yes", "handlepanic", "ofpanic"]))
    exe = ck.build("log")
    traces = ck.drive(exe, cases, procs=8, timeout=600)
    ck.cov["calls_judged"] = sum(len(t["ev"]) for t in traces)
    # a value that contains itself, in a process of its own
    cyc = [dict(id="cyclic", min=5, coll="", fmt=loglib.fmt(rng, "compact"), lay=loglib.TLAYS,
                ops=[log_op(rng, "q1w", B("cyclic {a} {id}"), [dict(key=B("a"), kind="cyclic")]), log_op(rng, "q2w", B("later {id}"), [])])]
    ck.judge("LogTrace", exe, cyc, ck.drive(exe, cyc, timeout=100), must_repeat=True)
    ck.judge("LogTrace", exe, cases, traces, shards=8, must_repeat=True)
    if ck.violations:
        return
    seq, cases = cases, []
    conc = kinds[:]
    for _ in range(1500 if thorough else 150):
        evs = []
        for _ in range(rng.choice([1, 1, 2])):
            a = base()
            evs.append((named(a), a))
        pars = []
        for _ in range(rng.choice([2, 4, 8])):
            ops = []
            for _ in range(rng.choice([2, 4])):
                tpl, a = rng.choice(evs)
                ops.append(step(rng.choice(conc), tpl, a, True))
            pars.append(ops)
        case("conc", [], pars=pars)
    traces = ck.drive(exe, cases, procs=4, timeout=600)
    ck.cov["calls_judged"] += sum(len(t["ev"]) for t in traces)
    ck.judge("LogTrace", exe, cases, traces, shards=8)
    ck.assumptions += ["an event whose properties or error make trouble (panic, no string as key, no value) may be shown in any way, once, or not at all but reported"]
