from vc import TIER
import jsonval, loglib
from jsonval import B
from args import arg
from loglib import log_op

FMTS = ["json", "compact", "hrf", "hrftime", "printf"]


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("EventWriter", "MCEventWriter.cfg")
    if thorough:
        ck.model("EventWriter", "MCEventWriterL.cfg")
    uid = [0]

    def nid():
        uid[0] += 1
        return "q%dw" % uid[0]
    cases = []
    for i in range(2500 if thorough else 260):
        evs = []
        for _ in range(rng.choice([1, 2, 3])):
            a = [arg(rng, k) for k in rng.sample(loglib.KEYS, rng.choice([0, 1, 2, 3]))]
            if rng.random() < .2:  # longer than the buffers
                a.append(dict(key=B("long"), kind="str", s=B("x" * rng.choice([120, 128, 129, 500, 5000]))))
            uid[0] += 1
            evs.append((B(loglib.title(rng, [bytes(x["key"]).decode() for x in a], rng.choice(["template", "template", "event"]), "e%d " % uid[0]) + " {id}"), a))
        faults = rng.choice([["", ""], ["", ""], ["", "", "err", "short"], ["", "", "panic"], ["", "err", "panic"]])
        async_ = rng.random() < .2
        pars = []
        for _ in range(rng.choice([1, 2, 4, 8])):
            ops = []
            for _ in range(rng.choice([3, 6, 10])):
                tpl, a = rng.choice(evs)
                a = [loglib.same_shape(rng, x, 10**12) for x in a]
                id = nid()
                if rng.random() < .3:
                    a = [x for x in a if x["kind"] != "timer"] + [loglib.ident_arg(id)]
                    t = B("{id}" + loglib.title(rng, [bytes(x["key"]).decode() for x in a], "template", "p"))
                    ops.append(dict(op="fprintf", id=id, tpl=t, args=a, fault=rng.choice(faults)))
                else:
                    ops.append(log_op(rng, id, tpl, a, fn=rng.choice(["Info", "Warn", "Fatal", "Trace", "InfoCall"]), fault=rng.choice(faults)))
            pars.append(ops)
        if rng.random() < .2:
            cases.append(dict(id="seq-%d" % i, min=5, coll="", ops=sum(pars, []), fmt=loglib.fmt(rng, None, "{level} {message}"), lay=loglib.TLAYS))
        else:
            cases.append(dict(id="conc-%d" % i, min=5, coll=rng.choice(["", "yes"]), ops=[], pars=pars, **{"async": async_}, fmt=loglib.fmt(rng, None, "{level} {message}"), lay=loglib.TLAYS))
    exe = ck.build("log")
    traces = ck.drive(exe, cases, procs=4, timeout=600)
    ck.cov["writes_judged"] = sum(len(e.get("writes", [])) for t in traces for e in t["ev"])
    ck.judge("LogTrace", exe, cases, traces, shards=8)
