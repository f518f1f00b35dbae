from vc import TIER
import jsonval, loglib
from jsonval import B
from args import arg

FNS = ["Trace", "Debug", "Info", "Warn", "Error", "Fatal", "TraceCall", "DebugCall", "InfoCall"]


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("MCLogLine", "MCLogLineL.cfg" if thorough else "MCLogLine.cfg")
    cases, ops = [], []
    gen = ck.generate("LogLineGen", "LogLineGenL.cfg" if thorough else "LogLineGen.cfg")
    rng.shuffle(gen)
    for g in gen[:40000]:
        ops.append(loglib.direct(rng, g["f"], g["name"], g["lv"], g["err"], g["args"], g["ctx"], g["pre"]))
    for _ in range(8000 if thorough else 700):
        ops.append(loglib.direct(rng, None, err=rng.choice(["none", "none", "text", "empty"]), kinds=rng.choice([["any"] * 3, ["any", "any", "oddkey", "again"], ["any", "timer", "any", "any", "any"], ["any"] * 6]),
                                 nctx=rng.choice([-1, 0, 1, 3]), npre=rng.choice([0, 3, 200]),
                                 layout=rng.choice(loglib.LAYOUTS * 3 + loglib.BADLAYOUTS)))
    for i in range(0, len(ops), 25):
        cases.append(dict(id="line-%d" % i, min=10, coll="", ops=ops[i:i + 25]))
    # through the log functions: each from two places
    uid = 0
    for f in ["json", "compact", "hrf", "hrftime"] + ["printf"] * 3:
        for n in range(20 if thorough else 3):
            ops = []
            for fn in FNS + ["Log", "LogAccess"]:
                for ctx in ([0] if fn == "Log" else [1] if fn == "LogAccess" else [0, 1, 2]):
                    for site in (0, 1):
                        uid += 1
                        kinds = rng.choice([[], ["any"], ["any", "oddkey"], ["any", "timer", "again"]])
                        args, have = [], []
                        for k in kinds:
                            args.append(loglib.prop(rng, k, have, 10**12))
                            have.append(bytes(args[-1]["key"]).decode())
                        args.insert(rng.randrange(len(args) + 1), loglib.ident_arg("q%dw" % uid))
                        o = dict(op="log", id="q%dw" % uid, fn=fn, ctx=ctx, site=site, lv=rng.choice([10, 30, 40, 60, 7]), args=args,
                                 tpl=B(loglib.title(rng, [k for k in have if loglib.ident(k)], None, "e%d" % uid)))
                        if fn.endswith("Call") or fn == "LogAccess":
                            o.update(fail=rng.random() < .5, err=jsonval.rstr(rng), how=rng.choice(["new", "ptr"]))
                        ops.append(o)
                        if rng.random() < .3:  # once more, with other values
                            uid += 1
                            a2 = [loglib.same_shape(rng, a, 10**12) for a in args]
                            a2[[bytes(a["key"]) for a in args].index(b"id")] = loglib.ident_arg("q%dw" % uid)
                            ops.append(dict(o, id="q%dw" % uid, args=a2, site=rng.choice([0, 1])))
                if rng.random() < .5:
                    ops.append(dict(op="add", ctx=rng.choice([1, 2]), args=[arg(rng, rng.choice(loglib.KEYS + loglib.ODDKEYS))]))
            cases.append(dict(id="log-%s-%d" % (f, uid), min=5, coll=rng.choice(["", "yes"]), fmt=loglib.fmt(rng, f), lay=loglib.TLAYS, ops=ops))
    exe = ck.build("log")
    traces = ck.drive(exe, cases, procs=8, timeout=600)
    ck.cov["lines_judged"] = sum(len(t["ev"]) for t in traces)
    ck.judge("LogTrace", exe, cases, traces, shards=8, must_repeat=True)
    ck.assumptions += ["what a value prints itself as, and the text of a time in a layout, is computed by the Go standard library",
                       "an event may be shown at any place where an event of its name has been logged before (the first one with the same properties in fact)",
                       "the human readable format has no text for the level, as it is"]
