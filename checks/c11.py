from vc import TIER
import jsonval
from jsonval import B
from args import SELF, LAYS, arg, bare

def again(rng, a):
    """another value of the same type"""
    if a["kind"] in ("json", "nil"):
        return a
    return arg(rng, bytes(a["key"]).decode("utf8", "replace"), "self" if a["kind"] in SELF else a["kind"]) if a["kind"] not in SELF else dict(a, s=jsonval.rstr(rng), i=str(rng.randrange(19)))


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("MCMsg", "MCMsgL.cfg" if thorough else "MCMsg.cfg")
    cases = []

    def add(kind, calls, par=0):
        cases.append(dict(id="%s-%d" % (kind, len(cases)), calls=calls, par=par))

    def call(api, tpl, args, **kw):
        return dict(api=api, tpl=B(tpl), args=args, **kw)
    fixed = [arg(rng, "a", "str"), arg(rng, "b", "flat")]
    block = []
    for s in ck.generate("MsgGen", "MsgGenCL.cfg" if thorough else "MsgGenC.cfg"):
        tpl = "".join(s["t"])
        a, b = dict(key=B("a"), kind="str", s=B("<A>")), arg(rng, "b", "flat")
        block.append(call("Sprintf", tpl, [a, b]))
        if "a" in tpl and "{" in tpl and "}" in tpl:
            block.append(call("Fprintf", tpl, [arg(rng, "b", "bytes"), arg(rng, "a", "self")]))
            block.append(call("Formatter", tpl, [b, a], pre=B("pre")))
            block.append(call("Sprintf", tpl, [dict(a, s=[]), dict(a, s=B("second")), b]))
        if len(block) > 40:
            add("tpl", block)
            block = []
    add("tpl", block)
    block = []
    for s in ck.generate("MsgGen", "MsgGenTL.cfg" if thorough else "MsgGenT.cfg"):
        tpl = "".join(s["t"])
        args = [arg(rng, "s", rng.choice(["str", "bytes", "self", "json", "time", "nil"])), arg(rng, "n"), arg(rng, "t", "time"), arg(rng, "b")]
        if rng.random() < .1:
            args[2] = arg(rng, "t")
        if rng.random() < .3:
            rng.shuffle(args)
        block.append(call(rng.choice(["Sprintf", "Sprintf", "Formatter", "Fprintf"]), tpl, args))
        if len(block) > 20:
            add("tok", block)
            block = []
    add("tok", block)

    def template(keys):
        parts = []
        for _ in range(rng.choice([1, 2, 3, 5, 5, 9, 17])):
            r = rng.random()
            k = rng.choice(keys)
            if r < .35:
                parts.append(bytes(jsonval.rstr(rng)).decode("utf8").replace("{", "("))
            elif r < .9:
                parts.append(rng.choice(["{%s}", "{ %s}", "{%s }", "{\t%s\n}"]) % k)
            elif r < .97:
                parts.append(rng.choice(["{%s, goTime, %s}", "{%s ,goTime,%s}", "{%s,\tgoTime,\n %s \t}"]) % (k, bytes(rng.choice(LAYS)).decode()))
            else:
                parts.append(rng.choice(["{nope}", "{", "{{a}}", "{a,b}", "{%s,goTime" % k]))
        return "".join(parts)

    def history(n):
        """calls that share templates and keys, but not the types"""
        keys = rng.sample(["a", "b", "key", "k_1", "é", "中文", "0", "msg", "_"], rng.choice([1, 2, 3]))
        tpls = [template(keys) for _ in range(rng.choice([1, 1, 2]))]
        calls = []
        for _ in range(n):
            ks = keys[:]
            if rng.random() < .5:
                rng.shuffle(ks)
            if rng.random() < .3:
                ks.append(rng.choice(["extra", keys[0]]))
            args = [arg(rng, k) for k in ks]
            if rng.random() < .08:
                args.insert(rng.randrange(len(args) + 1), dict(arg(rng, "q"), nk=True))
            tpl = rng.choice(tpls)
            api = rng.choice(["Sprintf", "Sprintf", "Fprintf", "Formatter", "Formatter"])
            kw = {}
            if api == "Formatter":
                kw = dict(pre=rng.choice([[], [1, 2], [65] * 30]))
                if rng.random() < .5:
                    kw["sample"] = args
                    args = [again(rng, a) for a in args]
            elif rng.random() < .1:
                kw["odd"] = True
                args.append(arg(rng, rng.choice(keys)))
            calls.append(call(api, tpl, args, **kw))
            if rng.random() < .2:
                calls.append(dict(calls[-1]))
        return calls
    def twins():
        """the same types, other keys, other order, fewer and more of them"""
        keys = rng.sample(["a", "b", "c", "d", "é"], 3)
        kind = rng.choice(["str", "str", "bytes", "time", "selfv", "flat"])
        one = arg(rng, "k", "flat")
        mk = lambda k: dict(one, key=B(k)) if kind == "flat" else dict(arg(rng, k, "self"), kind="selfv") if kind == "selfv" else arg(rng, k, kind)
        tpl = template(keys[:2])
        calls = []
        for _ in range(8):
            ks = rng.choice([keys[:2], keys[1::-1], keys[:1], keys[1:], keys, [keys[0]] * 2, [], keys[2:]])
            calls.append(call(rng.choice(["Sprintf", "Fprintf", "Formatter"]), tpl, [mk(k) for k in ks]))
        return calls
    for _ in range(2500 if thorough else 200):
        add("twin", twins())

    def wide():
        """many arguments of the same types, two of them called otherwise"""
        n = rng.choice([4, 5, 6, 8, 9, 12, 17, 20])
        keys = ["k%02d" % i for i in range(n)]
        kinds = [rng.choice(["str", "str", "bytes"]) for _ in keys]
        tpl = " ".join("{%s}" % k for k in rng.sample(keys, min(n, 4)) + keys[-2:])
        calls = []
        for _ in range(5):
            ks = keys[:]
            if rng.random() < .8:
                i, j = rng.choice([(n - 2, n - 1), tuple(rng.sample(range(n), 2))])
                ks[i], ks[j] = ks[j], ks[i]
                if kinds[i] != kinds[j]:
                    kinds[j] = kinds[i]
            if rng.random() < .2:
                ks[rng.randrange(n)] = "other"
            calls.append(call(rng.choice(["Sprintf", "Fprintf", "Formatter"]), tpl, [arg(rng, k, kind) for k, kind in zip(ks, kinds)]))
        return calls
    for _ in range(600 if thorough else 60):
        add("wide", wide())
    for k, k2 in [("ka", "kb"), ("kb", "ka"), ("ka", "ka"), ("xyz", "xyw"), ("q1", "q2")]:
        for tpl in ("{%s}" % k, "<{%s}>" % k2, "{ %s } {%s}" % (k, k)):
            add("stack", [call("Stack", tpl, [arg(rng, k, "str")], sample=[dict(arg(rng, k2, "str"))])])
    for _ in range(2500 if thorough else 300):
        add("hist", history(rng.choice([3, 6, 10])))
    for _ in range(800 if thorough else 60):
        n = rng.choice([0, 1, 1, 1, 2, 2, 3])
        args = [arg(rng, "k", None if n < 2 else rng.choice(["json", "nil", "flat"])) for _ in range(n)]
        add("ln", [call(rng.choice(["Fprintln", "Fprintln", "Println"]), "", args), call("Fprintln", "", args)])
    for _ in range(60 if thorough else 12):
        keys = ["a", "b"]
        args = [arg(rng, k) for k in keys]
        add("io", [call("Printf", template(keys), args), call("Fprintf", template(keys), args, fail=True), call("Fprintf", template(keys), args), call("Fprintln", "", args[:1], fail=True), call("Fprintln", "", args[:1])])
    # every byte, as text and as bytes
    for lo in range(0, 256, 32):
        add("bytes", [call("Sprintf", rng.choice(["{k}", "<{k}>{k}"]), [dict(key=B("k"), kind=kind, s=s)])
                      for b in range(lo, lo + 32) for s in ([b], [97, b], [b, 97], [97, b, b, 98]) for kind in ("bytes", "str")])
    exe = ck.build("c11")
    traces = ck.drive(exe, cases, procs=8, timeout=600)
    ck.cov["calls_judged"] = sum(len(t["ev"]) for t in traces)
    ck.judge("MsgTrace", exe, cases, traces, shards=8)
    if ck.violations:
        return
    conc = [dict(id="conc-%d" % i, par=rng.choice([2, 4, 8]), calls=history(6)) for i in range(1500 if thorough else 150)]
    traces = ck.drive(exe, conc, procs=4, timeout=600)
    ck.cov["calls_judged"] += sum(len(t["ev"]) for t in traces)
    ck.judge("MsgTrace", exe, conc, traces, shards=8)
    ck.assumptions += ["what a value prints itself as, and a time in a layout, is computed by the Go standard library",
                       "a formatter is only used with arguments of the same keys and types as the sample it was made from"]
