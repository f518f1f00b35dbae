from vc import TIER
from jsonval import *


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("MCJson", "MCJsonL.cfg" if thorough else "MCJson.cfg")
    cases = []

    def add(kind, c, **kw):
        c.update(id="%s-%d" % (kind, len(cases)), pre=rng.choice([[], [], [1, 2, 34], [65] * rng.randrange(40)]), par=0, **kw)
        cases.append(c)
    shapes = ck.generate("JsonGen", "JsonGen3.cfg" if thorough else "JsonGen2.cfg")
    for s in shapes:
        for _ in range(2 if thorough or len(s["wraps"]) < 2 else 1):
            t = leaf(rng, s["leaf"])
            for w in s["wraps"]:
                t = wrap(rng, w, t)
            add("shape", case(rng, t))
    for _ in range(6000 if thorough else 900):
        add("deep", case(rng, rtype(rng, rng.choice([2, 3, 4, 5])), 5))
    for n in NAMES:
        for _ in range(120 if thorough else 25):
            add("named", case(rng, named(n), 5))
    # lists of scalars: digit boundaries, escapes, roundings
    for _ in range(40 if thorough else 6):
        for t in list(INTS) + ["float64", "float32", "string", "bytes"]:
            add("scalar", case(rng, T("slice", e=T(t), h=30)))
    lists = [("nU8", 0, 255), ("int8", -128, 127)]
    if thorough:
        lists += [("uint16", i, i + 1023) for i in range(0, 65536, 1024)] + [("int16", i, i + 1023) for i in range(-32768, 32768, 1024)]
    else:
        lists += [("uint16", 900, 1200), ("uint16", 9900, 10100), ("int16", -1100, -900), ("int16", 900, 1100)]
    for t, lo, hi in lists:
        add("all", dict(t=T("slice", e=named(t) if t == "nU8" else T(t)), val=dict(l=[dict(i=str(x)) for x in range(lo, hi + 1)]), v=dict(k="list", v=[dict(k="int", t=B(str(x))) for x in range(lo, hi + 1)])))
    # every byte at every place of a short text
    for n in range(1, 4):
        for p in range(n):
            for lo in range(0, 128, 16):
                ss = [[97] * p + [b] + [98] * (n - p - 1) for b in range(lo, lo + 16)]
                add("bytepos", dict(t=T("slice", e=T("string")), val=dict(l=[dict(s=s) for s in ss]), v=dict(k="list", v=[dict(k="str", s=s) for s in ss])))
            for lo in range(0, 256, 16):
                ss = [[97] * p + [b] + [98] * (n - p - 1) for b in range(lo, lo + 16)]
                add("bytepos", dict(t=T("slice", e=T("bytes")), val=dict(l=[dict(s=s) for s in ss]), v=dict(k="list", v=[dict(k="bytes", s=s) for s in ss])))
    # types of the same name
    for _ in range(200 if thorough else 40):
        a, b = rng.sample([named("twin1"), named("twin2")], 2)
        add("twin", case(rng, T("struct", f=[F("A", wrap(rng, rng.choice(["slice1", "ptr", "map1", "array1"]), a)), F("B", wrap(rng, rng.choice(["slice1", "ptr", "map1", "boxed"]), b))]), 5))
    # other configurations: they hold for everything inside, too
    for cfg in ("unexported", "extension", "unexported extension"):
        for k in cfg.split():
            CFG[k] = True
        for i in range(1500 if thorough else 250):
            add("cfg", case(rng, rng.choice([rtype(rng, rng.choice([2, 3, 4])), wrap(rng, rng.choice(["ptr", "slice", "struct2", "structskip", "map", "boxed"]), rtype(rng, 2)),
                                             T("slice", e=T("iface", h=named(rng.choice(["unexp", "nInt", "outer2", "nMap"]))), h=2), named("unexp"), named("outer2")]), 5), cfg=cfg)
        for k in cfg.split():
            CFG[k] = False
    rng.shuffle(cases)
    exe = ck.build("c12")
    traces = ck.drive(exe, cases, procs=8, timeout=600)
    ck.cov["texts_judged"] = sum(len(t["ev"]) for t in traces)
    ck.judge("JsonTrace", exe, cases, traces, shards=8)
    if ck.violations:
        return
    # the first use of a type from many goroutines at once, each case in a process that has seen few others
    conc = [dict(c, id="conc-%d" % i, par=8) for i, c in enumerate(c for c in cases if c["id"].split("-")[0] in ("deep", "named", "shape", "cfg"))][: 4000 if thorough else 500]
    traces = ck.drive(exe, conc, procs=8, timeout=600)
    ck.cov["texts_judged"] += sum(len(t["ev"]) for t in traces)
    ck.judge("JsonTrace", exe, conc, traces, shards=8)
    ck.assumptions += ["strings are valid UTF-8, field names need no escaping, no two keys of a map have the same text",
                       "a float within 0.52e-6 of the value counts as rounded at the sixth decimal (up to 0x4ffffff), above that the nearest float must be the value"]
