import json, os
from vc import TIER, CheckError
OVERLAY = {"countlog/output/lumberjack/zz_verif.go": "lumberjack.go.txt"}
NAMES = ["foo.log", "foo", "a.b.log", "foo-bar.log"]
FMTS = ["", "", "20060102-1504", "2006_01_02_15_04_05", "06-01-02T15-04"]
FORMS = ["plain"] * 5 + ["gz"] * 3 + ["both", "bothpart", "badgz", "gzdir", "big", "fifo"]


def foreign(rng, name):
    base, ext = (name.rsplit(".", 1) + [""])[:2] if "." in name else (name, "")
    ext = "." + ext if ext else ""
    f = ["%s-x%s" % (base, ext), "other-2019-03-01T00-00-00.000%s" % ext, "%s-2019-03-01T00-00-00.000.txt" % base, "%s.old" % name,
         "%s-2018-01-01T00-00-00.000-x%s" % (base, ext), "%s-2018-01-01T00-00-00.000%s.gz.tmp" % (base, ext), "%s-2018-01-01T00-00-00.000%s/" % (base, ext),
         "%s-20180101-0000%s/" % (base, ext), "%s-bak-2018-01-01T00-00-00.000%s" % (base, ext), "x%s-2018-01-01T00-00-00.000%s" % (base, ext),
         "%s-bak-20180101-0000%s" % (base, ext), "%s%s.gz" % (base, ext), "%s-2018-13-01T00-00-00.000%s" % (base, ext)]
    dirs = ["%s-%s%s/%s" % (base, ts, ext + z, e) for ts in ("2020-01-01T00-00-00.000", "20200101-0000", "2020_01_01_00_00_00", "20-01-01T00-00", "2017-01-01T00-00-00.000")
            for z in ("", ".gz") for e in ("", ".")]
    # backups are numbered 1, 2, ...
    f += ["%s-%s-%s%s" % (base, rng.choice(["2018-01-01T00-00-00.000", "20180101-0000", "2018_01_01_00_00_00", "18-01-01T00-00"]), i, ext + rng.choice(["", "", ".gz"]))
          for i in ("+1", "01", "0", "-1", "1x", "", " 1", "1_0")]
    byname = {x.rstrip("/."): x for x in rng.sample(f, rng.randrange(0, 5)) + rng.sample(dirs, rng.randrange(0, 5))}
    return sorted(byname.values())


def make(rng, i):
    now = rng.choice([0, 37, 10000])
    nb = rng.choice([0, 1, 2, 3, 4, 5, 6, 8])
    max_age = rng.choice([0, 0, 1, 2, 3])
    max_backups = rng.choice([0, 1, 1, 2, 3, 4, 6])
    compress = rng.random() < .5
    fault = compress and rng.random() < .25
    name = rng.choice(NAMES)
    ages = []
    for _ in range(nb):
        a = rng.choice([0, 1, 60, 1439, 1440, 1441, 2880, 2879, 2881, 4320, 4321, rng.randrange(6000), rng.randrange(6000)])
        if ages and rng.random() < .3:
            a = rng.choice(ages)
        ages.append(a)
    backups, rank = [], {}
    for a in sorted(ages, reverse=True):
        t = now - a
        # others of that time might have been removed before
        r = rank.get(t, rng.choice([0, 0, 0, 0, 1, 3, 8, 9, 10, 11])) + rng.choice([0, 0, 0, 0, 1, 7])
        rank[t] = r + 1
        k = len(backups) + 1
        form = rng.choice(FORMS)
        if fault and rng.random() < .4:
            form = "big"
        backups.append(dict(id=k, t=t, i=r, form=form, m=[k] + [rng.randrange(256) for _ in range(rng.randrange(4))]))
    trig, init, cur = [], None, []
    letters = lambda n: [97 + j % 26 for j in range(n)]
    kind = rng.choice(["open", "append", "rotate", "rotate", "rotinit", "rotate0", "openrot"])
    t = now

    def new(m=None):
        r = rank.get(t, 0)
        rank[t] = r + 1
        k = len(backups) + 1
        backups.append(dict(id=k, t=t, i=r, form="new", m=m if m is not None else [k] + [rng.randrange(256) for _ in range(rng.randrange(4))]))
    if kind == "open":
        trig = [dict(op="write", n=3)]
        cur = letters(3)
    elif kind == "append":
        init = [250, 251]
        trig = [dict(op="write", n=3)]
        cur = init + letters(3)
    elif kind == "rotate0":
        trig = [dict(op="rotate0")]
        cur = []
    elif kind == "rotinit":
        init = [250, 251]
        new(init)
        trig = [dict(op="rotate")]
        cur = []
    else:
        for _ in range(rng.randrange(1, 4)):
            new()
            trig += [dict(op="content"), dict(op="rotate")]
            t += rng.choice([0, 0, 1, 1440])
        t = backups[-1]["t"]
        cur = []
        if kind == "openrot":
            trig.append(dict(op="write", n=2))
            cur = letters(2)
    p = dict(backups=backups, maxBackups=max_backups, maxAge=max_age, compress=compress, now=t, fault=fault, cur=cur, foreign=foreign(rng, name))
    return dict(id="m%d" % i, kind="c06", name=name, fmt=rng.choice(FMTS), local=rng.random() < .4, p=p, trigger=trig, hasinit=init is not None, init=init)


def oracle(ck, cases):
    """TLC computes, from the specification, the directory each case must settle in"""
    f = os.path.join(ck.tmp, "cases.ndjson")
    with open(f, "w") as fh:
        for c in cases:
            fh.write(json.dumps(dict(id=c["id"], p=c["p"])) + "\n")
    exp = {e["id"]: e["expect"] for e in ck.generate("RetentionOracle", env=dict(CASES=f))}
    for c in cases:
        if c["id"] not in exp:
            raise CheckError("no prediction for " + c["id"])
        c["expect"] = exp[c["id"]]


def run(ck):
    thorough = TIER == "thorough"
    ck.model("Rolling", "MCRollingB.cfg")
    if thorough:
        ck.model("Rolling", "MCRollingC.cfg")
        ck.model("Rolling", "MCRollingA.cfg")
    cases = [make(ck.rng, i) for i in range(12000 if thorough else 1500)]
    oracle(ck, cases)
    exe = ck.build("c05", overlay=OVERLAY)
    traces = ck.drive(exe, cases, procs=12, timeout=800)
    ck.cov["backups_in_cases"] = sum(len(c["p"]["backups"]) for c in cases)
    ck.cov["cases_with_write_fault"] = sum(1 for c in cases if c["p"]["fault"])
    ck.judge("RetentionTrace", exe, cases, traces)
    ck.assumptions += ["the mill is given 20 s to reach the predicted directory before it counts as not reaching it",
                       "a failed write is injected with a limit on file size; other I/O errors are not"]
