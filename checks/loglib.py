"""cases for the driver of the logger as a whole (harness/log)"""
import jsonval
from jsonval import B
from args import LAYS, arg

KEYS = ["a", "b", "key", "k_1", "user", "é", "中文"]
ODDKEYS = ["user id", "user-id", "http.status", "a{b}", "}", "{", "", "{a", "x|y", 'q"t', "a,goTime,x", "tab\t", "back\\", "new\nline", "%s", "timer "]
LAYOUTS = ["{message}", "[{level}] {timestamp, goTime, 2006-01-02} {message}", "{event}|{message}", "{timestamp} {file}:{line} {func} {message}",
           "{level}{message}{line}", "{message} {message}", "x", "{timestamp,goTime} [{ level }] {message}", "é{message}\n{file}"]
BADLAYOUTS = ["{nope} {message}", "{message", "{level, goTime, x}{message}"]
TLAYS = LAYS + [B("2006-01-02T15:04:05Z07:00")]
SITES = [("main.f", "/src/main.go", 3), ("pkg.(*T).m", 'C:\\src\\"x".go', 120), ("", "", 0), ("é.f", "/a b/中.go", 99999)]


def fmt(rng, f=None, layout=None):
    f = f or rng.choice(["json", "compact", "hrf", "hrftime", "printf"])
    d = dict(f="hrf" if f == "hrftime" else f, time=f == "hrftime")
    if f == "printf":
        d["layout"] = B(layout if layout is not None else rng.choice(LAYOUTS))
    return d


def title(rng, keys, kind=None, tag=""):
    kind = kind or rng.choice(["template"] * 4 + ["event", "callee", "invalid"])
    parts = [tag]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        parts.append(rng.choice(["text", "{%s}", " {%s} ", "={%s}", ": ", "|"]).replace("%s", rng.choice(keys) if keys else "nope") if keys or kind == "invalid" else rng.choice(["text", " | ", "é"]))
    t = "".join(parts)
    if kind == "invalid":
        return t + rng.choice(["{nope}", "{", "{a b}"])
    if kind in ("event", "callee"):
        return kind + "!" + t
    return t if kind == "template" or tag else ""


def ident(k):
    return all(ord(ch) >= 128 or ch.isalnum() or ch == "_" for ch in k) and k


def prop(rng, kind, have, ts):
    """one property; have: the keys before it"""
    if kind == "timer":
        return dict(key=B("timer"), kind="timer", i=str(ts * 10**6 - rng.choice([0, 1, 999, 1500000, 10**9, 3661 * 10**9, -5])))
    if kind == "timerish":
        a = arg(rng, "timer")
        return a if a["kind"] != "json" or a["t"]["t"] != "int64" else dict(key=B("timer"), kind="str", s=B("x"))
    if kind == "again" and have:
        k = rng.choice(have)
        return arg(rng, k) if k != "timer" else prop(rng, rng.choice(["timer", "timerish"]), have, ts)
    if kind == "oddkey":
        return arg(rng, rng.choice(ODDKEYS))
    return arg(rng, rng.choice([k for k in KEYS if k not in have] or ["more%d" % len(have)]))


def same_shape(rng, a, ts):
    """another value of the same key and type"""
    if a["kind"] in ("json", "nil"):
        return a
    if a["kind"] in ("selfv", "selfp", "selfs", "selfi", "selfe", "dur"):
        return dict(a, s=jsonval.rstr(rng), i=str(rng.randrange(19)))
    if a["kind"] == "timer":
        return prop(rng, "timer", [], ts)
    return dict(arg(rng, "k", a["kind"]), key=a["key"])


def direct(rng, f, name=None, lv=None, err=None, kinds=(), nctx=-1, npre=0, layout=None):
    ts = rng.randrange(0, 4 * 10**12)
    args, have = [], []
    for k in kinds:
        args.append(prop(rng, k, have, ts))
        have.append(bytes(args[-1]["key"]).decode())
    o = dict(op="direct", fmt=fmt(rng, f, layout), args=args, runs=[args], ts=str(ts), lv=rng.choice([5, 10, 15, 20, 25, 30, 40, 50, 60, 0, 35, 100]) if lv is None else lv,
             tpl=B(title(rng, [k for k in have if ident(k)], name)), lay=TLAYS, pre=[rng.choice([0, 65, 10, 255]) for _ in range(npre)],
             fail=err != "none", err=jsonval.rstr(rng, None if err != "empty" else 0))
    for _ in range(rng.choice([0, 1, 1, 2])):
        o["runs"].append([same_shape(rng, a, ts) for a in args])
    fn, fi, ln = rng.choice(SITES)
    o["loc"] = dict(func=B(fn), file=B(fi), line=ln)
    o["ctx"] = int(nctx >= 0)
    cargs, chave = [], []
    for _ in range(max(nctx, 0)):
        cargs.append(prop(rng, rng.choice(["any", "any", "oddkey", "again"]), chave, ts))
        chave.append(bytes(cargs[-1]["key"]).decode())
    o["ctxargs"] = cargs
    # the same place again: at another level, a moment later, in another zone, with another outcome and context
    o["vars"] = [dict(lv=rng.choice([o["lv"], 5, 20, 30, 40, 50, 60]), dt=rng.choice([0, 0, 1, 10, 999, 1000, 60000, 86400000, -1]), zone=rng.choice([0, 0, 0, 480, -330]),
                      fail=rng.random() < .5, err=jsonval.rstr(rng), ctxargs=[same_shape(rng, a, ts) for a in cargs]) for _ in o["runs"][1:]]
    return o


def ident_arg(id):
    return dict(key=B("id"), kind="str", s=B(id))


BAD = ["boomS", "boomE", "boomJ", "errJ", "nilself", "chan", "func"]


def log_op(rng, id, tpl, args, fn="Info", **kw):
    """a log call; its id is one of its properties"""
    args = list(args)
    args.insert(rng.randrange(len(args) + 1), ident_arg(id))
    return dict(dict(op="log", id=id, fn=fn, ctx=0, site=0, lv=30, args=args, tpl=tpl), **kw)
