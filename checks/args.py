"""arguments of the formatters and the logger"""
import jsonval
from jsonval import B

SELF = ["selfv", "selfp", "selfs", "selfi", "selfe", "dur"]
LAYS = [B(x) for x in ["2006-01-02T15:04:05Z07:00", "2006-01-02", "15:04", "", "2006", "Jan _2", "x", "é 05"]]


def bare(v):
    return bare(v["v"]) if v["k"] == "to" else v


def arg(rng, key, kind=None):
    """a key with a value of some kind"""
    kind = kind or rng.choice(["str", "str", "bytes", "bytes", "json", "json", "json", "self", "time", "nil", "flat"])
    a = dict(key=B(key), kind=kind)
    if kind == "str":
        a["s"] = jsonval.rstr(rng) if rng.random() < .8 else jsonval.rbytes(rng)
    elif kind == "bytes":
        a["s"] = jsonval.rbytes(rng)
    elif kind == "self":
        a["kind"] = rng.choice(SELF)
        a["s"] = jsonval.rstr(rng)
        a["i"] = str(rng.choice([0, 1, 7, 19, 1500, 10**9, 3661 * 10**9]))
    elif kind == "time":
        a["i"] = str(rng.randrange(0, 4 * 10**12))
        a["lay"] = LAYS
    elif kind == "json":
        t = jsonval.rtype(rng, rng.choice([0, 0, 1, 2, 3]))
        while t["t"] in ("string", "bytes", "error", "iface") or (t["t"] == "slice" and t["e"]["t"] == "uint8"):
            t = jsonval.rtype(rng, rng.choice([0, 1, 2]))
        c = jsonval.case(rng, t)
        while bare(c["v"])["k"] == "float":  # could not be told from digits that follow in the template
            c = jsonval.case(rng, jsonval.T("slice", e=t))
        a.update(c)
    elif kind == "flat":
        a["kind"] = "json"
        a.update(jsonval.case(rng, jsonval.T(rng.choice(list(jsonval.INTS) + ["bool"]))))
    return a
