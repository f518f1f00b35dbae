"""Go values described three times: a type for the driver, a recipe for the driver, and the tree the specification JsonText reads."""
import struct
from fractions import Fraction

INTS = dict(int8=(-2**7, 2**7 - 1), int16=(-2**15, 2**15 - 1), int32=(-2**31, 2**31 - 1), int64=(-2**63, 2**63 - 1), int=(-2**63, 2**63 - 1),
            uint8=(0, 2**8 - 1), uint16=(0, 2**16 - 1), uint32=(0, 2**32 - 1), uint64=(0, 2**64 - 1), uint=(0, 2**64 - 1), uintptr=(0, 2**64 - 1))
B = lambda s: list(s.encode() if isinstance(s, str) else s)
RUNES = ['"', "\\", "/", "\n", "\r", "\t", "\b", "\f", "\x00", "\x01", "\x1f", "\x7f", "a", "Z", "0", " ", "{", "}", "|", ":", ",", "é", "ÿ", "中", "\u2028", "\ufffd",
         "\U0001F600", "<", ">", "&", "'", "\x80", "u"]


def rstr(rng, n=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 12]) if n is None else n
    s = ["abcdefghij"[i % 10] for i in range(n)]
    for i in range(n):
        if rng.random() < .45:
            s[i] = rng.choice(RUNES)
    return B("".join(s))


def rbytes(rng):
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
    return [rng.choice([rng.randrange(256), rng.randrange(256), 34, 92, 10, 13, 9, 0, 31, 127, 128, 255, 124, 97, 98]) for _ in range(n)]


def rint(rng, lo, hi):
    r = rng.random()
    if r < .25:
        x = rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, -1, lo // 2, hi // 2])
    elif r < .65:
        x = 10 ** rng.randrange(20) * rng.choice([1, 1, 1, 2, 5, 9, 10, 99, 999, 1001]) + rng.choice([-1, 0, 0, 1])
        x *= rng.choice([1, -1])
    elif r < .85:
        x = 0
        for _ in range(rng.randrange(1, 8)):
            x = x * 1000 + rng.choice([0, 0, 1, 9, 10, 11, 99, 100, 101, 999, rng.randrange(1000)])
        x *= rng.choice([1, -1])
    else:
        x = rng.randrange(lo, hi + 1)
    return x if lo <= x <= hi else rng.randrange(lo, hi + 1)


def dec(fr, up, sig=25):
    """a decimal at least (up) or at most fr, with sig significant digits, as the specification wants it"""
    neg = fr < 0
    m = -fr if neg else fr
    if m == 0:
        return dict(neg=False, ds=[], pt=0)
    away = up != neg
    pt = len(str(m.numerator)) - len(str(m.denominator)) + 1
    while m >= Fraction(10) ** pt:
        pt += 1
    while m < Fraction(10) ** (pt - 1):
        pt -= 1
    x = m * Fraction(10) ** (sig - pt)
    n = x.numerator // x.denominator
    if away and n * x.denominator != x.numerator:
        n += 1
    s = str(n)
    return dict(neg=neg, ds=[int(ch) for ch in s.rstrip("0")], pt=pt + len(s) - sig)


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return x


def rfloat(rng, single):
    r = rng.random()
    if r < .05:
        return rng.choice([float("nan"), float("inf"), float("-inf"), 0.0, -0.0])
    if r < .2:
        x = float(rng.choice([0, 1, 9, 10, 99, 100, 999, 1000, 12345, 83886079, 83886078, 83886080, 10**6, 10**7]) + rng.choice([0, 0, .5, .25, .1]))
    elif r < .5:
        x = rng.randrange(0, 10 ** rng.randrange(1, 14)) / 1e6 + rng.choice([0, 0, 5e-7, 4.9e-7, 5.1e-7, 1e-7])
    elif r < .6:
        x = rng.choice([1e-6, 1e-7, 5e-7, 4.9999e-7, 1e-300, 5e-324, 0.1, 0.01, 0.001, 0.0001, 1e-5, 0.999999, 0.9999995, 0.9999994, 9.9999999])
    elif r < .8:
        x = rng.choice([1e8, 1e15, 1e20, 1e21, 9.99e20, 1e22, 1e38, 1.7976931348623157e308, 3.4028234663852886e38, 2**53 + 2., 1e8 + .5]) * rng.choice([1, 1, 1.1, .7])
    else:
        x = struct.unpack("d", struct.pack("Q", rng.randrange(2**64)))[0]
        if x != x:
            x = 1.5
    if rng.random() < .4:
        x = -x
    return x


def fl(x, single):
    """recipe and tree of a float"""
    if single:
        x = f32(x)
        if abs(x) > 3.5e38 and abs(x) != float("inf"):
            x = 1.5
    val = dict(f="%016x" % struct.unpack("Q", struct.pack("d", x))[0])
    if x != x:
        return val, dict(k="word", t=B("NaN"))
    if abs(x) == float("inf"):
        return val, dict(k="word", t=B("+Inf" if x > 0 else "-Inf"))
    ex = Fraction(x)
    if abs(x) <= 0x4ffffff:
        lo, hi = ex - Fraction(52, 10**8), ex + Fraction(52, 10**8)
    elif single:
        u = struct.unpack("I", struct.pack("f", abs(x)))[0]
        a = Fraction(struct.unpack("f", struct.pack("I", u - 1))[0])
        lo = (a + abs(ex)) / 2
        hi = abs(ex) + (abs(ex) - a)
        lo, hi = (lo, hi) if x > 0 else (-hi, -lo)
    else:
        u = struct.unpack("Q", struct.pack("d", abs(x)))[0]
        a = Fraction(struct.unpack("d", struct.pack("Q", u - 1))[0])
        lo = (a + abs(ex)) / 2
        hi = abs(ex) + (abs(ex) - lo) * 2
        lo, hi = (lo, hi) if x > 0 else (-hi, -lo)
    return val, dict(k="float", lo=dec(lo, False), hi=dec(hi, True))


# ---------------------------------------------------------------- types
def T(t, **kw):
    return dict(t=t, **kw)


def named(n):
    return T("named", name=n)


def F(n, e, tag="", skip=False):
    return dict(n=n, tag=tag, e=e, skip=skip)


PTR, SL, IF, ERR = (lambda e, **k: T("ptr", e=e, **k)), (lambda e, **k: T("slice", e=e, **k)), (lambda **k: T("iface", **k)), T("error")
UNDER = dict(
    node=T("struct", f=[F("V", T("int")), F("Next", PTR(named("node"))), F("Kids", SL(named("node"))), F("M", T("map", k=T("string"), e=PTR(named("node"))), "m,omitempty"),
                        F("I", IF()), F("Prev", PTR(named("node")), "-")]),
    listL=SL(named("listL")), mapM=T("map", k=T("string"), e=named("mapM")), ptrP=PTR(named("ptrP")),
    pair=T("struct", f=[F("A", PTR(named("pair"))), F("B", PTR(named("pair")))]), oneP=T("struct", f=[F("P", PTR(named("oneP")))]),
    arrA=T("struct", f=[F("A", T("array", n=2, e=PTR(named("arrA"))))]),
    nInt=T("int"), nI8=T("int8"), nU32=T("uint32"), nStr=T("string"), nByt=SL(T("uint8")), nBool=T("bool"), nF32=T("float32"),
    twin1=T("struct", f=[F("A", T("int")), F("B", T("string"))]), twin2=T("struct", f=[F("B", T("string")), F("C", PTR(T("int"))), F("A", SL(T("int8")))]),
    nMap=T("map", k=named("nStr"), e=named("nInt")), nSl=SL(named("nStr")),
    Emb=T("struct", f=[F("X", T("int"))]), EmbP=T("struct", f=[F("Y", T("string"))]),
    outer2=T("struct", f=[F("Emb", named("Emb")), F("EmbP", PTR(named("EmbP"))), F("Z", named("nInt"))]),
    unexp=T("struct", f=[F("a", T("int"), skip=True), F("B", T("int")), F("c", PTR(T("int")), skip=True), F("D", T("string")), F("é", T("int"), skip=True), F("Éb", T("int")),
                         F("Ḁc", T("int")), F("_", T("int"), skip=True), F("F", T("func"), skip=True), F("C", T("chan"), skip=True), F("E", ERR)]))
NAMES = sorted(UNDER) + ["errS", "errP", "errT", "marV", "marP", "marI", "marE"]
CFG = dict(unexported=False, extension=False)  # what the values generated next are encoded with
ZERO = dict(int=dict(k="int", t=B("0")), string=dict(k="str", s=[]))
MARSHALED = ["null", "true", "0", "-1.5e3", '""', '"a\\n\\"b"', "[]", "{}", '[1,{"a":null}]', '{"k":[ ]}', '"é"', " 1 "]
LEAVES = dict(mar=["marV", "marP", "marI", "marE"], bool=["bool", "nBool"], int=list(INTS) + ["nInt", "nI8", "nU32"], float=["float64", "float64", "float32", "nF32"], str=["string", "string", "nStr"], bytes=["bytes"],
              error=["error", "errS", "errP", "errT"])


def leaf(rng, cls):
    if cls == "iface":
        return T("iface")
    n = rng.choice(LEAVES[cls])
    return named(n) if n in NAMES else T(n)


def is_nilable(t):
    return t["t"] in ("ptr", "slice", "map", "iface", "error")


def value(rng, t, d=4):
    """recipe and tree of some value of the type"""
    k = t["t"]
    if k == "named":
        n = t["name"]
        if n == "errS":
            s = rstr(rng)
            return dict(l=[dict(s=s)]), dict(k="str", s=s)
        if n in ("errP", "errT"):
            if n == "errP" and rng.random() < .2:
                return None, dict(k="nil")
            s = rstr(rng)
            return dict(s=s), dict(k="str", s=s)
        if n in ("marV", "marP"):
            if n == "marP" and rng.random() < .2:
                return None, dict(k="nil")
            s = B(rng.choice(MARSHALED))
            val = dict(l=[dict(s=s)])
            return (dict(v=val) if n == "marP" else val), dict(k="raw", t=s)
        if n == "marI":
            x = rint(rng, *INTS["int"])
            return dict(i=str(x)), dict(k="raw", t=B("[%d]" % x))
        if n == "marE":
            s = rstr(rng)
            return dict(s=s), dict(k="str", s=s)
        if n == "nInt" and CFG["extension"]:
            x = rint(rng, *INTS["int"])
            return dict(i=str(x)), dict(k="str", s=B("ext %d" % x))
        if n == "nByt":
            b = rbytes(rng)
            return dict(s=b), dict(k="list", v=[dict(k="int", t=B(str(x))) for x in b])
        return value(rng, UNDER[n], d - 1)
    if k == "bool":
        b = rng.random() < .5
        return dict(b=b), dict(k="bool", b=b)
    if k in INTS:
        x = rint(rng, *INTS[k])
        return dict(i=str(x)), dict(k="int", t=B(str(x)))
    if k in ("float64", "float32"):
        return fl(rfloat(rng, k == "float32"), k == "float32")
    if k == "string":
        s = rstr(rng)
        return dict(s=s), dict(k="str", s=s)
    if k == "bytes":
        if rng.random() < .1:
            return None, dict(k="bytes", s=[])
        s = rbytes(rng)
        return dict(s=s), dict(k="bytes", s=s)
    if k == "error":
        if rng.random() < .2:
            return None, dict(k="nil")
        if rng.random() < .6:
            s = rstr(rng)
            return dict(s=s), dict(k="str", s=s)
        it = named(rng.choice(["errS", "errP", "errT"]))
        v, x = value(rng, it, d)
        return dict(t=it, v=v), dict(k="to", v=x)
    if k == "iface":
        if t.get("h") is None and (d <= 0 or rng.random() < .2):
            return None, dict(k="nil")
        it = t.get("h") or rtype(rng, d - 1)
        v, x = value(rng, it, d)
        return dict(t=clean(it), v=v), dict(k="to", v=x)
    if k == "ptr":
        if t.get("h") == "nil" or (t.get("h") is None and (d <= 0 or rng.random() < .25)):
            return None, dict(k="nil")
        v, x = value(rng, t["e"], d)
        return dict(v=v), dict(k="to", v=x)
    if k == "slice":
        h = t.get("h")
        if t["e"]["t"] == "uint8":  # the same type as []byte
            s = [] if h == "nil" else [rng.randrange(256) for _ in range(rng.randrange(4) if h is None else h)]
            return (None if h == "nil" else dict(s=s)), dict(k="bytes", s=s)
        if h == "nil" or (h is None and rng.random() < .1):
            return None, dict(k="list", v=[])
        n = h if h is not None else (0 if d <= 0 else rng.choice([0, 1, 1, 2, 3]))
        vs = [value(rng, t["e"], d - 1) for _ in range(n)]
        return dict(l=[v for v, _ in vs]), dict(k="list", v=[x for _, x in vs])
    if k == "array":
        vs = [value(rng, t["e"], d - 1) for _ in range(t["n"])]
        return dict(l=[v for v, _ in vs]), dict(k="list", v=[x for _, x in vs])
    if k == "struct":
        l, fs = [], []
        for f in t["f"]:
            seen = CFG["unexported"] and f["skip"] and f["e"]["t"] not in ("func", "chan")
            if f["skip"] or f["tag"] == "-":
                l.append(None)
                if seen:  # cannot be set, so it holds the zero value
                    fs.append(dict(n=B(f["n"]), tag=B(f["tag"]), skip=False, v=ZERO.get(f["e"]["t"], dict(k="nil"))))
                    continue
                fs.append(dict(n=B(f["n"]), tag=B(f["tag"]), skip=f["skip"], v=dict(k="nil")))
                continue
            v, x = value(rng, f["e"], d - 1)
            l.append(v)
            fs.append(dict(n=B(f["n"]), tag=B(f["tag"]), skip=False, v=x))
        return dict(l=l), dict(k="struct", f=fs)
    if k == "map":
        h = t.get("h")
        if h == "nil" or (h is None and rng.random() < .15):
            return None, dict(k="nil")
        n = h if h is not None else (0 if d <= 0 else rng.choice([0, 1, 2, 3]))
        m, e, seen = [], [], set()
        for _ in range(n * 3):
            if len(m) == n:
                break
            kt = t["k"]
            if kt["t"] == "iface":
                it = rng.choice([T("string"), T("int"), T("bool"), T("uint8"), named("nStr"), T("int64")])
                v, x = value(rng, it, d)
                kv, kx = dict(t=it, v=v), dict(k="to", v=x)
            else:
                kv, x = value(rng, kt, d)
                kx = x
            text = bytes(x["s"]) if x["k"] == "str" else bytes(x["t"]) if x["k"] == "int" else str(x["b"]).lower().encode()
            if text in seen:
                continue
            seen.add(text)
            ev, ex = value(rng, t["e"], d - 1)
            m.append([kv, ev])
            e.append(dict(k=kx, v=ex))
        return dict(m=m), dict(k="map", m=e)
    raise ValueError(k)


KEYS = ["string", "string", "int", "int8", "uint64", "bool", "int32", "uint16"]


def rkey(rng):
    return rng.choice([T(rng.choice(KEYS)), T(rng.choice(KEYS)), named("nStr"), named("nStr" if CFG["extension"] else "nInt"), T("iface")])


def rtype(rng, d):
    if d <= 0 or rng.random() < .25:
        return leaf(rng, rng.choice(list(LEAVES)))
    r = rng.random()
    if r < .12:
        return named(rng.choice(NAMES))
    return wrap(rng, rng.choice(["ptr", "slice", "array0", "array1", "array2", "struct1", "struct2", "structskip", "map", "iface", "ptr", "slice"]), rtype(rng, d - 1))


def wrap(rng, w, e):
    if w == "ptr":
        return T("ptr", e=e, h="set") if rng.random() < .8 else T("ptr", e=e)
    if w == "nilptr":
        return T("ptr", e=e, h="nil")
    if w == "slice":
        return T("slice", e=e)
    if w.startswith("slice"):
        return T("slice", e=e, h=int(w[5:]))
    if w == "nilslice":
        return T("slice", e=e, h="nil")
    if w.startswith("array"):
        return T("array", e=e, n=int(w[5:]))
    if w == "struct1":
        return T("struct", f=[F("A", e, rng.choice(["", "", "a", "name,omitempty", "é"]))])
    if w == "struct2":
        fs = [F("A", e), F("B", leaf(rng, rng.choice(list(LEAVES))), rng.choice(["", "b_", ",omitempty"]))]
        if rng.random() < .5:
            fs[0]["n"], fs[1]["n"] = "B2", "Aa"
            fs.reverse()
        return T("struct", f=fs)
    if w == "structskip":
        fs = [F("hidden", T("int"), skip=True), F("Fn", T("func"), skip=True), F("A", e), F("Ch", T("chan"), "ch", skip=True), F("Minus", T("int"), "-"), F("Z", T("string"), "z")]
        rng.shuffle(fs)
        return T("struct", f=fs)
    if w == "map":
        return T("map", k=rkey(rng), e=e)
    if w == "mapkey":
        return T("map", k=T("iface"), e=e, h=2)
    if w == "nilmap":
        return T("map", k=rkey(rng), e=e, h="nil")
    if w.startswith("map"):
        return T("map", k=rkey(rng), e=e, h=int(w[3:]))
    if w == "boxed":
        return T("iface", h=e)
    if w == "iface":
        return T("iface")
    raise ValueError(w)


def clean(t):
    """for the driver"""
    r = {k: v for k, v in t.items() if k in ("t", "n", "name")}
    if "e" in t:
        r["e"] = clean(t["e"])
    if "k" in t:
        r["k"] = clean(t["k"])
    if "f" in t:
        r["f"] = [dict(n=f["n"], tag=f["tag"], e=clean(f["e"])) for f in t["f"]]
    return r


def case(rng, t, d=4):
    val, x = value(rng, t, d)
    return dict(t=clean(t), val=val, v=x)
