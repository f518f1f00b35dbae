from vc import TIER

PIECES = [b"1", b"9", b"0", b"007", b"-", b"a", b"b", b"Z", b",", b" ", b"\t", b"\n\r", b"\v\f", "é".encode(), "中".encode(), "文".encode(), "𐍈".encode(),
          "\u00a0".encode(), "\u0085".encode(), "\u3000".encode(), "\u2028".encode(), "\u1680".encode(), "\u200b".encode(), "\ufffd".encode(),
          b"\xff", b"\x80", b"\xe4\xb8", b"\xf0\x90\x8d", b"\xc2", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xe0\x80\x80", b"\xef\xbf\xbf",
          b"\xdf\xbf", b"\xe0\xa0\x80", b"\x00", b"\x7f"]
NUMBERS = ["0", "1", "9", "10", "2147483646", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
           "9223372036854775809", "18446744073709551609", "18446744073709551610", "18446744073709551615", "18446744073709551616", "18446744073709551619", "18446744073709551620", "18446744073709551626",
           "184467440737095516150", "184467440737095516160", "1844674407370955160", "1844674407370955161", "1844674407370955162", "20000000000000000000", "36893488147419103232",
           "55340232221128654848", "99999999999999999999", "30000000000000000000", "99999999999999999999999999", "00000000000000000000000000000", "000000000000000000000000000042",
           "0000000000000000000018446744073709551615", "00000000000000018446744073709551616", "12345678901234567890", "17999999999999999999"]
RUNES = [ord(x) for x in "ab19中文é \u3000\ufffd"] + [0x10348, 10, 0x10ffff, 0xffff, 0x7ff, 0x800]


def text(rng, n):
    out = b""
    style = rng.random()
    while len(out) < n:
        if style < .25:
            out += rng.choice(["中".encode(), "文".encode(), "é".encode(), "𐍈".encode(), "\u3000".encode(), b"a"])
        elif style < .4:
            out += rng.choice([b" ", b"\t", b"\n", "\u00a0".encode(), "\u2003".encode(), b" ", b"x"])
        elif style < .55:
            out += rng.choice([rng.choice(["", "-", "--"]) + rng.choice(NUMBERS), ",", " ", "x"]).encode()
        elif style < .65:
            out += rng.choice([b"1", b"2", b"0", b"9"]) * rng.randrange(1, 8) + rng.choice([b"", b"", b",", b"-"])
        elif style < .7:
            out += bytes([rng.randrange(256)])
        else:
            out += rng.choice(PIECES)
    return list(out)


def op(rng, o, inp):
    if o in ("uint64", "int64", "int32", "int"):
        return dict(o="Number", kind=o)
    d = dict(o=o)
    if o in ("PeekN", "ConsumeN"):
        d["n"] = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, len(inp), len(inp) + 3, rng.randrange(len(inp) + 2)])
    elif o == "Consume1":
        d["b"] = rng.choice(inp[:3] + [49, 97, 32]) if inp else 97
    elif o == "AnyExcept":
        some = (inp or [97]) + [44, 97]
        d["stop"] = [rng.choice(some) for _ in range(rng.choice([1, 2]))]
        d["space"], d["size"] = rng.choice([[], [], [120, 121]]), rng.choice([0, 0, 3, 50])
    elif o in ("UnicodeRange", "UnicodeRanges"):
        d["kind"] = rng.choice(["read", "skip"])
        d["space"] = rng.choice([[], [], [120, 20013]])
        d["inc"] = sorted(rng.sample(RUNES, rng.choice([1, 2, 4, 8, 12])))
        if o == "UnicodeRanges":
            d["exc"] = sorted(rng.sample(RUNES, rng.choice([0, 0, 1, 2, 3])))
            if d["kind"] == "read" and rng.random() < .4:
                d["inc"] = []
    elif o == "SetBuffer":
        d["size"] = rng.choice([1, 2, 3, 5, 16])
    elif o == "ReportError":
        d["kind"] = rng.choice(["user", "user", "EOF"])
    return d


OPS = ["Peek", "Peek1", "PeekN", "PeekN", "PeekRune", "ConsumeN", "ConsumeN", "Consume", "Consume1", "Consume1", "AnyExcept", "AnyExcept", "Space", "UnicodeSpace", "UnicodeRange",
       "UnicodeRanges", "uint64", "int64", "int32", "int", "SetBuffer"]


def cut(rng, n):
    out = []
    while sum(out) < n:
        out.append(rng.choice([1, 1, 1, 2, 2, 3, 4, 7, 20]) if rng.random() < .93 else 0)
    return out


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("SourceImpl", "MCSourceL.cfg" if thorough else "MCSource.cfg")
    cases = []

    def add(kind, inp, ops, ways):
        for w in ways:
            c = dict(id="%s-%d" % (kind, len(cases)), inp=inp, ops=ops, src="reader", end="EOF", buf=rng.choice([1, 2, 3, 4, 8, 64]), cuts=[])
            c["with"] = rng.random() < .4
            if w == "string":
                c["src"] = "string"
            elif w == "bytes":
                c["buf"] = 1
            elif w == "whole":
                c["buf"] = len(inp) + rng.randrange(3) + 1
            else:
                c["cuts"] = cut(rng, len(inp))
            if c["src"] == "reader" and rng.random() < .12:
                c["end"] = "boom"
            cases.append(c)
    for g in ck.generate("SourceGen", "SourceGen3.cfg" if thorough else "SourceGen2.cfg"):
        for _ in range(2 if thorough else 6):
            inp = text(rng, rng.choice([0, 1, 2, 3, 4, 6, 9]))
            add("seq", inp, [op(rng, o, inp) for o in g["ops"]] + [dict(o="Peek")], ["string", "cut"] if thorough else ["string", "bytes", "cut", "cut"])
    for _ in range(6000 if thorough else 700):
        inp = text(rng, rng.choice([3, 8, 15, 30, 60]))
        ops = [op(rng, rng.choice(OPS), inp) for _ in range(rng.choice([4, 8, 16, 30]))]
        if rng.random() < .1:
            ops.insert(rng.randrange(len(ops)), op(rng, "ReportError", inp))
        add("long", inp, ops, ["string", "bytes", "cut", "cut", "whole"])
    # numbers at and around every limit, cut everywhere
    for n in NUMBERS:
        for neg in ("", "-"):
            for k in ("uint64", "int64", "int32", "int"):
                t = list((neg + n + rng.choice(["", "", ",", " 7", "a"])).encode())
                add("number", t, [op(rng, k, t), dict(o="Peek"), op(rng, k, t)], ["string", "bytes", "cut", "cut"])
    for _ in range(4000 if thorough else 300):
        n = str(int(rng.choice(NUMBERS)) + rng.randrange(-12, 13)).replace("-", "")
        t = list((rng.choice(["", "", "-"]) + n + rng.choice(["", ",", "x1"])).encode())
        add("number", t, [op(rng, rng.choice(["uint64", "int64", "int32", "int"]), t), dict(o="PeekN", n=3)], ["string", "cut"])
    # every first byte, and every second byte after those that have a special range of them
    for b in range(128, 256):
        for rest in ([], [128], [160, 128], [144, 128, 191], [191, 191, 191], [65]):
            inp = [b] + rest
            add("utf8", inp, [dict(o="PeekRune"), dict(o="UnicodeRanges", kind="read", inc=[], exc=[65], space=[])], ["string", "cut"])
    for b in (224, 237, 240, 244):
        for second in range(126, 194):
            inp = [b, second, 128, 128]
            add("utf8", inp, [dict(o="PeekRune")], ["string", "cut"])
    for w in sorted(set(range(0, 300)) | set(range(0x1670, 0x1690)) | set(range(0x180a, 0x1810)) | set(range(0x1ff0, 0x2070)) | set(range(0x2ff0, 0x3010)) | {0xfeff, 0xffff, 0x10000}):
        inp = list((" " + chr(w) + " x").encode())
        add("space", inp, [dict(o=rng.choice(["UnicodeSpace", "UnicodeSpace", "Space"])), dict(o="PeekRune")], ["string", "cut"])
    rng.shuffle(cases)
    exe = ck.build("c13")
    traces = ck.drive(exe, cases, procs=4, timeout=600)
    ck.cov["operations_judged"] = sum(len(t["ev"]) for t in traces)
    ck.judge("SourceTrace", exe, cases, traces, must_repeat=True, shards=8)
    ck.assumptions += ["Peek1 is not called, PeekN and ConsumeN not with a negative number, when nothing is left; a reader has nothing more after its error",
                       "what is consumed of a number that overflows is left open"]
