from vc import TIER

CHARS = "+-*/^%!?~@#<>=&|,"


def table(rng):
    """operators: a, b left associative, r right associative, ! postfix, ? ternary, p, P prefix; some are both prefix and infix"""
    ch = rng.sample(CHARS, 7)
    precs = [rng.randrange(1, 6) for _ in range(5)] if rng.random() < .6 else [3, 5, 7, 9, 1]
    if rng.random() < .1:
        precs[rng.randrange(5)] = 0
    ops = dict(a=ch[0], b=ch[1], r=ch[2])
    ops["!"], ops["?"], ops["p"], ops["P"] = ch[3], ch[4], ch[5], ch[6]
    if rng.random() < .5:
        ops["p"] = ops["a"]
    if rng.random() < .2:
        ops["P"] = rng.choice([ops["r"], ops["!"], ops["?"]])
    v = lambda x: [ord(x)]
    infix = [dict(v=v(ops["a"]), kind="in", prec=precs[0], pow=precs[0]), dict(v=v(ops["b"]), kind="in", prec=precs[1], pow=precs[1]),
             dict(v=v(ops["r"]), kind="in", prec=precs[2], pow=max(0, precs[2] - 1)), dict(v=v(ops["!"]), kind="post", prec=precs[3], pow=0),
             dict(v=v(ops["?"]), kind="tern", prec=precs[4], pow=max(0, precs[4] - 1), mid=0)]
    if rng.random() < .3:   # : is an operator, too
        m = rng.randrange(1, 5)
        infix[4]["mid"] = rng.choice([m, m, m, m - 1])
        infix.append(dict(v=[58], kind=rng.choice(["in", "in", "post"]), prec=m, pow=m))
    prefix = [dict(v=v(ops["p"]), pow=rng.choice([0, 1, 2, 3, 4, 5, 8])), dict(v=v(ops["P"]), pow=rng.choice([0, 0, 1, 3, 6]))]
    return ops, infix, prefix


def case(rng, kinds):
    ops, infix, prefix = table(rng)
    text, tok = "", []
    for k in kinds:
        text += rng.choice(["", "", "", " ", "\t ", "\n"])
        if k == "n":
            if tok and tok[-1]["t"] == "num" and not text[-1].isspace():
                text += " "
            s = str(rng.choice([rng.randrange(10), rng.randrange(1000), rng.randrange(1 << 62)]))
        else:
            s = ops.get(k, k)
        tok.append(dict(t="num" if k == "n" else "sym", v=[ord(x) for x in s], at=len(text)))
        text += s
    text += rng.choice(["", "", " "])
    return dict(infix=infix, prefix=prefix, text=[ord(x) for x in text], tok=tok, precs=[0, 0, rng.randrange(6), rng.randrange(6)], par=0)


def expr(rng, n):
    """the kinds of the tokens of a random expression with about n tokens"""
    if n <= 1:
        return ["n"]
    r = rng.random()
    if r < .12:
        return ["("] + expr(rng, n - 2) + [")"]
    if r < .3:
        return [rng.choice("pP")] + expr(rng, n - 1)
    if r < .42:
        return expr(rng, n - 1) + ["!"]
    if r < .5 and n > 4:
        a, b = sorted(rng.sample(range(1, n - 1), 2))
        return expr(rng, a) + ["?"] + expr(rng, b - a) + [":"] + expr(rng, n - b)
    k = rng.randrange(1, n)
    return expr(rng, k) + [rng.choice("abr")] + expr(rng, n - k)


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("MCPratt", "MCPrattT.cfg" if not thorough else "MCPrattL.cfg")
    if thorough:
        ck.model("MCPratt", "MCPrattT.cfg")
        ck.model("MCPratt", "MCPratt.cfg")
        ck.model("MCPratt", "MCPrattM.cfg")
    cases = []

    def add(kind, kinds, **kw):
        cases.append(dict(case(rng, kinds), id="%s-%d" % (kind, len(cases)), **kw))
    for g in ck.generate("PrattGen", "PrattGen5.cfg" if thorough else "PrattGen4.cfg"):
        add("all", g["q"])
    for g in ck.generate("PrattGen", "PrattGenB.cfg"):
        if len(g["q"]) >= 5 and (thorough or rng.random() < .4):
            add("chain", g["q"])
    for _ in range(6000 if thorough else 1200):
        e = expr(rng, rng.choice([5, 8, 12, 20, 40]))
        if rng.random() < .3:   # something wrong somewhere
            i = rng.randrange(len(e) + 1)
            e = rng.choice([e[:i], e[:i] + [rng.choice(["n", "a", ")", "(", ":", "!", "$"])] + e[i:], e[:i] + e[i + 1:]])
        add("expr", e)
    add("empty", [])
    for n in (60, 200):   # deep and long
        for k in (["("] * n + ["n"] + [")"] * n, ["p"] * n + ["n"], ["n"] + ["r", "n"] * n, ["n"] + ["a", "n"] * n, ["n"] + ["!"] * n, ["("] * n + ["n"] + [")"] * (n - 1),
                  ["n"] + ["a", "n", "b", "n", "r", "n"] * (n // 3), ["n"] + ["?", "n", ":", "n"] * (n // 3)):
            add("long", k)
    rng.shuffle(cases)
    for i, c in enumerate(cases):
        if c["id"].startswith("expr") and i % 10 == 0:
            c["par"] = 3
    exe = ck.build("c14")
    traces = ck.drive(exe, cases, procs=8, timeout=600)
    ck.cov["parses_judged"] = sum(len(t["ev"]) for t in traces)
    ck.judge("PrattTrace", exe, cases, traces, must_repeat=True, shards=8)
    ck.assumptions += ["the tokens of the user (operand, group, prefix, postfix, infix, ternary) parse their operands with parse.Parse and report what they miss"]
