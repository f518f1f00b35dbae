from vc import TIER

HOWS = ["unsafe", "safe", "raw"]
# types and how many values they are given
ELEMS = ["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int", "uint", "uintptr", "float32",
         "float64", "complex64", "complex128", "string", "str", "ptr", "ptrptr", "uptr", "chan", "func", "namedfn", "map", "slice",
         "any", "iface", "error", "small", "onePtr", "onePtrDeep", "oneMap", "oneFunc", "oneChan", "oneUptr", "ptrPad", "padPtr",
         "twoPtr", "arrPtr", "arrOnePtr", "arrFunc", "arrAny", "arr2str", "odd3", "big", "tail", "empty", "arr0", "dup1", "dup2"]
KEYS = ["int", "int8", "uint16", "uint32", "uint64", "string", "str", "float64", "bool", "small", "odd3", "arr2str", "big", "ptr",
        "onePtr", "uptr", "arrPtr", "chan", "any", "iface", "empty"]
STRUCTS = ["s%d" % i for i in range(1, 17)]
ARRAYS = ["3*int", "1*ptr", "0*int", "2*2*int16", "1*1*onePtr", "4*odd3", "2*s4", "2*s3", "3*any", "1*s13", "5*string", "2*empty"]


def reads(n):
    out = []
    for v in (0, 1):
        out += [dict(op=o, v=v) for o in ("IsNil", "Len", "Cap", "Indirect")]
        out += [dict(op="GetIndex", v=v, i=i) for i in range(n[v])]
    return out


def bad_slice(rng, how, typ):
    which = ["SetIndex1", "GetIndex", "Append1", "Set1", "Set2", "Grow", "SetNil", "Len", "Cap", "IsNil", "Indirect"]
    if typ != "any":
        which += ["SetIndex3", "Append2"]
    return dict(op="Bad", v=rng.randrange(2), x=rng.choice(which))


def slice_walk(rng, how, typ, size):
    n = [0, 0]
    ops = []
    for v in (0, 1):
        if rng.random() < .7:
            i = rng.randrange(10)
            n[v] = rng.randrange(0, 12 - i)
            ops.append(dict(op="Window", v=v, i=i, n=n[v], c=rng.randrange(0 if n[v] else 1, 12 - i - n[v] + 1) if 12 - i - n[v] > 0 else 0))
            if n[v] + ops[-1]["c"] == 0:
                ops.pop()
    for _ in range(size):
        v = rng.randrange(2)
        w = rng.randrange(2)
        k = rng.choice(["Append"] * 4 + ["AppendFrom", "Grow", "Grow", "SetIndex", "SetIndex", "SetFrom", "GetIndex", "Set", "Sub", "Sub",
                        "SetNil", "Make", "New", "IsNil", "Len", "Cap", "Indirect", "AppendMany", "Bad"])
        o = dict(op=k, v=v, w=w)
        if k == "Append":
            o["t"] = rng.randrange(9)
            n[v] += 1
        elif k == "AppendFrom":
            if not n[w]:
                continue
            o["j"] = rng.randrange(n[w])
            n[v] += 1
        elif k == "AppendMany":
            o["n"] = rng.choice([2, 5, 17])
            n[v] += o["n"]
        elif k == "Grow":
            o["n"] = rng.choice([0, n[v], n[v] + 1, n[v] + 2, n[v] + 7, max(0, n[v] - 1), 2 * n[v]])
            n[v] = o["n"]
        elif k in ("SetIndex", "GetIndex"):
            if not n[v]:
                continue
            o.update(i=rng.randrange(n[v]), t=rng.randrange(9))
        elif k == "SetFrom":
            if not n[v] or not n[w]:
                continue
            o.update(i=rng.randrange(n[v]), j=rng.randrange(n[w]))
        elif k == "Set":
            n[v] = n[w]
        elif k == "Sub":
            o["i"] = rng.randrange(n[w] + 1)
            o["j"] = rng.randrange(o["i"], n[w] + 1)
            n[v] = o["j"] - o["i"]
        elif k in ("SetNil", "New"):
            n[v] = 0
        elif k == "Make":
            n[v] = rng.choice([0, 0, 1, 4])
            o.update(n=n[v], c=n[v] + rng.choice([0, 1, 4]))
        elif k == "Bad":
            if how == "raw":
                continue
            o = bad_slice(rng, how, typ)
        if n[v] > 80:
            o = dict(op="SetNil", v=v)
            n[v] = 0
        ops.append(o)
    return ops + [o for o in reads(n) if o["op"] != "GetIndex" or rng.random() < .3]


def map_reads(rng, how, key, typ):
    out = []
    for v in (0, 1):
        out += [dict(op=o, v=v) for o in ("IsNil", "Indirect", "Iterate")]
        for k in (1, 2, 3, rng.randrange(4, 30)):
            out.append(dict(op=rng.choice(["GetIndex", "TryGetIndex"]), v=v, i=k))
    return out


def map_walk(rng, how, key, typ, size):
    ops = []
    for _ in range(size):
        v, w = rng.randrange(2), rng.randrange(2)
        k = rng.choice(["SetIndex"] * 5 + ["GetIndex", "GetIndex", "TryGetIndex", "Make", "Make", "Set", "New", "Fill", "Delete", "Iterate", "Iterate", "IsNil", "Indirect", "Bad"])
        o = dict(op=k, v=v, w=w, i=rng.choice([1, 2, 3, rng.randrange(1, 60)]), t=rng.randrange(9))
        if k == "Fill":
            o["n"] = rng.choice([3, 8, 9, 30, 100])
        elif k == "Make":
            o["c"] = rng.choice([0, 1, 8, 9, 100])
        elif k == "Bad":
            if how == "raw":
                continue
            which = ["SetIndex1", "GetIndex1", "TryGetIndex1", "Iterate", "Set1", "Set2", "IsNil"]
            if key != "any":
                which += ["SetIndex2", "GetIndex2", "TryGetIndex2"]
            if typ != "any":
                which.append("SetIndex3")
            o["x"] = rng.choice(which)
        ops.append(o)
    return ops + map_reads(rng, how, key, typ)


def agg_walk(rng, how, typ, size):
    ops = []
    toks = lambda: [rng.randrange(9) for _ in range(12)]
    for v in (0, 1):
        if rng.random() < .8:
            ops.append(dict(op="Put", v=v, ts=toks()))
    for _ in range(size):
        k = rng.choice(["FSet"] * 4 + ["FGet"] * 3 + ["FSetFrom", "FSetFrom", "Put", "Put", "Set", "New", "Indirect", "Indirect", "IsNil", "IsNil", "IsNilNil", "Bad", "PackEFace"])
        o = dict(op=k, v=rng.randrange(2), w=rng.randrange(2), a=rng.randrange(1000), i=rng.randrange(12), ts=toks())
        if k == "Put" and rng.random() < .4:
            o["ts"] = [rng.randrange(3)]
        if k == "PackEFace" and how == "safe":
            continue
        if k == "Bad":
            if how == "raw":
                continue
            o["x"] = rng.choice(["Set1", "Set2", "Indirect", "IsNil", "Field", "FieldOf"])
            if typ == "any" and o["x"] == "Set2":
                continue
            if typ in ("3*any",) and o["x"] == "Field":
                continue
        ops.append(o)
    for v in (0, 1):
        ops += [dict(op="Indirect", v=v), dict(op="IsNil", v=v)]
        ops += [dict(op="FGet", v=v, a=a, i=rng.randrange(12)) for a in range(14)]
    return ops


def run(ck):
    thorough = TIER == "thorough"
    rng = ck.rng
    ck.model("SliceImpl", "MCSlice.cfg")
    ck.model("LayoutImpl", "MCLayout.cfg")
    ck.model("IterImpl", "MCIter.cfg")
    if thorough:
        ck.model("SliceImpl", "MCSliceL.cfg")
        ck.model("LayoutImpl", "MCLayoutL.cfg")
    cases = dict(slice=[], map=[], agg=[], types=[])

    def add(kind, tag, how, **k):
        cases[kind].append(dict(id="%s-%s-%s-%d" % (kind, tag, how, len(cases[kind])), kind=kind, how=how, own=rng.random() < .05, **k))
    for g in ck.generate("SliceGen", "SliceGen3.cfg" if thorough else "SliceGen2.cfg"):
        for how in [rng.choice(HOWS)] if thorough else HOWS:
            if thorough and len(g["ops"]) > 4 and rng.random() < .5:
                continue
            typ = ELEMS[rng.randrange(len(ELEMS))]
            add("slice", "all", how, typ=typ, ops=g["ops"] + reads(g["len"]))
    for g in ck.generate("MapGen", "MapGen3.cfg" if thorough else "MapGen2.cfg"):
        for how in [rng.choice(HOWS)] if thorough else HOWS:
            key, typ = rng.choice(KEYS), rng.choice(ELEMS)
            add("map", "all", how, key=key, typ=typ, ops=g["ops"] + map_reads(rng, how, key, typ))
    for _ in range(12 if thorough else 2):
        for typ in ELEMS:
            for how in HOWS:
                add("slice", "walk", how, typ=typ, ops=slice_walk(rng, how, typ, rng.choice([8, 20, 40])))
        for typ in ELEMS:
            for how in HOWS:
                key = rng.choice(KEYS)
                add("map", "walk", how, key=key, typ=typ, ops=map_walk(rng, how, key, typ, rng.choice([8, 20])))
        for key in KEYS:
            for how in HOWS:
                typ = rng.choice(ELEMS)
                add("map", "walk", how, key=key, typ=typ, ops=map_walk(rng, how, key, typ, rng.choice([8, 20])))
        for typ in ELEMS + STRUCTS * 3 + ARRAYS * 2:
            for how in HOWS:
                add("agg", "walk", how, typ=typ, ops=agg_walk(rng, how, typ, rng.choice([8, 20, 40])))
    # beyond the size from which slices grow by a quarter; maps of many entries
    for how in HOWS:
        for typ in ["int", "string", "odd3", "any", "empty"] if thorough else ["int", "any"]:
            add("slice", "much", how, typ=typ, ops=[dict(op="AppendMany", v=0, n=1030), dict(op="AppendMany", v=0, n=300), dict(op="Grow", v=0, n=1500),
                                                   dict(op="Append", v=0, t=1), dict(op="GetIndex", v=0, i=1024), dict(op="Grow", v=0, n=5000), dict(op="Cap", v=0)])
        for key in ["int", "string", "big", "any", "iface", "onePtr"] if thorough else ["int", "any"]:
            add("map", "much", how, key=key, typ=rng.choice(ELEMS), ops=[dict(op="Make", v=0, c=10), dict(op="Fill", v=0, n=600), dict(op="Iterate", v=0),
                                                                        dict(op="GetIndex", v=0, i=599), dict(op="GetIndex", v=0, i=601), dict(op="SetIndex", v=0, i=7, t=1)])
    for typ in ELEMS + STRUCTS + ARRAYS:
        for how in HOWS[:2]:
            for key in ["", "ptr", "slice", "map", "arr1", "chan", "func"]:
                add("types", typ, how, typ=typ, key=key)
    exe = ck.build("c15")
    for kind, module in (("slice", "SliceTrace"), ("map", "MapTrace"), ("agg", "ValueTrace"), ("types", "TypesTrace")):
        traces = ck.drive(exe, cases[kind], procs=6, timeout=300)
        ck.judge(module, exe, cases[kind], traces, must_repeat=True, shards=6)
    ck.assumptions += ["indices are within range, and lengths not negative: the fast implementation does not check, by design",
                       "what comes back is read before the memory it came from is written again: the fast implementation gives places, not copies",
                       "a map is not changed while it is iterated over",
                       "fields that are not exported are reached through the fast implementation only"]
