DRIVERS = ["d_opt"]
SUF = {"dur": ["ns", "us", "mus", "ms", "s", "m", "h"],
       "bin": ["", "K", "Ki", "M", "Mi", "G", "Gi", "T", "Ti", "P", "Pi", "E", "Ei"],
       "met": ["", "K", "M", "G", "T", "P", "E"]}
NAMES = ["flag", "num", "str", "dur", "bin", "met"]


def digits(r, big=20):
    n = r.choice([1, 1, 2, 3, 4, 6, r.randint(1, big)])
    s = str(r.randint(0, 10 ** n))
    return r.choice(["1000", "1024", "60", "3600", "59999", "1023", "1048576"]) if r.random() < 0.2 else s


def qty(r, ty, bad=0.2):
    pre, num, suf = "", digits(r), r.choice(SUF[ty])
    if r.random() < bad:
        k = r.randint(0, 3)
        if k == 0:
            pre = r.choice(["x", " ", "-"])
        elif k == 1:
            num = ""
        elif k == 2:
            suf = r.choice(["x", "kb", " s", "hh", "ii", "sec"])
        else:
            suf = r.choice(SUF[r.choice(["dur", "bin", "met"])])
    elif ty == "dur" and r.random() < 0.3:
        pre = "-"
    return [pre, num, suf]


def good(r, n):
    while True:
        t = {"flag": lambda: ["", "", r.choice(["true", "false"])], "num": lambda: ["", str(r.randint(0, 10 ** r.randint(1, 15))), ""],
             "str": lambda: ["", r.choice(["abc", "x1", "hello"]), r.choice(["", "y", "/z"])]}.get(n, lambda: ["", str(r.randint(0, 9999)), r.choice(SUF[n][:4])])()
        return t


def arg(r, n):
    if n in SUF:
        t = qty(r, n, 0.05) if r.random() < 0.3 else good(r, n)
    elif n == "num" and r.random() < 0.05:
        t = ["", "12", "abc"]
    elif n == "flag" and r.random() < 0.05:
        t = ["", "", "maybe"]
    else:
        t = good(r, n) if n in NAMES else ["", str(r.randint(0, 99)), ""]
    while "".join(t).strip() == "" or t[0] in (" ",) or "  " in "".join(t) or " " in "".join(t):
        t = good(r, n)
    return t


def opts(r):
    defs = {n: good(r, n) for n in NAMES[1:] if r.random() < 0.5}
    e = {"op": "opts", "defs": defs, "allow": r.random() < 0.75}

    def pick():
        k = r.random()
        return r.choice(["foo", "zzz"]) if k < 0.08 else r.choice(NAMES)
    cli, seen = [], set()
    for _ in range(r.randint(0, 5)):
        n = pick()
        if n in seen and (n in SUF or r.random() < 0.7):
            continue
        seen.add(n)
        t = arg(r, n)
        cli.append([n, t, n not in NAMES or t[0] == "-" or r.random() < 0.5])
    e["cli"] = cli
    k = r.random()
    if k < 0.5:
        cfg, seen = [], set()
        for _ in range(r.randint(0, 5)):
            n = pick()
            if n in seen and (n in SUF or r.random() < 0.7):
                continue
            seen.add(n)
            cfg.append([n, arg(r, n)])
        e["cfg"] = cfg
    elif k < 0.6:
        e["nocfg"] = True
    e["fin"] = []
    for _ in range(r.choice([0, 0, 1, 2, 3, 4])):
        acts = []
        for _ in range(r.randint(0, 2)):
            n = r.choice(NAMES)
            acts.append([r.choice(["default", "overwrite"]), n, good(r, n)])
        e["fin"].append({"acts": acts, "ret": bool(acts) and True if r.random() < 0.9 else False})
    return e


def stats(r):
    s, n, used, timed, done = [{"op": "begin"}], 0, [], [], False
    for _ in range(r.randint(5, 30)):
        k = r.choice(["new", "rec", "rec", "rec", "plan", "plan", "time", "coll", "smt", "xml", "xmlf", "look", "get", "get"])
        i = r.randint(1, n) if n else 0
        if k == "new" and n < 5:
            n += 1
            used.append(set())
            nm = r.choice([["solver"], ["Mod", "<", "int", ">"], ["x", str(n)], ["theory"]])
            s.append({"op": "snew", "name": nm, "on": r.random() < 0.8})
        elif k == "get":
            e = {"op": "get", "n": r.choice("xyz"), "ty": r.choice("aab")}
            if r.random() < 0.5:
                e["v"] = r.randint(-50, 50)
            s.append(e)
        elif not n:
            continue
        elif k in ("rec", "plan"):
            key = r.choice(["k", "calls", "longer_key", "a.b"]) + str(r.randint(0, 99))
            if key in used[i - 1]:
                continue
            used[i - 1].add(key)
            if k == "plan":
                s.append({"op": "splan", "i": i, "k": key, "v": r.choice(["v1", "17", "yes", ""])[:] or "v"})
            else:
                ty = r.choice("siub")
                v = {"s": "text" + str(r.randint(0, 9)), "i": str(r.randint(-10 ** 9, 10 ** 18)), "u": str(r.randint(0, 2 ** 64 - 1)), "b": r.choice("01")}[ty]
                s.append({"op": "srec", "i": i, "k": key, "ty": ty, "v": v})
        elif k == "time" and not done:
            s += [{"op": "stime", "i": i, "k": r.choice(["tm", "un"])} for _ in range(r.randint(1, 4))]
        elif k == "coll":
            done = True
            s.append({"op": "collect"})
        elif k == "smt":
            s.append({"op": "smt"})
        elif k in ("xml", "xmlf"):
            s.append({"op": "xml", "file": k == "xmlf"})
        elif k == "look":
            s.append({"op": "scoll", "i": i})
    if n:
        s += [{"op": "collect"}, {"op": "smt"}, {"op": "xml", "file": False}]
        s += [{"op": "scoll", "i": i} for i in range(1, n + 1)]
    return s + [{"op": "end"}]


def run(ctx):
    gen = ctx.generate("MC_OptUnits", invariants=("Laws",), header={"op": "begin"})
    # One command per history: join them to fewer sessions.
    flat = [c for h in gen for c in h[1:]]
    r = ctx.rng("r")
    sessions = [[{"op": "begin"}] + flat[i:i + 50] for i in range(0, len(flat), 50)]
    sessions += ctx.generate("MC_Opt", {"Depth": ctx.pick(25, 40)}, simulate=ctx.pick(400, 4000), depth=ctx.pick(27, 42), invariants=("Laws",), header={"op": "begin"})
    for _ in range(ctx.pick(200, 2500)):
        sessions.append([{"op": "begin"}] + [{"op": "qty", "ty": ty, "t": qty(r, ty), "u": qty(r, ty, 0.02)} for ty in ("dur", "bin", "met") for _ in range(8)])
        sessions.append([{"op": "begin"}] + [opts(r) for _ in range(10)] + [{"op": "end"}])
        sessions.append(stats(r))
    ctx.validate("d_opt", "T_Opt", sessions, source="tlc, random option sets and recorded statistics")
    ctx.expect_known("d_opt", "T_Opt", [{"op": "begin"}, {"op": "opts", "defs": {"num": ["", "3", ""]}, "allow": True, "cli": [], "bound": True,
                     "fin": [{"acts": [["overwrite", "num", ["", "5", ""]]], "ret": True}]}],
                     'overwrite_to(values, "num", 5) in a finalizer returning true does not reach the variable bound to option num')
