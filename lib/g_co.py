"""C05-C07: coroutines."""
import itertools, os
import core

CFG = """SPECIFICATION Spec
CONSTANT Export = %s
%s
INVARIANTS AlwaysAllowed NeverStuck%s
%s
CHECK_DEADLOCK FALSE
"""


def cfg(export=False, live=False):
    return CFG % (str(export).upper(), "" if export else "VIEW view", " Shown" if export else "", "PROPERTY Terminates" if live else "")


def flat(n, fail=True):
    """The simplest statements."""
    out = [{"k": "eff"}, {"k": "val", "v": 5}, {"k": "tok", "ok": True, "v": 7}, {"k": "ret"}]
    if fail:
        out += [{"k": "tok", "ok": False, "v": 0}, {"k": "raise", "cls": "E"}]
    return out


def seqs(items, n):
    for k in range(n + 1):
        for x in itertools.product(items, repeat=k):
            yield list(x)


def copy(s, count):
    """A copy with fresh numbers."""
    s = dict(s)
    count[0] += 1
    s["n"] = count[0]
    if s["k"] == "tok" and s["ok"] and s["v"] >= 0:
        s["v"] += count[0]
    elif s["k"] == "val" and s["v"] > 0:
        s["v"] += count[0]
    for f in ("b", "h", "f"):
        if f in s:
            s[f] = [copy(x, count) for x in s[f]]
    return s


def number(progs):
    count = [0]
    return [[copy(s, count) for s in b] for b in progs]


def small():
    """Every program of one or two statements over one level of nesting."""
    inner = list(seqs(flat(0), 2))
    one = flat(0)
    one += [{"k": "sub", "b": b} for b in inner]
    hs = [[], [{"k": "val", "v": 9}], [{"k": "reraise"}], [{"k": "raise", "cls": "B"}], [{"k": "ret"}]]
    for b in list(seqs(flat(0), 1)) + [[{"k": "sub", "b": [x]}] for x in flat(0)]:
        for h in hs:
            one.append({"k": "try", "b": b, "c": "E", "h": h, "f": []})
        for f in ([{"k": "eff"}], [{"k": "val", "v": 9}], [{"k": "ret"}], [{"k": "tok", "ok": False, "v": 0}]):
            one.append({"k": "try", "b": b, "c": "-", "h": [], "f": f})
            one.append({"k": "try", "b": b, "c": "all", "h": [{"k": "tok", "ok": True, "v": 1}], "f": f})
    for x in one:
        yield [x]
    for x in one:
        for y in ({"k": "eff"}, {"k": "val", "v": 3}):
            yield [x, y]
            yield [y, x]
        # seen from outside
        yield [{"k": "try", "b": [{"k": "sub", "b": [x]}], "c": "all", "h": [], "f": []}, {"k": "eff"}]
        yield [{"k": "sub", "b": [{"k": "try", "b": [{"k": "sub", "b": [x, {"k": "val", "v": 4}]}], "c": "all", "h": [], "f": []}]}, {"k": "eff"}]
        yield [{"k": "sub", "b": [{"k": "try", "b": [x], "c": "-", "h": [], "f": [{"k": "eff"}]}]}]
        yield [{"k": "try", "b": [x], "c": "all", "h": [], "f": []}]


def rand(rng, depth, faults, in_handler=False, tok=True):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        ks = ["eff", "val", "val", "tok", "tok", "tok", "raise", "ret", "reraise"]
        w = [2, 2, 2, 2, 2, 2, 1.5 * faults, 0.5, 2 * faults if in_handler else 0]
        if depth > 0:
            ks += ["sub", "chain", "try"]
            w += [4, 0.7, 3 + 3 * faults]
        k = rng.choices(ks, w)[0]
        if k == "eff" or k == "ret" or k == "reraise":
            out.append({"k": k})
        elif k == "val":
            out.append({"k": k, "v": rng.choice([-1, 0, 1, 7, 300])})
            if out[-1]["v"] >= 0 and rng.random() < 0.4:
                out[-1]["as"] = rng.randrange(14)         # an object of another type stands for the number
        elif k == "tok":
            x = {"k": k, "ok": not (faults and rng.random() < 0.35), "v": rng.choice([0, 1, 2, 511])}
            if rng.random() < 0.3:
                x["as"] = rng.randrange(18)               # what a token (not DeviceIoControl) results in
            if rng.random() < 0.3:
                x["imm"] = "fail" if not x["ok"] and rng.random() < 0.5 else "ok"
            out.append(x)
        elif k == "raise":
            out.append({"k": k, "cls": rng.choice(["E", "E", "B"])})
        elif k == "sub":
            out.append({"k": k, "b": rand(rng, depth - 1, faults)})
        elif k == "chain":
            out.append({"k": k, "d": rng.choice([1, 2, 3, 7, 40]), "b": rand(rng, depth - 1, faults)})
        else:
            c = rng.choice(["all", "E", "E", "-"])
            out.append({"k": k, "b": rand(rng, depth - 1, faults, in_handler), "c": c,
                        "h": [] if c == "-" else rand(rng, depth - 1, faults, True),
                        "f": rand(rng, depth - 1, faults) if c == "-" or rng.random() < 0.4 else []})
    return out


def size(b):
    return sum(1 + sum(size(s[f]) for f in ("b", "h", "f") if f in s) for s in b)


def model(run, cases, what, export=False, live=False, num=None):
    path = os.path.join(run.scratch, "programs-%d.ndjson" % len(run.models))
    core.dump(path, cases)
    if export:
        return run.behaviours("CoroutineAlgo", cfg_text=cfg(export=True), env={"PROGRAMS": path}, num=num or 100, depth=400, exhaustive=num is None)
    run.model("CoroutineAlgo", cfg_text=cfg(live=live), env={"PROGRAMS": path}, workers=core.CORES, what=what, timeout=3000)


def sync_cases(run, faults):
    rng = run.rng
    q = run.quick
    every = list(small())
    if faults == 0:
        pass
    progs = every if not q else rng.sample(every, 700)
    run.extra["small_programs"] = len(every)
    big = []
    while len(big) < run.pick(500, 8000):
        b = rand(rng, rng.choice([1, 2, 3, 4, 5]), faults)
        if 2 <= size(b) <= 60:
            big.append(b)
    cases = []
    for b in progs + big:
        p = number([b])
        cases.append({"mode": "sync", "progs": p, "io": rng.choice(["token", "win32"]), "way": rng.choice(["wait", "call"]), "files": 1})
        if rng.random() < 0.4:
            cases[-1]["kind"] = rng.choice([0, 0, rng.randrange(12)])         # all exceptions of one class
    for d in (100, 400, 1500):
        cases.append({"mode": "sync", "progs": number([[{"k": "chain", "d": d, "b": [{"k": "tok", "ok": True, "v": 2}, {"k": "val", "v": 3}]}, {"k": "eff"}]]),
                      "io": "token", "way": "wait"})
        cases.append({"mode": "sync", "progs": number([[{"k": "try", "b": [{"k": "chain", "d": d, "b": [{"k": "raise", "cls": "E"}]}], "c": "all", "h": [], "f": []}, {"k": "eff"}]]),
                      "io": "token", "way": "wait"})
    return cases


def sync_suite(run, pid):
    run.assumptions += ["a plain value that a coroutine yields is not itself an exception", "results are yielded, not returned (Python 2 generators)"]
    cases = sync_cases(run, 0.15 if pid == "C05" else 1)
    model(run, cases, "trampoline = direct style, %d programs" % len(cases))
    # several at once, as greenlets run them: each as if it were alone
    rng = run.rng
    alone = [dict(c, io="token") for c in cases if 3 <= size(c["progs"][0]) <= 40]
    for _ in range(run.pick(120, 3000)):
        k = rng.choice([2, 2, 3, 4])
        cases.append({"together": rng.sample(alone, k), "turns": [rng.random() < 0.6 for _ in range(100)]})
    if not run.quick:
        model(run, cases[:300], "termination", live=True)
    run.conform("TraceCoroutine", "co", cases, timeout=1500)


def async_suite(run, pid="C07"):
    rng = run.rng
    q = run.quick
    run.assumptions += ["kernel32's overlapped I/O behaves as the stand-in does", "which of several completed I/Os is reported first is arbitrary"]
    # small sets of small programs: every order of completions in the model, and on the code
    tiny = [b for b in small() if size(b) <= 4]
    toks = [[{"k": "tok", "ok": True, "v": 3}], [{"k": "tok", "ok": True, "v": 3}, {"k": "tok", "ok": True, "v": 5}],
            [{"k": "tok", "ok": True, "v": 2}, {"k": "val", "v": 5}, {"k": "tok", "ok": True, "v": 2}, {"k": "tok", "ok": True, "v": 2}],
            [{"k": "sub", "b": [{"k": "tok", "ok": True, "v": 3}, {"k": "eff"}]}, {"k": "tok", "ok": True, "v": 5}],
            [{"k": "try", "b": [{"k": "tok", "ok": False, "v": 0}], "c": "E", "h": [{"k": "tok", "ok": True, "v": 9}], "f": []}],
            [{"k": "val", "v": 1}], [], [{"k": "tok", "ok": True, "v": 3, "imm": "ok"}, {"k": "eff"}]]
    sets = []
    for k in (1, 2, 3):
        for c in itertools.combinations_with_replacement(range(len(toks)), k):
            sets.append([toks[i] for i in c])
    for _ in range(run.pick(150, 1500)):
        sets.append([rng.choice(toks + tiny) for _ in range(rng.choice([1, 2, 2, 3, 3]))])
    cases = [{"mode": "async", "progs": number(s)} for s in sets]
    model(run, cases, "every order of completions, %d sets of programs" % len(cases))
    model(run, cases[:60], "termination", live=True)
    if q:
        sub = rng.sample(cases, 140)
        behs = model(run, sub, "orders", export=True)
        behs = rng.sample(behs, min(900, len(behs)))
    else:
        sub = cases
        behs = model(run, cases, "orders", export=True)
        behs = rng.sample(behs, min(20000, len(behs)))
    out = []
    for b in behs:
        out.append(dict(sub[b["case"] - 1], order=b["order"], io=rng.choice(["token", "win32", "win32"]), files=rng.choice([1, 2, 3])))
    # larger sets, random orders
    for i in range(run.pick(250, 4000)):
        n = rng.choice([0, 1, 2, 3, 4, 6, 9, 16, 40] if i % 8 == 0 else [1, 2, 3, 4, 5])
        faults = rng.choice([0, 0, 0.3])
        s = []
        while len(s) < n:
            b = rand(rng, rng.choice([0, 1, 2, 3]), faults)
            if size(b) <= 25:
                s.append(b)
        fail = {} if rng.random() < 0.8 else {"waitfail": rng.choice([1, 1, 2, 3, 5]), "waitret": rng.choice([-1, 258, -1])}
        out.append({"mode": "async", "progs": number(s), **fail, "picks": [rng.randrange(64) for _ in range(300)],
                    "io": rng.choice(["token", "win32", "win32"]), "files": rng.choice([1, 2, 5])})
    # more at a time than the system waits for
    for n in (63, 64, 65, 66, 100, 129) + run.pick((), (64, 65, 128, 200, 300)):
        s = [rng.choice(toks[:5] if rng.random() < 0.9 else toks) for _ in range(n)]
        out.append({"mode": "async", "progs": number(s), "picks": [rng.randrange(64) for _ in range(1000)], "io": rng.choice(["token", "win32"]), "files": 3})
    run.conform("TraceCoroutine", "co", out, timeout=1500)


CHECKS = {"C05": lambda run: sync_suite(run, "C05"), "C06": lambda run: sync_suite(run, "C06"), "C07": async_suite}
TECHNIQUE = "TLA+: direct-style meaning of coroutine programs, trampoline and reactor refine it (TLC), programs and completion orders run on the real code, traces validated"
NOTE = ("Every small program and completion order in the model; on the code a large sample of them and random larger programs (compiled to real generators). "
        "Trusts the stand-in for overlapped I/O.")
