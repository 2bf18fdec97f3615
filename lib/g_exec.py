"""C01-C04: the command executer."""
import core

ERRORS = ["err", "cc", "ccbad", "conflict", "host", "driver", "full", "aborted"]
PLATS = ("linux", "linux_ioctl", "win32", "solaris", "aix", "aix_libc")
ASYNC = """SPECIFICATION Spec
CONSTANTS Max = %(max)d
 Ops = %(ops)d
 Threads = %(threads)d
 Faults = %(faults)d
 Export = %(export)s
%(view)s
INVARIANTS AlwaysAllowed Bounded Distinct Consistent Separate NeverStuck %(inv)s
%(props)s
CHECK_DEADLOCK FALSE
"""
CFG = """SPECIFICATION Spec
CONSTANTS Max = %(max)d
 Ops = %(ops)d
 Nested = %(nested)d
 Faults = %(faults)d
 Probe = TRUE
 Export = %(export)s
%(view)s
INVARIANTS %(inv)s
%(props)s
CHECK_DEADLOCK FALSE
"""
INV = "AlwaysAllowed Bounded Distinct Consistent DeviceAgrees NeverStuck"


def cfg(max, ops, nested, faults, export=False, live=False):
    return CFG % dict(max=max, ops=ops, nested=nested, faults=faults, export=str(export).upper(),
                      view="" if export else "VIEW view", inv=INV + (" Shown" if export else ""),
                      props="PROPERTY Terminates" if live else "")


def acfg(max, ops, threads, faults, export=False, live=False):
    return ASYNC % dict(max=max, ops=ops, threads=threads, faults=faults, export=str(export).upper(),
                        view="" if export else "VIEW view", inv="Shown" if export else "",
                        props="PROPERTY Terminates" if live else "")


def expand(rng, behs, plats, salt):
    """Behaviours of the specification as scenarios for platforms; the model has three outcomes, the code more."""
    for i, b in enumerate(behs):
        for p in plats(i):
            s = []
            for x in b["script"]:
                x = dict(x)
                if x["c"] in ("sub", "go") and x["ok"]:
                    x["out"] = {"ok": "ok", "none": "ok", "err": rng.choice(ERRORS)}[x["out"]]
                s.append(x)
            yield {"plat": p, "max": b["max"], "script": s, "salt": (i + salt) % 251, "kinds": [rng.randrange(4) for _ in range(3)],
                   "hard": rng.random() < 0.4,
                   "rogue_status": rng.choice([0, 0, 2, 8])}


def rand(rng, n, plats, maxes, ops, faults):
    """Longer scenarios than the model explores, from the same environment choices."""
    for i in range(n):
        mx = rng.choice(maxes)
        k = rng.randint(4, ops)
        script = []
        weights = rng.choice([(6, 1, 1, 1), (3, 3, 1, 1), (10, 1, 0, 2), (2, 1, 1, 1)])
        for _ in range(k):
            op = rng.choices(["send", "call", "wait", "full"], weights)[0]
            kind = rng.choice(["cb", "cb", "none", "raise", "nest", "bad"]) if op == "send" else "cb"
            if op == "call" and rng.random() < 0.1:
                kind = "bad"
            if not faults and kind in ("raise", "bad"):
                kind = "cb"
            script.append({"c": "op", "op": op, "kind": kind})
        for _ in range(3 * k):
            script.append({"c": "sub", "ok": not (faults and rng.random() < 0.1), "out": rng.choice(["ok"] * len(ERRORS) + ERRORS)})
            script.append({"c": "read", "req": rng.choice([-1, -2]) if faults and rng.random() < 0.08 else -11 - rng.randrange(50)})
            nest = rng.random() < 0.15
            op = rng.choice(["send", "send", "call", "wait", "full"])
            if faults and rng.random() < 0.07:
                nest, op = True, "int"
            script.append({"c": "nest", "op": op if nest else "-", "kind": rng.choice(["cb", "none"]) if op == "send" else "cb"})
        if mx == 0:                 # nothing is ever accepted
            script = [x for x in script if x["c"] in ("op", "nest")][:12]
        yield {"plat": rng.choice(plats), "max": mx, "script": script, "salt": i % 251, "kinds": [rng.randrange(4) for _ in range(3)],
               "hard": rng.random() < 0.3, "rogue_status": 0}


def coroutines(rng, n):
    """Longer scenarios of coroutines that share an executer over a handle whose system calls complete later."""
    for i in range(n):
        threads = rng.choice([2, 2, 3, 4])
        case = list(rand(rng, 1, ["win32_async"], [0, 1, 1, 2, 2, 3, 4, 8], rng.choice([8, 16, 24]), True))[0]
        script = []
        for x in case["script"]:
            if x["c"] == "op":
                script.append(dict(x, th=rng.randint(1, threads)))
                while rng.random() < 0.45:
                    script.append({"c": "go", "th": rng.randint(1, threads), "ok": True, "out": "next"})
            elif x["c"] != "read":
                script.append(x)
        yield dict(case, script=script)


def pairs(rng, n):
    """Two executers in one process."""
    for i in range(n):
        plats = [rng.choice(["linux", "linux", "linux_ioctl", "solaris"]), rng.choice(["linux", "linux"] + list(PLATS))]
        rng.shuffle(plats)
        a, b = [list(rand(rng, 1, [p], [1, 2, 3, 4, 8], 20, i % 2))[0] for p in plats]
        for c in (a, b):
            for x in c["script"]:
                if x["c"] == "nest" and x["op"] != "int" and rng.random() < 0.3:
                    x["op"] = "peer"
        a["salt"], b["salt"] = i % 251, (i + 100) % 251
        yield dict(a, peers=[b], order=[rng.randrange(2) for _ in range(40)])


def chains(rng, n):
    """Callbacks that send further requests, on and on, while one wait goes on."""
    for i in range(n):
        mx = rng.choice([1, 1, 2, 3, 4, 15])
        script = []
        for _ in range(rng.randint(1, mx)):
            script.append({"c": "op", "op": "send", "kind": "nest"})
        script.append({"c": "op", "op": "wait", "kind": "cb"})
        long = rng.choice([4, 10, 25, 40, 70])
        kinds = rng.choice([["nest"], ["nest", "nest", "nest", "nest", "none"], ["nest", "nest", "nest", "cb"]])
        ops = rng.choice([["send"], ["send"], ["send", "send", "send", "-"], ["send", "send", "call"]])
        for _ in range(long):
            op = rng.choice(ops)
            script.append({"c": "nest", "op": "-" if op == "-" else op, "kind": rng.choice(kinds) if op == "send" else "cb"})
            script.append({"c": "sub", "ok": True, "out": rng.choice(["ok"] * 6 + ERRORS)})
            script.append({"c": "read", "req": -11 - rng.randrange(50)})
        yield {"plat": PLATS[i % 6], "max": mx, "script": script, "salt": i % 251, "kinds": [rng.randrange(4) for _ in range(3)], "rogue_status": 0}


def pinned(rng, n):
    """One request stays with the device while very many others come and go."""
    for i in range(n):
        many = rng.choice([270, 300, 530])
        script = [{"c": "op", "op": "call", "kind": "cb"} for _ in range(rng.randrange(4))]
        first = len(script) + 1
        script.append({"c": "op", "op": "send", "kind": rng.choice(["cb", "none"])})
        script += [{"c": "op", "op": "call", "kind": "cb"} for _ in range(many)]
        script += [{"c": "read", "req": r} for r in range(1, first)]
        script += [{"c": "read", "req": r} for r in range(first + 1, first + many + 1)]
        yield {"plat": "linux" if i % 2 == 0 else rng.choice(PLATS), "max": rng.choice([2, 3, 8, 15, 16, 200, 255, 256, 257, 300]), "script": script,
               "salt": i % 251, "kinds": [rng.randrange(4) for _ in range(3)], "rogue_status": 0, "limit": 700}


def suite(run, emphasis):
    q = run.quick
    run.assumptions += ["the stand-ins of driver/plat.py behave like the operating systems' SCSI pass-through interfaces",
                        "greenlets are switched only where gevent.sleep is called right after a submission or a delivery; nested operations run to their end"]
    # the design
    run.model("ExecuterAlgo", cfg_text=cfg(2, 4, 1, 1), what="Max 2, 4 operations, 1 nested, 1 fault")
    run.model("ExecuterAlgo", cfg_text=cfg(1, 3, 1, 1), what="Max 1, 3 operations, 1 nested, 1 fault")
    run.model("ExecuterAlgo", cfg_text=cfg(2, 3, 1, 1, live=True), what="termination", timeout=900)
    run.model("ExecuterAsync", cfg_text=acfg(2, 4, 2, 1), what="Max 2, 4 operations of 2 coroutines, 1 refusal")
    run.model("ExecuterAsync", cfg_text=acfg(1, 3, 2, 1, live=True), what="coroutines: termination")
    if not q:
        run.model("ExecuterAsync", cfg_text=acfg(3, 5, 3, 1), what="Max 3, 5 operations of 3 coroutines, 1 refusal", workers=core.CORES, timeout=3000)
        run.model("ExecuterAlgo", cfg_text=cfg(3, 5, 1, 1), what="Max 3, 5 operations, 1 nested, 1 fault", workers=core.CORES, timeout=3000)
        run.model("ExecuterAlgo", cfg_text=cfg(2, 4, 2, 2), what="Max 2, 4 operations, 2 nested, 2 faults", workers=core.CORES, timeout=3000)
    # its behaviours on the code
    cases = []
    ex = run.behaviours("ExecuterAlgo", cfg_text=cfg(1, 2, 0, 1, export=True), exhaustive=True)
    run.extra["exhaustive_behaviours"] = len(ex)
    keep = ex if not q else run.rng.sample(ex, min(len(ex), 400))
    cases += expand(run.rng, keep, lambda i: PLATS if not q else ("linux", PLATS[1 + i % 5]), run.seed)
    faults = {"C01": 1, "C02": 2, "C03": 1, "C04": 3}[emphasis]
    for mx, ops, nested in ((2, 5, 1), (3, 8, 2), (4, 12, 1)):
        b = run.behaviours("ExecuterAlgo", cfg_text=cfg(mx, ops, nested, faults, export=True), num=run.pick(150, 1500), depth=200)
        cases += expand(run.rng, b, lambda i: ("linux", PLATS[i % 6]), run.seed)
    for mx, ops, threads in ((1, 5, 2), (2, 6, 2), (3, 8, 3)):
        b = run.behaviours("ExecuterAsync", cfg_text=acfg(mx, ops, threads, faults, export=True), num=run.pick(100, 1000), depth=200)
        cases += expand(run.rng, b, lambda i: ("win32_async",), run.seed)
    cases += coroutines(run.rng, run.pick(120, 1500))
    cases += rand(run.rng, run.pick(300, 4000), PLATS + ("linux",) * 4, [0, 1, 2, 3, 4, 5, 8, 15, 16], run.pick(30, 60), True)
    cases += pairs(run.rng, run.pick(60, 600))
    cases += chains(run.rng, run.pick(60, 600))
    cases += pinned(run.rng, run.pick(4, 16))
    small = [c for c in cases if c["plat"] in ("linux", "win32_async") and len(c["script"]) < 120 and not c.get("peers")]
    cases += [dict(c, collect=True) for c in run.rng.sample(small, min(len(small), run.pick(60, 600)))]
    run.conform("TraceExecuter", "exec", cases, timeout=1500)


CHECKS = {p: (lambda run, p=p: suite(run, p)) for p in ("C01", "C02", "C03", "C04")}
TECHNIQUE = "TLA+ contract (Executer) refined by a model of the algorithm (TLC), its behaviours replayed on the real executers, traces validated"
NOTE = ("Exhaustive for small queues in the model; on the code, every behaviour of the smallest model and thousands of sampled longer ones, "
        "each event checked against the contract. Trusts the stand-in OS of driver/plat.py; another greenlet runs only where gevent switches.")
