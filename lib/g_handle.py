"""C27-C30, C32: what surrounds the executers."""
import g_cdb

CFG = """SPECIFICATION Spec
CONSTANTS Part = "%s"
 Export = %s
 Limits = {%s}
 Readies = {%s}
 Overs = {%s}
 Lags = {%s}
 Depth = %d
 Nest = %d
 Max = %d
INVARIANTS Balanced PollEnds Shown
CHECK_DEADLOCK FALSE
"""
TICK = 5000
XS = ["sg", "dm", "windows", "solaris", "aix"]
EXCS = ["BodyError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "StopIteration", "RuntimeError", "OSError", "AsiException", "ValueError"]


def nums(*r):
    return ", ".join(str(i) for i in r)


def cfg(part, export=False, limits=7, readies=11, overs=(0, 1, 3), lags=(0, 1), depth=6, nest=2, mx=2):
    return CFG % (part, "TRUE" if export else "FALSE", nums(*range(limits)), nums(99, *range(readies)), nums(*overs), nums(*lags), depth, nest, mx)


def cmd(rng):
    return {"way": rng.choice(["in", "out"]), "n": rng.choice([0, 1, 8, 16])}


def path(rng):
    """The same for each, or (#) another for each."""
    return rng.choice(["/dev/verif", "/dev/verif #", "/dev/verif# ", " /dev/verif#", "/dev//verif#", "/dev/x/../verif#", "/dev/VERIF#", "/dev/verif\u00e9#", "/dev/verif#\n",
                       "verif#", "./verif#", "/dev/verif#/", "/dev/verif%#", "~verif#", "$verif#", "\\\\.\\verif#", "/dev/verif" + "x" * 300])


def c27(run):
    rng = run.rng
    run.model("HandleAlgo", cfg_text=cfg("contexts", depth=run.pick(4, 6), nest=2), timeout=1200, what="contexts")
    bs = run.behaviours("HandleAlgo", cfg_text=cfg("contexts", True, depth=3), exhaustive=True, timeout=600)
    run.extra["histories_exhaustive_to_depth_3"] = len(bs)
    if run.quick:
        bs = rng.sample(bs, min(len(bs), 800))
    bs += run.behaviours("HandleAlgo", cfg_text=cfg("contexts", True, depth=12, nest=3), num=run.pick(300, 5000), depth=40)
    cs = [{"k": "contexts", "log": b["log"], "exc": rng.choice(EXCS), "cmd": cmd(rng)} for b in bs]
    for c in cs:
        if rng.random() < 0.3:
            c["path"] = path(rng)
        if rng.random() < 0.2:
            c["left"] = rng.choice(["good", "bad", "bad"])
    # every context, every exception
    for cm in ["windows", "linux_dm", "linux_sg", "solaris", "aix"]:
        for exc in EXCS:
            for fails in (False, True):
                cs.append({"k": "contexts", "exc": exc, "cmd": cmd(rng),
                           "log": [{"c": "enter", "id": 1, "cm": cm, "fails": False}, {"c": "cmd", "id": 1, "fails": fails, "lets": False}, {"c": "raise"},
                                   {"c": "exit", "id": 1, "fails": fails}]})
        for left in ("good", "bad"):                # left while a command is under way
            cs.append({"k": "contexts", "exc": EXCS[0], "cmd": cmd(rng), "left": left,
                       "log": [{"c": "enter", "id": 1, "cm": cm, "fails": False}, {"c": "exit", "id": 1, "fails": False}]})
    for _ in range(run.pick(60, 600)):
        steps = []
        for _ in range(8):
            s = {"op": rng.choice(["read", "write", "close"]), "size": rng.choice([1, 88, 4096, 0]), "data": [rng.randrange(256) for _ in range(rng.randrange(20))]}
            if rng.random() < 0.4:
                s["less"] = rng.choice([1, 1, 2, 7, 20])      # a write that takes only some of it
            if rng.random() < 0.3:
                s["error"] = rng.choice(["EIO", "EBADF", "EAGAIN", "EPIPE"])
            steps.append(s)
        cs.append({"k": "handle", "steps": steps})
    run.conform("TraceHandle", "handle", cs)


def random_poll(rng, *limit):
    limit = limit[0] if limit else rng.choice([None, None, 0, 1000, 5000, 20000, 500000, 1000000, 3000000, rng.randrange(2000000)])
    eff = 60000000 if limit is None else limit
    ready = rng.choice([-1, 0, rng.randrange(eff + 1), rng.randrange(eff + 1), eff, eff - 1 if eff else 0, eff - rng.randrange(min(eff, 12000) + 1), eff + rng.randrange(1, 50000), eff + 10 ** 6])
    c = {"k": "poll", "limit": limit, "ready": ready, "lags": [rng.choice([0, 0, 7, 300, 20000]) for _ in range(rng.choice([0, 5, 50]))],
         "overs": [rng.choice([0, 0, 90, 1000, 60000]) for _ in range(rng.choice([0, 5, 50]))], "pos": rng.random() < 0.5,
         "size": rng.choice([1, 88, 4096]), "data": [rng.randrange(256) for _ in range(rng.randrange(1, 90))]}
    if rng.random() < 0.2:                    # the process does not get to run for a long time
        for k in rng.choice([["overs"], ["lags"], ["overs", "lags"]]):
            c[k] = [rng.choice([0, 500, 10 ** 6, 1100000, 5 * 10 ** 6, 10 ** 8]) if rng.random() < 0.5 else 0 for _ in range(20)]
    if rng.random() < 0.1:
        c["error"] = rng.choice(["EIO", "EBADF", "EPIPE"])
    if rng.random() < 0.1:
        c["high"] = True                      # a process with more than 1024 open files
    return c


def more_polls(rng, c, n):
    """Further reads on the same file, each a while after the one before."""
    c["more"] = [dict({k: v for k, v in x.items() if k in ("ready", "size", "data", "error")},
                      gap=rng.choice([0, 1, 5000, 10 ** 6, eff, eff + 10 ** 6, 3 * eff, rng.randrange(2 * eff + 1)]))
                 for eff in [60000000 if c["limit"] is None else c["limit"]] for x in (random_poll(rng, c["limit"]) for _ in range(n))]
    return c


def c28(run):
    rng = run.rng
    run.model("HandleAlgo", cfg_text=cfg("poll", limits=run.pick(7, 11), readies=run.pick(11, 16), overs=run.pick((0, 1, 3), (0, 1, 2, 3, 5)), lags=run.pick((0, 1), (0, 1, 2))),
              timeout=1800, what="poll")
    bs = run.behaviours("HandleAlgo", cfg_text=cfg("poll", True, limits=5, readies=8, overs=(0, 1, 3), lags=(0, 1)), exhaustive=True, timeout=600)
    run.extra["schedules_from_the_specification"] = len(bs)
    if run.quick:
        bs = rng.sample(bs, min(len(bs), 1200))
    cs = []
    for b in bs:
        w, log = b["want"], b["log"]
        lags = [log[i] * TICK for i in range(len(log)) if i % 3 != 1]
        overs = [log[i] * TICK for i in range(1, len(log), 3)]
        cs.append({"k": "poll", "limit": w["limit"] * TICK, "ready": -1 if w["ready"] == 99 else w["ready"] * TICK, "lags": lags, "overs": overs, "pos": False,
                   "size": 3, "data": [1, 2, 3]})
        if rng.random() < 0.5:               # the design forgets one read before the next: any behaviour may follow any other
            more_polls(rng, cs[-1], rng.choice([1, 2]))
    cs += [more_polls(rng, random_poll(rng), rng.choice([0, 1, 1, 3])) for _ in range(run.pick(500, 8000))]
    for x in XS:
        lits = [v for v in g_cdb.literals() if 0 < v < 32768]
        for given in [-1] + ([] if x == "windows" else [0, 1, 2, 3, 30, 60, 255, 256, 1000, 3000, 32767] + [rng.choice(lits) for _ in range(run.pick(20, 300))]):
            cs.append({"k": "limit", "x": x, "given": given, "cmds": [cmd(rng) for _ in range(3)]})
    run.conform("TraceHandle", "handle", cs)


def c29(run):
    rng = run.rng

    def cases(n):
        out = []
        for i in range(n):
            x = XS[i % len(XS)]
            cmds = []
            for _ in range(rng.choice([1, 2, 5])):
                c = cmd(rng)
                k = rng.random()
                if k < 0.2:
                    c["fail_at"] = rng.choice([1, 2] if x == "sg" else [1])
                elif k < 0.35:
                    c["status"] = rng.choice([2, 8, 0x18, 0x28])
                if rng.random() < 0.4:
                    c["other"] = {"way": rng.choice(["in", "out"]), "n": rng.choice([4, 8, 16])}
                cmds.append(c)
            out.append({"k": "gevent", "x": x, "cmds": cmds})
            if i % 2:
                q = rng.choice([1, 1, 2, 3, 15, 16, 20])
                out[-1].update(queue=q, bursts=[rng.choice([q, q, max(1, q - 1), 1]) for _ in range(rng.choice([1, 2]))])
        # every platform, direction and failure
        for x in XS:
            for way in ("in", "out"):
                for m in (0, 16):
                    for f in ({}, {"fail_at": 1}, {"fail_at": 2}, {"status": 8}):
                        out.append({"k": "gevent", "x": x, "cmds": [dict({"way": way, "n": m}, **f)] * 2})
        for _ in range(n // 4):
            out.append({"k": "wrap", "steps": [{"result": rng.choice(["object", None, 0, False, "text"]), "args": rng.randrange(4), "kwargs": rng.randrange(3),
                                                "raises": rng.choice(EXCS) if rng.random() < 0.4 else None,
                                                "others": [rng.choice(["yield", "inside"]) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]} for _ in range(4)]})
        return out
    n = run.pick(200, 4000)
    run.conform("TraceHandle", "handle", cases(n))
    run.conform("TraceHandle", "handle", cases(n), extra_env={"NOGEVENT": "1"})


def c30(run):
    rng = run.rng
    cs = []
    strings = ["linux-ubuntu-22-x64", "linux-redhat-7-x86", "windows-x64", "windows-x86", "solaris-11-sparc", "solaris-10-x64", "aix-7.1-powerpc",
               "osx-10.15-x64", "freebsd-13-x64", "hpux-11-ia64", "sunos-5-x", "java-1-x", "cygwin-1-x", "linuxish-1", "win-1", "linux2-x-1",
               "", "-", "l-1", "lin-x", "inux-x", "wind-x", "windowsce-1", "sol-1", "s", "ai-7", "aixx", "Linux-x", "LINUX-x", "Windows-x", "linux_-x", " linux-x", "x"]
    for s in strings:
        p = s.split("-")[0]
        for what in ("executer", "file", "async_file", "reactor"):
            for r in range(run.pick(4, 40)):
                path = ("\\\\.\\" + rng.choice(["PHYSICALDRIVE0", "PHYSICALDRIVE12", "Scsi2:", "C:"])) if p == "windows" else "/dev/verif" + rng.choice(["", "0", "/sg1", " x", "/rdsk/c0t0d0s2", "\u00e9", "/sg1 ", "/../dev/sg1", "//sg1", "/SG1", "\n", "/"])
                c = {"k": "factory", "string": s, "factory": what, "path": path, "queue": 0, "given": -1, "pos": rng.random() < 0.5, "refused": False}
                if what == "executer":
                    if rng.random() < 0.6:
                        c["queue"] = rng.choice([1, 2, 3, 7, 15, 16, 40])
                    if p != "windows" and rng.random() < 0.6:
                        c["given"] = rng.choice([0, 1, 10, 30, 1000, 3000, 30000])
                elif what != "reactor" and r % 4 == 3 and p in ("linux", "windows", "solaris", "aix") and (what == "file" or p == "windows"):
                    c["refused"] = True
                cs.append(c)
    run.conform("TraceHandle", "handle", cs)


def c32(run):
    rng = run.rng
    run.model("HandleAlgo", cfg_text=cfg("queue", depth=run.pick(7, 9), mx=2), timeout=900, what="queue, 2")
    run.model("HandleAlgo", cfg_text=cfg("queue", depth=run.pick(6, 8), mx=1), timeout=900, what="queue, 1")
    cs = []
    for mx, depth in run.pick([(1, 4), (2, 5)], [(1, 6), (2, 7), (3, 7)]):
        for b in run.behaviours("HandleAlgo", cfg_text=cfg("queue", True, depth=depth, mx=mx), exhaustive=True, timeout=600):
            cs.append({"k": "queue", "max": mx, "ops": b["log"], "seed": rng.randrange(1000), "pos": rng.random() < 0.5})
    for _ in range(run.pick(50, 800)):
        cs.append({"k": "queue", "max": rng.choice([1, 2, 3, 5, 15]), "ops": [rng.choice(["send", "send", "send", "call", "full", "wait"]) for _ in range(30)],
                   "seed": rng.randrange(1000), "pos": rng.random() < 0.5})
    for _ in range(run.pick(100, 2000)):
        steps = [{"m": rng.choice(["call", "send", "send", "wait", "is_queue_full"]), "how": rng.choice(["pos", "kw", "none"]), "result": rng.choice(["true", "false", "object"]),
                  "raises": rng.choice(EXCS) if rng.random() < 0.25 else None, "odd": rng.randrange(2),
                  "again": rng.choice(["call", "send", "wait"]) if rng.random() < 0.25 else None} for _ in range(10)]
        cs.append({"k": "adapter", "steps": steps, "base": rng.choice([None, [0, 1], [0, 4], [1, 1], [1, 15], [4, 4]]), "twice": rng.random() < 0.4})
        steps = [{"yields": rng.choice([0, 1, 2, 5]), "nested": rng.random() < 0.5, "result": rng.choice([None, 0, False, 5, "x"]), "args": rng.randrange(4),
                  "kwargs": rng.randrange(3), "raises": rng.choice(["BodyError", "OSError", "ValueError"]) if rng.random() < 0.2 else None} for _ in range(6)]
        cs.append({"k": "synccall", "steps": steps})
    run.conform("TraceHandle", "handle", cs)


TECHNIQUE = "TLA+ acceptors for device handles, contexts, polling, yields, platforms and adapters, designs checked with TLC, schedules from TLC replayed into the code, trace validation with TLC"
NOTE = "Trusted: the stand-in OS, clock and gevent; polling that uses other primitives than select.select and time.sleep would not be seen."
CHECKS = {"C27": c27, "C28": c28, "C29": c29, "C30": c30, "C32": c32}
