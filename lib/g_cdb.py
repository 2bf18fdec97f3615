"""C14-C17, C31: what the library's commands send."""
import ast, functools, glob, os
import core

BLOCK = ["Read6", "Read10", "Read12", "Read16", "Write6", "Write10", "Write12", "Write16", "WriteSame10", "WriteSame16", "CompareAndWrite", "Unmap"]
DISCOVERY = ["Inquiry", "ReadCapacity10", "ReadCapacity16", "ReportLuns", "Rtpg", "CopyParameters", "LogSense", "ReceiveDiagnostic", "TestUnitReady"]
RESERVE = ["Reserve6", "Release6", "Reserve10", "Release10", "PersistentReserveIn", "PersistentReserveOut"]
CFG = """SPECIFICATION Spec
CONSTANTS Which = {%s}
 Export = TRUE
INVARIANTS Faithful NotExpressible Shown
CHECK_DEADLOCK FALSE
"""
LBA = {"Read6": 21, "Write6": 21, "Read10": 32, "Write10": 32, "Read12": 32, "Write12": 32, "WriteSame10": 32}
COUNT = {"Read6": 8, "Read10": 16, "Read12": 32, "Read16": 32, "WriteSame10": 16, "WriteSame16": 32, "CompareAndWrite": 8}
FLAGBITS = {"protect": 3, "dpo": 1, "fua": 1, "fua_nv": 1, "group": 5, "mmc4": 1, "reladr": 1, "pbdata": 1, "lbdata": 1, "unmap": 1, "naca": 1, "vendor": 2}
FLAGS = {"Read6": [], "Read10": ["protect", "dpo", "fua", "fua_nv", "group"], "Read12": ["protect", "dpo", "fua", "reladr"],
         "Read16": ["protect", "dpo", "fua", "fua_nv", "group", "mmc4"], "Write6": [], "Write10": ["protect", "dpo", "fua", "fua_nv", "group"],
         "Write12": ["protect", "dpo", "fua", "fua_nv", "group"], "Write16": ["protect", "dpo", "fua", "fua_nv", "group"],
         "WriteSame10": ["protect", "pbdata", "lbdata", "group"], "WriteSame16": ["protect", "pbdata", "lbdata", "group", "unmap"],
         "CompareAndWrite": ["protect", "dpo", "fua", "fua_nv", "group"], "Unmap": ["group"]}


@functools.lru_cache(None)
def literals():
    """The integers the code under test mentions: inputs a bug may be waiting for."""
    out = set()
    for f in glob.glob(os.path.join(core.REPO, "src/infi/asi/**/*.py"), recursive=True):
        try:
            for n in ast.walk(ast.parse(open(f, errors="replace").read())):
                if isinstance(n, ast.Constant) and type(n.value) is int and n.value >= 0:
                    out.add(n.value)
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Pow, ast.LShift)) and isinstance(n.left, ast.Constant) \
                        and isinstance(n.right, ast.Constant) and type(n.left.value) is int and type(n.right.value) is int and n.right.value < 70:
                    out.add(n.left.value ** n.right.value if isinstance(n.op, ast.Pow) else n.left.value << n.right.value)
        except SyntaxError:
            pass
    return sorted(out | {x + 1 for x in out} | {x - 1 for x in out if x})


def number(rng, bits, lits, ranged=True):
    """A number for a field of so many bits."""
    k = rng.random()
    if k < 0.25:
        v = 1 << rng.randrange(bits)
    elif k < 0.4:
        v = (1 << rng.randrange(1, bits + 1)) - 1
    elif k < 0.6:
        v = rng.choice(lits)
    elif k < 0.8:
        v = rng.getrandbits(bits)
    else:
        v = rng.getrandbits(rng.randrange(1, bits + 1))
    return v & ((1 << bits) - 1) if ranged else v


def plain(x):
    if isinstance(x, dict) and set(x) == {"t", "v"}:
        v = int.from_bytes(bytes(x["v"]), "big")
        return -v if x["t"] == "n" else v
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def from_spec(run, names):
    """The boundary requests the specification lists, and whether it says they fit."""
    out = []
    for b in run.behaviours("CdbAlgo", cfg_text=CFG % ",".join('"%s"' % n for n in names), exhaustive=True, timeout=600):
        a = plain(b["args"])
        if "buflen" in a:
            a["seed"] = seed(run.rng)
        out.append(({"k": "cmd", "name": b["name"], "args": a, "plat": run.rng.choice(["linux_ioctl", "linux_ioctl", "linux", "solaris", "aix", "win32"])},
                    b["fits"]))
    return out


def fix_plat(c):
    """Windows takes commands of 16 bytes; d_cdb's device answers at once, as an ioctl."""
    if c.get("plat") in ("linux", "win32"):
        c["plat"] = "linux_ioctl"
    return c


def seed(rng):
    """Which content (d_pt.pattern): mostly bytes that differ, sometimes a special content."""
    return rng.choice([2000, 2255, rng.randrange(2000, 2256), 2256, 2257, 2258, 2259, 2260, 2261, 2262, 2263]) if rng.random() < 0.3 else rng.randrange(1000)


def flags(rng, name, p=0.25):
    out = {}
    for f in FLAGS.get(name, []) + ["naca", "vendor"]:
        if rng.random() < p:
            out[f] = rng.getrandbits(FLAGBITS[f])
    return out


def rand_block(rng, name, lits, wrong=False):
    a = flags(rng, name)
    bs = rng.choice([512, 512, 520, 4096, 1, 2, 8, 16, 100, 528, 4160])
    if bs != 512 or rng.random() < 0.5:
        a["bs"] = bs
    if name == "Unmap":
        n = rng.choice([0, 1, 1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 40])
        a.pop("bs", None)
        if rng.random() < 0.6:
            a["as"] = rng.choice(["tuple", "iter", "lists", "gen", "list"])
        a["ranges"] = [{"lba": number(rng, 64, lits), "count": number(rng, 32, lits)} for _ in range(n)]
        if wrong and n:
            r = rng.choice(a["ranges"])
            if rng.random() < 0.5:
                r["lba"] = rng.choice([1 << 64, -1, (1 << 64) + number(rng, 64, lits), -number(rng, 64, lits) - 1])
            else:
                r["count"] = rng.choice([1 << 32, -1, (1 << 32) + number(rng, 32, lits), -number(rng, 32, lits) - 1])
        return a
    w = LBA.get(name, 64)
    a["lba"] = number(rng, w, lits)
    what = rng.choice(["lba", "count", "buffer"]) if wrong else None
    if name.startswith("Read"):
        a["length"] = number(rng, COUNT[name], lits)
        if what in ("count", "buffer"):
            a["length"] = rng.choice([(1 << COUNT[name]) + 1 + number(rng, COUNT[name], lits), -1 - number(rng, 8, lits)])
    else:
        blocks = rng.choice([0, 1, 1, 2, 3, 7, 8, 16, 100, 127, 128, 129, 255, 256, 257]) if rng.random() < 0.7 else min(rng.choice(lits), 70000)
        if bs > 16:
            blocks = min(blocks, 300)
        if name == "CompareAndWrite":
            n = min(blocks, 255) if rng.random() < 0.9 else number(rng, 8, lits)
            a["number"] = n
            blocks = 2 * n
            if bs > 100:
                a["bs"] = bs = 8
        elif name.startswith("WriteSame"):
            a["number"] = number(rng, COUNT[name], lits)
            blocks = 1 if rng.random() < 0.9 else blocks % 5
        a["buflen"] = blocks * bs
        a["seed"] = seed(rng)
        if what == "count" and "number" in a:
            a["number"] = rng.choice([(1 << COUNT[name]) + number(rng, COUNT[name], lits), -1 - number(rng, 8, lits)])
            if name == "CompareAndWrite" and a["number"] > 0 and rng.random() < 0.6:      # only the count is wrong
                a["bs"] = rng.choice([1, 8])
                a["buflen"] = 2 * a["number"] * a["bs"]
        elif what in ("buffer", "count"):
            if bs == 1:
                a["bs"] = bs = 8
                a["buflen"] = blocks * 8
            a["buflen"] += rng.randrange(1, bs)
    if what == "lba":
        a["lba"] = rng.choice([(1 << w) + number(rng, w, lits), -1 - number(rng, w, lits), 1 << (w + rng.randrange(9))])
    return a


def rand_discovery(rng, name, lits):
    a = {f: rng.getrandbits(FLAGBITS[f]) for f in ("naca", "vendor") if rng.random() < 0.2}
    alloc16 = lambda: number(rng, 16, lits)
    alloc32 = lambda: rng.choice([number(rng, 16, lits), number(rng, 20, lits), number(rng, 32, lits)])
    if name == "Inquiry":
        k = rng.random()
        if k < 0.4:
            a.update(evpd=1, page=rng.choice([0, 0x80, 0x83, 0x89, 0xb0, 0xb2, 0xc0, rng.randrange(256)]))
        else:
            if rng.random() < 0.7:
                a["alloc"] = alloc16()
            if rng.random() < 0.5:
                a.update(evpd=rng.randrange(2), page=number(rng, 8, lits))
                if rng.random() < 0.3:
                    a["generic"] = True
                    a.setdefault("alloc", alloc16())
            elif rng.random() < 0.3:
                a["page"] = number(rng, 8, lits)
    elif name in ("ReadCapacity10", "ReadCapacity16"):
        if rng.random() < 0.6:
            a["lba"] = number(rng, 32 if name == "ReadCapacity10" else 64, lits)
        if rng.random() < 0.5:
            a["pmi"] = rng.randrange(2)
    elif name == "ReportLuns":
        if rng.random() < 0.7:
            a["select"] = number(rng, 8, lits)
        if rng.random() < 0.8:
            a["alloc"] = alloc32()
        if rng.random() < 0.3:
            a["allow"] = rng.random() < 0.5
    elif name == "Rtpg":
        if rng.random() < 0.7:
            a["format"] = rng.choice([0, 1, 1, 2, 7])
        if rng.random() < 0.8:
            a["alloc"] = alloc32()
    elif name == "CopyParameters":
        a = {"alloc": alloc32(), "control": rng.choice([0, 0, number(rng, 8, lits)])}
    elif name == "LogSense":
        a["page"] = number(rng, 6, lits)
        for f, w in (("subpage", 8), ("alloc", 16), ("sp", 1), ("pc", 2), ("pointer", 16)):
            if rng.random() < 0.5:
                a[f] = number(rng, w, lits)
    elif name == "ReceiveDiagnostic":
        a["page"] = rng.choice([0, 1, 2, 7, 0x80, 3, 4, 5, 6, 8, 9, 10, number(rng, 8, lits)])
        if rng.random() < 0.6:
            a["alloc"] = alloc16()
            a["pcv"] = rng.randrange(2)
    return a


def rand_reserve(rng, name, lits, wrong=False):
    a = {f: rng.getrandbits(FLAGBITS[f]) for f in ("naca", "vendor") if rng.random() < 0.2}
    if name in ("Reserve10", "Release10"):
        if rng.random() < 0.9 or wrong:
            a["id"] = number(rng, 64, lits) if rng.random() < 0.6 else rng.randrange(520)
            if wrong:
                a["id"] = rng.choice([-1, 1 << 64, (1 << 64) + 7, -255, -(1 << 63), -number(rng, 64, lits) - 1])
    elif name == "PersistentReserveIn":
        a["action"] = rng.choice([0, 1, 2, 3, 3, rng.randrange(32)])
        if rng.random() < 0.8:
            a["alloc"] = number(rng, 16, lits) or 8
        if wrong:
            if rng.random() < 0.5:
                a["action"] = rng.choice([-1, 32, 33, 35, 256, -29, 32 + number(rng, 5, lits)])
            else:
                a["alloc"] = rng.choice([-1, 65536, 65536 + number(rng, 16, lits), 1 << 20])
    elif name == "PersistentReserveOut":
        a["action"] = rng.randrange(9)
        if rng.random() < 0.8:
            a["key"] = number(rng, 64, lits)
        if rng.random() < 0.7:
            a["sakey"] = number(rng, 64, lits)
        if rng.random() < 0.7:
            a["type"] = rng.choice([1, 3, 5, 6, 7, 8, rng.randrange(16)])
        if rng.random() < 0.4:
            a["aptpl"] = rng.randrange(2)
        if a["action"] == 7:
            n = rng.choice([23, 23, 7, 51, 0, 1, 255, 300, rng.randrange(120)])
            a.update(tidprotocol=rng.randrange(16), tidformat=rng.randrange(4), tiddata=[rng.randrange(256) for _ in range(n)])
            if rng.random() < 0.7:
                a["rtpi"] = number(rng, 16, lits)
            if rng.random() < 0.5:
                a["unreg"] = rng.randrange(2)
        else:
            for f in ("all_tg_pt", "spec_i_pt"):
                if rng.random() < 0.4:
                    a[f] = rng.randrange(2)
        if wrong:
            f, w = rng.choice([("key", 64), ("sakey", 64), ("type", 4)])
            if a["action"] == 7 and rng.random() < 0.4:
                f, w = "rtpi", 16
            a[f] = rng.choice([-1, 1 << w, (1 << w) + number(rng, w, lits), -(1 << (w - 1)), -number(rng, w, lits) - 1])
    return a


def cases(run, names, make, n, wrong=False):
    lits = literals()
    out = []
    for i in range(n):
        name = names[i % len(names)]
        a = make(run.rng, name, lits, wrong) if make is not rand_discovery else make(run.rng, name, lits)
        c = {"k": "cmd", "name": name, "args": a, "plat": run.rng.choice(["linux_ioctl", "linux_ioctl", "linux_ioctl", "solaris", "aix"]),
             "ans": {"seed": seed(run.rng)}}
        if run.rng.random() < 0.1:
            c["ans"]["ok"] = False
            c["ans"]["status"] = run.rng.choice([2, 2, 8, 0x18, 0x28])
        out.append(c)
    return out


ALLOC = {"ReadCapacity16": 32, "ReportLuns": 32, "Rtpg": 32, "CopyParameters": 32, "LogSense": 16, "PersistentReserveIn": 16}


def late(rng, name, lits):
    """A change of a command that exists."""
    fs = list(FLAGS.get(name, [])) + ["naca", "vendor"] if name != "CopyParameters" else []
    if name in BLOCK and name not in ("Read6", "Write6", "Unmap") or name in ("ReadCapacity10", "ReadCapacity16"):
        fs += ["lba"] * (1 + len(fs) // 2)
    if name in ALLOC:
        fs += ["alloc"] * 3
    if name in ("ReadCapacity10", "ReadCapacity16"):
        fs.append("pmi")
    if name == "ReportLuns":
        fs.append("select")
    f = rng.choice(fs)
    if f == "lba":
        return [f, number(rng, 32 if name == "ReadCapacity10" else LBA.get(name, 64), lits)]
    if f == "alloc":
        n = number(rng, min(20, ALLOC[name]), lits)
        return [f, max(8, n) if name == "PersistentReserveIn" else n]
    return [f, rng.getrandbits({"pmi": 1, "select": 8}.get(f) or FLAGBITS[f])]


def again(run, names, make, n):
    """Commands that are executed more than once, and changed in between."""
    rng, lits, out = run.rng, literals(), []
    for i in range(n):
        name = names[i % len(names)]
        a = make(rng, name, lits)
        if a.get("length", 0) * a.get("bs", 512) > 1 << 18:
            a["length"] = rng.randrange(1, 4)
        xs = []
        for j in range(rng.choice([1, 2, 2, 3, 5])):
            xs.append({"set": [late(rng, name, lits) for _ in range(rng.choice([0, 1, 1, 2, 4]) if j else rng.choice([0, 1, 2]))], "ans": {"seed": seed(rng)}})
            if rng.random() < 0.1:
                xs[-1]["ans"].update(ok=False, status=rng.choice([2, 2, 8, 0x18, 0x28]))
        out.append({"k": "again", "name": name, "args": a, "xs": xs, "plat": rng.choice(["linux_ioctl", "linux_ioctl", "solaris", "aix"])})
    return out


def thin(run, items, n):
    if len(items) <= n:
        return items
    return run.rng.sample(items, n)


def check(names, make, quick, thorough):
    def f(run):
        spec = from_spec(run, names)
        fit = [fix_plat(c) for c, ok in spec if ok]
        run.extra["boundary_requests_from_the_specification"] = len(spec)
        cs = thin(run, fit, run.pick(2500, 10 ** 6)) + cases(run, names, make, run.pick(quick, thorough))
        cs += again(run, names, make, run.pick(quick, thorough) // 4)
        run.conform("TraceCdb", "cdb", cs)
    return f


def c17(run):
    spec = from_spec(run, BLOCK + ["ReadCapacity10", "ReadCapacity16", "ReportLuns", "Rtpg", "CopyParameters", "LogSense", "ReceiveDiagnostic", "Inquiry"] + RESERVE)
    bad = [fix_plat(c) for c, ok in spec if not ok]
    run.extra["requests_that_do_not_fit_from_the_specification"] = len(bad)
    cs = thin(run, bad, run.pick(1500, 10 ** 6))
    cs += cases(run, BLOCK, rand_block, run.pick(1500, 12000), wrong=True)
    cs += cases(run, ["Reserve10", "Release10", "PersistentReserveIn", "PersistentReserveOut"], rand_reserve, run.pick(600, 4000), wrong=True)
    # and requests that do fit, next to them
    cs += [fix_plat(c) for c, ok in thin(run, [x for x in spec if x[1]], run.pick(500, 4000))]
    run.conform("TraceCdb", "cdb", cs)


def history(run):
    rng = run.rng
    lits = literals()
    steps, live, n = [], [], 0
    pool = {}
    few = DISCOVERY if rng.random() < 0.5 else rng.sample(DISCOVERY, 2)
    for _ in range(rng.choice([4, 8, 12, 20])):
        k = rng.random()
        if not live or k < 0.4:
            g = rng.random()
            if g < 0.35:
                name = rng.choice(BLOCK)
                a = rand_block(rng, name, lits, rng.random() < 0.15)
                if a.get("length", 0) > 3000:
                    a["length"] = rng.randrange(256)
            elif g < 0.75:
                name = rng.choice(few)
                a = rand_discovery(rng, name, lits)
            else:
                name = rng.choice(RESERVE)
                a = rand_reserve(rng, name, lits, rng.random() < 0.15)
            if a.get("alloc", 0) > 5000:
                a["alloc"] = rng.choice([255, 512, 4096])
            if live and rng.random() < 0.3:             # from the same arguments as another command
                j, name, a = rng.choice(live)
                a = dict(a)
            elif rng.random() < 0.2:
                name = rng.choice(["Unmap", "PersistentReserveOut"])
                a = rand_block(rng, name, lits) if name == "Unmap" else dict(rand_reserve(rng, name, lits), action=7, tidprotocol=rng.randrange(16), tidformat=rng.randrange(4),
                                                                             tiddata=[rng.randrange(256) for _ in range(23)])
                for f in ("all_tg_pt", "spec_i_pt"):
                    a.pop(f, None)
            steps.append({"k": "new", "id": n, "name": name, "args": a})
            live.append((n, name, a))
            n += 1
        elif k < 0.5:
            i, name, a = rng.choice(live)
            if name in FLAGS and rng.random() < 0.7 or name == "CopyParameters":
                fs = FLAGS.get(name) or []
                if not fs:
                    continue
                f = rng.choice(fs)
            elif name != "CopyParameters":
                f = rng.choice(["naca", "vendor"])
            f, v = late(rng, name, lits) if rng.random() < 0.5 and name != "CopyParameters" else (f, rng.getrandbits(FLAGBITS[f]))
            steps.append({"k": "set", "id": i, "f": f, "v": v})
        else:
            i, name, a = rng.choice(live[-4:]) if rng.random() < 0.5 else rng.choice(live)
            ans = {"seed": rng.choice([rng.randrange(50), seed(rng)])}
            if rng.random() < 0.15:
                ans["ok"] = False
            elif name in ("Inquiry", "ReadCapacity10", "ReadCapacity16", "ReportLuns", "Rtpg", "CopyParameters", "ReceiveDiagnostic", "PersistentReserveIn"):
                key = (name, a.get("page"), a.get("action"))
                if key in pool and rng.random() < 0.4:
                    ans["bytes"] = pool[key]
                else:
                    ans["bytes"] = answer(rng, name, a)
                    pool[key] = ans["bytes"]
            steps.append({"k": "exec", "id": i, "ans": ans})
            if rng.random() < 0.3:
                steps.append({"k": "exec", "id": i, "ans": ans})
    for i, name, a in live:
        if rng.random() < 0.5:
            steps.append({"k": "exec", "id": i, "ans": {"seed": 3, "bytes": answer(rng, name, a)} if name in ("Inquiry", "ReportLuns", "PersistentReserveIn") else {"seed": 3}})
    names = {i: name for i, name, a in live}
    execs = [s for s in steps if s["k"] == "exec"]
    for s in execs:
        if rng.random() < 0.3:                            # while it waits for its answer, another one that exists already is executed
            made = [x["id"] for x in steps[:steps.index(s)] if x["k"] == "new"]
            other = [x for x in execs if x["id"] in made and x["id"] != s["id"] and "nests" not in x]
            alike = [x for x in other if names[x["id"]] == names[s["id"]]]
            other = alike if alike and rng.random() < 0.6 else other
            if other:
                s["nests"] = [dict(rng.choice(other))]
    return {"k": "hist", "steps": steps, "plat": rng.choice(["linux_ioctl", "solaris", "aix"])}


def answer(rng, name, a):
    try:
        import g_dec
        return g_dec.answer(rng, name, a)
    except ImportError:
        return [rng.choice([0, 0, 1, 255, rng.randrange(256)]) for _ in range(rng.choice([8, 36, 96, 252]))]


def overlap(run, name):
    """Commands of one kind, each executed while the one before it waits for its answer."""
    rng, lits = run.rng, literals()
    steps, n = [], rng.choice([2, 2, 3])
    for i in range(n):
        a = {"Inquiry": lambda: rng.choice([{"evpd": 1, "page": rng.choice([0, 0x80, 0x83, 0xb0, 0xb2, 0xc0, 0x89, 5])}, {"alloc": 255}]),
             "ReceiveDiagnostic": lambda: {"page": rng.choice([0, 1, 9])}, "PersistentReserveIn": lambda: {"action": rng.randrange(4), "alloc": 4096},
             "ReportLuns": lambda: {"allow": rng.random() < 0.5}, "Rtpg": lambda: {"format": rng.randrange(2)}}.get(name)
        steps.append({"k": "new", "id": i, "name": name, "args": a() if a else rand_discovery(rng, name, lits)})
    for _ in range(2):
        execs = []
        for i in rng.sample(range(n), n):
            a = steps[i]["args"]
            ans = {"seed": rng.randrange(50)}
            if name in ("Inquiry", "ReadCapacity10", "ReadCapacity16", "ReportLuns", "Rtpg", "CopyParameters", "ReceiveDiagnostic", "PersistentReserveIn"):
                ans["bytes"] = answer(rng, name, a)
            execs.append({"k": "exec", "id": i, "ans": ans})
        steps.append(dict(execs[0], nests=execs[1:]))
    return {"k": "hist", "steps": steps, "plat": rng.choice(["linux_ioctl", "solaris", "aix"])}


def c31(run):
    cs = [history(run) for _ in range(run.pick(120, 3000))]
    cs += [overlap(run, name) for name in DISCOVERY + ["PersistentReserveIn", "Inquiry", "ReportLuns"] for _ in range(run.pick(8, 100))]
    run.conform("TraceCdb", "cdb", cs, timeout=800)


TECHNIQUE = "TLA+ request/layout specification, boundary requests from TLC replayed into the code, trace validation with TLC"
NOTE = ("Trusted: the stand-in device at the ioctl (a stub executer for transfers above 2 MiB); the layouts of spec/Cdb.tla, transcribed from SBC-3/SPC-4. "
        "Requests are sampled (all boundaries of every field, random and literal-guided values), not all 2^n.")
CHECKS = {"C14": check(BLOCK, rand_block, 1500, 20000), "C15": check(DISCOVERY, rand_discovery, 1500, 15000), "C16": check(RESERVE, rand_reserve, 1500, 15000),
          "C17": c17, "C31": c31}
