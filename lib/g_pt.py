"""C08-C13: single commands at the operating systems' pass-through interfaces, and sense data."""
import os
import core
from g_cdb import seed

LINUX = ("linux", "linux_ioctl")
OTHER = ("win32", "solaris", "aix", "aix_libc")
CDBMAX = {"linux": 255, "linux_ioctl": 255, "solaris": 255, "aix": 64, "aix_libc": 64, "win32": 16}
CFG = """SPECIFICATION Spec
CONSTANTS Platforms = {%(plats)s}
 Statuses = %(st)s
 Drivers = %(dr)s
 Hosts = %(ho)s
 Reasons = %(re)s
 Rqs = %(rq)s
 Validities = %(va)s
 Export = %(ex)s
INVARIANTS AlwaysAllowed NeverSwallowed GoodIsGood Decisive Shown
CHECK_DEADLOCK FALSE
"""
ENV = {"ASC": os.path.join(core.SPEC, "asc.json")}
DRIVERS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xf, 0x10, 0x18, 0x20, 0x26, 0x28, 0x30, 0x40, 0x48, 0x80, 0x88, 0xf0, 0xff]
HOSTS = list(range(16)) + [0x20, 0x80, 0x100, 0x700, 0xffff]
STATUSES = [0, 1, 2, 3, 4, 8, 0x10, 0x14, 0x18, 0x19, 0x1a, 0x1c, 0x20, 0x22, 0x28, 0x30, 0x38, 0x40, 0x42, 0x58, 0x80, 0x82, 0x98, 0xfe, 0xff]


def cfg(plats, full, export=False):
    s = lambda l: "{%s}" % ",".join(str(x) for x in l)
    return CFG % dict(plats=",".join('"%s"' % p for p in plats), st=s(range(256)) if full else s(STATUSES),
                      dr=s(range(256)) if full == "all" else s(DRIVERS), ho=s(HOSTS) if full == "all" else "{0,1,3,7,8}",
                      re=s(range(256)) if full else "{0,1,2,5,255}", rq="{0,2,255}", va="{0,1,2,3,4,128,255}", ex=str(export).upper())


def senses(rng, n):
    """Sense data of every format: fixed, descriptor, vendor, truncated, malformed."""
    out = []
    for code in range(256):
        out.append([code] + [rng.randrange(256) for _ in range(17)])
    for key in range(256):
        out.append([rng.choice([0x70, 0x71, 0xf0, 0xf1]), 0, key] + [0] * 15)
        out.append([rng.choice([0x72, 0x73]), key, rng.randrange(256), rng.randrange(256), 0, 0, 0, 0])
    for i in range(18):
        for v in (1, 2, 4, 8, 16, 32, 64, 128, 255):
            b = [0x70] + [0] * 17
            if i:
                b[i] = v
            out.append(b)
    while len(out) < n:
        k = rng.random()
        if k < 0.3:
            b = [rng.choice([0x70, 0x71, 0xf0, 0xf1])] + [rng.choice([0, 0xff, rng.randrange(256)]) for _ in range(rng.choice([17, 17, 17, 30, 100, 251, rng.randrange(252)]))]
        elif k < 0.85:
            d = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                t = rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 9, 0x80, 0xff])
                n0 = 10 if t == 0 else rng.choice([0, 2, 6, 6, 10, 12, 30])
                d += [t, n0] + [rng.randrange(256) for _ in range(n0)]
            d = d[:244]
            ln = len(d)
            if rng.random() < 0.15:
                ln = rng.choice([0, ln + 1, max(0, ln - 1), 255, rng.randrange(256)])
            b = [rng.choice([0x72, 0x73, 0xf2]), rng.randrange(256), rng.randrange(256), rng.randrange(256), 0, 0, rng.randrange(256), ln & 255] + d
            if rng.random() < 0.3:
                b += [rng.randrange(256) for _ in range(rng.randrange(max(1, 252 - len(b))))]
        else:
            b = [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 7, 8, 9, 14, 18, 32, 252]))]
        out.append(b[:252])
    return out


def lens(rng):
    return rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 18, 24, 31, 32, 36, 63, 64, 65, 96, 127, 128, 252, 254, 255, 256, 257, 260, 511, 512, 513,
                       rng.randrange(700), rng.randrange(700), 1024, 4096, 65535, 65536, 65537, 131072, 1 << 20])


def xchg(rng, p, ans, way=None, n=None, cdblen=None):
    way = way or rng.choice(["in", "in", "out"])
    n = lens(rng) if n is None else n
    k = cdblen if cdblen is not None else rng.choice([6, 6, 10, 10, 12, 16, 16])
    style = rng.random()
    cdb = [rng.randrange(256) for _ in range(k)]
    if style < 0.1:
        cdb = [0] * k
    elif style < 0.2:
        cdb = [0xff] * k
    elif style < 0.3 and k:
        cdb[-1] = 0
    return {"cdb": cdb, "way": way, "len": n, "seed": seed(rng), "ans": ans}


def shade(rng, a):
    """What Linux reports besides the statuses: how long it took, whether it was direct I/O, what was not transferred."""
    if rng.random() < 0.6:
        a["noise"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 30000, rng.randrange(40000)])
    if rng.random() < 0.5:
        a["info"] = rng.choice([0, 1, 2, 4, 5, 6, 7, 8])
    if rng.random() < 0.5:
        a["tell"] = True        # what is left of a partial transfer
    return a


def answers(rng, p, sense_pool):
    """A random answer, mostly one of the interesting ones."""
    a = {"seed": seed(rng)}
    k = rng.random()
    if k < 0.35:
        pass
    elif k < 0.6:
        a["status"] = 2
        a["sense"] = rng.choice(sense_pool)
    else:
        a["status"] = rng.choice(STATUSES)
        if rng.random() < 0.3:
            a["sense"] = rng.choice(sense_pool)
    if p in LINUX:
        if rng.random() < 0.3:
            a["driver"] = rng.choice(DRIVERS)
            if a["driver"] & 8:
                a["sense"] = rng.choice(sense_pool)
        if rng.random() < 0.2:
            a["host"] = rng.choice(HOSTS)
        shade(rng, a)
    elif p == "solaris":
        if rng.random() < 0.2:
            a["reason"] = rng.choice([1, 2, 3, 4, 5, 0x7f, 0x80, 0xff])
        if rng.random() < 0.1:
            a["rqstatus"] = rng.choice([2, 8, 255])
    elif p.startswith("aix"):
        if a.get("status", 0) or rng.random() < 0.1:
            a["validity"] = rng.choice([1, 1, 1, 1, 2, 3, 255])
            if rng.random() < 0.3:
                a["fails"] = True
        elif rng.random() < 0.15:
            a["fails"] = True
            a["einval"] = rng.choice([0, 1, 2, 13, 24, 99, 300])
        a["adapter"] = rng.choice([0, 0, 1, 2, 16, 255])
    if not p.startswith("aix") and rng.random() < 0.06:
        a["fails"] = True
        a["errno"] = rng.choice([1, 5, 6, 11, 12, 16, 19, 22, 110])
    if rng.random() < 0.3:
        a["got"] = rng.choice([0, 1, 4, 8, 16, 36, 100, 255, 256, 512])
    return a


def partial(x):
    """Partial transfers are only looked at byte by byte."""
    if x["len"] > 700 or x["way"] == "out":
        x["ans"].pop("got", None)
    return x


def group(rng, p, xs, k=12):
    for i in range(0, len(xs), k):
        yield {"k": "xchg", "plat": p, "xs": xs[i:i + k], "max": rng.choice([None, None, 1, 2, 15])}


def classify(run, plats, prop):
    rng = run.rng
    pool = senses(rng, 2000)
    run.assumptions += ["the operating systems' structures and status codes are those of driver/plat.py",
                        "statuses that no operating system reports together (for example CHECK CONDITION bits in reserved status codes) may be any SCSI error"]
    run.model("PassThroughAlgo", cfg_text=cfg(plats, "all" if not run.quick and prop == "C08" else True), what="every status, " + ", ".join(plats), workers=core.CORES, timeout=3000)
    behs = run.behaviours("PassThroughAlgo", cfg_text=cfg(plats, False, True), exhaustive=True)
    cases = []
    by = {}
    for b in behs:
        a = {k: v for k, v in b["ans"].items() if v}
        if a.get("status") == 2 or a.get("driver", 0) & 8:
            a["sense"] = rng.choice(pool)
        by.setdefault(b["plat"], []).append(partial(xchg(rng, b["plat"], dict(a, seed=seed(rng)), n=rng.choice([0, 4, 8, 36, 255]))))
    for p, xs in by.items():
        if run.quick:
            xs = rng.sample(xs, min(len(xs), 1500))
        cases += group(rng, p, xs)
    # every status exhaustively, a field at a time
    for p in plats:
        ctx = {"linux": [("status", {"driver": d, "host": h}) for d in (DRIVERS if run.quick else range(256)) for h in (HOSTS[:12] if run.quick else HOSTS)] +
                        [("driver", {"status": s, "host": h}) for s in STATUSES for h in (0, 1, 7)] + [("host", {"driver": d}) for d in (0, 6, 8, 0x10)] +
                        [("host", {"status": s, "driver": d}) for s in STATUSES if s for d in (0, rng.choice([1, 6, 7]))],
               "solaris": [("status", {"reason": r, "rqstatus": q}) for r in (0, 1, 2, 5, 0x80, 0xff) for q in (0, 2)] + [("reason", {"status": s}) for s in STATUSES],
               "aix": [("status", {"validity": v, "fails": f}) for v in (0, 1, 2, 3, 255) for f in (False, True)] +
                      [("validity", {"status": s}) for s in STATUSES] + [("einval", {"fails": True})],
               "win32": [("status", {"fails": f}) for f in (False, True)]}["linux" if p in LINUX else "aix" if p.startswith("aix") else p]
        if p == "linux_ioctl" and run.quick:
            ctx = ctx[::6]
        for f, a in ctx:
            vals = list(range(256)) if f != "host" else list(range(0, 300)) + [0x700, 0x7fff, 0x8000, 0xffff]
            if f == "einval":
                vals = list(range(1, 40)) + [255, 256, 65535]
            a = dict({k: v for k, v in a.items() if v}, sense=rng.choice(pool))
            if p in LINUX:
                shade(rng, a)
            x = xchg(rng, p, a, way="in", n=rng.choice([4, 4, 0]))
            cases.append({"k": "sweep", "plat": p, "x": x, "field": f, "values": vals})
    # histories of commands on one executer
    for p in plats:
        xs = [partial(xchg(rng, p, answers(rng, p, pool))) for _ in range(run.pick(1500, 20000))]
        cases += group(rng, p, xs, rng.choice([5, 20, 40]))
    run.conform("TracePassThrough", "pt", cases, env=ENV, timeout=2000)


def marshal(run, plats):
    rng = run.rng
    pool = senses(rng, 1000)
    run.assumptions += ["the structures' layouts are those of driver/plat.py (sg_io_hdr v3, 64-bit uscsi_cmd, 64-bit sc_passthru, SCSI_PASS_THROUGH_DIRECT)",
                        "commands have 1 to 255 bytes (64 on AIX, 16 on Windows)"]
    run.model("PassThroughAlgo", cfg_text=cfg(plats, False), what="answers", workers=core.CORES)
    cases = []
    for p in plats:
        xs = []
        sizes = list(range(0, 40 if run.quick else 300)) + [2 ** k + d for k in range(5, 21) for d in (-1, 0, 1)] + [1 << 22, (1 << 23) + 512] + ([] if run.quick else [1 << 24, (1 << 24) + 1, (1 << 26) + 3])
        for n in sizes:
            for way in ("in", "out"):
                xs.append(xchg(rng, p, {"seed": n}, way=way, n=n))
        for k in range(0 if p != "win32" else 1, min(CDBMAX[p], 255) + 1):
            xs.append(xchg(rng, p, {"seed": k}, cdblen=max(k, 1)))
        if p == "win32":
            for k in (17, 18, 32, 60, 255):
                xs.append(xchg(rng, p, {"seed": k}, cdblen=k))
        for op in range(256):
            x = xchg(rng, p, {"seed": op})
            x["cdb"][0] = op
            xs.append(x)
        for b in range(256):      # constant data, data with zeros at either end
            xs.append(dict(xchg(rng, p, {}, way="out", n=8), data=[b] * 8))
        for d in ([0], [0, 0], [1, 0], [0, 1], [0] * 16, list(b"abc\0\0"), list(b"\0abc"), [255] * 5):
            xs.append(dict(xchg(rng, p, {}, way="out", n=len(d)), data=d))
        for _ in range(run.pick(1500, 20000)):
            xs.append(partial(xchg(rng, p, answers(rng, p, pool))))
        rng.shuffle(xs)
        cases += group(rng, p, xs, 20)
        for t in [1, 2, 9, 10, 30, 59, 60, 127, 128, 255, 256, 1000, 3000, 9999, 29999, 30000, 30001, 32767] + \
                 ([65535, 65536, 120000, 3600000, 2 ** 24 + 1, 2 ** 31 - 1] if p != "solaris" else []):
            cases.append({"k": "xchg", "plat": p, "timeout": t, "xs": [xchg(rng, p, {}) for _ in range(3)]})
            for first in (True, False) if p != "win32" else ():
                cases.append({"k": "xchg", "plat": p, "timeout": rng.choice([None, t]), "other": {"timeout": t - 1 or 2, "first": first},
                              "xs": [xchg(rng, p, {}) for _ in range(2)]})
    run.conform("TracePassThrough", "pt", cases, env=ENV, timeout=2000)


def sense(run):
    rng = run.rng
    bufs = senses(rng, run.pick(9000, 80000))
    run.model("PassThroughAlgo", cfg_text=cfg(LINUX + OTHER, False), what="answers", workers=core.CORES)
    run.assumptions += ["a malformed descriptor list may leave the sense data undecoded, or its key and additional sense code decoded"]
    cases = []
    plats = LINUX + OTHER
    for i, p in enumerate(plats):
        xs = []
        for b in bufs[i::6]:
            x = xchg(rng, p, {"status": 2, "sense": b}, n=rng.choice([0, 8]))
            if p.startswith("aix"):
                x["ans"]["validity"] = 1
            if p in LINUX and rng.random() < 0.2:
                x["ans"].update(status=0, driver=8)
            xs.append(x)
        cases += group(rng, p, xs, 30)
    # decoding by itself: buffers of 18 bytes and more
    long = [b + [0] * (252 - len(b)) for b in bufs]
    cases += [{"k": "sense", "bufs": long[i:i + 50]} for i in range(0, len(long) // run.pick(3, 1), 50)]
    fixed = [b for b in bufs if len(b) >= 18 and b[0] & 0x7f in (0x70, 0x71)]
    cases += [{"k": "sense", "bufs": fixed[i:i + 50]} for i in range(0, len(fixed), 50)]
    run.conform("TracePassThrough", "pt", cases, env=ENV, timeout=2000)


def names(run):
    run.model("PassThroughAlgo", cfg_text=cfg(LINUX, False), what="answers", workers=core.CORES)
    run.assumptions += ["spec/asc.json is the T10 list (it was taken from the library's own table after review)"]
    cases = [{"k": "names", "code": c, "how": h} for c in range(256) for h in ("fixed", "descriptor", "direct")]
    run.conform("TracePassThrough", "pt", cases, env=ENV, timeout=2000)
    run.extra["pairs"] = 65536


CHECKS = {"C08": lambda run: classify(run, LINUX, "C08"), "C09": lambda run: classify(run, OTHER, "C09"),
          "C10": lambda run: marshal(run, LINUX), "C11": lambda run: marshal(run, OTHER), "C12": sense, "C13": names}
TECHNIQUE = "TLA+ contract of the pass-through interfaces and of sense data; the decision procedures refine it (TLC, every answer); its answers replayed on the real executers, exchanges validated"
NOTE = ("Every SCSI status with every interesting driver/host/reason/validity code; every command size and boundary transfer lengths; sampled sense data of every format. "
        "Trusts the structure layouts of driver/plat.py and the golden T10 table.")
