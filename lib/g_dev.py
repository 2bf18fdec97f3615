"""C25, C26: histories of commands on a device, made by several initiators."""
import g_cdb

SYNC = ["linux_ioctl", "solaris", "aix"]
PLATS = ["linux", "linux", "linux_ioctl", "linux_ioctl", "solaris", "aix", "win32"]
ALGO = """SPECIFICATION Spec
CONSTANTS Part = "%s"
 Bs = %d
 Blocks = %d
 N = %d
 Names6 = {%s}
 Depth = %d
 Export = %s
%s
CHECK_DEADLOCK FALSE
"""
SIZES = '"6", "10", "12", "16"'
FAULTS = [[8, []], [0x28, []], [2, [6, 0x29, 0]], [2, [3, 0x11, 0]], [2, [2, 4, 1]], [2, [11, 0x47, 3]], [0x40, []]]
SENSES = [[0x70, 1], [0x70, 0], [0x72, 1], [0x72, 0], [0xf0, 1]]


def plats(rng, n):
    out = [rng.choice(PLATS) for _ in range(n)]
    seen = False
    for i, p in enumerate(out):
        if p == "win32":
            if seen:
                out[i] = "linux_ioctl"
            seen = True
    return out


def data(rng, n):
    k = rng.random()
    if k < 0.25:
        return [rng.choice([0, 0, 255, rng.randrange(256)])] * n
    if k < 0.3 and n > 1:         # all but one byte are zero
        i = rng.choice([0, n - 1, rng.randrange(n)])
        return [0] * i + [rng.randrange(1, 256)] + [0] * (n - 1 - i)
    return [rng.randrange(256) for _ in range(n)]


class Media(object):
    """Random commands on a few blocks, with a rough idea of what they hold."""
    def __init__(self, rng, bs, size):
        self.rng, self.bs, self.size = rng, bs, size
        base = rng.choice([0, 0, size - 6, size - 3, rng.randrange(size), rng.choice(g_cdb.literals()) % size, 1 << rng.randrange(size.bit_length())])
        self.base = max(0, min(base, size - 1) - rng.randrange(3))
        self.content = {}

    def lba(self):
        return self.base + self.rng.choice([0, 0, 1, 1, 2, 3, 4, 5])

    def flags(self, name, a):
        if self.rng.random() < 0.2:
            a.update({k: v for k, v in g_cdb.flags(self.rng, name, 0.3).items() if k not in ("unmap",)})
        if self.bs != 512 or self.rng.random() < 0.5:
            if name != "Unmap":
                a["bs"] = self.bs
        return a

    def size_class(self, lba, n, names):
        ok = [x for x in names if not (x.endswith("6") and not x.endswith("16") and lba >= 1 << 21) and not (x[-2:] in ("10", "12") and lba >= 1 << 32)]
        return self.rng.choice(ok) if ok and self.rng.random() < 0.97 else self.rng.choice(names)

    def block(self, x):
        return self.content.get(x, list((x % (1 << 8 * self.bs)).to_bytes(self.bs, "big")))

    def op(self):
        rng, bs = self.rng, self.bs
        k, lba, n = rng.random(), self.lba(), rng.choice([1, 1, 1, 2, 3, 0])
        if k < 0.35:
            name = self.size_class(lba, n, ["Read6", "Read10", "Read12", "Read16"])
            if name == "Read6" and n == 0 and bs > 64:     # that is 256 blocks
                n = 2
            return {"name": name, "args": self.flags(name, {"lba": lba, "length": n})}
        if k < 0.6:
            name = self.size_class(lba, n, ["Write6", "Write10", "Write12", "Write16"])
            if name == "Write6" and n == 0:
                n = 256 if bs <= 32 else 1
            d = data(rng, n * bs)
            for i in range(n):
                self.content[lba + i] = d[i * bs:(i + 1) * bs]
            return {"name": name, "args": self.flags(name, {"lba": lba}), "data": d}
        if k < 0.72:
            name = self.size_class(lba, n, ["WriteSame10", "WriteSame16"])
            d = data(rng, bs)
            for i in range(n):
                self.content[lba + i] = d
            a = self.flags(name, {"lba": lba})
            if n != 1 or rng.random() < 0.5:
                a["number"] = n
            return {"name": name, "args": a, "data": d}
        if k < 0.85:
            old = sum((self.block(lba + i) for i in range(n)), [])
            if old and rng.random() < 0.25:
                old = list(old)
                old[rng.randrange(len(old))] ^= 1 << rng.randrange(8)
                new = data(rng, n * bs)
            else:
                new = data(rng, n * bs) if rng.random() < 0.8 else list(old)
                for i in range(n):
                    self.content[lba + i] = new[i * bs:(i + 1) * bs]
            return {"name": "CompareAndWrite", "args": self.flags("CompareAndWrite", {"lba": lba, "number": n}), "data": old + new}
        if k < 0.95:
            rs = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                l, c = self.lba(), rng.choice([0, 1, 1, 2, 3])
                rs.append({"lba": l, "count": c})
                for i in range(c):
                    self.content[l + i] = [0] * bs
            return {"name": "Unmap", "args": self.flags("Unmap", {"ranges": rs})}
        return {"name": rng.choice(["ReadCapacity10", "ReadCapacity16", "TestUnitReady"]), "args": {}}


class Keys(object):
    """Random reservation commands, with a rough idea of who holds which key."""
    def __init__(self, rng, n):
        self.rng, self.n = rng, n
        lits = g_cdb.literals()
        self.pool = [g_cdb.number(rng, 64, lits) or 1 for _ in range(rng.choice([2, 3, 4]))]
        self.keys = {i: 0 for i in range(1, n + 1)}
        self.type = rng.choice([1, 3, 5, 6, 7, 8])

    def key(self, who):
        return self.keys[who] if self.rng.random() < 0.85 else self.rng.choice(self.pool + [0])

    def op(self, who):
        rng = self.rng
        k = rng.random()
        if k < 0.3:
            return {"name": "PersistentReserveIn", "args": dict({"action": rng.choice([0, 1, 3, 3, 2])}, **({"alloc": rng.choice([8, 16, 24, 40, 56, 60, 100, 248, 4096])}
                                                                                                       if rng.random() < 0.35 else {}))}
        if k < 0.42:
            name = rng.choice(["Reserve6", "Release6", "Reserve10", "Release10"])
            return {"name": name, "args": {}}
        action = rng.choice([0, 6, 6, 1, 1, 1, 2, 3, 4, 4, 5, 7, 7, 8] if self.keys[who] else [0, 6, 6, 6, 0, 1, 4])
        a = {"action": action, "key": self.key(who)}
        if rng.random() < 0.2:
            self.type = rng.choice([1, 3, 5, 6, 7, 8])
        if action in (1, 2, 4, 5) or rng.random() < 0.2:
            a["type"] = self.type if rng.random() < 0.9 else rng.choice([1, 3, 5, 6, 7, 8, 0, 2, 15])
        if action in (0, 6):
            a["sakey"] = rng.choice(self.pool + [0]) if self.keys[who] else rng.choice(self.pool)
            self.keys[who] = a["sakey"]
            if rng.random() < 0.1:
                a[rng.choice(["all_tg_pt", "spec_i_pt"])] = 1
        elif action in (4, 5):
            a["sakey"] = rng.choice([v for v in self.keys.values()] + self.pool[:1])
            for i in self.keys:
                if i != who and self.keys[i] == a["sakey"]:
                    self.keys[i] = 0
        elif action == 3:
            self.keys = {i: 0 for i in self.keys}
        elif action == 7:
            to = rng.randrange(1, self.n + 1)
            port = [0] * 8 + [0x50, 0, 0, 0, 0, 0, 0, to] + [0] * 8
            if rng.random() < 0.1:
                port[rng.randrange(24)] ^= 1 << rng.randrange(6)
            a.update(sakey=rng.choice(self.pool), unreg=rng.randrange(2), rtpi=1 if rng.random() < 0.95 else rng.randrange(65536),
                     tidprotocol=port[0] & 15, tidformat=port[0] >> 6, tiddata=port[1:])
            self.keys[to] = a["sakey"]
            if a["unreg"]:
                self.keys[who] = 0
        if rng.random() < 0.3:
            a["aptpl"] = rng.randrange(2)
        return {"name": "PersistentReserveOut", "args": a}


def random_history(rng, part, length):
    if part == "media":
        n = rng.choice([1, 1, 2, 3])
        bs = rng.choice([8, 8, 16, 512, 520])
    else:
        n = rng.choice([2, 2, 3, 4])
        bs = 8
    size = rng.choice([6, 64, 1 << 16, (1 << 21) + 2, 1 << 32, (1 << 33) + 3, 1 << 63, (1 << 64) - 1])
    media, keys = Media(rng, bs, size), Keys(rng, n)

    def op():
        who = rng.randrange(1, n + 1)
        if rng.random() < (0.03 if part == "media" else 0.7):
            o = keys.op(who)
        else:
            o = media.op()
        o["who"] = who
        if ops and rng.random() < 0.15:                 # the same once more, by whoever it is
            o = dict({k: v for k, v in rng.choice(ops[-6:]).items() if k not in ("fault", "nests")}, **({"who": who} if rng.random() < 0.3 else {}))
        if rng.random() < 0.3:
            o["again"] = False                          # not the same command object
        if rng.random() < 0.06:
            o["fault"] = rng.choice(FAULTS)
        return o
    ops = []
    while len(ops) < length:
        o = op()
        if rng.random() < 0.2:
            o["nests"] = [op() for _ in range(rng.choice([1, 1, 2]))]
        ops.append(o)
    return {"bs": bs, "size": size, "plats": plats(rng, n), "sense": rng.choice(SENSES), "ops": ops}


def replayable(rng, b):
    """A history the specification made, for the library."""
    ops = []
    for o in b["ops"]:
        a = g_cdb.plain(o["a"]) or {}
        x = {"who": o["who"], "name": o["name"], "args": {k: v for k, v in a.items() if k not in ("data", "buflen")}}
        if "data" in o["a"]:
            x["data"] = o["a"]["data"]
        ops.append(x)
    return {"bs": b["bs"], "size": b["size"], "plats": plats(rng, b["n"]), "sense": rng.choice(SENSES), "ops": ops}


def histories(run, part, num, depth, n, blocks):
    cfg = ALGO % (part, 8, blocks, n, SIZES, depth, "TRUE", "INVARIANT Shown")
    bs = run.behaviours("TargetAlgo", cfg_text=cfg, num=num, depth=depth + 2)
    return [replayable(run.rng, b) for b in bs]


def c25(run):
    for n, names, depth in run.pick([(3, SIZES, 1), (2, '"16"', 2)], [(4, SIZES, 2), (2, '"16"', 3)]):
        run.model("TargetAlgo", cfg_text=ALGO % ("media", 1, n, 1, names, depth, "FALSE", ""), timeout=1500, what="media, %d blocks, depth %d" % (n, depth))
    cs = histories(run, "media", run.pick(60, 600), run.pick(20, 40), 1, 4)
    cs += [random_history(run.rng, "media", run.pick(25, 60)) for _ in range(run.pick(120, 1500))]
    run.conform("TraceTarget", "dev", cs, timeout=800)


def c26(run):
    n = run.pick(2, 3)
    run.model("TargetAlgo", cfg_text=ALGO % ("keys", 1, 2, n, '"10"', 9, "FALSE", "VIEW NoGen"), timeout=3000, what="reservations, %d initiators" % n,
              workers=8)
    cs = histories(run, "all", run.pick(100, 1000), run.pick(25, 50), 3, 2)
    cs += [random_history(run.rng, "keys", run.pick(30, 80)) for _ in range(run.pick(120, 1500))]
    run.conform("TraceTarget", "dev", cs, timeout=800)


TECHNIQUE = "TLA+ model of a shared block device with reservations, checked with TLC; histories from TLC replayed into the code, trace validation with TLC"
NOTE = ("Trusted: the stand-in device, which the specification checks step by step; the stand-in OS. Histories are sampled; the device model is checked "
        "exhaustively within small bounds only.")
CHECKS = {"C25": c25, "C26": c26}
