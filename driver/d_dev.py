"""Histories of commands on a block device shared by several initiators."""
import plat
plat.install_gevent()
plat.install_os()
plat.install_aix()
from plat import H, Answer, val
import cmds
from d_dec import tree
from d_cdb import observed
from infi.asi.coroutines.sync_adapter import sync_wait


class Refused(Exception):
    def __init__(self, status, *sense):
        self.status, self.sense = status, sense


def BE(b):
    return int.from_bytes(bytes(b), "big")


CONFLICT = (0x18,)


class Target(object):
    """The device (see Target.tla): blocks, registrations, reservations."""
    def __init__(self, bs, size, n):
        self.bs, self.size, self.n = bs, size, n
        self.blocks = {}
        self.keys = {i: 0 for i in range(1, n + 1)}
        self.holder = self.type = self.gen = self.lock = 0
        self.aptpl = False

    def block(self, lba):
        return self.blocks.get(lba, (lba % (1 << 8 * self.bs)).to_bytes(self.bs, "big"))

    def inside(self, lba, n):
        if lba + n > self.size:
            raise Refused(2, 5, 0x21, 0)

    def put(self, lba, data):
        for i in range(len(data) // self.bs):
            self.blocks[lba + i] = bytes(data[i * self.bs:(i + 1) * self.bs])

    def get(self, lba, n):
        return b"".join(self.block(lba + i) for i in range(n))

    def holds(self, who):
        return self.holder and (bool(self.keys[who]) if self.type in (7, 8) else self.holder == who)

    def media(self, who, write):
        if self.lock not in (0, who):
            raise Refused(*CONFLICT)
        if self.holder and not self.holds(who):
            reg = bool(self.keys[who])
            if {1: write, 3: True, 5: write and not reg, 7: write and not reg, 6: not reg, 8: not reg}[self.type]:
                raise Refused(*CONFLICT)

    def run(self, who, cdb, data):
        """The data the device answers; or Refused."""
        op = cdb[0]
        n = len(cdb)
        if op in (0x08, 0x0a) and n == 6:
            lba, cnt = BE(cdb[1:4]) & 0x1fffff, cdb[4] or 256
        elif op in (0x28, 0x2a, 0x41) and n == 10:
            lba, cnt = BE(cdb[2:6]), BE(cdb[7:9])
        elif op in (0xa8, 0xaa) and n == 12:
            lba, cnt = BE(cdb[2:6]), BE(cdb[6:10])
        elif op in (0x88, 0x8a, 0x93) and n == 16:
            lba, cnt = BE(cdb[2:10]), BE(cdb[10:14])
        elif op == 0x89 and n == 16:
            lba, cnt = BE(cdb[2:10]), cdb[13]
        if op in (0x08, 0x28, 0xa8, 0x88):
            self.media(who, False)
            self.inside(lba, cnt)
            return self.get(lba, cnt)
        if op in (0x0a, 0x2a, 0xaa, 0x8a):
            if len(data) != cnt * self.bs:
                raise Refused(2, 5, 0x20, 0)
            self.media(who, True)
            self.inside(lba, cnt)
            self.put(lba, data)
            return b""
        if op in (0x41, 0x93):
            if len(data) != self.bs or op == 0x93 and cdb[1] & 8:
                raise Refused(2, 5, 0x20, 0)
            self.media(who, True)
            if cnt == 0:
                raise Refused(2, 5, 0x24, 0)
            self.inside(lba, cnt)
            self.put(lba, data * cnt)
            return b""
        if op == 0x89:
            if len(data) != 2 * cnt * self.bs:
                raise Refused(2, 5, 0x20, 0)
            self.media(who, True)
            self.inside(lba, cnt)
            if data[:cnt * self.bs] != self.get(lba, cnt):
                raise Refused(2, 14, 0x1d, 0)
            self.put(lba, data[cnt * self.bs:])
            return b""
        if op == 0x42 and n == 10:
            k = len(data)
            if k < 8 or (k - 8) % 16 or BE(cdb[7:9]) != k or BE(data[:2]) != k - 2 or BE(data[2:4]) != k - 8:
                raise Refused(2, 5, 0x20, 0)
            self.media(who, True)
            rs = [(BE(data[i:i + 8]), BE(data[i + 8:i + 12])) for i in range(8, k, 16)]
            for lba, cnt in rs:
                self.inside(lba, cnt)
            for lba, cnt in rs:
                self.put(lba, bytes(self.bs * cnt))
            return b""
        if op == 0x00 and n == 6:
            return b""
        if op == 0x25 and n == 10:
            return min(self.size - 1, 0xffffffff).to_bytes(4, "big") + self.bs.to_bytes(4, "big")
        if op == 0x9e and n == 16 and cdb[1] & 31 == 16:
            return (self.size - 1).to_bytes(8, "big") + self.bs.to_bytes(4, "big") + bytes(20)
        if (op in (0x16, 0x17) and n == 6) or (op in (0x56, 0x57) and n == 10 and not cdb[1] & 0x12):
            if any(self.keys.values()) or not op & 1 and self.lock not in (0, who):
                raise Refused(*CONFLICT)
            if not op & 1:
                self.lock = who
            elif self.lock == who:
                self.lock = 0
            return b""
        if op == 0x5e and n == 10:
            return self.prin(cdb[1] & 31)
        if op == 0x5f and n == 10:
            return self.prout(who, cdb, data)
        raise Refused(2, 5, 0x20, 0)

    def prin(self, action):
        if self.lock:
            raise Refused(*CONFLICT)
        regs = [i for i in sorted(self.keys) if self.keys[i]]
        sized = lambda b: self.gen.to_bytes(4, "big") + len(b).to_bytes(4, "big") + b
        if action == 0:
            return sized(b"".join(self.keys[i].to_bytes(8, "big") for i in regs))
        if action == 1:
            if not self.holder:
                return sized(b"")
            return sized((0 if self.type in (7, 8) else self.keys[self.holder]).to_bytes(8, "big") + bytes(5) + bytes([self.type, 0, 0]))
        if action == 2:
            return bytes([0, 8, 1, 128 + self.aptpl, 0xea, 1, 0, 0])
        if action == 3:
            return sized(b"".join(self.keys[i].to_bytes(8, "big") + bytes(4) + (bytes([1, self.type]) if self.holds(i) else b"\0\0") + bytes(4)
                                  + b"\0\1" + b"\0\0\0\x18" + self.port(i) for i in regs))
        raise Refused(2, 5, 0x24, 0)

    def port(self, i):
        return bytes(8) + bytes([0x50, 0, 0, 0, 0, 0, 0, i]) + bytes(8)

    def bump(self):
        self.gen = (self.gen + 1) % (1 << 32)

    def remove(self, gone):
        for i in gone:
            self.keys[i] = 0
        if self.holder and (not any(self.keys.values()) if self.type in (7, 8) else self.holder in gone):
            self.holder = self.type = 0

    def prout(self, who, cdb, data):
        action, ty = cdb[1] & 31, cdb[2] & 15
        bad = Refused(2, 5, 0x20, 0)
        if BE(cdb[5:9]) != len(data) or (len(data) < 24 or BE(data[20:24]) != len(data) - 24 if action == 7 else len(data) != 24):
            raise bad
        key, sakey = BE(data[:8]), BE(data[8:16])
        types = (1, 3, 5, 6, 7, 8)
        if self.lock or action == 0 and key != self.keys[who] or action in (1, 2, 3, 4, 5, 7) and (not self.keys[who] or key != self.keys[who]):
            raise Refused(*CONFLICT)
        if action in (0, 6):
            if data[20] & 12:
                raise Refused(2, 5, 0x26, 0)
            if sakey:
                self.keys[who] = sakey
            elif self.keys[who]:
                self.remove([who])
            else:
                return b""
            self.bump()
            self.aptpl = bool(data[20] & 1)
        elif action == 1:
            if ty not in types:
                raise Refused(2, 5, 0x24, 0)
            if not self.holder:
                self.holder, self.type = who, ty
            elif not self.holds(who) or ty != self.type:
                raise Refused(*CONFLICT)
        elif action == 2:
            if self.holds(who):
                if ty != self.type:
                    raise Refused(2, 5, 0x26, 4)
                self.holder = self.type = 0
        elif action == 3:
            self.remove(list(self.keys))
            self.holder = self.type = 0
            self.bump()
        elif action in (4, 5):
            same = [i for i in self.keys if i != who and self.keys[i] == sakey]
            if self.holder and self.type in (7, 8) and not sakey:
                if ty not in types:
                    raise Refused(2, 5, 0x24, 0)
                self.remove([i for i in self.keys if i != who])
                self.holder, self.type = who, ty
            elif not sakey:
                raise Refused(2, 5, 0x26, 0)
            elif self.holder and self.type not in (7, 8) and self.keys[self.holder] == sakey:
                if ty not in types:
                    raise Refused(2, 5, 0x24, 0)
                self.remove(same)
                self.holder, self.type = who, ty
            elif not same and self.keys[who] != sakey:
                raise Refused(*CONFLICT)
            else:
                self.remove(same)
            self.bump()
        elif action == 7:
            if self.holder != who or self.type in (7, 8):
                raise Refused(*CONFLICT)
            tid = bytes(data[24:])
            to = tid[15] if len(tid) == 24 and tid == self.port(tid[15]) else 0
            if not sakey or to not in self.keys or to == who or BE(data[18:20]) != 1:
                raise Refused(2, 5, 0x26, 0)
            self.keys[to] = sakey
            if data[17] & 2:
                self.keys[who] = 0
            self.holder = to
            self.bump()
            self.aptpl = bool(data[17] & 1)
        else:
            raise Refused(2, 5, 0x24, 0)
        return b""


def nat(n):
    return list(n.to_bytes((n.bit_length() + 7) // 8, "big"))


class Initiator(object):
    """One initiator's path to the device: the real executer, and the stand-in OS below it."""
    def __init__(self, history, who, platform):
        self.history, self.who, self.platform = history, who, platform
        self.waiting = []
        self.executer = plat.executer(platform, self)

    def submit(self, req):
        if not plat.SYNC[self.platform]:
            self.waiting.append(req)
            return
        return self.perform(req)

    def read(self):
        req = self.waiting.pop(0)
        return req, self.perform(req)

    def perform(self, req):
        h = self.history
        data = bytes(req.data) if req.way == "out" else b""
        x = {"who": self.who, "cdb": list(req.cdb), "data": list(data), "n": req.dlen, "status": 0, "sense": [], "answer": [], "fault": False}
        h.execs.append(x)
        bad = {"validity": 1} if self.platform.startswith("aix") else {}
        answer = b""
        if h.fault:
            x["fault"], (x["status"], x["sense"]) = True, h.fault
            h.fault = None
        else:
            try:
                answer = h.target.run(self.who, bytes(req.cdb), data)
            except Refused as e:
                x["status"], x["sense"] = e.status, list(e.sense)
        x["answer"] = list(answer)
        if x["status"]:
            s = x["sense"]
            sense = bytes([h.sense[0], 0, s[0], 0, 0, 0, 0, 10, 0, 0, 0, 0, s[1], s[2], 0, 0, 0, 0]) if s else b""
            if s and h.sense[0] in (0x72, 0x73):
                sense = bytes([h.sense[0], s[0], s[1], s[2], 0, 0, 0, 0])
            return Answer(status=x["status"], sense=sense, driver=8 if s and h.sense[1] else 0, **bad)
        if req.way == "out":
            return Answer()
        return Answer(data=answer[:req.dlen])


class History(object):
    def __init__(self, case):
        self.case = case
        H.reset()
        self.target = Target(case["bs"], case["size"], len(case["plats"]))
        self.execs = []
        self.fault = None
        self.sense = case.get("sense", [0x70, 1])
        self.initiators = {}
        for i, p in enumerate(case["plats"]):
            if p == "win32" and any(q == "win32" for q in case["plats"][:i]):
                p = "linux_ioctl"                   # one kernel32, one device
            self.initiators[i + 1] = Initiator(self, i + 1, p)
        self.nests = []
        self.commands = {}
        self.results = []
        H.sleep = self.others
        self.busy = set()

    def others(self, *args):
        """While one greenlet waits for its device another one runs."""
        free = [op for op in self.nests if op["who"] not in self.busy]
        if free and self.execs:
            self.nests.remove(free[0])
            self.perform(free[0])

    def perform(self, op):
        who, name = op["who"], op["name"]
        data = bytes(op["data"]) if "data" in op else None
        it = self.initiators[who]
        o = {"who": who, "name": name, "plat": it.platform, "cc": []}
        args = dict(op["args"])
        a = dict(args)
        if data is not None:
            a["buflen"] = len(data)
        o["a"] = observed(name, a, None, False)
        if data is not None:
            o["a"]["data"] = list(data)
        self.ops.append(o)
        if op.get("fault"):
            self.fault = op["fault"]
        self.busy.add(who)
        key = repr((name, sorted(args.items()), data))
        try:
            command = self.commands.pop(key, None) if op.get("again", True) else None
            if command is None:                     # otherwise a command that was executed before, perhaps by another initiator
                command = cmds.build(name, args, data)
            try:
                r = sync_wait(command.execute(it.executer))
            finally:
                self.commands[key] = command
            o["out"] = tree(r)
            self.results.append((name, r, o["out"]))
        except Exception as e:
            o["out"] = plat.raised(e)
            so = getattr(e, "sense_obj", None)
            if so is not None:
                try:
                    o["cc"] = [str(so.sense_key), so.additional_sense_code.code, so.additional_sense_code.qualifier]
                except Exception:
                    o["cc"] = []
        self.busy.discard(who)

    def run(self):
        events = [{"ev": "start", "bs": self.case["bs"], "size": nat(self.case["size"]), "n": len(self.case["plats"])}]
        for op in self.case["ops"]:
            self.ops, self.execs, self.fault = [], [], None
            H.pass_time()
            self.nests = list(op.get("nests", []))
            self.perform(op)
            while self.nests:                       # nobody had to wait
                self.perform(self.nests.pop(0))
            events.append({"ev": "op", "ops": self.ops, "execs": self.execs})
        events.append({"ev": "end", "changed": [name for name, r, out in self.results if tree(r) != out]})
        return events


def run(case):
    return History(case).run()
