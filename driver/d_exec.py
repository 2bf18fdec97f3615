"""Replays scenarios of Executer on the real executers."""
import ctypes
import plat
plat.install_gevent()
plat.install_os()
plat.install_aix()
from plat import H, Answer, val
import infi.asi
from infi.asi import SCSIReadCommand, SCSIWriteCommand
from infi.asi.coroutines.sync_adapter import sync_wait, AsyncCoroutine
from infi.asi.errors import AsiSCSIError


# what went wrong does not matter to who is told
SENSES = [(5, 0x2400), (6, 0x2900), (2, 0x0401), (0, 0), (11, 0x4400), (6, 0x3f0e), (1, 0x1700), (3, 0x1100), (7, 0x2700), (14, 0x1d00), (4, 0x4400), (6, 0x2a01),
          (2, 0x3a00), (5, 0x2500), (11, 0x0000), (9, 0x8001), (13, 0x0000), (8, 0x0005), (6, 0x2800), (15, 0xffff), (10, 0x0000), (12, 0x0000)]
ROGUE_SENSE = ctypes.create_string_buffer(b"\x70\0\6" + bytes(15), 256)


def number(e, made=[0]):
    """Which exception object this is; 0: none."""
    if e is None:
        return 0
    if "_verif_number" not in e.__dict__:
        made[0] += 1
        e._verif_number = made[0]
    return e._verif_number


class CallbackError(Exception):
    pass


# what a callback raises; a StopIteration could not leave a generator as what it is
RAISES = [CallbackError, TypeError, AttributeError, IndexError, KeyError, AssertionError, OSError, infi.asi.AsiException, ValueError, AsiSCSIError]


class Interrupt(BaseException):
    """Like gevent.Timeout or KeyboardInterrupt."""


class Falsy(object):
    """A callback that is false."""
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def __len__(self):
        return 0


class Scenario(object):
    def __init__(self, case):
        self.case = case
        self.events = []
        s = case["script"]
        self.ops = [x for x in s if x["c"] in ("op", "go")]
        self.subs = [x for x in s if x["c"] == "sub"]
        self.nests = [x for x in s if x["c"] == "nest"]
        self.reads = [x for x in s if x["c"] == "read"]
        self.dev = []
        self.nreq = 0
        self.budget = 100 + self.case.get("limit", 300)
        self.peer = None
        self.sync = plat.SYNC[case["plat"]]
        self.hard = case.get("hard", False)
        self.kind_of, self.kinds = {}, {}
        self.live = True
        self.collect = case.get("collect", False)
        # Windows: coroutines that are suspended while their requests are with the operating system
        self.coroutines = case["plat"] == "win32_async"
        self.threads, self.current, self.later = {}, 0, False

    def emit(self, **kw):
        if len(self.events) > 4000:
            raise AssertionError("too many events")
        self.events.append(kw)

    # -- the device ----------------------------------------------------------------
    def hand(self, req):
        """Windows: is this request answered later? Another coroutine runs meanwhile."""
        r = req.cdb[2] << 8 | req.cdb[3]
        later, self.later = self.later, False
        if not later or self.subs and not self.subs[0]["ok"]:      # decided at once
            return False
        self.emit(ev="hand", id=self.peek_id(r), req=r)
        return True

    def submit(self, req):
        r = (req.cdb[2] << 8 | req.cdb[3]) if len(req.cdb) >= 6 and req.cdb[0] == 0xC7 else -1
        pid = req.id
        if pid is None:       # the platform does not show it to the OS: the real executer's own table does
            pid = self.peek_id(r)
        x = self.subs.pop(0) if self.subs else {"ok": True, "out": "ok"}
        if not x["ok"]:
            self.emit(ev="submitfail", id=pid, req=r, out=self.refusal())
            raise Interrupt() if self.hard else OSError(5, "refused")
        n = req.dlen if req.way == "in" else 0
        data = bytes([(r * 7 + 3 * i + self.case.get("salt", 0)) % 251 for i in range(n)])
        a, want = self.answer(x["out"], r, n, data)
        self.emit(ev="submit", id=pid, req=r, out=want)
        self.kinds[pid] = self.kind_of.get(r)
        if self.sync:
            return a
        self.dev.append((r, req, a, want))

    def freed(self, req):
        self.emit(ev="memory of a pending request was given up")

    def peek_id(self, r):
        return self.ids.setdefault(r, 1000 + len(self.ids))

    ids = None

    def refusal(self):
        p = self.case["plat"]
        if self.hard:
            return {"t": "x", "v": ["Interrupt"]}
        return {"t": "x", "v": ["AsiOSError" if p in ("win32", "win32_async", "aix", "aix_libc") else "OSError"]}

    def answer(self, kind, r, n, data):
        key, asc = SENSES[(r + self.case.get("salt", 0)) % len(SENSES)]
        sense = bytes([0x70, 0, key, 0, 0, 0, 0, 10, 0, 0, 0, 0, asc >> 8, asc & 255, 0, 0, 0, r % 256])
        if (r + self.case.get("salt", 0)) % 5 == 3:
            sense = bytes([0x72, key, asc >> 8, asc & 255, 0, 0, 0, 0])
        bad = {"validity": 1} if self.case["plat"].startswith("aix") else {}
        if kind == "err":
            return Answer(status=8, **bad), {"t": "x", "v": ["AsiSCSIError"]}
        if kind == "cc":
            return Answer(status=2, sense=sense, driver=8 if r % 2 else 0, **bad), {"t": "x", "v": ["AsiCheckConditionError"]}
        if kind == "conflict":
            return Answer(status=0x18, **bad), {"t": "x", "v": ["AsiReservationConflictError" if self.case["plat"].startswith("linux")
                                                               else "AsiSCSIError"]}
        if kind == "ccbad":         # sense data that makes no sense
            return Answer(status=2, sense=bytes([[0x72, 0x73, 0x70, 0x7f, 0][r % 5]] + [(r * 31 + 7 * i) % 256 for i in range(40)]), **bad), \
                {"t": "x", "v": ["AsiCheckConditionError"]}
        if kind == "aborted":
            return Answer(status=0x40, **bad), {"t": "x", "v": ["AsiSCSIError"]}
        if self.case["plat"].startswith("linux"):
            if kind == "host":
                return Answer(host=3), {"t": "x", "v": ["AsiSCSIError"]}
            if kind == "driver":
                return Answer(driver=6), {"t": "x", "v": ["AsiSCSIError"]}
            if kind == "full":      # the device's own queue is full
                return Answer(status=0x28, host=7), {"t": "x", "v": ["AsiRequestQueueFullError"]}
        if kind != "ok":
            return Answer(status=0x28, **bad), {"t": "x", "v": ["AsiSCSIError"]}
        if n:
            return Answer(data=data), {"t": "b", "v": list(data)}
        return Answer(), {"t": "z", "v": []}

    def read(self):
        self.budget -= 1
        if self.budget < 0:
            raise OSError(11, "budget")
        x = self.reads.pop(0) if self.reads else {"req": 0}
        if x["req"] == -2:
            self.emit(ev="readfail", out={"t": "x", "v": ["Interrupt" if self.hard else "OSError"]})
            raise Interrupt() if self.hard else OSError(5, "read failed")
        if x["req"] == -1 or not self.dev:
            free = [i for i in range(900, 1000) if all(d[1].id != i for d in self.dev)][0]
            raw = bytearray(88)
            raw[0] = 83
            raw[48:52] = free.to_bytes(4, "little")
            if self.case.get("rogue_status"):
                raw[64] = self.case["rogue_status"]
            raw[32:40] = ctypes.addressof(ROGUE_SENSE).to_bytes(8, "little")
            self.emit(ev="read", id=free, out={"t": "z", "v": []})
            return bytes(raw)
        k = 0
        if x["req"] > 0:
            hit = [i for i, d in enumerate(self.dev) if d[0] == x["req"]]
            k = hit[0] if hit else x["req"] % len(self.dev)
        elif x["req"] < -10:
            k = (-x["req"]) % len(self.dev)
        r, req, a, want = self.dev.pop(k)
        self.emit(ev="read", id=req.id, out=want)
        return req, a

    # -- the user -----------------------------------------------------------------------
    def sleep(self, *args):
        """Another greenlet runs and may do something when this one has just submitted a request or delivered an answer;
        this one may be interrupted meanwhile."""
        if not self.live or not self.events:
            return
        last = self.events[-1]
        settled = last["ev"] in ("submit", "cbret") or last["ev"] == "read" and self.kinds.get(last["id"]) in ("none", "call")
        if settled and not (self.nests and self.nests[0]["op"] == "int"):
            self.nested(True)
        elif last["ev"] != "ret" and self.nests and self.nests[0]["op"] == "int":
            self.nests.pop(0)
            self.emit(ev="interrupt", out={"t": "x", "v": ["Interrupt"]})
            raise Interrupt()

    def nested(self, greenlet):
        if self.nests:
            x = self.nests.pop(0)
            if x["op"] == "peer":
                if self.peer is not None and self.peer.ops:
                    self.peer.step()
            elif x["op"] not in ("-", "int"):
                self.operate(self.possible(x["op"]), x["kind"])

    def possible(self, op):
        """wait() has nothing to wait for while a request is on its way."""
        return "full" if op == "wait" and self.threads else op

    def command(self, r):
        k = self.case.get("kinds", [0])
        k = k[r % len(k)]
        cdb = bytes([0xC7, 1, r >> 8, r & 255, 0, 0] + [r % 256] * (4 if k % 2 else 10))
        if k in (0, 1):
            return SCSIReadCommand(cdb, 4 + r % 5)
        if k == 2:
            return SCSIReadCommand(cdb, 0)
        return SCSIWriteCommand(cdb, bytes([r % 256] * (r % 3 * 8)))

    def malformed(self, r):
        return [SCSIReadCommand(None, 4), SCSIWriteCommand(bytes([0xC7, 1, r >> 8, r & 255, 0, 0]), None)][r % 2]

    def callback(self, r, kind):
        def cb(*args):
            if len(args) != 2:
                self.emit(ev="callback called with %d arguments" % len(args))
            data, exception = args if len(args) == 2 else (None, None)
            out = plat.raised(exception) if exception is not None else val(data)
            if exception is not None and data is not None:
                out = {"t": "u", "v": []}
            self.emit(ev="cb", req=r, out=out, obj=number(exception))
            res = None
            try:
                if kind == "nest":
                    self.nested(False)
                if kind == "raise":
                    raise Interrupt() if self.hard else RAISES[r % len(RAISES)](r)
            except BaseException as e:
                res = e
                raise
            finally:
                self.emit(ev="cbret", req=r, out=plat.raised(res) if res is not None else val(None))
        return Falsy(cb) if r % 2 else cb

    def operate(self, op, kind):
        saved, H.sleep = H.sleep, self.sleep
        try:
            self.operation(op, kind)
        finally:
            H.sleep = saved

    def operation(self, op, kind):
        self.nreq += 1
        r = self.nreq
        if self.nreq > self.case.get("limit", 300):
            return
        x = self.executer
        obj = 0
        self.emit(ev="op", op=op, req=r, cb=kind if kind in ("none", "bad") else "cb")
        self.kind_of[r] = "call" if op == "call" else kind
        if self.later:
            c = self.command(r) if kind != "bad" else self.malformed(r)
            g = x.call(c) if op == "call" else x.send(c) if kind == "none" else x.send(c, self.callback(r, kind))
            return self.progress(AsyncCoroutine(g), op, r)
        try:
            if op == "full":
                out = val(x.is_queue_full())
            elif op == "wait":
                out = val(sync_wait(x.wait()))
            elif op == "call":
                out = val(sync_wait(x.call(self.command(r) if kind != "bad" else self.malformed(r))))
            elif kind == "bad":
                sync_wait(x.send(self.malformed(r), self.callback(r, kind)))
                out = val(None)
            elif kind == "none":
                sync_wait(x.send(self.command(r)))
                out = val(None)
            else:
                sync_wait(x.send(self.command(r), self.callback(r, kind)))
                out = val(None)
        except BaseException as e:
            plat.unless_watchdog(e)
            out = plat.raised(e)
            obj = number(e)
        if op == "wait" and out["t"] != "x":
            out = val(None)
        self.emit(ev="ret", op=op, req=r, out=out, obj=obj)

    def start(self):
        self.ids = {}
        self.executer = plat.executer(self.case["plat"], self, max_queue_size=self.case["max"])
        self.emit(ev="reset", max=self.case["max"], sync=self.sync, plat=self.case["plat"])

    def step(self):
        x = self.ops.pop(0)
        H.pass_time()
        if not self.coroutines:
            self.operate(x["op"], x["kind"])
        elif x["c"] == "go":
            if x["th"] in self.threads:
                self.resume(x["th"], x)
        else:
            if x["th"] in self.threads:
                self.resume(x["th"], {"ok": True, "out": "ok"})
            self.switch(x["th"])
            self.later = x["op"] in ("send", "call")
            self.operate(self.possible(x["op"]), x["kind"])
            self.later = False

    def switch(self, th):
        if th != self.current:
            self.emit(ev="switch", th=th)
            self.current = th

    def resume(self, th, x):
        self.switch(th)
        if x["out"] != "next":
            self.subs.insert(0, x)
        saved, H.sleep = H.sleep, self.sleep
        try:
            c, op, r = self.threads.pop(th)
            c.async_io_complete()
            self.progress(c, op, r)
        finally:
            H.sleep = saved

    def progress(self, c, op, r):
        obj = 0
        try:
            c.loop()
            if not c.is_done():
                self.threads[self.current] = (c, op, r)
                return
            out = val(c.get_result()) if op == "call" else val(None)
        except BaseException as e:
            plat.unless_watchdog(e)
            out = plat.raised(e)
            obj = number(e)
        self.emit(ev="ret", op=op, req=r, out=out, obj=obj)

    def finish(self):
        """What is left must be drained by wait()."""
        for th in sorted(self.threads):
            self.resume(th, {"ok": True, "out": "ok"})
        self.subs, self.nests, self.reads, self.live = [], [], [], False
        for i in range(self.nreq + 2):
            self.operate("wait", "cb")
            if self.events[-1]["out"]["t"] != "x":
                break
        self.emit(ev="end")


def run(case):
    """One executer, or two (of two devices) in one process, each used at its own pace: neither may notice the other."""
    H.reset()
    both = [Scenario(c) for c in [case] + case.get("peers", [])]
    for s in both:
        s.start()
        s.peer = [x for x in both if x is not s][0] if len(both) > 1 else None
    order = list(case.get("order", []))
    while any(s.ops for s in both):
        s = both[(order.pop(0) if order else 0) % len(both)]
        if not s.ops:
            s = [x for x in both if x.ops][0]
        s.step()
    for s in both:
        s.finish()
    return [e for s in both for e in s.events]
