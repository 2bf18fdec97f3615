"""Runs programs of Coroutine on the real coroutines: each body becomes the source of generator functions."""
import struct
import threading
import plat
plat.install_gevent()
plat.install_os()
from plat import H, val, addr, number, peek, poke
import infi.asi
from infi.asi import OSAsyncIOToken
from infi.asi.coroutines import sync_adapter
win32 = plat.import_win32()


class E(Exception):
    pass


class B(BaseException):
    pass


class Empty(Exception):
    """An exception that is false, and equal to any other."""
    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, BaseException)

    __hash__ = Exception.__hash__


class Nothing(BaseException):
    def __bool__(self):
        return False
    __nonzero__ = __bool__


class NotComplete(Exception):
    pass


CLS = {"E": [E, KeyError, ValueError, infi.asi.AsiException, OSError, Empty], "B": [B, KeyboardInterrupt, SystemExit, Nothing]}


class Token(OSAsyncIOToken):
    """An I/O whose outcome is known only once it has completed."""
    def __init__(self, w, s):
        self.w, self.s = w, s
        self.event = w.new_event(s["n"])

    def get_result(self, block=False):
        n = self.s["n"]
        if n not in self.w.complete:
            if not block:
                raise NotComplete()
            self.w.completes(n)
        self.w.asked.append(n)
        if self.w.asked.count(n) > 1:
            self.w.emit(ev="I/O result taken twice")
        if not self.s["ok"]:
            raise self.w.exception(n, E)
        if "as" in self.s:
            return self.w.thing(self.s["as"], self.s["v"], RESULTS)
        return None if self.s["v"] < 0 else self.s["v"]


class Sends(object):
    """A value that can send(), like a socket."""
    def send(self, x):
        raise AssertionError("sent something")


def gen():
    yield 1


# plain values of all kinds, each call makes another one
THINGS = [lambda: iter([4, 5]), lambda: [], lambda: {}, lambda: bytearray(), lambda: map(int, "12"), Sends, lambda: (x for x in ()).__next__,
          lambda: [gen()], lambda: lambda: gen(), lambda: type("Failure", (Exception,), {}), lambda: frozenset([Sends()]), lambda: type("Token", (OSAsyncIOToken,), {}),
          lambda: bytearray(b"x") * 3, lambda: type("No", (object,), {"__bool__": lambda self: False, "__nonzero__": lambda self: False})()]


# and what an I/O can result in: that is handed over as it is
RESULTS = THINGS + [gen, gen, OSAsyncIOToken, gen]


class World(object):
    last_event = 0x5000

    def __init__(self, case):
        self.things = []           # (value, its number)
        self.case = case
        self.events = []
        self.live = True
        self.complete = set()
        self.asked = []
        self.exc = {}
        self.handles = {}          # event handle -> token number
        self.free, self.before = [], World.last_event
        self.io = {}               # token number -> statement
        self.overlapped = {}       # address of the OVERLAPPED -> token number
        self.picks = list(case.get("picks", []))
        self.order = list(case.get("order", []))
        self.mode = case["mode"]
        self.sub = 0
        self.waits = 0
        self.turn = None           # lets another program go on
        self.within = {}           # body -> its statements

    def emit(self, **kw):
        if self.live:
            if len(self.events) > 5000:
                raise AssertionError("too many events")
            self.events.append(kw)
        if self.turn:
            self.turn()

    def new_event(self, n):
        if self.free:
            h = self.free.pop()         # like Windows, use a closed handle's number again
        else:
            World.last_event = h = World.last_event + 4
        self.handles[h] = n
        return h

    def close_handle(self, h):
        if number(h) <= self.before:    # of an I/O that an earlier program abandoned
            return 0
        n = self.handles.pop(number(h), None)
        if n is None:
            self.emit(ev="closed", n=-1)
            H.last_error = 6
            return 0
        self.free.append(number(h))
        self.emit(ev="closed", n=n)
        return 1

    def completes(self, n):
        if n not in self.complete:
            self.complete.add(n)
            self.emit(ev="complete", n=n)

    # -- what programs call ------------------------------------------------------------
    def eff(self, c, n):
        self.emit(ev="eff", c=c, n=n, out=val(None), exc=0)

    def got(self, c, n, x):
        self.emit(ev="got", c=c, n=n, out=self.value(x), exc=0)

    def thing(self, kind, v, things=THINGS):
        self.things.append((things[kind % len(things)](), v))
        return self.things[-1][0]

    def value(self, x):
        for t, v in self.things:
            if t is x:
                return val(v)
        if type(x) in (list, tuple):
            return {"t": "l", "v": [self.value(i) for i in x]}
        return val(x)

    def exception(self, n, cls):
        if n not in self.exc:
            self.exc[n] = cls("exception %d" % n)
        return self.exc[n]

    def raising(self, n, cls):
        return self.exception(n, CLS[cls][self.case.get("kind", n) % len(CLS[cls])])

    def which(self, e):
        for n, x in self.exc.items():
            if x is e:
                return n
        n = getattr(e, "win32_errno", 0) - 2000
        if n in self.io and n not in self.exc:
            self.exc[n] = e
            return n
        return -1

    def caught(self, c, n, e):
        self.emit(ev="caught", c=c, n=n, out=val(None), exc=self.which(e), at=self.raised_in(e))

    def raised_in(self, e):
        """The statements of the body that an exception's traceback says it comes from."""
        at, tb = [], e.__traceback__
        while tb is not None:
            code = tb.tb_frame.f_code
            if code.co_filename == "<program>":
                at = self.within.get(code.co_name, [])
            tb = tb.tb_next
        return at

    def tok(self, c, n):
        s = self.io[n]
        self.emit(ev="io", c=c, n=n, out=val(None), exc=0)
        if self.case["io"] == "token":
            return Token(self, s)
        return self.files[n % len(self.files)].ioctl(n, None, 0)

    # -- kernel32 -----------------------------------------------------------------------------
    def device_io_control(self, handle, code, inbuf, insize, outbuf, outsize, returned, overlapped):
        n = number(code)
        s = self.io[n]
        a = addr(overlapped)
        raw = peek(a, 40)
        ev = [struct.unpack_from("<Q", raw, o)[0] for o in (24, 32)]
        ev = [h for h in ev if h in self.handles]
        if not ev:
            H.last_error = 87
            return 0
        self.handles[ev[0]] = n
        self.overlapped[a] = n
        if s.get("imm") == "fail" and not s["ok"]:
            self.completes(n)
            H.last_error = 2000 + n
            return 0
        if s.get("imm"):
            self.completes(n)
            H.last_error = (0, 2, 997, 6, 122)[n % 5]     # success leaves what was there before
            return 1
        H.last_error = 997
        return 0

    def get_overlapped_result(self, handle, overlapped, result, block):
        n = self.overlapped.get(addr(overlapped))
        if n is None:
            H.last_error = 6
            return 0
        if n not in self.complete:
            if not block:
                H.last_error = 996
                return 0
            self.completes(n)
        s = self.io[n]
        if not s["ok"]:
            H.last_error = 2000 + n
            return 0
        poke(addr(result), struct.pack("<I", s["v"]))
        return 1

    def wait_for_multiple(self, count, array, all_, timeout):
        if not 0 < count <= 64:
            self.emit(ev="wait", ns=[self.handles.get(h, -1) for h in struct.unpack("<%dQ" % count, peek(addr(array), 8 * count))])
            H.last_error = 87
            return -1
        raw = peek(addr(array), 8 * count)
        hs = list(struct.unpack("<%dQ" % count, raw))
        if any(h not in self.handles for h in hs):
            H.last_error = 6
            return 0xFFFFFFFF
        ns = [self.handles[h] for h in hs]
        self.emit(ev="wait", ns=ns)
        self.waits += 1
        if self.waits == self.case.get("waitfail"):
            self.emit(ev="waitfail")
            H.last_error = (6, 0, 87)[self.waits % 3]
            return self.case["waitret"]
        i = None
        while self.order and i is None:
            x = self.order.pop(0)
            i = ns.index(x) if x in ns else None
        if i is None:
            p = self.picks.pop(0) if self.picks else 0
            i = p % count
        self.complete.add(ns[i])
        self.emit(ev="told", n=ns[i])
        return i

    # -- programs -----------------------------------------------------------------------------
    def source(self, c, b):
        """The source of a generator function for the body b."""
        lines = []

        def fn(b):
            self.sub += 1
            name = "f%d" % self.sub
            out = ["def %s():" % name]
            self.within[name] = []
            block(b, 1, out, name)
            out.append("    return")
            out.append("    yield")
            lines.extend(out)
            return name

        def block(b, d, out, name):
            ind = "    " * d
            if not b:
                out.append(ind + "pass")
            for s in b:
                k = s["k"]
                self.within[name].append(s.get("n", 0))
                if k == "eff":
                    out.append(ind + "w.eff(%d, %d)" % (c, s["n"]))
                elif k == "val":
                    out.append(ind + "x = yield %s" % ("None" if s["v"] < 0 else "w.thing(%d, %d)" % (s["as"], s["v"]) if "as" in s else s["v"]))
                    out.append(ind + "w.got(%d, %d, x)" % (c, s["n"]))
                elif k == "tok":
                    self.io[s["n"]] = s
                    out.append(ind + "x = yield w.tok(%d, %d)" % (c, s["n"]))
                    out.append(ind + "w.got(%d, %d, x)" % (c, s["n"]))
                elif k == "sub":
                    f = fn(s["b"])
                    out.append(ind + "x = yield %s()" % f)
                    out.append(ind + "w.got(%d, %d, x)" % (c, s["n"]))
                elif k == "chain":
                    f = fn(s["b"])
                    out.append(ind + "x = yield w.chain(%s, %d)" % (f, s["d"]))
                    out.append(ind + "w.got(%d, %d, x)" % (c, s["n"]))
                elif k == "raise":
                    out.append(ind + "raise w.raising(%d, %r)" % (s["n"], s["cls"]))
                elif k == "reraise":
                    out.append(ind + "raise")
                elif k == "ret":
                    out.append(ind + "return")
                elif k == "try":
                    out.append(ind + "try:")
                    block(s["b"], d + 1, out, name)
                    if s["c"] != "-":
                        out.append(ind + "except %s as e:" % {"all": "BaseException", "E": "Exception"}[s["c"]])
                        out.append(ind + "    w.caught(%d, %d, e)" % (c, s["n"]))
                        out.append(ind + "    e = None")
                        block(s["h"], d + 1, out, name)
                    if s["f"] or s["c"] == "-":
                        out.append(ind + "finally:")
                        block(s["f"], d + 1, out, name)
        name = fn(b)
        return name, "\n".join(lines) + "\n"

    def chain(self, f, d):
        if d <= 1:
            return f()

        def link():
            yield self.chain(f, d - 1)
        return link()

    def run(self):
        H.k32.update(CreateFileW=lambda *a: 0x77, CloseHandle=self.close_handle, DeviceIoControl=self.device_io_control,
                     CreateEventW=lambda *a: self.new_event(0), GetOverlappedResult=self.get_overlapped_result,
                     WaitForMultipleObjects=self.wait_for_multiple)
        self.files = [win32.Win32AsyncFile("\\\\.\\DISK%d" % i) for i in range(self.case.get("files", 1))]
        env = {"w": self}
        gens = []
        for i, b in enumerate(self.case["progs"]):
            name, text = self.source(i + 1, b)
            exec(compile(text, "<program>", "exec"), env)
            gens.append(env[name])
        self.emit(ev="reset", progs=self.case["progs"], mode=self.mode, io=self.case["io"])
        exc, at = 0, []
        try:
            if self.mode == "sync":
                way = self.case.get("way", "wait")
                if way == "wait":
                    out = self.value(sync_adapter.sync_wait(gens[0]()))
                else:
                    out = self.value(sync_adapter.sync_call(self.entered, gens[0], times=1))
            else:
                out = self.value(win32.Win32AsyncReactor().wait_for(*[g() for g in gens]))
        except (SystemError, MemoryError, AssertionError):
            raise
        except BaseException as e:
            if type(e).__name__ == "Watchdog":
                raise
            out = plat.raised(e)
            exc, at = self.which(e), self.raised_in(e)
        self.emit(ev="ret", out=out, exc=exc, at=at)
        self.live = False
        return self.events

    def entered(self, g, times):
        self.ncalls = getattr(self, "ncalls", 0) + times
        if self.ncalls > 1:
            self.emit(ev="coroutine function called twice")
        return g()


class Turns(object):
    """Several programs in turns, as greenlets or threads would run them."""
    def __init__(self, cases, turns):
        self.baton = threading.Condition()
        self.turns, self.now = list(turns), 0
        self.alive = list(range(len(cases)))
        self.worlds = [World(c) for c in cases]
        self.failures = []

    def switch(self, me):
        with self.baton:
            if me in self.alive and (not self.turns or self.turns.pop(0)):
                self.now = self.alive[(self.alive.index(me) + 1) % len(self.alive)]
                self.baton.notify_all()
            while self.now != me:
                self.baton.wait()

    def one(self, me):
        try:
            with self.baton:
                while self.now != me:
                    self.baton.wait()
            w = self.worlds[me]
            w.turn = lambda: self.switch(me)
            w.run()
            w.turn = None
        except BaseException as e:
            self.failures.append(e)
        with self.baton:
            i = self.alive.index(me)
            self.alive.remove(me)
            if self.alive:
                self.now = self.alive[i % len(self.alive)]
            self.baton.notify_all()

    def run(self):
        ts = [threading.Thread(target=self.one, args=(i,)) for i in self.alive]
        for t in ts:
            t.daemon = True
            t.start()
        for t in ts:
            while t.is_alive():
                t.join(0.5)
        if self.failures:
            raise self.failures[0]
        return [e for w in self.worlds for e in w.events]


def run(case):
    H.reset()
    if "together" in case:
        return Turns(case["together"], case["turns"]).run()
    return World(case).run()
