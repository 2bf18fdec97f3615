"""What surrounds the executers: device handles, contexts, waiting, yields, platforms, adapters."""
import os, sys
import plat
GEVENT = not os.environ.get("NOGEVENT")
plat.install_gevent(GEVENT)
plat.install_os()
plat.install_aix()
from plat import H, Answer, val, number
import infi.os_info
infi.os_info.get_platform_string = lambda *a, **kw: H.platform
import infi.asi
from infi.asi import SCSIReadCommand, SCSIWriteCommand
from infi.asi.coroutines import sync_adapter
from infi.asi.coroutines.sync_adapter import sync_wait, sync_call

H.platform = "linux-test-1-x64"
DATA = bytes(range(1, 17))


def nat(n):
    n = n & 0xffffffff
    return list(n.to_bytes((n.bit_length() + 7) // 8, "big"))


# ---- the OS, with a journal ----------------------------------------------------------
class Journal(object):
    def __init__(self):
        H.reset()
        self.opens, self.closes, self.calls = [], [], []
        self.refuse = None              # open fails
        self.close_fails = set()
        self.fault = None               # what the next device call does
        self.fail_at = None             # the n-th call fails
        self.kernel_of = {}
        self.live = set()
        self.who, self.meanwhile = 0, None       # which greenlet is running; what another one does at the next yield
        H.open = self.open
        H.sleep = self.sleep
        self.windows = None

    def sleep(self, *args):
        self.calls.append({"c": "yield", "call": "yield", "fd": 0, "ok": args in ((0,), ()), "who": self.who})
        if self.meanwhile:
            f, self.meanwhile = self.meanwhile, None
            was, self.who = self.who, 1
            try:
                f()
            finally:
                self.who = was

    def open(self, path, flags, *mode):
        o = {"path": path, "acc": flags & 3, "nonblock": bool(flags & os.O_NONBLOCK),
             "other": bool(flags & ~(3 | os.O_NONBLOCK | os.O_CLOEXEC | getattr(os, "O_LARGEFILE", 0))), "fd": -1}
        self.opens.append(o)
        if self.refuse:
            raise OSError(2, "No such file or directory", path)
        k = unix_kernel(self, H.platform.split("-")[0])
        o["fd"] = k.fd = plat.new_fd(k)
        return k.fd

    def win(self):
        if self.windows is None:
            self.windows = Windows(self)
        return self.windows

    def did(self, name, fd):
        c = {"c": name, "call": name, "fd": fd, "ok": True, "who": self.who}
        self.calls.append(c)
        n = sum(1 for x in self.calls if x["c"] != "yield" and not x["who"])
        if self.fail_at == n and not self.who:
            c["ok"] = False
            raise OSError(5, "Input/output error")

    # the device
    def submit(self, req):
        self.timeout = req.timeout
        if self.fault and not self.who:
            return Answer(status=self.fault, validity=1)
        return Answer(data=DATA[:req.dlen] if req.way == "in" else b"")


class Mixin(object):
    fd = 0

    def ioctl(self, code, a):
        self.j.did("ioctl", self.fd)
        return super(Mixin, self).ioctl(code, a)

    def close(self, fd):
        self.j.closes.append(fd)
        if fd in self.j.close_fails:
            raise OSError(5, "closing failed")


class Sg(Mixin, plat.LinuxKernel):
    def write(self, data):
        self.j.did("write", self.fd)
        self.reqs.append(self.parse(data))
        return len(data)

    def read(self, size):
        self.j.did("read", self.fd)
        req = self.reqs.pop(0)
        return self.finish(req, self.j.submit(req))[:size]


class Solaris(Mixin, plat.SolarisKernel):
    pass


class Aix(Mixin, plat.AixKernel):
    pass


def unix_kernel(j, platform):
    k = {"linux": Sg, "solaris": Solaris, "aix": Aix}[platform](j)
    k.j, k.reqs = j, []
    return k


class Windows(plat.WindowsKernel):
    def __init__(self, j):
        plat.import_win32()
        plat.WindowsKernel.__init__(self, j)
        self.j = j

    def create(self, path, access, share, sec, disp, flags, template):
        o = {"path": path, "access": nat(number(access)), "share": nat(number(share)), "disp": nat(number(disp)), "flags": nat(number(flags)), "fd": -1}
        self.j.opens.append(o)
        if self.j.refuse:
            H.last_error = 2
            return -1
        o["fd"] = plat.WindowsKernel.create(self, path, access, share, sec, disp, flags, template)
        return o["fd"]

    def close_handle(self, h):
        self.j.closes.append(number(h))
        if number(h) in self.j.close_fails:
            H.last_error = 31
            return 0
        return 1

    def control(self, handle, *args):
        try:
            self.j.did("DeviceIoControl", number(handle))
        except OSError as e:
            H.last_error = e.errno
            return 0
        return plat.WindowsKernel.control(self, handle, *args)


def on(platform):
    H.platform = platform


def executer_of(j, x, **kw):
    """The executer of kind x, its handle made by hand; and its fd."""
    if x == "windows":
        j.win()
        w = plat.import_win32()
        io = w.Win32File("\\\\.\\PHYSICALDRIVE7")
        return w.Win32CommandExecuter(io, **kw), io.handle
    from infi.asi.unix import UnixFile
    on({"sg": "linux-a-1-x64", "dm": "linux-a-1-x64"}.get(x, x + "-1-x"))
    fd = j.open("/dev/verif0", 0)
    j.opens.pop()
    io = UnixFile(fd)
    if x == "sg":
        from infi.asi.linux import LinuxCommandExecuter as cls
    elif x == "dm":
        from infi.asi.linux import LinuxIoctlCommandExecuter as cls
    elif x == "solaris":
        from infi.asi.solaris import SolarisCommandExecuter as cls
    else:
        from infi.asi.aix import AixCommandExecuter as cls
    return cls(io, **kw), fd


def command(c):
    if c["way"] == "in":
        return SCSIReadCommand(b"\x12\0\0\0\x10\0", c["n"])
    return SCSIWriteCommand(b"\x15\0\0\0\x10\0", DATA[:c["n"]])


def outcome(f, *args, **kw):
    try:
        return val(f(*args, **kw))
    except Exception:
        return {"t": "err", "v": []}


# ---- C27 ---------------------------------------------------------------------------------
class BodyError(Exception):
    pass


RAISED = {"BodyError": BodyError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit,
          "StopIteration": StopIteration, "RuntimeError": RuntimeError, "OSError": OSError, "AsiException": infi.asi.AsiException, "ValueError": ValueError}


def contexts(case):
    j = Journal()
    from infi.asi import executers
    events = [{"ev": "start", "max": 1}]
    open_ = {}
    exc = None
    n = 0

    def mark():
        j.opens, j.closes, j.calls = [], [], []
    extra = []
    for s in case["log"]:
        mark()
        if s["c"] == "enter":
            cm = s["cm"]
            on({"linux_dm": "linux", "linux_sg": "linux"}.get(cm, cm) + "-x-1")
            if cm == "windows":
                j.win()
            n += 1
            path = ("\\\\.\\PHYSICALDRIVE%d" if cm == "windows" else "/dev/verif%d") % n
            if case.get("path"):                # the same device again, or one with an unusual name
                path = case["path"].replace("#", str(n))
            j.refuse = s["fails"]
            e = {"ev": "enter", "id": s["id"], "cm": cm, "path": path, "out": "ok"}
            try:
                m = getattr(executers, cm)(path)
                x = m.__enter__()
                open_[s["id"]] = (m, x, j.opens[0]["fd"] if j.opens else -9)
            except Exception as err:
                e["out"], exc = "error", err
            e["opens"], e["closes"] = j.opens, j.closes
            events.append(e)
        elif s["c"] == "cmd":
            m, x, fd = open_.get(s["id"], (None, None, None))
            j.fault = 8 if s["fails"] else None
            j.timeout = 0
            e = {"ev": "cmd", "id": s["id"], "fails": s["fails"], "out": "ok"}
            try:
                sync_wait(x.call(command(case["cmd"])))
            except Exception as err:
                e["out"] = "error"
                if s["lets"]:
                    exc = err
            e["calls"] = [{"call": c["c"], "fd": c["fd"]} for c in j.calls if c["c"] != "yield"]
            e["timeout"] = j.timeout
            extra += j.opens + j.closes
            events.append(e)
        elif s["c"] == "raise":
            try:
                raise RAISED[case["exc"]]("raised by the body")
            except BaseException as err:
                exc = err
        elif s["c"] == "catch":
            exc = None
        else:
            m, x, fd = open_.pop(s["id"], (None, None, None))
            if s["fails"]:
                j.close_fails.add(fd)
            if x is not None and case.get("left"):            # a command is under way; its callback may not like to be called
                j.fault = None
                def left(data, error, bad=case["left"] == "bad"):
                    if bad:
                        raise BodyError("raised by the callback")
                sync_wait(x.send(command(case["cmd"]), left))
            e = {"ev": "exit", "id": s["id"], "raised": exc is not None, "closefails": s["fails"]}
            before = exc
            try:
                swallowed = m.__exit__(type(exc), exc, exc.__traceback__) if exc is not None else m.__exit__(None, None, None)
                if exc is None:
                    e["out"] = "ok"
                else:
                    e["out"] = "swallowed" if swallowed else "same"
                    if swallowed:
                        exc = None
            except BaseException as err:
                plat.unless_watchdog(err)
                e["out"] = "same" if err is before else "close" if isinstance(err, (OSError, infi.asi.AsiException)) and before is not err else "other"
                exc = err
            e["closes"] = j.closes
            extra += j.opens
            events.append(e)
            if e["out"] == "ok" and s["fails"]:
                exc = BodyError("stands in for what was not raised")
    events.append({"ev": "end", "extra": [0] * len(extra)})
    return events


# ---- handles ----------------------------------------------------------------------------------
class Recorded(object):
    """A device node that only notes what is asked of it."""
    def __init__(self, result):
        self.result, self.got = result, []

    def op(self, *got):
        self.got.append(got)
        if isinstance(self.result, Exception):
            raise self.result
        return self.result

    def read(self, size):
        return self.op("read", size)

    def write(self, data):
        return self.op("write", bytes(data))

    def close(self, fd):
        return self.op("close", fd)


ERRORS = {"EIO": OSError(5, "x"), "EBADF": OSError(9, "x"), "EAGAIN": BlockingIOError(11, "x"), "EPIPE": BrokenPipeError(32, "x")}


def handle(case):
    H.reset()
    from infi.asi.unix import UnixFile
    events = []
    for s in case["steps"]:
        r = ERRORS[s["error"]] if s.get("error") else bytes(s["data"]) if s["op"] == "read" else max(0, len(s["data"]) - s.get("less", 0)) if s["op"] == "write" else None
        k = Recorded(r)
        fd = plat.new_fd(k)
        f = UnixFile(fd)
        arg = (s["size"],) if s["op"] == "read" else (bytes(s["data"]),) if s["op"] == "write" else ()
        out = plat.caught(getattr(f, s["op"]), *arg)
        events.append({"ev": "file", "op": s["op"], "calls": [g[0] for g in k.got], "same": [g[1:] for g in k.got] == [arg or (fd,)], "out": out,
                       "want": plat.raised(r) if isinstance(r, OSError) else val(r)})
    j = Journal()
    w = plat.import_win32()
    j.win()
    f = w.Win32File("\\\\.\\PHYSICALDRIVE1")
    f.close()
    j.closes = []
    events.append({"ev": "reclose", "out": plat.caught(f.close), "calls": j.closes})
    return events


# ---- C28 -----------------------------------------------------------------------------------------
class Clock(object):
    """Virtual time, in microseconds; steps the schedule's delays in turn."""
    def __init__(self, ready, lags, overs):
        self.now, self.ready, self.lags, self.overs = 0, ready, list(lags), list(overs)
        self.base = 1700000000.0
        self.calls = []
        self.fd = None

    def start(self, r):
        """A call begins, a while after the one before it."""
        self.calls = []
        self.t0 = self.now = self.now + r.get("gap", 0)
        self.ready = -1 if r["ready"] < 0 else self.t0 + r["ready"]

    def is_ready(self):
        return self.ready >= 0 and self.now >= self.ready

    def lag(self):
        self.now += self.lags.pop(0) if self.lags else 0

    def bound(self):
        if len(self.calls) > 20000 or self.now - self.t0 > 10 ** 9:
            raise plat_hang()

    def time(self):
        t = self.base + self.now / 1e6
        if self.calls:
            self.lag()
        return t

    def sleep(self, s):
        self.bound()
        self.calls.append({"c": "sleep", "t": self.now, "ask": int(round(s * 1e6))})
        self.now += int(round(s * 1e6)) + (self.overs.pop(0) if self.overs else 0)

    def select(self, r, w, x, timeout=None):
        self.bound()
        if timeout is None:
            timeout = 3600.0
        if not self.is_ready() and timeout > 0:              # waits itself
            until = self.now + int(round(timeout * 1e6))
            self.now = min(until, self.ready) if self.ready >= 0 else until
        self.calls.append({"c": "select", "t": self.now, "ask": 0})
        if self.is_ready():
            return (list(r), [], [])
        self.lag()
        return ([], [], [])

    def read(self, size):
        self.calls.append({"c": "read", "t": self.now, "ask": size})
        if not self.is_ready():
            self.now = max(self.now, self.ready)
        if isinstance(self.result, Exception):
            raise self.result
        return self.result


def plat_hang():
    return AssertionError("waits for ever")


def poll(case):
    H.reset()
    from infi.asi.unix import UnixFile
    c = Clock(case["ready"], case["lags"], case["overs"])
    c.close = lambda fd: None
    fd = plat.new_fd(c)
    limit = case["limit"]
    f = UnixFile(fd) if limit is None else UnixFile(fd, limit / 1e6) if case["pos"] else UnixFile(fd, read_timeout=limit / 1e6)
    events = []
    H.clock = c
    H.high = bool(case.get("high"))
    try:
        for r in [case] + case.get("more", []):
            c.start(r)
            c.result = ERRORS[r["error"]] if r.get("error") else bytes(r["data"])
            try:
                out = val(f.read(r["size"]))
            except Exception as e:
                out = plat.raised(e)
            calls = [dict(x, t=x["t"] - c.t0) for x in c.calls]
            if len(calls) > 60:                      # of a long wait: the ends
                calls = calls[:20] + calls[-40:]
            events.append({"ev": "poll", "ready": r["ready"], "limit": 60000000 if limit is None else limit, "size": r["size"], "calls": calls, "out": out,
                           "want": plat.raised(c.result) if isinstance(c.result, OSError) else val(c.result), "end": c.now - c.t0})
    finally:
        H.clock, H.high = None, False
    return events


def limit(case):
    j = Journal()
    kw = {} if case["given"] < 0 else {"timeout": case["given"]}
    x, fd = executer_of(j, case["x"], **kw)
    events = []
    for c in case["cmds"]:
        j.timeout = -1
        try:
            sync_wait(x.call(command(c)))
        except Exception:
            pass
        events.append({"ev": "limit", "x": case["x"], "given": case["given"], "sent": j.timeout})
    return events


# ---- C29 --------------------------------------------------------------------------------------
def gevent(case):
    j = Journal()
    kw = {"max_queue_size": case["queue"]} if case.get("queue") else {}
    x, fd = executer_of(j, case["x"], **kw)
    events = []
    for n in case.get("bursts", []):             # several requests sent before the first is answered
        j.calls, j.fail_at, j.fault = [], None, None
        got = []
        c = command({"way": "in", "n": 8})

        def burst():
            for i in range(n):
                sync_wait(x.send(c, lambda data, e: got.append(data)))
            sync_wait(x.wait())
            return got == [DATA[:8]] * n
        out = outcome(burst)
        events.append({"ev": "gevent", "x": case["x"], "gevent": GEVENT, "n": n, "calls": [{"c": k["c"], "ok": k["ok"]} for k in j.calls], "out": out, "want": val(True)})
    for c in case["cmds"]:
        H.pass_time()
        j.calls, j.fail_at, j.fault = [], c.get("fail_at"), c.get("status")
        other, others = c.get("other"), []
        if other:                                # while this greenlet lets others run, one of them sends a command to another device
            y, _ = executer_of(j, case["x"])

            def meanwhile():
                others.append(outcome(lambda: sync_wait(y.call(command(other)))))
            j.meanwhile = meanwhile
        out = outcome(lambda: sync_wait(x.call(command(c))))
        j.meanwhile = None
        if others:
            want = val(DATA[:other["n"]]) if other["way"] == "in" else {"t": "z", "v": []}
            events.append({"ev": "gevent", "x": case["x"], "gevent": GEVENT, "n": 1, "calls": [{"c": k["c"], "ok": k["ok"]} for k in j.calls if k["who"]], "out": others[0], "want": want})
        j.calls = [k for k in j.calls if not k["who"]]
        bad = any(not k["ok"] for k in j.calls if k["c"] != "yield") or c.get("status")
        want = {"t": "err", "v": []} if bad else val(DATA[:c["n"]]) if c["way"] == "in" and c["n"] else {"t": "z", "v": []}
        if c["way"] == "in" and not c["n"] and not bad and out["t"] in ("b", "z"):
            want = out                      # nothing was asked for: None or no bytes
        events.append({"ev": "gevent", "x": case["x"], "gevent": GEVENT, "n": 1, "calls": [{"c": k["c"], "ok": k["ok"]} for k in j.calls], "out": out, "want": want})
        if bad:                              # what is pending stays pending: a fresh one
            x, fd = executer_of(j, case["x"], **kw)
    return events


def wrap(case):
    j = Journal()
    events = []
    for s in case["steps"]:
        j.calls = []
        token = object() if s["result"] == "object" else s["result"]
        exc = RAISED[s["raises"]]("from the call") if s.get("raises") else None
        seen, others, same = [], list(s.get("others", [])), [True]

        def the_call(*args, **kwargs):
            seen.append((args, kwargs))
            if others[:1] == ["inside"]:         # a call within a call
                other()
            if exc is not None:
                raise exc
            return token

        def other():
            others.pop(0)
            if others[:1] == ["yield"]:
                j.meanwhile = other
            ask()

        def ask():
            try:
                same.append(w(*args, **kwargs) is token and exc is None)
            except BaseException as e:
                plat.unless_watchdog(e)
                same.append(e is exc)
        args, kwargs = tuple(object() for _ in range(s["args"])), {("k%d" % i): object() for i in range(s["kwargs"])}
        w = infi.asi.gevent_friendly(the_call)
        if others[:1] == ["yield"]:              # another greenlet calls it while this one lets others run
            j.meanwhile = other
        ask()
        j.meanwhile = None
        events.append({"ev": "wrap", "gevent": GEVENT, "asked": len(same) - 1, "ran": len(seen), "args": all(a == (args, kwargs) for a in seen), "same": all(same), "name": w.__name__ == "the_call",
                       "raised": exc is not None, "yields": len(j.calls)})
    return events


# ---- C30 ------------------------------------------------------------------------------------------
def factory(case):
    j = Journal()
    on(case["string"])
    name = case["string"].split("-")[0]
    what, path = case["factory"], case["path"]
    e = {"ev": "factory", "factory": what, "platform": name, "path": path, "queue": case["queue"], "given": case["given"], "refused": case["refused"],
         "out": "ok", "named": False, "opens": [], "way": [], "device": False, "capacity": 0, "sent": 0, "handle": False}
    if name == "windows":
        j.win()
    j.refuse = case["refused"]
    try:
        if what == "executer":
            if name == "windows":
                w = plat.import_win32()
                j.refuse = False
                io = w.Win32File(path)
                fd = io.handle
            else:
                from infi.asi.unix import UnixFile
                k = unix_kernel(j, name if name in ("linux", "solaris", "aix") else "linux")
                fd = k.fd = plat.new_fd(k)
                io = UnixFile(fd)
            j.opens = []
            kw = {}
            pos = [io]
            if case["queue"] > 0:
                if case["pos"]:
                    pos.append(case["queue"])
                else:
                    kw["max_queue_size"] = case["queue"]
            if case["given"] >= 0:
                if len(pos) == 2 and not path.endswith("1"):
                    pos.append(case["given"])
                else:
                    kw["timeout"] = case["given"]
            x = infi.asi.create_platform_command_executer(*pos, **kw)
            j.timeout = -1
            sync_wait(x.call(command({"way": "in", "n": 8})))
            calls = [c for c in j.calls if c["c"] != "yield"]
            e.update(way=[c["c"] for c in calls], device=all(c["fd"] == fd for c in calls), sent=j.timeout)
            try:
                while e["capacity"] < 100:
                    sync_wait(x.send(command({"way": "in", "n": 8})))
                    e["capacity"] += 1
            except infi.asi.AsiRequestQueueFullError:
                pass
        elif what == "reactor":
            r = infi.asi.create_os_async_reactor()
            e["handle"] = isinstance(r, infi.asi.OSAsyncReactor) and hasattr(r, "wait_for")
        else:
            f = (infi.asi.create_os_file if what == "file" else infi.asi.create_async_os_file)(path)
            fd = j.opens[0]["fd"] if j.opens else None
            j.closes = []
            if what == "file":
                e["handle"] = isinstance(f, infi.asi.OSFile)
                if name == "windows":
                    e["handle"] &= f.handle == fd and hasattr(f, "ioctl")
                else:
                    e["handle"] &= f.fd == fd and all(hasattr(f, m) for m in ("read", "write"))
            else:
                e["handle"] = isinstance(f, infi.asi.OSAsyncFile) and f.handle == fd
            f.close()
            e["handle"] = bool(e["handle"] and j.closes == [fd])
    except infi.asi.AsiException as err:
        e["out"] = "error"
        e["named"] = name in str(err)
    except Exception as err:
        e["out"] = "error"
    if e["refused"] and e["out"] == "error":
        e["handle"] = True
    e["opens"] = j.opens
    return [e]


# ---- C32 ------------------------------------------------------------------------------------------
class Wrapped(object):
    def __init__(self):
        self.calls, self.result = [], None

    def did(self, name, args, kwargs):
        self.calls.append((name, args, kwargs))
        if isinstance(self.result, BaseException):
            raise self.result
        return self.result

    def call(self, *a, **kw):
        return self.did("call", a, kw)

    def send(self, *a, **kw):
        return self.did("send", a, kw)

    def wait(self, *a, **kw):
        return self.did("wait", a, kw)

    def is_queue_full(self, *a, **kw):
        return self.did("is_queue_full", a, kw)


class WrappedBase(Wrapped, infi.asi.CommandExecuterBase):
    """Has all that an executer has; what its queue looks like is none of the adapter's business."""
    def __init__(self, pending, limit):
        infi.asi.CommandExecuterBase.__init__(self, limit)
        Wrapped.__init__(self)
        getattr(self, "pending_packets", {}).update((i, (object(), Odd())) for i in range(pending))
        self.empty = not pending

    def is_queue_empty(self):
        return self.empty


def adapter(case):
    events = []
    x = WrappedBase(*case["base"]) if case.get("base") else Wrapped()
    uses, again = [], []

    def wrapper(f, *a, **kw):
        uses.append(f)
        if again:                                # the wrapper itself uses the executer
            m, args = again.pop()
            n, before, o = len(uses), list(x.calls), len(outer)
            try:
                same = getattr(ad, m)(*args) is x.result
            except BaseException as e:
                plat.unless_watchdog(e)
                same = e is x.result
            calls = x.calls[len(before):]
            events.append({"ev": "adapter", "m": m, "calls": [k[0] for k in calls], "args": [k[1:] for k in calls] == [(args, {})], "same": same,
                           "wrapped": len(uses) - n if not case.get("twice") or len(uses) - n == len(outer) - o else -1})
            x.calls = before
            del uses[n:], outer[o:]
        return f(*a, **kw)
    ad = infi.asi.CommandExecuterAdapter(x, wrapper)
    x.executer = x.call_wrapper = x.call        # what it is made of is its own business
    outer = []
    if case.get("twice"):

        def wrapper2(f, *a, **kw):
            outer.append(f)
            return f(*a, **kw)
        ad = infi.asi.CommandExecuterAdapter(ad, wrapper2)
    for s in case["steps"]:
        x.calls, x.result = [], RAISED[s["raises"]]("no") if s.get("raises") else {"true": True, "false": False}.get(s["result"], object())
        del uses[:], outer[:]
        c, cb = [(object(), lambda *a: None), (Odd(), Odd())][s.get("odd", 0)]
        m, how = s["m"], s["how"]
        args = {"call": (c,), "send": (c,) if how == "none" else (c, cb)}.get(m, ())
        del again[:]
        if s.get("again"):
            again.append((s["again"], {"call": (object(),), "send": (object(), cb)}.get(s["again"], ())))
        try:
            if m == "call":
                r = ad.call(c) if how == "pos" else ad.call(command=c)
            elif m == "send":
                r = ad.send(c) if how == "none" else ad.send(c, cb) if how == "pos" else ad.send(c, callback=cb)
            else:
                r = getattr(ad, m)()
            same = r is x.result
        except BaseException as e:
            plat.unless_watchdog(e)
            same = e is x.result
        got = [(list(a) + [kw[k] for k in ("command", "callback") if k in kw]) for _, a, kw in x.calls]
        want = list(args)
        ok = len(got) == 1 and (got[0] == want or (m == "send" and how == "none" and got[0] == want + [None]))
        events.append({"ev": "adapter", "m": m, "calls": [k[0] for k in x.calls], "args": ok, "same": same,
                       "wrapped": len(uses) if not case.get("twice") or len(uses) == len(outer) else -1})
    return events


def synccall(case):
    events = []
    for s in case["steps"]:
        seen, ran = [], []

        def inner(i):
            yield i * 10

        def coroutine(*args, **kwargs):
            seen.append((args, kwargs))
            last = None
            for i in range(s["yields"]):
                last = yield (inner(i) if s["nested"] else i * 10)
                if last != i * 10:
                    raise AssertionError("yield gave something else")
            ran.append(1)
            if s.get("raises"):
                raise RAISED[s["raises"]]("from the coroutine")
            yield s["result"]
        args, kwargs = tuple(object() for _ in range(s["args"])), {("k%d" % i): object() for i in range(s["kwargs"])}
        out = outcome(sync_call, coroutine, *args, **kwargs)
        want = {"t": "err", "v": []} if s.get("raises") else val(s["result"])
        events.append({"ev": "synccall", "started": len(seen), "args": seen == [(args, kwargs)], "ran": len(ran), "out": out, "want": want})
    return events


class QueuePolicy(object):
    def __init__(self, rng):
        self.rng, self.waiting, self.submitted = rng, [], []

    def submit(self, req):
        self.submitted.append(req.cdb[2] << 8 | req.cdb[3])
        self.waiting.append(req)

    def read(self):
        req = self.waiting.pop(self.rng.randrange(len(self.waiting)))
        return req, Answer(data=bytes([req.cdb[2], req.cdb[3], 7]))


def queue(case):
    import random
    H.reset()
    p = QueuePolicy(random.Random(case["seed"]))
    x = infi.asi.CommandExecuterAdapter(plat.executer("linux", p, max_queue_size=case["max"]), sync_call)
    events = [{"ev": "start", "max": case["max"]}]
    delivered = []
    for i, op in enumerate(case["ops"]):
        req = i + 1
        H.pass_time()
        p.submitted = []
        del delivered[:]
        cmd = SCSIReadCommand(bytes([0x12, 0, req >> 8, req & 255, 3, 0]), 3)

        def cb(data, exc, req=req):
            delivered.append(req if exc is None and bytes(data)[:3] == bytes([req >> 8, req & 255, 7]) else 0)
        e = {"ev": "queue", "op": op, "req": req, "out": False, "res": "None"}
        try:
            if op == "full":
                e["out"] = x.is_queue_full()
            elif op == "send":
                r = x.send(cmd, cb) if case["pos"] else x.send(cmd, callback=cb)
                e["res"] = "None" if r is None or not isinstance(r, (bytes, Exception)) else "something"
            elif op == "call":
                r = x.call(cmd)
                e["res"] = "data" if bytes(r)[:3] == bytes([req >> 8, req & 255, 7]) else "other data"
            else:
                x.wait()
        except Exception as err:
            e["res"] = type(err).__name__
        e["submitted"], e["delivered"] = list(p.submitted), list(delivered)
        events.append(e)
    return events


class Odd(object):
    """A command or callback that is false."""
    def __len__(self):
        return 0

    def __call__(self, *args):
        return None


KINDS = {"contexts": contexts, "handle": handle, "poll": poll, "limit": limit, "gevent": gevent, "wrap": wrap, "factory": factory, "adapter": adapter,
         "synccall": synccall, "queue": queue}


def run(case):
    return KINDS[case["k"]](case)
