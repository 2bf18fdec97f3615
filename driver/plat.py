"""The operating systems infi.asi runs on, as far as it can see them: os.read/write, fcntl.ioctl, the
AIX libc, kernel32, gevent and the clock are replaced by stand-ins; the library above is the real one.
Import this before infi.asi."""
import ctypes, gc, os, struct, sys, types, errno

FAKE_FD = 700000


class Hooks(object):
    """What the stand-ins do; reset() before every case."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.log = []            # what the library asked of the OS, in order
        self.sleep = None        # gevent.sleep
        self.files = {}          # fd -> File
        self.next_fd = FAKE_FD
        self.open = None         # os.open(path, flags)
        self.clock = None        # (time, sleep, select) stand-ins
        self.high = False        # are the descriptors too high for select.select()?
        self.skew, self.passed = 0, 0
        self.aix_libc = False    # is the AIX 64-bit libc found?
        self.k32 = {}            # kernel32 functions by name
        self.last_error = 0

    def pass_time(self):
        """The user does something else for a while."""
        self.passed += 1
        self.skew += (0, 0.25, 2, 11, 0, 75, 700, 4000, 0, 100000, 0, 3000000)[self.passed * 7 % 12]


H = Hooks()


def unless_watchdog(e):
    """For handlers of everything the code under test may raise: main.py's own exception goes on."""
    if type(e).__name__ == "Watchdog":
        raise e


# ---- gevent ----------------------------------------------------------------
def _sleep(*args):
    H.log.append(("sleep", args))
    if H.sleep is not None:
        H.sleep(*args)


def install_gevent(present=True):
    if present:
        m = types.ModuleType("gevent")
        m.sleep = _sleep
        sys.modules["gevent"] = m
    else:
        sys.modules["gevent"] = None


# ---- files -------------------------------------------------------------------
class File(object):
    """A device node, opened. policy: see Kernel."""
    def __init__(self, kernel):
        self.kernel = kernel
        self.closed = False


_real = {"read": os.read, "write": os.write, "close": os.close, "open": os.open}


def _os_read(fd, size):
    if fd in H.files:
        return H.files[fd].kernel.read(size)
    return _real["read"](fd, size)


def _os_write(fd, data):
    if fd in H.files:
        return H.files[fd].kernel.write(data)
    return _real["write"](fd, data)


def _os_close(fd):
    if fd in H.files:
        return H.files[fd].kernel.close(fd)
    return _real["close"](fd)


def _os_open(path, flags, *args, **kw):
    if H.open is not None and isinstance(path, str) and "verif" in path.lower() and not path.startswith("/verif/"):
        return H.open(path, flags, *args)
    return _real["open"](path, flags, *args, **kw)


def new_fd(kernel):
    H.next_fd += 1
    H.files[H.next_fd] = File(kernel)
    return H.next_fd


import select as _select_mod, time as _time_mod
_real["select"], _real["time"], _real["tsleep"] = _select_mod.select, _time_mod.time, _time_mod.sleep
_real["monotonic"] = _time_mod.monotonic


def _select(r, w, x, *timeout):
    if H.high:
        raise ValueError("file descriptor out of range in select()")
    return _ready(r, w, x, *timeout)


def _ready(r, w, x, *timeout):
    if H.clock is not None and any(not isinstance(f, int) or f in H.files for f in r):
        return H.clock.select(r, w, x, *timeout)
    if any(isinstance(f, int) and f in H.files for f in r):
        return (list(r), [], [])
    return _real["select"](r, w, x, *timeout)


_real["poll"] = _select_mod.poll


class _Poll(object):
    """select.poll()"""
    def __init__(self):
        self.fds, self.real = {}, _real["poll"]()

    def register(self, fd, eventmask=_select_mod.POLLIN | _select_mod.POLLPRI | _select_mod.POLLOUT):
        fd = fd if isinstance(fd, int) else fd.fileno()
        if fd in H.files or H.clock is not None:
            self.fds[fd] = eventmask
        else:
            self.real.register(fd, eventmask)

    modify = register

    def unregister(self, fd):
        if fd in self.fds:
            del self.fds[fd]
        else:
            self.real.unregister(fd)

    def poll(self, timeout=None):
        if not self.fds:
            return self.real.poll(timeout)
        t = () if timeout is None or timeout < 0 else (timeout / 1000.0,)
        return [(fd, _select_mod.POLLIN) for fd in _ready(list(self.fds), [], [], *t)[0]]


def _time():
    return H.clock.time() if H.clock is not None else _real["time"]() + H.skew


def _tsleep(s):
    return H.clock.sleep(s) if H.clock is not None else _real["tsleep"](s)


def _monotonic():
    return H.clock.time() if H.clock is not None else _real["monotonic"]() + H.skew


# ---- ioctl ---------------------------------------------------------------------
import fcntl
_real["ioctl"] = fcntl.ioctl


def _ioctl(fd, code, arg=0, mutate=True):
    """fcntl.ioctl: an int is passed as it is (an address), bytes are copied and the copy returned,
    a mutable buffer is changed in place."""
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    if fd not in H.files:
        return _real["ioctl"](fd, code, arg)
    k = H.files[fd].kernel
    if isinstance(arg, int):
        return k.ioctl(code, arg)
    if isinstance(arg, (bytes, str)):
        b = arg if isinstance(arg, bytes) else arg.encode("latin1")
        buf = ctypes.create_string_buffer(b, len(b))
        k.ioctl(code, ctypes.addressof(buf))
        return buf.raw
    if isinstance(arg, bytearray):
        buf = ctypes.create_string_buffer(bytes(arg), len(arg))
        r = k.ioctl(code, ctypes.addressof(buf))
        arg[:] = buf.raw
        return r
    return k.ioctl(code, ctypes.addressof(arg))


def install_os():
    os.read, os.write, os.close, os.open = _os_read, _os_write, _os_close, _os_open
    _select_mod.select, _select_mod.poll = _select, _Poll
    _time_mod.time, _time_mod.sleep, _time_mod.monotonic, _time_mod.perf_counter = _time, _tsleep, _monotonic, _monotonic
    fcntl.ioctl = _ioctl


# the AIX libc, when it can be loaded: returns -1 instead of raising
class _AixIoctl(object):
    restype = argtypes = None

    def __call__(self, fd, code, arg):
        try:
            r = _ioctl(fd, code, arg if isinstance(arg, int) else ctypes.cast(arg, ctypes.c_void_p).value)
        except OSError:
            return -1
        return 0 if not isinstance(r, int) else r


class _AixLibc(object):
    def __init__(self):
        self.ioctl = _AixIoctl()


_real["CDLL"] = ctypes.CDLL


def _CDLL(name, *a, **kw):
    if isinstance(name, str) and name.startswith("libc.a("):
        if H.aix_libc:
            return _AixLibc()
        raise OSError("Could not load module %s" % name)
    return _real["CDLL"](name, *a, **kw)


def install_aix():
    ctypes.CDLL = _CDLL


# ---- kernel32 -----------------------------------------------------------------------
class Win32Function(object):
    def __init__(self, name):
        self.name = name
        self.restype = self.argtypes = None

    def __call__(self, *args):
        f = H.k32.get(self.name)
        if f is None:
            if self.name == "GetLastError":
                return H.last_error
            if self.name in ("FormatMessageA", "FormatMessageW"):
                return 0
            raise AssertionError("kernel32.%s is not expected here" % self.name)
        return f(*args)


class Kernel32(object):
    def __getattr__(self, name):
        f = Win32Function(name)
        setattr(self, name, f)
        return f


class Windll(object):
    def __init__(self):
        self.kernel32 = Kernel32()


def import_win32():
    """infi.asi.win32 as on 64-bit Windows, where a long has 32 bits."""
    if "infi.asi.win32" in sys.modules:
        return sys.modules["infi.asi.win32"]
    ctypes.windll = Windll()
    saved = ctypes.c_ulong, ctypes.c_long
    ctypes.c_ulong, ctypes.c_long = ctypes.c_uint32, ctypes.c_int32
    try:
        import infi.asi.win32
    finally:
        ctypes.c_ulong, ctypes.c_long = saved
    return sys.modules["infi.asi.win32"]


def addr(x):
    """The address in a pointer-ish argument."""
    if x is None:
        return 0
    if isinstance(x, int):
        return x
    if isinstance(x, ctypes.c_void_p):
        return x.value or 0
    return ctypes.cast(x, ctypes.c_void_p).value or 0


def number(x):
    return x.value if hasattr(x, "value") else x


def peek(a, n):
    return ctypes.string_at(a, n) if n and a else b""


def poke(a, data):
    if data and a:
        ctypes.memmove(a, bytes(data), len(data))


# ---- requests -------------------------------------------------------------------------
class Req(object):
    """One request as the OS sees it."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Answer(object):
    """status, sense: SCSI; data: the bytes transferred by a read (None: fill with zeros); the others: see the platform."""
    def __init__(self, status=0, sense=b"", data=b"", host=0, driver=0, reason=0, rqstatus=0, validity=0, adapter=0,
                 resid=0, adaptype=0, sflags=0, info=None, noise=0):
        self.status, self.sense, self.data, self.host, self.driver = status, sense, data, host, driver
        self.reason, self.rqstatus, self.validity, self.adapter = reason, rqstatus, validity, adapter
        self.resid, self.adaptype, self.sflags = resid, adaptype, sflags
        self.info, self.noise = info, noise      # Linux: informative only


class Kernel(object):
    """Translates between the raw structures and Req/Answer.
    policy.submit(req): a request was handed over; raises OSError to refuse it; on the ioctl platforms returns the Answer.
    policy.read(): (req, Answer) to be returned by the next read, bytes, or an exception is raised."""
    def __init__(self, policy):
        self.policy = policy

    # -- is the memory that the OS was given still the request's?  Looked at only in some cases: it takes time.
    def given(self, req, *regions):
        if getattr(self.policy, "collect", False):
            req.mem = [(a, peek(a, n)) for a, n in regions if a and n]

    def intact(self, req):
        mem = getattr(req, "mem", [])
        if mem:
            reuse(mem)
        if all(peek(a, len(b)) == b for a, b in mem):
            return True
        self.policy.freed(req)
        return False

    def stored(self, req):
        if hasattr(req, "mem"):
            reuse(req.mem)

    def close(self, fd):
        H.log.append(("close", fd))
        del H.files[fd]


def reuse(mem):
    """Memory that is no longer used is given to others."""
    gc.collect()
    _reused[:] = [ctypes.create_string_buffer(b"\xee" * len(b), len(b)) for a, b in mem for i in range(4)]


_reused = []


def u(raw, fmt, off):
    return struct.unpack_from("<" + fmt, raw, off)[0]


class LinuxKernel(Kernel):
    SIZE = 88

    def parse(self, raw):
        raw = bytes(raw)
        d = {"interface_id": u(raw, "i", 0), "direction": u(raw, "i", 4), "cmd_len": raw[8], "mx_sb_len": raw[9],
             "iovec_count": u(raw, "H", 10), "dxfer_len": u(raw, "I", 12), "dxferp": u(raw, "Q", 16), "cmdp": u(raw, "Q", 24),
             "sbp": u(raw, "Q", 32), "timeout": u(raw, "I", 40), "flags": u(raw, "I", 44), "pack_id": u(raw, "i", 48),
             "usr_ptr": u(raw, "Q", 56)}
        way = {-1: "none", -2: "out", -3: "in", -4: "in"}.get(d["direction"], "?")
        n = d["dxfer_len"] if way in ("in", "out") else 0
        return Req(raw=raw, id=d["pack_id"], cdb=peek(d["cmdp"], d["cmd_len"]), way=way, dlen=n, buf=d["dxferp"],
                   data=peek(d["dxferp"], n) if way == "out" else b"", timeout=d["timeout"], sense_at=d["sbp"],
                   sense_len=d["mx_sb_len"], f=d)

    def finish(self, req, a):
        """The header the kernel returns; data and sense have been stored."""
        if req.way == "in":
            poke(req.buf, a.data[:req.dlen])
        sense = a.sense[:req.sense_len]
        poke(req.sense_at, sense)
        raw = bytearray(req.raw)
        raw[64], raw[65], raw[66], raw[67] = a.status, (a.status & 0x3e) >> 1, a.noise % 7, len(sense)
        info = (1 if (a.status or a.host or a.driver) else 0) if a.info is None else a.info
        struct.pack_into("<HHiII", raw, 68, a.host, a.driver, a.resid, a.noise % 40000, info)
        return bytes(raw)

    def write(self, data):
        H.log.append(("write", len(data)))
        if len(data) != self.SIZE:
            raise OSError(errno.EINVAL, "sg: a header has 88 bytes, not %d" % len(data))
        req = self.parse(data)
        self.policy.submit(req)
        self.given(req, (req.buf, req.dlen), (req.sense_at, req.sense_len))
        return len(data)

    def read(self, size):
        H.log.append(("read", size))
        r = self.policy.read()
        if isinstance(r, bytes):
            return r[:size]
        if not self.intact(r[0]):
            r[0].way, r[0].sense_len = "none", 0
        raw = self.finish(*r)[:size]
        self.stored(r[0])
        return raw

    def ioctl(self, code, a):
        H.log.append(("ioctl", code))
        if code != 0x2285:
            raise OSError(errno.ENOTTY, "ioctl 0x%x" % code)
        req = self.parse(peek(a, self.SIZE))
        poke(a, self.finish(req, self.policy.submit(req)))
        return 0


class SolarisKernel(Kernel):
    SIZE = 64

    def ioctl(self, code, a):
        H.log.append(("ioctl", code))
        if code != ((4 << 8) | 201):
            raise OSError(errno.ENOTTY, "ioctl 0x%x" % code)
        raw = peek(a, self.SIZE)
        d = {"flags": u(raw, "I", 0), "status": raw[4], "reason": raw[5], "timeout": u(raw, "h", 6), "cdb": u(raw, "Q", 8),
             "bufaddr": u(raw, "Q", 16), "buflen": u(raw, "Q", 24), "resid": u(raw, "Q", 32), "cdblen": raw[40], "rqlen": raw[41],
             "rqstatus": raw[42], "rqresid": raw[43], "rqbuf": u(raw, "Q", 48), "path": u(raw, "Q", 56)}
        way = "in" if d["flags"] & 8 else ("out" if d["buflen"] else "none")
        n = d["buflen"]
        req = Req(raw=raw, id=None, cdb=peek(d["cdb"], d["cdblen"]), way=way, dlen=n, buf=d["bufaddr"],
                  data=peek(d["bufaddr"], n) if way == "out" else b"", timeout=d["timeout"], sense_at=d["rqbuf"],
                  sense_len=d["rqlen"], f=d)
        ans = self.policy.submit(req)
        if way == "in":
            poke(req.buf, ans.data[:n])
        sense = ans.sense[:req.sense_len] if d["flags"] & 0x10000 else b""
        poke(req.sense_at, sense)
        out = bytearray(raw)
        out[4], out[5] = ans.status, (ans.reason if d["flags"] & 0x200000 else 0)
        out[42], out[43] = ans.rqstatus, (req.sense_len - len(sense)) & 0xff
        struct.pack_into("<Q", out, 32, ans.resid)
        poke(a, bytes(out))
        return 0


class AixKernel(Kernel):
    SIZE = 0        # known once the structure of AIX is: see below
    # version H@0 status_validity@2 scsi_bus_status@3 adap_status_type@4 adapter_status@5 adap_set_flags@6 add_device_status@7
    # adap_q_status@8 q_tag_msg@9 flags@10 devflags@11 q_flags@12 command_length H@14 einval_arg H@16 autosense_length H@18
    # timeout_value I@20 data_length Q@24 scsi_id Q@32 lun_id Q@40 buffer P@48 autosense_buffer_ptr P@56 scsi_cdb[..]@64

    def ioctl(self, code, a):
        H.log.append(("ioctl", code))
        if code != 23:
            raise OSError(errno.ENOTTY, "ioctl 0x%x" % code)
        raw = peek(a, 64 + 64)
        d = {"version": u(raw, "H", 0), "validity": raw[2], "bus_status": raw[3], "flags": raw[10], "devflags": raw[11],
             "q_flags": raw[12], "command_length": u(raw, "H", 14), "einval_arg": u(raw, "H", 16),
             "autosense_length": u(raw, "H", 18), "timeout": u(raw, "I", 20), "data_length": u(raw, "Q", 24),
             "scsi_id": u(raw, "Q", 32), "lun_id": u(raw, "Q", 40), "buffer": u(raw, "Q", 48), "sense_at": u(raw, "Q", 56)}
        n = d["data_length"]
        way = "in" if d["flags"] & 1 else ("out" if n else "none")
        req = Req(raw=raw, id=None, cdb=raw[64:64 + d["command_length"]], way=way, dlen=n, buf=d["buffer"],
                  data=peek(d["buffer"], n) if way == "out" else b"", timeout=d["timeout"], sense_at=d["sense_at"],
                  sense_len=d["autosense_length"], f=d)
        try:
            ans = self.policy.submit(req)
        except OSError as e:
            if getattr(e, "einval_arg", 0):
                poke(a + 16, struct.pack("<H", e.einval_arg))
            raise
        if way == "in":
            poke(req.buf, ans.data[:n])
        sense = ans.sense[:req.sense_len]
        poke(req.sense_at, sense)
        poke(a + 2, bytes([ans.validity, ans.status, ans.adaptype, ans.adapter, ans.sflags]))
        if getattr(ans, "fails", False):      # the driver reports a failed command by a failing ioctl
            raise OSError(errno.EIO, "I/O error")
        return 0


EVENTS = 0x8000000


class WindowsKernel(Kernel):
    events = EVENTS

    def __init__(self, policy):
        Kernel.__init__(self, policy)
        self.handles = {}
        self.flying = {}
        self.event_objects = set()
        H.k32.update(CreateFileW=self.create, CloseHandle=self.close_handle, DeviceIoControl=self.control,
                     CreateEventW=self.create_event, GetOverlappedResult=self.overlapped_result)

    def create(self, path, access, share, sec, disp, flags, template):
        H.log.append(("CreateFile", path, access, share, disp, flags))
        H.next_fd += 1
        self.handles[H.next_fd] = path
        return H.next_fd

    def close_handle(self, h):
        if number(h) >= EVENTS:         # possibly of a request abandoned long ago
            closed = number(h) in self.event_objects
            self.event_objects.discard(number(h))
            return int(closed)
        H.log.append(("CloseHandle", number(h)))
        if self.handles.pop(number(h), None) is None:
            H.last_error = 6
            return 0
        return 1

    def parse(self, raw):
        d = {"Length": u(raw, "H", 0), "ScsiStatus": raw[2], "PathId": raw[3], "TargetId": raw[4], "Lun": raw[5],
             "CdbLength": raw[6], "SenseInfoLength": raw[7], "DataIn": raw[8], "DataTransferLength": u(raw, "I", 12),
             "TimeOutValue": u(raw, "I", 16), "DataBuffer": u(raw, "Q", 24), "SenseInfoOffset": u(raw, "I", 32)}
        way = {0: "out", 1: "in", 2: "none"}.get(d["DataIn"], "?")
        n = d["DataTransferLength"]
        return Req(raw=raw, id=None, cdb=raw[36:36 + d["CdbLength"]], way=way, dlen=n, buf=d["DataBuffer"],
                   data=peek(d["DataBuffer"], n) if way == "out" else b"", timeout=d["TimeOutValue"],
                   sense_at=d["SenseInfoOffset"], sense_len=d["SenseInfoLength"], f=d)

    def control(self, handle, code, inbuf, insize, outbuf, outsize, returned, overlapped):
        H.log.append(("DeviceIoControl", number(handle), number(code)))
        if number(handle) not in self.handles:
            H.last_error = 6
            return 0
        if number(code) != 0x4D014:
            H.last_error = 1
            return 0
        raw = peek(addr(inbuf), insize)
        if len(raw) < 56:
            H.last_error = 87
            return 0
        req = self.parse(raw)
        req.f.update(size=number(insize), outsize=number(outsize))
        if overlapped is not None and addr(overlapped) and self.policy.hand(req):
            self.flying[addr(overlapped)] = lambda got: self.complete(req, raw, outbuf, outsize, got)
            outbuf = ctypes.c_void_p(addr(outbuf))
            self.given(req, (addr(outbuf), outsize), (req.buf, req.dlen), (addr(overlapped), 40))
            H.last_error = [997, 0][req.cdb[3] % 2]
            return req.cdb[3] % 2
        return self.complete(req, raw, outbuf, outsize, returned)

    def complete(self, req, raw, outbuf, outsize, returned):
        if not self.intact(req):
            H.last_error = 998
            return 0
        try:
            ans = self.policy.submit(req)
        except OSError as e:
            H.last_error = e.errno or 5
            return 0
        H.last_error = 0
        n = len(ans.data[:req.dlen]) if req.way == "in" else req.dlen
        if req.way == "in":
            poke(req.buf, ans.data[:req.dlen])
        out = bytearray(raw[:outsize])
        out[2] = ans.status
        struct.pack_into("<I", out, 12, n)
        sense = ans.sense[:req.sense_len]
        if sense and req.sense_at + len(sense) <= len(out):
            out[req.sense_at:req.sense_at + len(sense)] = sense
        poke(addr(outbuf), bytes(out))
        if returned is not None and addr(returned):
            poke(addr(returned), struct.pack("<I", len(out)))
        return 1

    def create_event(self, sec, manual, initial, name):
        WindowsKernel.events += 1
        self.event_objects.add(WindowsKernel.events)
        return WindowsKernel.events

    def overlapped_result(self, handle, o, got, block):
        f = self.flying.pop(addr(o), None)
        if f is not None:
            return f(got)
        if number(handle) not in self.handles:
            H.last_error = 6
            return 0
        return 1


PLATFORMS = ("linux", "linux_ioctl", "win32", "solaris", "aix", "aix_libc")
SYNC = {"linux": False, "linux_ioctl": True, "win32": True, "win32_async": True, "solaris": True, "aix": True, "aix_libc": True}


def executer(name, policy, **kw):
    """The platform's executer over the stand-in OS; its device handle is .io, whose OS is .verif_kernel."""
    if name.startswith("win32"):
        w = import_win32()
        k = WindowsKernel(policy)
        io = (w.Win32AsyncFile if name == "win32_async" else w.Win32File)("\\\\.\\PHYSICALDRIVE7")
        kw.pop("timeout", None)
        x = w.Win32CommandExecuter(io, **kw)
        return x
    from infi.asi.unix import UnixFile
    if name == "linux":
        from infi.asi.linux import LinuxCommandExecuter as cls
        k = LinuxKernel(policy)
    elif name == "linux_ioctl":
        from infi.asi.linux import LinuxIoctlCommandExecuter as cls
        k = LinuxKernel(policy)
    elif name == "solaris":
        from infi.asi.solaris import SolarisCommandExecuter as cls
        k = SolarisKernel(policy)
    else:
        from infi.asi.aix import AixCommandExecuter as cls
        H.aix_libc = name == "aix_libc"
        k = AixKernel(policy)
    return cls(UnixFile(new_fd(k)), **kw)


# ---- observed values -----------------------------------------------------------------------
def raised(e):
    """The tagged value of an exception that was raised (one that is returned is something else)."""
    return {"t": "x", "v": [c.__name__ for c in type(e).__mro__ if c is not object]}


def val(x, depth=0):
    """The tagged value of module Bytes."""
    if isinstance(x, ctypes._SimpleCData):
        x = x.value
    if x is None:
        return {"t": "z", "v": []}
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        m = abs(x)
        return {"t": "i" if x >= 0 else "n", "v": list(m.to_bytes((m.bit_length() + 7) // 8, "big"))}
    if isinstance(x, (bytes, bytearray, memoryview)):
        return {"t": "b", "v": list(bytes(x))}
    if isinstance(x, str):
        return {"t": "s", "v": [ord(c) for c in x]}
    if isinstance(x, (list, tuple)) and depth < 12:
        return {"t": "l", "v": [val(i, depth + 1) for i in x]}
    if hasattr(x, "__iter__") and hasattr(x, "__len__") and not isinstance(x, dict) and depth < 12:
        try:
            return {"t": "l", "v": [val(i, depth + 1) for i in x]}
        except Exception:
            pass
    if isinstance(x, float):
        return {"t": "f", "v": [ord(c) for c in repr(x)]}
    return {"t": "u", "v": [ord(c) for c in type(x).__name__]}


def caught(f, *args, **kw):
    """The tagged outcome of a call."""
    try:
        return val(f(*args, **kw))
    except Exception as e:
        return raised(e)
