"""The library's commands: what they send, and that it depends on nothing but their arguments."""
import json, os, sys
import plat
plat.install_gevent()
plat.install_os()
plat.install_aix()
from plat import H, Answer, val
import cmds
from d_pt import fold, pattern, FOLD
from infi.asi.coroutines.sync_adapter import sync_wait

BIG = 1 << 18


def show(o, depth=0):
    """Everything a result says, as a value that can be compared."""
    if o is None or isinstance(o, (int, float, str, bool)):
        return repr(o)
    if isinstance(o, (bytes, bytearray)):
        return "b:" + bytes(o).hex()
    if depth > 8:
        return "..."
    if isinstance(o, (list, tuple)):
        return [show(i, depth + 1) for i in o]
    if isinstance(o, dict):
        return sorted([[show(k, depth + 1), show(v, depth + 1)] for k, v in o.items()], key=repr)
    if isinstance(o, BaseException):
        return "raised " + type(o).__name__
    if isinstance(o, type) or callable(o):
        return "callable"
    d = getattr(o, "__dict__", None)
    if d is None:
        return type(o).__name__
    return [type(o).__name__] + [[k, show(v, depth + 1)] for k, v in sorted(d.items()) if not k.startswith("_") and k != "conf_page"]


def text(s):
    return json.dumps(s, sort_keys=True)


class Device(object):
    """Answers every command with the given data; the executer above is the real one."""
    def __init__(self, platform="linux_ioctl", first=True):
        if first:
            H.reset()
        self.sent = []
        self.next = {}
        self.quiet = False
        self.executer = plat.executer(platform, self)

    def submit(self, req):
        a = self.next
        n = req.dlen
        self.sent.append({"cdb": list(req.cdb), "way": req.way, "n": n, "data": bytes(req.data) if req.way == "out" else b""})
        data = b""
        if req.way == "in":
            data = (bytes(n) if self.quiet else pattern(a.get("seed", 1), n)) if a.get("bytes") is None else bytes(a["bytes"])[:n]
        if not a.get("ok", True):
            return Answer(status=a.get("status", 2), validity=1, sense=bytes([0x70, 0, 5, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0x24, 0, 0, 0, 0, 0]))
        self.data = data
        return Answer(data=data)

    def read(self):
        raise AssertionError("not here")


class Stub(object):
    """Stands in for the executer where the transfer is too large to be made."""
    def __init__(self, device):
        self.d = device

    def call(self, command):
        n = getattr(command, "max_response_length", None)
        d = b"" if n is not None else bytes(command.data)
        self.d.sent.append({"cdb": list(bytes(command.command)), "way": "in" if n is not None else "out", "n": len(d) if n is None else n, "data": d})
        if not self.d.next.get("ok", True):
            raise OSError(5, "it failed")
        self.d.data = b"stub" if n is not None else b""
        yield b"stub" if n is not None else None


def payload(a):
    if "seed" in a:
        return pattern(a["seed"], a["buflen"])
    return None


def nat(n):
    return list(n.to_bytes((n.bit_length() + 7) // 8, "big"))


def strip(args):
    return {k: v for k, v in args.items() if k not in ("seed", "buflen") + cmds.VIRTUAL}


def observed(name, args, data, folded):
    a = {}
    full = dict(cmds.DEFAULTS.get(name, {}))
    full.update({k: v for k, v in args.items() if k not in ("seed",) + cmds.VIRTUAL})
    for k, v in full.items():
        if k == "ranges":
            a[k] = [{"lba": val(r["lba"]), "count": val(r["count"])} for r in v]
        elif k == "tiddata":
            a[k] = list(v)
        else:
            a[k] = val(v)
    if data is not None:
        a["data"] = fold(data, folded)
    return a


class One(object):
    """One command object and the executions of it."""
    def __init__(self, name, args):
        self.name, self.args = name, dict(args)
        self.data = payload(args)
        self.first, self.late = dict(args), []
        self.cmd = self.failed = None
        try:
            self.cmd = cmds.build(name, {k: v for k, v in self.args.items() if k not in ("seed", "buflen")}, self.data, args.get("conf"))
        except Exception as e:
            self.failed = e

    def set(self, k, v):
        if self.cmd is not None:
            self.args[k] = v
            self.late.append([k, v])
            cmds.setflag(self.cmd, self.name, k, v)

    def execute(self, device, ans):
        device.sent = []
        device.next = ans
        device.data = b""
        device.quiet = self.name in DECODED
        n = self.args.get("length")
        big = isinstance(n, int) and n * self.args.get("bs", 512) > BIG or self.args.get("alloc", 0) > BIG
        out, err = None, self.failed
        if err is None:
            try:
                out = sync_wait(self.cmd.execute(Stub(device) if big else device.executer))
            except Exception as e:
                err = e
        self.result = out if err is None else err
        folded = self.name not in ("Unmap", "PersistentReserveOut", "Reserve10", "Release10") and \
            (len(self.data or b"") > FOLD or len(device.data) > FOLD)
        if err is not None:
            o = plat.raised(err)
        elif not isinstance(out, (bytes, bytearray, int, type(None))):
            o = {"t": "o", "v": []}
        elif isinstance(out, (bytes, bytearray)):
            o = {"t": "b", "v": fold(out, folded)}
        else:
            o = val(out)
        sent = [dict(s, n=nat(s["n"]), data=fold(s["data"], folded and s["way"] == "out" and s["n"] > 0)) for s in device.sent]
        ok = bool(ans.get("ok", True))
        if ok and err is not None and device.sent and ans.get("bytes") is not None:
            o = {"t": "o", "v": []}         # an answer that can't be decoded
        if ok and err is not None and device.sent and self.name in DECODED:
            o = {"t": "o", "v": []}
        return {"ev": "cmd", "name": self.name, "a": observed(self.name, self.args, self.data, folded), "sent": sent, "ok": ok,
                "answer": fold(device.data, folded), "out": o}


DECODED = ("Inquiry", "ReadCapacity10", "ReadCapacity16", "ReportLuns", "Rtpg", "CopyParameters", "ReceiveDiagnostic", "PersistentReserveIn")


# ---- the same thing in a process that has done nothing else -----------------------------
class Zygote(object):
    def __init__(self):
        self.r, w = os.pipe()
        r, self.w = os.pipe()
        self.cache = {}
        pid = os.fork()
        if pid == 0:
            os.close(self.r)
            os.close(self.w)
            self.serve(os.fdopen(r, "r"), w)
            os._exit(0)
        os.close(r)
        os.close(w)
        self.inp = os.fdopen(self.r, "r")

    def serve(self, inp, w):
        for line in inp:
            if os.fork() == 0:
                c = json.loads(line)
                try:
                    s = text(fresh(c))
                except BaseException as e:
                    s = text("zygote: %r" % e)
                plat._real["write"](w, (s + "\n").encode())
                os._exit(0)
            os.wait()

    def ask(self, c):
        k = json.dumps(c, sort_keys=True)
        if k not in self.cache:
            plat._real["write"](self.w, (k + "\n").encode())
            self.cache[k] = json.loads(self.inp.readline())
        return self.cache[k]


def fresh(c):
    d = Device()
    one = One(c["name"], c["args"])
    for k, v in c["late"]:
        one.set(k, v)
    one.execute(d, c["ans"])
    return [show(one.result), [[s["cdb"], s["n"], s["data"].hex()[:4000]] for s in d.sent]]


ZYGOTE = None


def history(case):
    events = []
    d = Device(case.get("plat", "linux_ioctl"))
    free = [Device(case.get("plat", "linux_ioctl"), False) for _ in range(3)] + [d]
    live, kept = {}, []
    cmds.SHARED = {}

    def execute(s):
        d = free.pop()                           # nobody else is waiting for it
        one = live[s["id"]]
        events.append(one.execute(d, s["ans"]))
        if one.name in DECODED:                  # the rest: what it sends is checked against the specification
            now = [show(one.result), [[x["cdb"], x["n"], x["data"].hex()[:4000]] for x in d.sent]]
            base = ZYGOTE.ask({"name": one.name, "args": one.first, "late": list(one.late), "ans": s["ans"]})
            events.append({"ev": "same", "what": one.name, "first": text(base), "second": text(now)})
            kept.append((one.name, one.result, text(show(one.result))))
        free.append(d)
    for s in case["steps"]:
        k = s["k"]
        H.pass_time()
        if k == "new":
            live[s["id"]] = One(s["name"], s["args"])
        elif k == "set":
            live[s["id"]].set(s["f"], s["v"])
        elif k == "exec":
            wait = list(s.get("nests", []))      # executed by other greenlets meanwhile
            H.sleep = lambda *a: execute(wait.pop(0)) if wait else None
            execute(s)
            H.sleep = None
            while wait:
                execute(wait.pop(0))
        elif k == "drop":
            live.pop(s["id"], None)
    cmds.SHARED = None
    for name, result, before in kept:
        events.append({"ev": "again", "what": name, "before": before, "after": text(show(result))})
    return events


def run(case):
    global ZYGOTE
    k = case["k"]
    if k == "cmd":
        return [One(case["name"], case["args"]).execute(Device(case.get("plat", "linux_ioctl")), case.get("ans", {}))]
    if k == "again":                    # one command, executed, changed and executed again
        one, d, events = One(case["name"], case["args"]), Device(case.get("plat", "linux_ioctl")), []
        for x in case["xs"]:
            for f, v in x["set"]:
                one.set(f, v)
            events.append(one.execute(d, x["ans"]))
        return events
    if k == "hist":
        if ZYGOTE is None:
            ZYGOTE = Zygote()
        return history(case)
