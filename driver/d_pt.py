"""Single commands on each platform's executer: what the OS is handed, what the caller gets."""
import hashlib
import re
import plat
plat.install_gevent()
plat.install_os()
plat.install_aix()
from plat import H, Answer, val
import infi.asi
from infi.asi import SCSIReadCommand, SCSIWriteCommand
from infi.asi.coroutines.sync_adapter import sync_wait
from infi.asi.sense import get_sense_object_from_buffer
from infi.asi.sense.asc import AdditionalSenseCode
from infi.asi.errors import AsiCheckConditionError, AsiOSError, AsiReservationConflictError, AsiSCSIError

FOLD = 700
DEFAULT = {"linux": 30000, "linux_ioctl": 30000, "win32": 10, "solaris": 30, "aix": 30, "aix_libc": 30}


def fold(b, folded):
    b = bytes(b)
    return list(hashlib.sha1(b).digest()) + list(len(b).to_bytes(5, "big")) if folded else list(b)


def pattern(seed, n):
    """n bytes that differ everywhere they can; from 2000 on: n bytes of a special kind."""
    if n == 0:
        return b""
    if 2000 <= seed < 2256:
        return bytes([seed - 2000]) * n
    if seed == 2256:
        return bytes(n - 1) + b"\1"
    if seed == 2257:
        return b"\x80" + bytes(n - 1)
    if seed == 2258:
        return (b"infi.asi " * (n // 9 + 1))[:n]
    if seed == 2259:
        return b"\r\n" * (n // 2) + b"\n" * (n % 2)
    if seed == 2260:                    # two equal halves
        return (pattern(7, n // 2) * 2 + b"\7")[:n]
    if seed == 2261:                    # equal blocks, if they have 8 bytes or more
        return (b"\0\1\xff2\x80 \n\xfe" * (n // 8 + 1))[:n]
    if seed == 2262:                    # nothing but zeros in the second half
        return pattern(9, n - n // 2) + bytes(n // 2)
    if seed == 2263:                    # nothing but zeros in the first half
        return bytes(n // 2) + pattern(11, n - n // 2)
    block = hashlib.sha512(b"%d" % seed).digest()
    out = bytearray()
    i = 0
    while len(out) < n:
        out += hashlib.sha512(block + b"%d" % i).digest() if n < 100000 else block
        i += 1
    return bytes(out[:n])


def payload(spec):
    """bytes as a list, or {"seed", "n"}."""
    return bytes(spec) if isinstance(spec, list) else pattern(spec["seed"], spec["n"])


SENSE_FIELDS = ("filemark", "eom", "ili", "information", "additional_sense_length", "command_specific_information",
                "field_replaceable_unit_code", "sksv", "sense_key_specific_high", "sense_key_specific_low")


def obj(o, names):
    return {"t": "o", "v": {n: (f(getattr(o, n)) if hasattr(o, n) else {"t": "m", "v": []}) for n, f in names.items()}}


def key(k):
    return {"t": "e", "v": str(k)} if isinstance(k, str) else val(k)


def sense_obj(s):
    if s is None:
        return val(None)
    names = {n: val for n in SENSE_FIELDS}
    names["sense_key"] = key
    names["response_code"] = lambda r: obj(r, {"code": val, "valid": val})
    names["additional_sense_code"] = lambda r: obj(r, {"code": val, "qualifier": val})
    names["descriptors"] = lambda l: {"t": "l", "v": [obj(d, {"descriptor_type": val, "valid": val, "information": val, "data": val})
                                                      for d in l]}
    return obj(s, names)


class Failure(OSError):
    einval_arg = 0


class Exchanges(object):
    def __init__(self, case):
        self.case = case
        self.plat = case["plat"]
        self.events = []

    def submit(self, req):
        self.submitted += 1
        if self.submitted > 1:
            raise OSError(5, "submitted again")
        f = dict((k, v) for k, v in req.f.items() if k in ("interface_id", "direction", "iovec_count", "flags", "version", "DataIn", "Length",
                                                           "PathId", "TargetId", "Lun", "SenseInfoOffset", "size", "outsize"))
        self.req = {"cdb": list(req.cdb), "way": req.way, "dlen": req.dlen, "buf": bool(req.buf), "data": fold(req.data, self.folded),
                    "sense_at": bool(req.sense_at), "sense_len": req.sense_len, "timeout": req.timeout, "f": f}
        a = self.ans
        if self.x["ans"].get("fails"):
            e = Failure(self.x["ans"].get("errno", 5), "the ioctl failed")
            if self.x["ans"].get("einval"):
                e.einval_arg = self.x["ans"]["einval"]
            if a.validity:
                a.fails = True
            else:
                raise e
        if self.plat == "linux":
            self.queue.append((req, a))
            return None
        return a

    def read(self):
        return self.queue.pop(0)

    def execute(self, x):
        self.x = x
        H.pass_time()
        self.submitted = 0
        self.queue = []
        self.req = {}
        n = x["len"]
        self.folded = n > FOLD
        a = dict(x["ans"])
        for k in ("fails", "einval", "errno"):
            a.pop(k, None)
        got = a.pop("got", None)
        if a.pop("tell", False) and x["way"] == "in" and got is not None:
            a["resid"] = max(0, n - got)
        seed = a.pop("seed", 1)
        data = pattern(seed, n if got is None else min(got, n)) if x["way"] == "in" else b""
        sense = bytes(a.pop("sense", []))
        self.ans = Answer(data=data, sense=sense, **a)
        out = payload(x.get("data", {"seed": x.get("seed", 2), "n": n})) if x["way"] == "out" else b""
        cdb = bytes(x["cdb"])
        cmd = SCSIReadCommand(cdb, n) if x["way"] == "in" else SCSIWriteCommand(cdb, out)
        err = None
        try:
            r = sync_wait(self.executer.call(cmd))
            if self.folded and isinstance(r, (bytes, bytearray)):
                r = val(bytes(fold(r, True)))
            else:
                r = val(r)
        except Exception as e:
            err = e
            r = plat.raised(e)
        self.err = err
        tmo = self.case.get("timeout")
        ans = {k: getattr(self.ans, k) for k in ("status", "driver", "host", "reason", "rqstatus", "validity", "adapter")}
        ans.update(fails=bool(x["ans"].get("fails")), einval=x["ans"].get("einval", 0), sense=list(sense), data=fold(data, self.folded) if x["way"] == "in" else [],
                   folded=self.folded)
        return {"ev": "xchg", "plat": self.plat,
                "cmd": {"cdb": list(cdb), "way": x["way"], "len": n, "data": fold(out, self.folded),
                        "timeout": DEFAULT[self.plat] if tmo is None or self.plat == "win32" else tmo},
                "submitted": self.submitted, "req": self.req, "ans": ans, "out": r,
                "sense": val(err.sense_buffer) if isinstance(err, AsiCheckConditionError) else val(None),
                "obj": sense_obj(err.sense_obj) if isinstance(err, AsiCheckConditionError) else val(None)}

    def run(self):
        self.run_none()
        return [self.execute(x) for x in self.case["xs"]]

    def run_none(self):
        H.reset()
        kw = {}
        if self.case.get("timeout") is not None:
            kw["timeout"] = self.case["timeout"]
        if self.case.get("max"):
            kw["max_queue_size"] = self.case["max"]
        other = self.case.get("other")       # another executer, of another device, with another time limit
        if other and other["first"]:
            self.others = [plat.executer(self.plat, self, timeout=other["timeout"])]
        self.executer = plat.executer(self.plat, self, **kw)
        if other and not other["first"]:
            self.others = [plat.executer(self.plat, self, timeout=other["timeout"])]


WORDS = re.compile(r"[A-Za-z_][A-Za-z_0-9]*|0[xX][0-9a-fA-F]+|[0-9]+")
HEADINGS = ("driver", "host", "adapter", "reason", "request", "argument", "validity")


def said(text, windows):
    """What an error says about codes: under which heading, which code, and the symbol in front of it."""
    out, numbers, seen, name = [], [], "", ""
    for w in WORDS.findall(text):
        if w[0].isdigit():
            n = int(w, 16 if w[:2] in ("0x", "0X") else 10)
            numbers.append(n)
            if seen:
                out.append({"h": seen, "code": n, "name": name})
            seen = name = ""
        elif w.isupper() and "_" in w:
            name = w
        else:
            name = ""
            low = w.lower()
            for h in HEADINGS + (("error",) if windows else ()):
                if h in low:
                    seen = h
            if not seen and ("status" in low or "scsi" in low):
                seen = "status"
    return out, [n for n in numbers if n < 1 << 31]


def errors(case):
    """What the errors of failed commands say."""
    e = Exchanges(case)
    e.run_none()
    out = []
    for x in case["xs"]:
        r = e.execute(x)
        err = e.err
        if isinstance(err, AsiCheckConditionError):
            out.append({"ev": "sensetext", "sense": r["ans"]["sense"], "text": [ord(c) for c in str(err)],
                        "words": sorted(w for w in set(WORDS.findall(str(err))) if w.isupper())})
        elif isinstance(err, (AsiSCSIError, AsiOSError)) and not isinstance(err, AsiReservationConflictError):
            codes, numbers = said(str(err), case["plat"] == "win32")
            a = dict(r["ans"], errno=x["ans"].get("errno", 5))
            n = getattr(err, "win32_errno", None)
            out.append({"ev": "error", "plat": case["plat"], "number": -1 if n is None else n, "said": [c for c in codes if c["code"] < 1 << 31], "numbers": numbers,
                        "ans": {k: a[k] for k in ("status", "driver", "host", "reason", "rqstatus", "validity", "adapter", "einval", "errno", "fails")}})
        else:
            out.append({"ev": "other"})
    return out


def sweep(case):
    """One answer, but many values of one of its fields."""
    outs = []
    x = dict(case["x"])
    e = Exchanges({"plat": case["plat"], "xs": []})
    e.run()
    for v in case["values"]:
        x["ans"] = dict(case["x"]["ans"], **{case["field"]: v})
        r = e.execute(x)
    # the events of a sweep share the answer
        outs.append(r["out"] if r["out"]["t"] == "x" else {"t": "b", "v": []})
    return {"ev": "sweep", "plat": case["plat"], "ans": r["ans"], "field": case["field"], "values": case["values"], "outs": outs}


def run(case):
    k = case["k"]
    if k == "xchg":
        return Exchanges(case).run()
    if k == "errors":
        return errors(case)
    if k == "sweep":
        return [sweep(case)]
    if k == "sense":
        out = []
        for b in case["bufs"]:
            try:
                o = sense_obj(get_sense_object_from_buffer(bytes(b)))
            except Exception as e:
                o = val(None) if case.get("may_raise") else plat.raised(e)
            out.append({"ev": "sense", "bytes": b, "obj": o})
        return out
    if k == "names":
        c = case["code"]
        out = []
        for q in range(256):
            if case["how"] == "fixed":
                a = get_sense_object_from_buffer(bytes([0x70, 0, 6, 0, 0, 0, 0, 10, 0, 0, 0, 0, c, q, 0, 0, 0, 0]) + bytes(237))
                a = a.additional_sense_code
            elif case["how"] == "descriptor":
                a = get_sense_object_from_buffer(bytes([0x72, 6, c, q, 0, 0, 0, 0]) + bytes(247)).additional_sense_code
            else:
                a = AdditionalSenseCode.create_from_string(bytes([c, q]))
            out.append({"q": q, "name": val(a.code_name), "code": val(a.code), "qualifier": val(a.qualifier)})
        return [{"ev": "names", "code": c, "names": out}]
