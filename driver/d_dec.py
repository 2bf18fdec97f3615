"""Decoding: a device has something to say; a library command asks for it and returns it decoded."""
import plat
plat.install_gevent()
plat.install_os()
plat.install_aix()
from plat import H, Answer, val
import cmds
from infi.asi.coroutines.sync_adapter import sync_wait
from infi.asi import cdb as _cdb

SENSE = bytes([0x70, 0, 5, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0x24, 0, 0, 0, 0, 0])
SKIP = ("conf_page", "type_descriptor_header", "byte_size")


def tree(o, depth=0):
    """The named values of a decoded structure, as a tagged value of module Bytes."""
    if isinstance(o, (list, tuple)) and depth < 12:
        return {"t": "l", "v": [tree(i, depth + 1) for i in o]}
    if type(o).__module__.startswith("infi.asi") and not isinstance(o, BaseException) and depth < 12:
        v = {}
        for n in dir(o):
            if n.startswith("_") or n in SKIP:
                continue
            try:
                x = getattr(o, n)
            except Exception as e:
                v[n] = plat.raised(e)
                continue
            if n == "required_allocation_length":
                v["required"] = tree(x() if callable(x) else x, depth + 1)
            elif not callable(x):
                v[n] = tree(x, depth + 1)
        return {"t": "o", "v": v}
    return val(o)


class Device(object):
    """Answers what it is asked for, up to the length it is asked for; anything else is an illegal request."""
    def __init__(self, kind, par, page, platform, first=True):
        if first:
            H.reset()
        self.kind, self.par, self.page = kind, par, page
        self.n = 0
        self.executer = plat.executer(platform, self)

    def find(self, c):
        k, p = self.kind, self.par
        if k == "inquiry":
            return self.page if c[0] == 0x12 and not c[1] & 1 and c[2] == 0 else None
        if k == "vpd":
            return self.page if c[0] == 0x12 and c[1] & 1 and c[2] == p["page"] else None
        if k == "prin":
            return self.page if c[0] == 0x5e and c[1] & 31 == p["action"] else None
        if k == "luns":
            return self.page if c[0] == 0xa0 else None
        if k == "rtpg":
            return self.page if c[0] == 0xa3 and c[1] == p["format"] << 5 | 10 else None
        if k == "cap10":
            return self.page if c[0] == 0x25 else None
        if k == "cap16":
            return self.page if c[0] == 0x9e and c[1] & 31 == 16 else None
        if k == "copy":
            return self.page if c[0] == 0x84 and c[1] & 31 == 3 else None
        if k == "ses":
            if c[0] != 0x1c or not c[1] & 1:
                return None
            return self.page if c[2] == p["page"] else bytes(p["conf"]) if c[2] == 1 and p["conf"] else None

    def submit(self, req):
        data = self.find(bytes(req.cdb))
        self.n = req.dlen
        if data is None or req.way != "in":
            return Answer(status=2, validity=1, sense=SENSE)
        return Answer(data=data[:req.dlen])

    def read(self):
        raise AssertionError("not here")


NAME = {"inquiry": "Inquiry", "vpd": "Inquiry", "prin": "PersistentReserveIn", "luns": "ReportLuns", "rtpg": "Rtpg", "cap10": "ReadCapacity10",
        "cap16": "ReadCapacity16", "copy": "CopyParameters", "ses": "ReceiveDiagnostic"}


def command(kind, par, alloc, conf):
    a = {}
    if kind == "vpd":
        a = {"evpd": 1, "page": par["page"]}
    elif kind == "prin":
        a = {"action": par["action"]}
    elif kind == "luns":
        a = {"allow": par["allow"]} if par["allow"] else {}
    elif kind == "rtpg":
        a = {"format": par["format"]}
    elif kind == "ses":
        a = {"page": par["page"]}
    elif kind == "copy":
        a = {"control": 0}
    if alloc is not None and kind not in ("cap10", "cap16", "vpd", "ses"):
        a["alloc"] = alloc
    c = cmds.build(NAME[kind], a, None, conf)
    if alloc is not None and kind in ("vpd", "ses"):
        c.allocation_length = alloc
    return c


def run(case):
    if case["k"] == "pack":
        return pack(case)
    if case["k"] == "decs":
        return several(case["cs"], case["order"], case.get("nest"))
    return several([case], [0])


def several(cs, order, nest=False):
    """Commands that all exist before the first of them is executed, and results that are looked at after the last.
    With nest, each is executed by another greenlet while the one before it waits for its answer."""
    made, events = [], []
    for i, case in enumerate(cs):
        kind, par, page = case["kind"], dict(case["par"]), bytes(case["page"])
        d = Device(kind, par, page, case.get("plat", "linux_ioctl"), i == 0)
        try:
            conf = sync_wait(cmds.build("ReceiveDiagnostic", {"page": 1}).execute(d.executer)) if kind == "ses" and par["conf"] else None
            made.append([d, command(kind, par, case.get("alloc"), conf), None])
        except Exception as e:
            made.append([d, None, e])
    out, left = {}, list(order)

    def execute():
        i = left.pop(0)
        d, c, e = made[i]
        H.pass_time()
        try:
            out[i] = sync_wait(c.execute(d.executer)) if e is None else e
        except Exception as e:
            out[i] = e
    if nest:
        H.sleep = lambda *a: execute() if left else None
    while left:
        execute()
    H.sleep = None
    for i in order:
        case, r = cs[i], out[i]
        try:
            r = plat.raised(r) if isinstance(r, Exception) else tree(r)
        except Exception as e:
            r = plat.raised(e)
        events.append({"ev": "dec", "kind": case["kind"], "par": dict(case["par"]), "page": list(case["page"]), "n": made[i][0].n,
                       "default": case.get("alloc") is None, "out": r})
    return events


# ---- packing -------------------------------------------------------------------------------
from infi.asi.cdb.inquiry import standard as _standard
from infi.asi.cdb.inquiry.vpd_pages import designators as _ds, get_vpd_page_data as _vpd
from infi.asi.cdb.persist.transport import TransportId as _TransportId
from infi.asi.cdb.persist import output as _output
from infi.asi.cdb.receive_copy_operating_parameters import ReceiveCopyOperatingParametersResponse as _Copy


def _move():
    return _output.PersistentReserveOutCommandRegisterAndMoveParameterList(_TransportId(specific_data=b""))


def maker(kind, par, page):
    """What makes an empty structure of this kind, and the attribute it computes."""
    if kind == "inquiry":
        return _standard.StandardInquiryDataBuffer, "additional_length"
    if kind == "copy":
        return _Copy, "implemented_descriptor_list_length"
    if kind == "transportid":
        return _TransportId, None
    if kind == "prout":
        return (_move, "transport_id_length") if par["action"] == 7 else (_output.PersistentReserveOutCommandBasicParameterList, None)
    if kind == "vpd":
        return _vpd(par["page"]), "page_length" if par["page"] not in (0, 0x83, 0x89, 0xb0, 0xb2, 0xc0) else None
    t, n = page[1] & 15, "designator_length"
    if t == 2:
        return {8: _ds.EUI64_Designator, 12: _ds.EUI64_12Byte_Designator, 16: _ds.EUI64_16Byte_Designator}[page[3]], None
    if t == 3:
        return {2: _ds.NAA_IEEE_Extended_Designator, 3: _ds.NAA_Locally_Assigned_Designator, 5: _ds.NAA_IEEE_Registered_Designator,
                6: _ds.NAA_IEEE_Registered_Extended_Designator}[page[4] >> 4], None
    return {0: (_ds.VendorSpecificDesignator, n), 1: (_ds.T10VendorIDDesignator, n), 4: (_ds.RelativeTargetPortDesignator, None),
            5: (_ds.TargetPortGroupDesignator, None), 6: (_ds.LogicalUnitGroupDesignator, None), 7: (_ds.MD5LogicalUnitDesignator, n),
            8: (_ds.SCSINameDesignator, n)}.get(t, (_ds.Reserved_Designator, n))


def pack(case):
    """A structure with the values page (and, for those of grown, other) has is made and packed, and unpacked again."""
    kind, par, page, how = case["kind"], case["par"], bytes(case["page"]), case["how"]
    make, computed = maker(kind, par, page)
    e = {"ev": "pack", "kind": kind, "par": par, "given": val(None), "packed": []}
    try:
        o = make()
        o.unpack(page)
        if case.get("other"):
            o2 = make()
            o2.unpack(bytes(case["other"]))
            for n in case["names"]:
                setattr(o, n, getattr(o2, n))
        given = tree(o)
        if computed:
            given["v"].pop(computed, None)
            if kind != "prout":
                setattr(o, computed, case.get("garbage", 0))
        e["given"] = given
        if how == "made":                           # from its values
            names = o._all_field_names() - {computed}
            o = type(o)(**{n: getattr(o, n) for n in names})
        elif how == "set":
            new = make()
            for n in sorted(o._all_field_names() - {computed}):
                setattr(new, n, getattr(o, n))
            if kind == "prout" and computed:
                setattr(new, computed, getattr(o, computed))
            o = new
        e["packed"] = list(bytes(o.pack()))
        if case.get("again"):                       # packing changes nothing
            e["packed"] = list(bytes(o.pack()))
        back = make()
        back.unpack(bytes(e["packed"]))
        e["out"] = tree(back)
    except Exception as x:
        e["out"] = plat.raised(x)
    return [e]
