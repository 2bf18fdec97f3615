"""Building the library's commands from a name and arguments."""
import zlib
from importlib import import_module

# the arguments of each command, in the order of its documentation: they can be given by position or by name
_rw = ["logical_block_address", "transfer_length", "block_size"]
_wr = ["logical_block_address", "buffer", "block_size"]
_ws = ["logical_block_address", "buffer", "number_of_blocks", "block_size"]
SIGNATURES = {"Read6Command": _rw, "Read10Command": _rw, "Read12Command": _rw, "Read16Command": _rw,
              "Write6Command": _wr, "Write10Command": _wr, "Write12Command": _wr, "Write16Command": _wr, "WriteSame10Command": _ws, "WriteSame16Command": _ws,
              "CompareAndWriteCommand": ["logical_block_address", "buffer", "number_of_logical_blocks", "block_size"], "UnmapCommand": ["ranges_list"],
              "ReadCapacity10Command": ["logical_block_address", "pmi"], "ReadCapacity16Command": ["logical_block_address", "pmi"],
              "ReportLunsCommand": ["select_report", "allocation_length", "allow_unsupported_addressing_format"],
              "RTPGCommand": ["parameter_data_format", "allocation_length"], "LogSenseCommand": ["page_code", "subpage_code", "allocation_length"],
              "Reserve10Command": ["third_party_device_id"], "Release10Command": ["third_party_device_id"],
              "StandardInquiryCommand": ["page_code", "evpd", "allocation_length"], "PersistentReserveInCommand": ["service_action", "allocation_length"],
              "PersistentReserveOutCommand": ["service_action", "reservation_key", "service_action_reservation_key", "pr_type"]}
STYLE = 0


def _c(mod, cls):
    c = getattr(import_module("infi.asi.cdb." + mod), cls)
    names = SIGNATURES.get(cls)
    if not names or not STYLE:
        return c

    def create(*args, **kw):
        if STYLE == 1:                          # by position, as far as possible
            args = list(args)
            while len(args) < len(names) and names[len(args)] in kw:
                args.append(kw.pop(names[len(args)]))
        else:                                   # by name
            kw.update(zip(names, args))
            args = args[len(names):]
        return c(*args, **kw)
    return create


FLAGS = {"naca": ("control", "naca"), "vendor": ("control", "vendor_specific"), "dpo": "dpo", "fua": "fua", "fua_nv": "fua_nv", "group": "group_number",
         "mmc4": "mmc4", "reladr": "RelAdr", "pbdata": "pbdata", "lbdata": "lbdata", "unmap": "unmap", "sp": "sp", "pc": "pc", "pointer": "parameter_pointer"}
PROTECT = {"Read10": "rdprotect", "Read12": "reserved", "Read16": "reserved"}


def _opt(a, **names):
    return {v: a[k] for k, v in names.items() if k in a}


def _read(cls):
    return lambda a, d: _c("read", cls)(a["lba"], a["length"], **_opt(a, bs="block_size"))


def _write(cls):
    return lambda a, d: _c("write", cls)(a["lba"], d, **_opt(a, bs="block_size"))


def _same(cls):
    return lambda a, d: _c("write_same", cls)(a["lba"], d, **_opt(a, number="number_of_blocks", bs="block_size"))


SHARED = None       # where it is a dictionary, equal arguments are one object


def shared(key, make):
    return make() if SHARED is None else SHARED.setdefault(repr(key), make())


def transport_id(protocol, fmt, data):
    return _c("persist.transport", "TransportId")(protocol_identifier=protocol, format_code=fmt, specific_data=bytearray(data))


def _prout(a, d):
    kw = _opt(a, key="reservation_key", sakey="service_action_reservation_key", type="pr_type", aptpl="activate_persist_through_power_loss",
              all_tg_pt="all_target_ports", spec_i_pt="specify_initiator_ports", unreg="unregister", rtpi="relative_target_port_identifier")
    if "tiddata" in a:
        tid = (a["tidprotocol"], a["tidformat"], bytes(a["tiddata"]))
        kw["transport_id"] = shared(tid, lambda: transport_id(*tid))
    return _c("persist.output", "PersistentReserveOutCommand")(a["action"], **kw)


def _inquiry(a, d):
    if a.get("evpd") and set(a) <= {"evpd", "page", "naca", "vendor"}:
        return _c("inquiry.vpd_pages", "get_vpd_page")(a["page"])()
    if a.get("generic"):
        return _c("inquiry", "InquiryCommand")(_c("inquiry.vpd_pages", "get_vpd_page_data")(a["page"]), page_code=a["page"], evpd=a.get("evpd", 0),
                                               **_opt(a, alloc="allocation_length"))
    return _c("inquiry.standard", "StandardInquiryCommand")(**_opt(a, page="page_code", evpd="evpd", alloc="allocation_length"))


def _ranges(a):
    pairs = [(r["lba"], r["count"]) for r in a["ranges"]]
    if SHARED is not None:
        return shared(("ranges", pairs), lambda: list(pairs))
    return {"list": list, "tuple": tuple, "iter": iter, "lists": lambda p: [list(x) for x in p], "gen": lambda p: (x for x in p)}[a.get("as", "list")](pairs)


class NoConf(object):
    pass


def _diagnostic(a, d, conf=None):
    page = a["page"]
    if "alloc" in a or not a.get("pcv", 1):
        return _c("diagnostic", "ReceiveDiagnosticResultCommand")(_c("diagnostic.ses_pages", "get_ses_page_data")(page), conf, pcv=a.get("pcv", 1),
                                                                page_code=page, **_opt(a, alloc="allocation_length"))
    cls = _c("diagnostic.ses_pages", "get_ses_page")(page)
    return cls(conf) if page in (2, 7) else cls()


BUILD = {
    "Read6": _read("Read6Command"), "Read10": _read("Read10Command"), "Read12": _read("Read12Command"), "Read16": _read("Read16Command"),
    "Write6": _write("Write6Command"), "Write10": _write("Write10Command"), "Write12": _write("Write12Command"), "Write16": _write("Write16Command"),
    "WriteSame10": _same("WriteSame10Command"), "WriteSame16": _same("WriteSame16Command"),
    "CompareAndWrite": lambda a, d: _c("compare_and_write", "CompareAndWriteCommand")(a["lba"], d, a["number"], **_opt(a, bs="block_size")),
    "Unmap": lambda a, d: _c("unmap", "UnmapCommand")(_ranges(a)),
    "Inquiry": _inquiry,
    "ReadCapacity10": lambda a, d: _c("read_capacity", "ReadCapacity10Command")(**_opt(a, lba="logical_block_address", pmi="pmi")),
    "ReadCapacity16": lambda a, d: _c("read_capacity", "ReadCapacity16Command")(**_opt(a, lba="logical_block_address", pmi="pmi")),
    "ReportLuns": lambda a, d: _c("report_luns", "ReportLunsCommand")(**_opt(a, select="select_report", alloc="allocation_length",
                                                                             allow="allow_unsupported_addressing_format")),
    "Rtpg": lambda a, d: _c("rtpg", "RTPGCommand")(**_opt(a, format="parameter_data_format", alloc="allocation_length")),
    "CopyParameters": lambda a, d: _c("receive_copy_operating_parameters", "ReceiveCopyOperatingParametersCommand")(
        **_opt(a, alloc="allocation_length", control="control")),
    "LogSense": lambda a, d: _c("log_sense", "LogSenseCommand")(a["page"], **_opt(a, subpage="subpage_code", alloc="allocation_length")),
    "ReceiveDiagnostic": _diagnostic,
    "TestUnitReady": lambda a, d: _c("tur", "TestUnitReadyCommand")(),
    "Reserve6": lambda a, d: _c("reserve", "Reserve6Command")(),
    "Release6": lambda a, d: _c("release", "Release6Command")(),
    "Reserve10": lambda a, d: _c("reserve", "Reserve10Command")(**_opt(a, id="third_party_device_id")),
    "Release10": lambda a, d: _c("release", "Release10Command")(**_opt(a, id="third_party_device_id")),
    "PersistentReserveIn": lambda a, d: _c("persist.input", "PersistentReserveInCommand")(a["action"], **_opt(a, alloc="allocation_length")),
    "PersistentReserveOut": _prout,
}
# what is assumed where an argument is left out (the rest is zero)
DEFAULTS = {"Read6": {"bs": 512}, "Read10": {"bs": 512}, "Read12": {"bs": 512}, "Read16": {"bs": 512}, "Write6": {"bs": 512}, "Write10": {"bs": 512},
            "Write12": {"bs": 512}, "Write16": {"bs": 512}, "WriteSame10": {"bs": 512, "number": 1}, "WriteSame16": {"bs": 512, "number": 1},
            "CompareAndWrite": {"bs": 512}, "ReceiveDiagnostic": {"pcv": 1}, "PersistentReserveOut": {"type": 1}}
VIRTUAL = ("generic", "allow", "as")
# what can be changed on a command that exists
LATE = {"lba": "logical_block_address", "alloc": "allocation_length", "pmi": "pmi", "select": "select_report"}


def setflag(cmd, name, k, v):
    if k in LATE:
        return setattr(cmd, LATE[k], v)
    attr = (PROTECT.get(name, "wrprotect") if k == "protect" else "GROUP_NUMBER" if name == "Unmap" and k == "group" else FLAGS[k])
    if isinstance(attr, tuple):
        setattr(getattr(cmd, attr[0]), attr[1], v)
    else:
        setattr(cmd, attr, v)


def is_flag(name, k):
    return k == "protect" or k in FLAGS


def build(name, a, data=None, conf=None):
    global STYLE
    STYLE = zlib.crc32(repr((name, sorted((k, repr(v)) for k, v in a.items()))).encode()) % 3
    cmd = _diagnostic(a, data, conf) if name == "ReceiveDiagnostic" else BUILD[name](a, data)
    for k, v in a.items():
        if is_flag(name, k) or (name == "ReadCapacity16" and k == "alloc"):
            setflag(cmd, name, k, v)
    return cmd
