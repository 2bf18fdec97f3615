"""The codes, names and constants the library publishes (C35)."""
from importlib import import_module
import plat
plat.install_gevent()
plat.install_os()

VPD = "infi.asi.cdb.inquiry.vpd_pages"
SES = "infi.asi.cdb.diagnostic.ses_pages"
TABLES = {"device types": (VPD, "SCSI_PERIPHERAL_DEVICE_TYPE", None, range(32)), "versions": (VPD, "SCSI_VERSION_NAME", None, range(8)),
          "pages": (VPD, "SCSI_VPD_NAME", None, range(256)), "block limits pages": (VPD, "SCSI_VPD_NAME", 0xb0, range(32)),
          "characteristics pages": (VPD, "SCSI_VPD_NAME", 0xb1, range(32)), "provisioning pages": (VPD, "SCSI_VPD_NAME", 0xb2, range(32)),
          "code sets": (VPD, "SCSI_CODE_SETS", None, range(16)), "designator types": (VPD, "SCSI_DESIGNATOR_TYPES", None, range(16)),
          "associations": (VPD, "SCSI_DESIGNATOR_ASSOCIATIONS", None, range(4)),
          "elements": (SES + ".configuration", "ELEMENT_TYPE_CODES", None, range(256)),
          "element statuses": (SES + ".enclosure_status", "ELEMENT_STATUS_CODE", None, range(16)),
          "fan speeds": (SES + ".enclosure_status", "FAN_SPEED_CODE", None, range(8))}
PERSIST = ("infi.asi.cdb.persist.output", "infi.asi.cdb.persist.input", "infi.asi.cdb.persist")
OPCODES = ["infi.asi.cdb." + m for m in ("read", "write", "write_same", "compare_and_write", "unmap", "reserve", "release", "read_capacity", "persist.input",
                                         "persist.output", "inquiry.standard", "operation_code")]


def members(owner):
    d = owner if isinstance(owner, dict) else vars(owner)
    return {n: v for n, v in d.items() if isinstance(n, str) and isinstance(v, int) and not n.startswith("_")}


def prefixed(modules, prefix):
    out = {}
    for m in modules:
        try:
            found = members(import_module(m))
        except ImportError:
            continue
        out.update((n[len(prefix):], v) for n, v in found.items() if n.startswith(prefix))
    return out


def group(name):
    if name.startswith("PERSISTENT_RESERVE"):
        for m in PERSIST:
            if hasattr(import_module(m), name):
                return members(getattr(import_module(m), name))
    if name == "INQUIRY_PAGE":
        return prefixed([VPD], name + "_")
    if name == "DIAGNOSTIC_PAGE":
        return prefixed([SES], name + "_")
    if name == "ELEMENT_TYPE":
        return prefixed([SES + ".configuration"], name + "_")
    if name == "SCSI_STATUS_CODES":
        return members(import_module("infi.asi").SCSI_STATUS_CODES)
    if name == "SCSI_SENSE_KEY":
        return members(import_module("infi.asi.sense").SCSI_SENSE_KEY)
    return prefixed(OPCODES, name + "_")


def run(case):
    name = case["name"]
    if case["k"] == "group":
        return [{"ev": "group", "name": name, "entries": [[n, v] for n, v in sorted(group(name).items())]}]
    module, table, inside, codes = TABLES[name]
    t = getattr(import_module(module), table)
    if inside is not None:
        t = t[inside]
    entries = []
    for c in codes:
        try:
            v = t[c]
        except KeyError:
            continue
        if isinstance(v, str):
            entries.append([c, v.lower()])
    return [{"ev": "table", "name": name, "entries": entries}]
