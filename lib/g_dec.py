"""C18-C24: answers, and what the library says they say.  C33: what it packs."""
import core

PLATS = ["linux_ioctl", "linux_ioctl", "linux_ioctl", "solaris", "aix"]


def rb(rng, n):
    k = rng.random()
    if k < 0.1:
        return bytes(n)
    if k < 0.2:
        return b"\xff" * n
    if k < 0.35:                                    # a single bit
        b = bytearray(n)
        if n:
            b[rng.randrange(n)] = 1 << rng.randrange(8)
        return bytes(b)
    return bytes(rng.getrandbits(8) for _ in range(n))


def text(rng, n):
    s = bytes(rng.randrange(0x21, 0x7f) if rng.random() < 0.9 else 0x20 for _ in range(rng.choice([n, n, rng.randrange(n + 1)])))
    if n > 2 and len(s) > 1 and rng.random() < 0.1:          # a NUL or blanks within it
        i = rng.randrange(len(s) - 1)
        s = s[:i] + rng.choice([b"\0", b"\0\0", b"  ", b" \0"])[:len(s) - 1 - i] + s[i:]
        s = s[:n]
    if s and rng.random() < 0.12:                            # control characters are none of the padding
        i = rng.choice([0, len(s) - 1, len(s) - 1, rng.randrange(len(s))])
        s = s[:i] + bytes([rng.choice([9, 9, 10, 13, 11, 12, 1, 0x1c, 0x1f, 0x7f])]) + s[i + 1:]
    return s + rng.choice([b" ", b"\0"]) * (n - len(s))


def inquiry(rng):
    add = rng.choice([31, 31, 32, 51, 52, 53, 55, 56, 57, 58, 59, 60, 61, 69, 70, 71, 75, 91, 92, 93, 95, 0, 5, 30, 122, 250, 255, rng.randrange(256)])
    b = bytearray(rb(rng, max(add + 5, 36)))
    b[4] = add
    b[8:36] = text(rng, 8) + text(rng, 16) + text(rng, 4)
    return bytes(b)


EUI, NAA = (8, 12, 16), {2: 8, 3: 8, 5: 8, 6: 16}


def designator(rng, ty=None):
    ty = rng.choice([0, 1, 2, 2, 2, 3, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, rng.randrange(11, 16)]) if ty is None else ty
    n = rng.choice([0, 1, 4, 8, 13, 16, 20, 36, rng.randrange(64)])
    if ty == 1:
        body = text(rng, 8) + rb(rng, n)
    elif ty == 2:
        body = rb(rng, rng.choice(EUI))
    elif ty == 3:
        k = rng.choice(list(NAA))
        body = bytearray(rb(rng, NAA[k]))
        body[0] = body[0] & 15 | k << 4
    elif ty in (4, 5, 6):
        body = rb(rng, 4)
    elif ty == 7:
        body = rb(rng, 16)
    elif ty == 8:
        body = b"iqn.2009-11.com.x:" + rb(rng, n)
    else:
        body = rb(rng, n)
    h = bytearray(rb(rng, 4))
    h[1] = h[1] & 0xf0 | ty
    h[3] = len(body)
    return bytes(h) + bytes(body)


def vpd_head(rng, page, n):
    return rb(rng, 1) + bytes([page]) + n.to_bytes(2, "big")


def vpd(rng, page, most=252):
    if page == 0:
        body = bytes(sorted({0, 128, 131} | {rng.randrange(256) for _ in range(rng.choice([0, 3, 20, 200]))})) if rng.random() < 0.8 else \
            rb(rng, rng.choice([0, 1, 2, 50, 248]))
    elif page == 0x80:
        body = text(rng, rng.choice([0, 1, 4, 8, 20, 36, 100, 200, 248] if most < 300 else [252, 256, 300, 512, 1000]))
        if rng.random() < 0.2:
            body = b"   " + body[3:]
    elif page == 0x83:
        body = b""
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 10] if most < 300 else [10, 20, 40])):
            d = designator(rng)
            if len(body) + len(d) <= most - 4:
                body += d
    elif page == 0x89:
        b = bytearray(rb(rng, 572))
        b[8:36] = text(rng, 8) + text(rng, 16) + text(rng, 4)
        for a, n in ((80, 20), (106, 8), (114, 40)):
            b[a:a + n] = text(rng, n)
        b[0:4] = vpd_head(rng, page, 568)
        return bytes(b)
    elif page == 0xb0:
        body = rb(rng, rng.choice([60, 60, 40, 64]))
    elif page == 0xb2:
        body = rb(rng, 4) + (designator(rng, rng.choice([0, 1, 3, 2, 8, 9])) if rng.random() < 0.5 else b"")
    elif page == 0xc0:
        body = rb(rng, rng.choice([2, 4, 60]))
    else:
        body = rb(rng, rng.choice([0, 1, 4, 12, 60, 252, 300, 700, 1020]) if rng.random() < 0.3 else rng.randrange(64))
    return vpd_head(rng, page, len(body)) + body


def keys(rng, n):
    gen = rb(rng, 4)
    return gen + (8 * n).to_bytes(4, "big") + b"".join(rb(rng, 8) for _ in range(n))


def registrant(rng):
    n = rng.choice([24, 24, 24, 8, 44, 1, 2, 220, 256, rng.randrange(1, 60)])
    b = bytearray(rb(rng, 24 + n))
    b[20:24] = n.to_bytes(4, "big")
    return bytes(b)


def prin(rng, action):
    if action == 0:
        return keys(rng, rng.choice([0, 1, 2, 3, 8, 20, 33, 64, rng.choice([31, 32, 63, 65, 127, 128, 256, 513])]))
    if action == 1:
        if rng.random() < 0.3:
            return rb(rng, 4) + bytes(4)
        return rb(rng, 4) + b"\0\0\0\x10" + rb(rng, 16)
    if action == 2:
        return b"\0\x08" + rb(rng, 6)
    body = b"".join(registrant(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8, rng.choice([11, 16, 32, 70])])))
    return rb(rng, 4) + len(body).to_bytes(4, "big") + body


def luns(rng, bad=False):
    n = rng.choice([0, 1, 1, 2, 3, 10, 60, rng.choice([31, 32, 64, 128, 256, 300, 513])])
    items = []
    for i in range(n):
        l = rng.choice([i, rng.randrange(256), rng.randrange(16384), 16383, 255, 256])
        items.append(l.to_bytes(2, "big") + bytes(6))
    if bad and items:
        i = rng.randrange(n)
        k = rng.random()
        if k < 0.4:
            x = bytearray(items[i])
            x[0] |= rng.choice([0x40, 0x80, 0xc0])
            items[i] = bytes(x)
        elif k < 0.8:
            x = bytearray(items[i])
            x[rng.randrange(2, 8)] = 1 << rng.randrange(8)
            items[i] = bytes(x)
        else:
            items[i] = rb(rng, 8)
    return (8 * n).to_bytes(4, "big") + rb(rng, 4) + b"".join(items)


def group(rng):
    n = rng.choice([0, 1, 1, 2, 3, 4, 8, 16, rng.randrange(64), rng.choice([63, 64, 127, 128, 129, 254, 255])])
    b = bytearray(rb(rng, 8 + 4 * n))
    b[7] = n
    return bytes(b)


def rtpg(rng, fmt):
    body = b"".join(group(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))
    if fmt:
        body = bytes([0x10 | rng.getrandbits(4) | rng.getrandbits(1) << 7]) + rb(rng, 3) + body
        if rng.random() < 0.2:
            body = rb(rng, 1) + body[1:]
    return len(body).to_bytes(4, "big") + body


def copy(rng):
    n = rng.choice([0, 1, 3, 16, 40, 255])
    b = bytearray(rb(rng, 44 + n))
    b[43] = n
    return bytes(b)


def conf(rng, types=None, most=6):
    """A configuration page and its element types."""
    es, ts = [], []
    sub = rng.choice([0, 0, 0, 1, 2, 3])
    for i in range(sub + 1):
        n = rng.choice([36, 36, 40, 37, 100])
        b = bytearray(rb(rng, 4 + n))
        b[3] = n
        b[12:40] = text(rng, 8) + text(rng, 16) + text(rng, 4)
        k = rng.choice([0, 1, 1, 2, 3]) if types is None else 0
        if types is not None and i == sub:
            k = len(types)
        b[2] = k
        es.append(bytes(b))
        for j in range(k):
            ty = rng.choice([rng.randrange(26), rng.randrange(1, 26), 0x9e, rng.randrange(256)]) if types is None else types[j]
            ts.append((ty, rng.choice([0, 1, 1, 2, 3, 5, 20]), rng.choice([0, 4, 11, 30])))
    heads = b"".join(bytes([t, n, rng.randrange(4), l]) for t, n, l in ts)
    texts = b"".join(text(rng, l) for t, n, l in ts)
    body = rb(rng, 4) + b"".join(es) + heads + texts
    return bytes([1, sub]) + len(body).to_bytes(2, "big") + body, ts


def ses(rng, page, types=None):
    c, ts = conf(rng, types)
    if page == 1:
        return c, b""
    if page == 2:
        body = rb(rng, 4) + b"".join(rb(rng, 4) for t, n, l in ts for _ in range(n + 1))
        return bytes([2]) + rb(rng, 1) + len(body).to_bytes(2, "big") + body, c
    if page == 7:
        body = rb(rng, 4)
        for t, n, l in ts:
            for _ in range(n + 1):
                d = rb(rng, rng.choice([0, 4, 10, 40, 255, 256, 300, 511, 512, 513, 700, 1024, 2047]) if rng.random() < 0.2 else rng.randrange(20))
                if len(body) + len(d) > 16000:
                    d = d[:8]
                body += rb(rng, 2) + len(d).to_bytes(2, "big") + d
        return b"\7\0" + len(body).to_bytes(2, "big") + body, c
    body = rb(rng, rng.choice([1, 3, 10, 60, 200, 251, 252, 300, 512, 1025, 4096]))
    return bytes([page]) + rb(rng, 1) + len(body).to_bytes(2, "big") + body, b""


def around(rng, n, least, most=65535):
    """An allocation length for an answer of n bytes."""
    return min(most, max(least, rng.choice([n, n, n + 1, n + rng.randrange(40), n - 1, n - 8, n - rng.randrange(n + 1), least, n + 300, most])))


def case(rng, kind, par, page, **kw):
    par = dict({"page": 0, "action": 0, "alloc": 16384, "allow": False, "format": 0, "conf": []}, **par)
    par["conf"] = list(par["conf"])
    return dict({"k": "dec", "kind": kind, "par": par, "page": list(page), "plat": rng.choice(PLATS)}, **kw)


def c18_case(rng):
    b = inquiry(rng)
    garbage = rb(rng, rng.choice([0, 0, 8, 60]))
    k = rng.random()
    if k < 0.2:
        return case(rng, "inquiry", {}, b)
    return case(rng, "inquiry", {}, b + garbage, alloc=around(rng, len(b), 36, rng.choice([255, 512, 4096])))


def c19_case(rng, pages=(0, 0, 0x80, 0x80, 0x89, 0xb0, 0xb0, 0xb2, 0xb2, 0xc0, None)):
    page = rng.choice(pages)
    if page is None:
        page = rng.choice([x for x in range(256) if x not in (0, 0x80, 0x83, 0x89, 0xb0, 0xb2, 0xc0)])
    plain = rng.random() < 0.5
    b = vpd(rng, page, 252 if plain or rng.random() < 0.7 else 1500)
    if plain:
        return case(rng, "vpd", {"page": page}, b)
    g = bytes(40) if page == 0xb2 and len(b) == 8 else rb(rng, 40)
    g = g[:rng.choice([0, 1, 4, 12, 40])]
    return case(rng, "vpd", {"page": page}, b + g, alloc=min(65535, rng.choice([len(b), len(b) + 1, len(b) + len(g), len(b) + len(g) + 50, 4096])))


def c20_case(rng):
    return c19_case(rng, (0x83,))


def c21_case(rng):
    action = rng.choice([0, 1, 2, 3, 3])
    b = prin(rng, action)
    if rng.random() < 0.25 and len(b) <= 520:
        return case(rng, "prin", {"action": action}, b)
    g = b"" if action == 1 and b[7] == 0 else rb(rng, rng.choice([0, 0, 5, 30]))
    return case(rng, "prin", {"action": action}, b + g, alloc=around(rng, len(b), 8, rng.choice([520, 4096, 65535])))


def c22_case(rng):
    b = luns(rng, rng.random() < 0.3)
    allow = rng.random() < 0.4
    if rng.random() < 0.3:
        return case(rng, "luns", {"allow": allow}, b)
    n = around(rng, len(b), rng.choice([16, 16, 16, 0]), rng.choice([4096, 16384]))
    return case(rng, "luns", {"allow": allow, "alloc": n}, b + rb(rng, rng.choice([0, 0, 16, 24])), alloc=n)


def c23_case(rng):
    k = rng.choice(["cap10", "cap16", "rtpg", "rtpg", "rtpg", "copy"])
    if k == "cap10":
        return case(rng, k, {}, rb(rng, 8))
    if k == "cap16":
        return case(rng, k, {}, rb(rng, 32))
    if k == "copy":
        b = copy(rng)
        return case(rng, k, {}, b, alloc=around(rng, len(b), 44, 4096))
    f = rng.randrange(2)
    b = rtpg(rng, f)
    if rng.random() < 0.3:
        return case(rng, k, {"format": f}, b)
    return case(rng, k, {"format": f}, b + rb(rng, rng.choice([0, 0, 12])), alloc=around(rng, len(b), 8, rng.choice([4096, 16384])))


def c24_case(rng, types=None):
    page = rng.choice([1, 2, 2, 2, 7, 7, 0, 0x80, rng.choice([3, 4, 5, 6, 8, 9, 10, 0x81, 0xff, rng.randrange(11, 128)])]) if types is None else 2
    b, c = ses(rng, page, types)
    if rng.random() < 0.6 and len(b) <= 255:
        return case(rng, "ses", {"page": page, "conf": c}, b)
    g = rb(rng, rng.choice([0, 0, 8, 40]))
    return case(rng, "ses", {"page": page, "conf": c}, b + g, alloc=len(b) + rng.choice([0, len(g), len(g) + 20]))


CFG = """SPECIFICATION Spec
CONSTANTS Which = {%s}
 Depth = %d
INVARIANTS OneValue Whole Shown
CHECK_DEADLOCK FALSE
"""


def shapes(run, which, depth):
    """The answers of the model: one bit at a time, and lists item by item."""
    out = []
    for a in run.behaviours("DecodeAlgo", cfg_text=CFG % (", ".join('"%s"' % w for w in which), depth), exhaustive=True):
        kind, par, page = a["kind"], a["par"], bytes(a["page"])
        c = {"k": "dec", "kind": kind, "par": par, "page": list(page), "plat": run.rng.choice(PLATS)}
        if kind not in ("cap10", "cap16") and (kind == "copy" or run.rng.random() < 0.25 or kind == "inquiry" and run.rng.random() < 0.7):
            c["alloc"] = max(len(page), 16) + run.rng.choice([0, 0, 4, 20])
        out.append(c)
    return out


def check(make, quick, thorough, which=()):
    def f(run):
        cs = [make(run.rng) for _ in range(run.pick(quick, thorough))]
        if which:
            cs = shapes(run, which, run.pick(2, 3)) + cs
        dec = [c for c in cs if c["k"] == "dec"]
        if dec:
            for _ in range(len(dec) // 5):
                k = run.rng.choice([2, 2, 3])
                o = list(range(k))
                run.rng.shuffle(o)
                cs.append({"k": "decs", "cs": run.rng.sample(dec, k), "order": o, "nest": run.rng.random() < 0.5})
        run.conform("TraceDecode", "dec", cs)
    return f


def answer(rng, name, a):
    """An answer the library can decode to this command (see g_cdb)."""
    if name == "Inquiry":
        return list(vpd(rng, a["page"]) if a.get("evpd") else inquiry(rng))
    if name == "ReadCapacity10":
        return list(rb(rng, 8))
    if name == "ReadCapacity16":
        return list(rb(rng, 32))
    if name == "ReportLuns":
        return list(luns(rng, rng.random() < 0.2))
    if name == "Rtpg":
        return list(rtpg(rng, a.get("format", 0)))
    if name == "CopyParameters":
        return list(copy(rng))
    if name == "PersistentReserveIn":
        return list(prin(rng, a["action"] if a["action"] < 4 else 0))
    return list(ses(rng, a["page"])[0])


def pr_list(rng, move):
    b = bytearray(rb(rng, 24))
    b[16:20] = bytes(4)
    if move:
        t = rb(rng, rng.choice([1, 8, 24, 24, 44, 228]))
        b[16:20] = bytes([0]) + bytes([rng.randrange(4)]) + rb(rng, 2)
        b[20:24] = len(t).to_bytes(4, "big")
        return bytes(b) + bytes([t[0] & 0xcf]) + t[1:]
    b[20] &= 0x0d
    b[21:24] = bytes(3)
    return bytes(b)


def pack_page(rng, kind, par, ty):
    if kind == "inquiry":
        while True:
            b = inquiry(rng)
            if b[4] <= 31 or b[4] >= 31 + 24:
                return b
    if kind == "designator":
        return designator(rng, ty)
    if kind == "vpd":
        return vpd(rng, par["page"], rng.choice([252, 252, 1500]) if par["page"] in (0x80, 0x83) else 252)
    if kind == "copy":
        return copy(rng)
    if kind == "transportid":
        return rb(rng, rng.choice([1, 2, 8, 24, 24, 24, 44, 228]))
    return pr_list(rng, par["action"] == 7)


GROWN = {("inquiry", None): ["extended", "product_identification"], ("designator", 0): ["vendor_specific_identifier"],
         ("designator", 1): ["vendor_specific_identifier", "t10_vendor_identification"], ("designator", 7): ["md5_logical_unit_identifier"],
         ("designator", 8): ["scsi_name_string"], ("copy", None): ["implemented_descriptor_list", "held_data_limit"]}


def c33_case(rng):
    kind = rng.choice(["inquiry", "inquiry", "designator", "designator", "designator", "vpd", "copy", "transportid", "prout"])
    par = {"page": 0, "action": 0, "alloc": 16384, "allow": False, "format": 0, "conf": []}
    ty = None
    if kind == "vpd":
        par["page"] = rng.choice([0x80, 0x80, 5, 0xd0, 0, 0x83, 0x83, 0x89, 0xb0, 0xc0])
    elif kind == "designator":
        ty = rng.randrange(16)
    elif kind == "prout":
        par["action"] = rng.choice([0, 7])
    c = {"k": "pack", "kind": kind, "par": par, "page": list(pack_page(rng, kind, par, ty)), "how": rng.choice(["same", "made", "set"]),
         "garbage": rng.choice([0, 0, 255, rng.randrange(256)])}
    if kind == "prout" and par["action"] == 7 and c["how"] == "made":
        par["action"] = 7
    names = GROWN.get((kind, ty)) or (["designator"] if kind == "designator" and ty >= 9 else None) or \
        ({0x80: ["product_serial_number"], 5: ["page_data"], 0xd0: ["page_data"]}.get(par["page"]) if kind == "vpd" else None)
    if names and rng.random() < 0.6:
        c["other"] = list(pack_page(rng, kind, par, ty))
        c["names"] = rng.sample(names, rng.randrange(1, len(names) + 1))
    if rng.random() < 0.2:
        c["again"] = True
    return c


TECHNIQUE = ("TLA+ specification of the decoded structures (Decode.tla), model-checked (DecodeAlgo.tla), with trace validation of the values the real commands "
             "return against a device that answers them")
NOTE = ""
CHECKS = {"C18": check(c18_case, 1600, 16000, ["inquiry"]), "C19": check(c19_case, 1800, 18000, ["vpd"]),
          "C20": check(c20_case, 1400, 14000, ["designator"]), "C21": check(c21_case, 1800, 18000, ["prin", "keys"]),
          "C22": check(c22_case, 1600, 16000, ["luns"]), "C23": check(c23_case, 1800, 18000, ["rtpg", "rtpgx", "cap10", "cap16", "copy"]),
          "C24": check(c24_case, 1200, 10000, ["ses"]), "C33": check(c33_case, 2500, 25000)}
