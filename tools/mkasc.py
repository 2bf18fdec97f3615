"""Writes spec/asc.json, the T10 list of additional sense codes, from the library's reviewed table (run once; the file is then the golden
table). Names are sequences of code points, table[code][qualifier] is <<>> where T10 assigns nothing."""
import json, os, re, sys
sys.path.insert(0, "/repo/src")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
table = [[[] for _ in range(256)] for _ in range(256)]
n = 0
for line in open("/repo/src/infi/asi/sense/asc.py"):
    m = re.match(r'\s*struct.pack\(">BB", 0x(..), 0x(..)\): "(.*)",', line)
    if m:
        c, q = int(m.group(1), 16), int(m.group(2), 16)
        assert not table[c][q]
        table[c][q] = [ord(x) for x in m.group(3)]
        n += 1
T = lambda s: [ord(c) for c in s]
ranges = [{"code": 0x40, "from": 0x80, "prefix": T("DIAGNOSTIC FAILURE ON COMPONENT ")},
          {"code": 0x4D, "from": 0, "prefix": T("TAGGED OVERLAPPED COMMANDS ")},
          {"code": 0x70, "from": 0, "prefix": T("DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF ")}]
json.dump({"table": table, "ranges": ranges, "unknown": T("nknown")}, open(os.path.join(here, "spec", "asc.json"), "w"), separators=(",", ":"))
print(n)
