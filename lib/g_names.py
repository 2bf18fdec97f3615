"""C34, C35: what errors say; the codes and names the library publishes."""
import core
import g_pt
from g_cdb import seed
from g_pt import ENV, LINUX, OTHER, DRIVERS, HOSTS, STATUSES, answers, cfg, partial, senses, xchg

PLATS = LINUX + OTHER
TABLES = ["device types", "versions", "pages", "block limits pages", "characteristics pages", "provisioning pages", "code sets", "designator types",
          "associations", "elements", "element statuses", "fan speeds"]
GROUPS = ["PERSISTENT_RESERVE_OUT_SERVICE_ACTION_CODES", "PERSISTENT_RESERVE_OUT_TYPES", "PERSISTENT_RESERVE_IN_SERVICE_ACTION_CODES", "INQUIRY_PAGE",
          "DIAGNOSTIC_PAGE", "ELEMENT_TYPE", "SCSI_STATUS_CODES", "SCSI_SENSE_KEY", "CDB_OPCODE"]


def algo(run, full):
    text = cfg(PLATS, full).replace("AlwaysAllowed NeverSwallowed GoodIsGood Decisive Shown", "Worded Telling")
    run.model("NamesAlgo", cfg_text=text, what="every answer, worded", workers=core.CORES, timeout=3000)


def errors(run):
    rng = run.rng
    pool = senses(rng, run.pick(2000, 20000))
    run.assumptions += ["an error's wording is free: codes are matched to the nearest preceding heading (driver, host, adapter, reason, request, argument, validity, status)"]
    algo(run, False if run.quick else True)
    behs = run.behaviours("PassThroughAlgo", cfg_text=cfg(PLATS, False, True), exhaustive=True)
    by = {p: [] for p in PLATS}
    for b in behs:
        a = {k: v for k, v in b["ans"].items() if v}
        if a.get("status") == 2 or a.get("driver", 0) & 8:
            a["sense"] = rng.choice(pool)
        if b["plat"].startswith("aix"):
            a["adapter"] = rng.choice([0] + list(range(1, 16)) + [16, 255])
        by[b["plat"]].append(xchg(rng, b["plat"], a, n=rng.choice([0, 4])))
    for p in PLATS:
        xs = by[p]
        if run.quick:
            xs = rng.sample(xs, min(len(xs), 1200))
        # every value of every field
        add = lambda **a: xs.append(xchg(rng, p, a, n=4))
        for v in range(256):
            if p in LINUX:
                add(status=v, host=rng.choice(HOSTS), driver=rng.choice(DRIVERS), sense=rng.choice(pool))
                add(driver=v, host=rng.choice(HOSTS), sense=rng.choice(pool))
                add(host=v)
                add(host=v, driver=rng.choice([1, 2, 6, 7]))
            elif p == "solaris":
                add(status=v, reason=rng.randrange(256), rqstatus=rng.randrange(256), sense=rng.choice(pool))
                add(reason=v, rqstatus=rng.randrange(256))
                add(rqstatus=v)
            elif p == "win32":
                add(status=v, sense=rng.choice(pool))
                add(fails=True, errno=v + 1)
                add(fails=True, errno=rng.choice([1 << rng.randrange(31), rng.randrange(1, 1 << 16), rng.randrange(1, 1 << 31), v + 1 << 16]))
            else:
                add(status=v, validity=1, adapter=rng.randrange(20), sense=rng.choice(pool))
                add(status=v, validity=1, adapter=rng.randrange(20), fails=True, sense=rng.choice(pool))
                add(adapter=v, validity=2, status=rng.choice(STATUSES))
                add(validity=v, status=rng.choice(STATUSES), adapter=rng.randrange(20), sense=rng.choice(pool))
                add(fails=True, einval=v)
        for b in rng.sample(pool, run.pick(250, 4000)):
            a = {"status": 2, "sense": b}
            if p.startswith("aix"):
                a["validity"] = 1
            add(**a)
        for _ in range(run.pick(200, 5000)):
            xs.append(partial(xchg(rng, p, answers(rng, p, pool))))
        by[p] = xs
    cases = []
    for p, xs in by.items():
        rng.shuffle(xs)
        cases += [{"k": "errors", "plat": p, "xs": xs[i:i + 25]} for i in range(0, len(xs), 25)]
    run.conform("TraceNames", "pt", cases, env=ENV, timeout=2000)


def published(run):
    algo(run, False)
    cases = [{"k": "table", "name": t} for t in TABLES] + [{"k": "group", "name": g} for g in GROUPS]
    run.conform("TraceNames", "names", cases, env=ENV)
    run.extra["tables"] = len(cases)


CHECKS = {"C34": errors, "C35": published}
TECHNIQUE = "TLA+ contract of what errors say and of the published codes; the executers' wording refines it for every answer (TLC); real errors and tables validated against it"
NOTE = ("Every value of every status field on every platform; the tables and constants in full. Wording is not prescribed.")
