"""main.py <driver module> <cases.ndjson> <events.ndjson> <seconds per case>
Runs <driver module>.run(case) -> list of events over every case. Exit 3: the driver itself is broken.
The seconds are of processor time, so that a busy machine is not taken for a hang; a case that blocks gets six times that."""
import importlib, json, signal, sys, traceback


class Watchdog(BaseException):
    pass


def main():
    name, src, dst, limit = sys.argv[1:5]
    try:
        mod = importlib.import_module("d_" + name)
    except ImportError as e:
        if getattr(e, "name", "") == "d_" + name:
            traceback.print_exc()
            sys.exit(3)
        raise           # the code under test can't be imported: every case fails

    fired = []

    def fire(signum, frame):
        fired.append(1)
        wind(0.5, 0.5)                                  # in case it is swallowed
        raise Watchdog("no progress")

    def wind(busy, idle):
        signal.setitimer(signal.ITIMER_PROF, busy)
        signal.setitimer(signal.ITIMER_REAL, idle)
    signal.signal(signal.SIGALRM, fire)
    signal.signal(signal.SIGPROF, fire)
    hangs = 0
    with open(dst, "w") as f:
        for line in open(src):
            case = json.loads(line)
            if hangs >= 6:          # that it hangs is established, the rest would take hours
                f.write("[]\n")
                f.flush()
                continue
            del fired[:]
            seconds = float(limit) if not hangs else min(float(limit), 4)
            wind(seconds, 6 * seconds)
            try:
                events = mod.run(case)
            except Watchdog:
                pass
            finally:
                wind(0, 0)
            if fired:
                hangs += 1
                events = [{"ev": "crash", "why": "hang"}]
            f.write(json.dumps(events, separators=(",", ":")) + "\n")
            f.flush()


main()
