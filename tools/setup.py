"""setup_cmd: checks that the tools are there and that every specification parses."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
specs = sorted(glob.glob(os.path.join(here, "spec", "*.tla")))
p = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY"] + specs, cwd=os.path.join(here, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
text = p.stdout.decode()
if p.returncode or "*** Errors" in text or "Fatal errors" in text:
    print(text[-3000:])
    sys.exit(1)
subprocess.check_call(["/opt/venv/bin/python", "-B", "-c", "import infi.asi"], env=dict(os.environ, PYTHONPATH="/repo/src"))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(here, d), exist_ok=True)
print("ready: %d specifications" % len(specs))
