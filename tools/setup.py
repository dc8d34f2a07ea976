"""Nothing has to be built: checks that the tools are there and the specification parses."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(os.path.join(HERE, "..", "spec"))
for f in sorted(glob.glob("*.tla")):
    p = subprocess.run(["tla-sany", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout)
        sys.exit(1)
print("ok")
