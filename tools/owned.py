"""Lists planted changes whose old lines are not lines of the original repository."""
import subprocess, glob, re
def sh(*a): return subprocess.run(a, capture_output=True, text=True).stdout
BASE = "1269b8d"
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    ok = tot = 0; f = None; cur = 0
    for line in open(p):
        if line.startswith("--- a/"): f = line[6:].strip(); b = sh("git","-C","/repo","blame","-s",f).splitlines()
        elif line.startswith("@@"): cur = int(re.match(r"@@ -(\d+)", line)[1])
        elif line.startswith("-") and not line.startswith("---"):
            tot += 1; ok += b[cur-1].startswith("^"); cur += 1
        elif line.startswith(" "): cur += 1
    print(p.split("/")[3], ok, "of", tot, "" if ok else "<-----")
