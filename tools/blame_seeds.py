"""List planted bugs that change only lines which the fix commits added (they would not count)."""
import os, re, subprocess, sys
base = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines()
fixes = {l.split()[0] for l in base if l.split(" ", 1)[1].startswith(("fix:", "hook:"))}
cache = {}
def blame(f):
    if f not in cache:
        o = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", f], text=True).splitlines()
        cache[f] = [l.split()[0].lstrip("^") for l in o]
    return cache[f]
for d in sorted(os.listdir("/verif/seeded")):
    f, n, orig, mine, adj = None, 0, 0, 0, []
    for l in open(f"/verif/seeded/{d}/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-") and not l.startswith("---"):
            m = any(blame(f)[n - 1] == h[:len(blame(f)[n - 1])] for h in fixes); mine += m; orig += not m; n += 1
        elif l.startswith(" "):
            n += 1
    print(d, "orig", orig, "mine", mine, "" if orig else "  <== no original line")
