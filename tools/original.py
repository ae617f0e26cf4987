"""Which planted bugs change only lines that the fix commits in /repo added: python3 tools/original.py [REPO]"""
import os, re, subprocess, sys

repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
root = subprocess.run(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
for d in sorted(os.listdir(here)):
    old, f, n = 0, None, 0
    for l in open(os.path.join(here, d, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            bl = subprocess.run(["git", "-C", repo, "blame", "-s", "-l", f], capture_output=True, text=True).stdout.split("\n")
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1))
        elif l.startswith("-") and not l.startswith("---"):
            old += bl[n - 1].lstrip("^").startswith(root[:30])
            n += 1
        elif l.startswith(" "):
            n += 1
    if not old:
        print(d, "changes no original line")
