"""addfix.py PROPERTY 'part of the subject of the fix commit' 'what failed': records a repaired defect."""
import json, subprocess, sys, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
k = json.load(open("known_findings.json"))
p, s, t = sys.argv[1:]
h = [l.split(" ", 1)[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines() if s in l]
assert len(h) == 1, h
k["fixed"].append("fixed: property=%s %s %s" % (p, h[0], t))
json.dump(k, open("known_findings.json", "w"), indent=1)
