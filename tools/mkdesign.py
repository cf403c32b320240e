"""Fills in the generated parts of DESIGN.md (between the markers) from seeded/*/meta.json and MANIFEST.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(HERE + "/DESIGN.md").read()


def put(name, text):
    global s
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + text + m.group(2), s, flags=re.S)


t = "| bug | property | caught by | needs |\n|--|--|--|--|\n"
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    t += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m.get("caught_by", m["property"]), m["needs"].replace("\n", " ").replace("|", "/"))
put("seeded", t)
t = ""
for n in json.load(open(HERE + "/MANIFEST.json"))["not_applicable"]:
    t += "* %s: %s\n" % (n["property"], n["reason"])
put("na", t or "Every listed property is claimed.\n")
open(HERE + "/DESIGN.md", "w").write(s)
