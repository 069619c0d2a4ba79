"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks |", "| --- | --- | --- |"]
for d in sorted(glob.glob(root + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    by = m.get("caught_by", m["property"])
    rows.append("| %s | %s | %s |" % (os.path.basename(d), by, m["what_it_breaks"].replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeded table.*?-->\n).*?(\n<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + m.group(2), s, flags=re.S)
open(p, "w").write(s)
