"""Rewrites the table of planted bugs at the end of DESIGN.md. The clause is taken from the log of tools/try.sh if given: mktable.py [ID=CLAUSE ...]"""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
i = s.index("<!-- table -->")
old = dict(re.findall(r"^\| (\S+) \| C\d+ \|.*\| (.*?) \|$", s[i:], re.M))
old.update(a.split("=") for a in sys.argv[1:])
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    m, n = json.load(open(d + "/meta.json")), os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/").replace("\n", " ")[:200], old.get(n, m["property"])))
open(p, "w").write(s[:i] + "<!-- table -->\n" + "\n".join(rows) + "\n")
