"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json ("by" in BY: other checks seen to report it)"""
import glob
import json
import os

BY = {"C03-offset-zero": "C04 C08", "C06-crlf": "C08", "C10-empty-string": "C11", "C15-visitor-cache": "C16 C18", "C17-using-set": "C03 C04", "C15-decimal-cache": "C10",
      "C16-lambda-names": "(after the family `constructs` was added)", "C10-concat-char": "(after `parameters at their bounds` was added)", "C16-option-mode": "C15 (both after options were shared and unprintable trees added)", "C03-large-limit": "C04 (after `row counts` was added)", "C18-same-operands": "(after `one object in several places` was added)", "C20-nested-same": "(after `repeated arguments and towers of calls` was added)", "C09-qualified-function": "(after `names made of other names` was added)", "C12-lateral-scope": "(after `relations around queries` was added)"}
here = os.path.dirname(os.path.abspath(__file__))
rows = ["| bug | needs | by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    name = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s |" % (name, m["needs"].replace("|", "\\|").replace("\n", " "), " ".join([m["property"]] + ([BY[name]] if name in BY else []))))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
head = s[:s.index("## Planted bugs")]
open(p, "w").write(head + """## Planted bugs

Each in `seeded/<id>/`; all pass the 108 stable tests and fail their demonstration. "by" = the checks seen to report it
(the property's own check first). The table is written by `mkseeds.py`.

""" + "\n".join(rows) + "\n")
