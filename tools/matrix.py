#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {
    "c04-delegated-in-grace": "first missed: calendar arithmetic (AddDate) was not modelled",
    "c08-abbreviated-digest": "first missed: digests were right, wrong or missing only",
    "c08-file-of-that-size-kept": "first missed: a file already there always had another length",
    "c09-shorter-file": "first missed: osshim truncated on every write",
    "c13-rsa-key-as-ecdsa": "first missed: led to C13 CheckKeys",
    "c14-empty-custom-dropped": "first missed: led to empty members in C14 CheckAbsent",
    "c14-empty-role-list-dropped": "first missed: led to C14 CheckAbsent",
    "c22-online-without-cache": "first missed: led to the cache switched off in C22 CheckRules",
    "c25-signs-unescaped": "first missed: led to C25 CheckTexts",
}
missed.update(json.load(open(os.path.join(root, "tools/missed.json"))) if os.path.exists(os.path.join(root, "tools/missed.json")) else {})
rows = []
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", s, "meta.json")))
    rows.append(f"| {s} | {m['property']} | {m['needs'].replace('|', '/')} | {missed.get(s, 'caught as it was')} |")
table = "| planted bug | caught by | needs | history |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
f = os.path.join(root, "DESIGN.md")
t = open(f).read()
t = re.sub(r"(<!-- matrix -->\n).*?(<!-- /matrix -->)", lambda x: x[1] + table + x[2], t, flags=re.S)
open(f, "w").write(t)
