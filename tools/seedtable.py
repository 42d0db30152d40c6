#!/usr/bin/env python3
"""Applies every planted bug to a copy of /repo and writes, into DESIGN.md
below the marker line, which checks report it. Run by hand."""
import json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PC = os.environ.get("PC", V + "/checker/pargocheck")

def one(id):
    m = json.load(open(f"{V}/seeded/{id}/meta.json"))
    d = tempfile.mkdtemp(prefix="seedt", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        subprocess.run(["git", "apply", f"{V}/seeded/{id}/patch.diff"], cwd=d, check=True)
        o = subprocess.run([PC, "all", d, "FMSP"], capture_output=True, text=True).stdout
        return id, m, sorted(set(re.findall(r"^([FMSP]\d\d) ", o, re.M)))
    finally:
        subprocess.run(["rm", "-rf", d])

rows = []
with ThreadPoolExecutor(8) as ex:
    for id, m, ps in ex.map(one, sorted(os.listdir(V + "/seeded"))):
        own = m["property"]
        if own not in ps:
            print("MISSED", id, own, ps)
        others = " ".join(p for p in ps if p != own)
        rows.append((own, f"| {own} | {id} | {m['what_it_breaks']} | {m['needs']} | {'caught' if own in ps else 'missed'} | {others} |"))
rows.sort()
mark = "## Table of planted bugs"
s = open(V + "/DESIGN.md").read().split(mark)[0].rstrip() + "\n\n" + mark + "\n\n"
s += "| property | bug | what it breaks | what it needs | own check | other checks |\n|---|---|---|---|---|---|\n"
s += "\n".join(r for _, r in rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
print(len(rows), "planted bugs")
