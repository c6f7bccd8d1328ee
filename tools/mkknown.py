#!/usr/bin/env python3
"""Write known-findings.txt: one line per repaired defect, from the fix commits and the property each broke."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = """ad38190 C02|52ef670 C06|6ba2b06 C15|d8a6e98 C06|d6ef8dc C02|8580dce C02|a4708a2 C10|aac17d0 C10|b1c723c C17|20b83db C05|55025ad C04
805e75e C08|23f1fab C04|af1019d C02|9a61516 C09|0800a43 C09|5e2db9a C09|caa6a97 C09|f61babd C16|10f3e04 C13|5536775 C13|3505552 C10|4c3326e C12
b4c46f6 C19|67e17fc C19|3e89de0 C06|00b2e36 C19|0fd74e2 C19|de9b7ba C18|eb2a2a6 C21|8803f17 C02|106de2e C09|4f9fb55 C15|66dab50 C02|de678b1 C11
2b5c505 C11|6a7a743 C12|73d6d2f C22|aef767a C02|509ef99 C09|fb3d9ed C15|eb4fada C09|d708c03 C05|c5a58a3 C17|14a1b26 C17|20f1a38 C17|a20e932 C15
5b30f31 C02|a26bc05 C01|82e5615 C17|1455967 C20"""
PROP = dict(x.split() for x in PROP.replace("\n", "|").split("|"))
EXTRA = os.path.join(HERE, "tools", "fixprops.txt")
if os.path.exists(EXTRA):
    with open(EXTRA) as f:
        PROP.update(x.split() for x in f if x.strip())
out = ["# Genuine defects found by these checks. 'fixed:' entries are repaired in /repo and suppress nothing;",
       "# 'known:' entries are recorded findings, which the checks print as KNOWN-FINDING lines."]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
missing = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        if h[:7] not in PROP:
            missing.append(line)
            continue
        out.append("fixed: property=%s %s %s" % (PROP[h[:7]], h, s[5:]))
path = os.path.join(HERE, "known-findings.txt")
try:
    with open(path) as f:
        out += [x.rstrip("\n") for x in f if x.startswith("known: ")]
except FileNotFoundError:
    pass
with open(path, "w") as f:
    f.write("\n".join(out) + "\n")
print(len(out), "missing:", missing)
