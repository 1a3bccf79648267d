"""Rewrites DESIGN.md's list of planted bugs from the folders in seeded/."""
import collections
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed when first judged
MISSED = set("""c13-window c13-window2 c06-stack c21-samesize c21-partial c17-memo c01-nested-interrupt c17-warn-once c23-newline
c14-fieldsame c02-derived-empty c11-namecase c17-filecache c22-append c07-tabs c18-same-base c20-surrogate c13-chain""".split())
groups = collections.defaultdict(list)
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    groups[d[:3].upper()].append(f"**{d[4:]}**" if d in MISSED else d[4:])
table = "\n".join(f"* {c}: {', '.join(v)}." for c, v in sorted(groups.items()))
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
s, n = re.subn(r"(?m)^(\* C\d\d: .*\.\n)+(?=\n## Damage)", lambda _: table + "\n", s)
assert n == 1
open(path, "w").write(s)
