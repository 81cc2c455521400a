#!/usr/bin/env python3
"""Lists the repairs of /repo in known-findings.txt, from the table below and the git log."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for l in """c052b1e C06
d607e6e C02
ae91dbe C01
b18c405 C02
095a7b7 C01
a189da2 C01
99a73e3 C03
49184af C25
2a82aee C03
93e4c89 C03
d91da89 C06
f2b5f53 C05
257c7c1 C05
6441fad C04
d4d6496 C07
9a569de C07
2f38537 C15
862bf1a C14
2fd4de4 C13
a70abdd C12
2605728 C13
1daeb01 C15
19f6e9e C12
86eb6a1 C15
7f85ae0 C23
8e50a7f C18
b7889a3 C16
f8b7c66 C25
14c0f14 C18
28598f6 C18
915d924 C17
06960fb C05
e14b90e C02
71e731d C02
5c34926 C10
526a5ab C08
fdf7c64 C08
359ef72 C09
4f3d977 C09
e940966 C09
07e7fce C09
3670f94 C09
2e11fa6 C09
76da226 C08
16d2d16 C09
26af58b C23
e50c8de C11
b779b63 C11
5d970ee C10
7e33135 C09
b0c02ee C09
0c5ec8b C18
07257f3 C19
4b57679 C19
f1b4390 C20
05f23e9 C22
2dfc19c C21
1e2b791 C21
e9a9b83 C23
674f181 C23
6aebb21 C24
68e70b8 C25
c68bf33 C26
3009ca0 C26
0ce27c8 C26
2bcf81e C27
f6c55e5 C27
2bf2214 C09
d6ac0a1 C26
95eda83 C26
06f1c19 C26
f82b63c C26
7ae2ba2 C09
5ad8dde C30
da63f83 C30""".splitlines():
    a, b = l.split()
    PROP[a] = b
import sys
for a in sys.argv[1:]:
    pass
out = ["# Defects found in wreport. 'fixed' entries suppress nothing; 'finding' entries name the case that fails.",
       "# finding: property=<id> match=<text of the command> <what fails>"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: ") and h[:7] in PROP:
        out.append("fixed: property=%s %s %s" % (PROP[h[:7]], h[:7], s[5:]))
    elif s.startswith("fix: "):
        print("no property for", l) if h > "" and h[:7] not in PROP else None
for l in open(os.path.join(HERE, "tools/findings.txt")) if os.path.exists(os.path.join(HERE, "tools/findings.txt")) else []:
    out.append(l.rstrip("\n"))
open(os.path.join(HERE, "known-findings.txt"), "w").write("\n".join(out) + "\n")
