"""Writes /verif/known_findings.txt from the fix: commits of /repo."""
import os
import subprocess

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = """f189206 C10
b5da344 C19
9c76269 C19
aa4dbba C20
1d79994 C08
888379a C08
8e8aa61 C09
6ebf779 C09
11aeb2b C03
b6496f3 C08
c602fbc C08
7a3b598 C06
3459487 C02
8fc95cb C03
4b2210b C05
300ca06 C07
5eaf1b9 C05
bc154dc C04
6d9cca4 C04
d2330f0 C05
80c0808 C05
88e3d20 C07
edf228d C05
4ad4116 C05
84e76b4 C03
4da82f8 C23
58af10c C24
e729e1b C24
8ce8a5e C01
231131d C28
113287c C13
55ef149 C16
40f0c37 C16
123fc25 C17
b0566fc C22
0c3694e C20
c9c3e55 C20
0743d35 C11
6de9f92 C25
063f268 C32
a726891 C32
08e960d C30
72bf2d1 C32
0e01b05 C32
7e30f35 C07
c4c9915 C02
076ee38 C15
b4efb65 C23
c20c6a5 C30
e911a47 C32
cd21995 C32"""
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
                     capture_output=True, text=True).stdout.splitlines()
prop = dict(x.split() for x in PROP.splitlines())
with open(os.path.join(HERE, "known_findings.txt"), "w") as f:
    f.write("# fixed: defects repaired by a fix: commit in /repo (suppress "
            "nothing)\n# KNOWN: property=<id> key=<key> <text> would suppress "
            "that key only; there is none\n")
    for line in log:
        h, _, s = line.partition(" ")
        if s.startswith("fix: "):
            f.write("fixed: property=%s %s %s\n" % (prop.pop(h), h, s[5:]))
assert not prop, prop
