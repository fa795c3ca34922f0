#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt from the fix commits in /repo and known_findings/*.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = {
 "C01": "f76f7f5 f80c845 f109acc 0d25f0c 49aa435 baa8c65 56fecc0 1a0bb58",
 "C02": "c8ba80f 3ac25c8",
 "C04": "bdd3d4e 8c177b8 397379d b036c27",
 "C05": "95cca2b b334127",
 "C06": "10ec3c4 fde8936 57c1b19",
 "C07": "aeba885 31f2ddb bfe46f5 6e69e1d b4ead41 5005019 9a05710 24aa43c ad80d6d",
 "C08": "3657f94 eb30cd0",
 "C09": "e3f2eed 75f6676 0500c06 e0f6792 1ce767c",
 "C10": "1c9a3b8 9147d8b 9ebffae 4b342a5",
 "C11": "ba91a0a ec960b3 6aa01e6 72bc7b4 ca48f59",
 "C12": "3870dd5 32e93a7 5330873 c271380 146ccd6 dbbb96b 9492dcc 1df3e5b 3c8ab69",
 "C13": "1a17b52 7d8f82a 8576cbb 0dadef7 09884dd fe9672c 67f7b63",
 "C14": "51d90ac 4a986d4 a4dd481 7458bdf 303b7d8 5a83b7b cf42b6a",
 "C15": "e55900d 15338c8",
 "C16": "c536f0a 3381bd5 b3478b9",
 "C17": "4574786 620bcce",
 "C19": "265252a 262d1a5 6e92a99 485379c f94018d c8ead96",
 "C20": "15e9d98 cc289df",
 "C21": "f5ce1e6 aad84f3",
 "C22": "fc59780",
 "C23": "d0bfd75",
 "C24": "9045aac 70b4458",
 "C25": "b369e01",
 "C27": "ce80d0f 559dd37",
 "C28": "1a2ca81 87f08ee bd06052",
 "C29": "74bf783 8e46a33 834fc7d e383c50",
}
of = {h: p for p, hs in BY.items() for h in hs.split()}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "82658c3..HEAD"], text=True).splitlines()
out = ["# Genuine defects of the pinned tree found by the checks.", '# "fixed:" entries were repaired in /repo and suppress nothing.',
       '# "known:" entries are not repaired; the failing case is in known_findings/<property>.json', "# and the check prints a KNOWN-FINDING line for it.", ""]
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        out.append(f"fixed: property={of.pop(h)} {h} {s[5:]}")
out.append("")
for f in sorted(os.listdir(os.path.join(HERE, "known_findings"))):
    for e in json.load(open(os.path.join(HERE, "known_findings", f))):
        out.append(f"known: property={f[:-5]} {e['id']}: {e['what']}")
assert not of, of
open(os.path.join(HERE, "KNOWN_FINDINGS.txt"), "w").write("\n".join(out) + "\n")
