#!/usr/bin/env python3
"""edit.py FILE: replaces one occurrence, keeping CRLF line ends.
stdin: old text, a line '=====', new text."""
import sys
path = sys.argv[1]
old, new = sys.stdin.read().split("\n=====\n")
new = new.rstrip("\n") if not old.endswith("\n") else new
s = open(path, newline="").read()
crlf = "\r\n" in s
if crlf:
    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
assert s.count(old) == 1, f"{s.count(old)} occurrences"
open(path, "w", newline="").write(s.replace(old, new))
