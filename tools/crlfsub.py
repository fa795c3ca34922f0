def sub(path, pairs):
    s = open(path, newline="").read()
    crlf = "\r\n" in s
    if crlf: s = s.replace("\r\n", "\n")
    for a, b in pairs:
        assert s.count(a) == 1, (s.count(a), a)
        s = s.replace(a, b)
    if crlf: s = s.replace("\n", "\r\n")
    open(path, "w", newline="").write(s)
