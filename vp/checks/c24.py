"""C24: the lookahead reader against slicing of the whole text."""
import io
import os
import re

from hypothesis import strategies as st

from vanillaplusjs.build.ioutil import PeekableTextIO, PreprocessedTextIO
from vp import scratch
from vp.core import Check, Prop, Violation

ALPHA = ["a", "b", "\n", "\r", "\r\n", "\f", "\t", " ", "é", "\u2028", "😀", "\r\r\n", "\n\r", "xyz" * 5]


def texts(plain):
    pieces = [p for p in ALPHA if not (plain and "\r" in p)]
    return st.lists(st.sampled_from(pieces), max_size=30).map("".join)


def ops(tier):
    n = st.one_of(st.integers(1, 4), st.integers(1, 40), st.just(-1))
    op = st.tuples(st.sampled_from(["read", "peek", "peek", "read"]), n)
    return st.lists(op, min_size=1, max_size=40)


def strat(tier):
    return st.fixed_dictionaries({
        "text": st.one_of(texts(False), texts(False), st.text(max_size=12),
                          st.lists(st.sampled_from(["a", "\ud800", "\udfff", "\r", "\n"]), max_size=8).map("".join)),
        "pre": st.booleans(),
        "file": st.booleans(),
        "ops": ops(tier)})


def model_text(text, pre):
    if not pre:
        return text
    text = re.sub("\r\n|\r|\f", "\n", text)
    return re.sub("[\ud800-\udfff]", "\ufffd", text)


def run(case, ctx):
    text = case["text"]
    if case["file"]:
        try:
            text.encode("utf-8")
        except UnicodeEncodeError:
            case = dict(case, file=False)
    with scratch.tempdir() as d:
        if case["file"]:
            p = os.path.join(d, "t")
            with open(p, "w", newline="") as f:
                f.write(text)
            fp = open(p, "r", newline="")
        else:
            fp = io.StringIO(text, newline="")
        try:
            drive(case, ctx, fp, text)
        finally:
            fp.close()


def drive(case, ctx, fp, text):
    r = PeekableTextIO(fp)
    if case["pre"]:
        r = PreprocessedTextIO(r)
    want = model_text(text, case["pre"])
    pos = 0
    hist = []
    for op, n in case["ops"]:
        exp = want[pos:] if n == -1 else want[pos:pos + n]
        got = getattr(r, op)(n)
        hist.append((op, n))
        if (got or "") != exp:
            raise Violation(f"{hist[-6:]} on {text!r} at {pos}: got {got!r}, want {exp!r}")
        if got is None and pos < len(want):
            raise Violation(f"{hist[-6:]}: end reported at {pos} of {len(want)}")
        if op == "read":
            pos += len(exp)
    rest = want[pos:]
    out = ""
    for _ in range(len(rest) + 1):
        c = r.peek(1)
        if not c:
            break
        if r.read(1) != c:
            raise Violation(f"peek and read disagree at {pos + len(out)} of {text!r}")
        out += c
    if out != rest:
        raise Violation(f"rest of {text!r} from {pos}: got {out!r}, want {rest!r}")
    if r.read(1) or r.peek(1) or r.read(-1):
        raise Violation("data after the end")
    if len(case["ops"]) >= 3 and len(text) > 3 and pos > 0:
        ctx.nontrivial()
    if case["pre"] and "\r\n" in text:
        ctx.label("crlf")
    if any(o == ["peek", -1] or o == ("peek", -1) for o in case["ops"]):
        ctx.label("peek-all")


CHECK = Check(
    "C24", [Prop("drive", strat, run, quick=12000, thorough=300000)],
    rule="a text (newline variants, surrogates, astral characters), plain or preprocessed reader over a file or string, "
         "and up to 40 peeks and reads, compared with slicing the (normalised) text; non-trivial: three or more "
         "operations, text longer than 3, something read",
    assumptions=["the underlying object is a TextIOBase: read(n) is short only at the end of the data",
                 "at the end both None and the empty string are accepted"])
