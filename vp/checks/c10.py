"""C10: the built stylesheet has the same tokens as the source."""
from hypothesis import strategies as st

from vp import cssgen, cssref, scratch, site
from vp.core import Check, Prop, Violation


def url_values(toks):
    """The values of unquoted urls and of strings in url()."""
    inside = False
    for t in toks:
        if t[0] == "url":
            yield t[1]
        elif t[0] == "function" and t[1].lower() == "url":
            inside = True
        elif t[0] == ")":
            inside = False
        elif t[0] == "string" and inside:
            yield t[1]


def site_url(v):
    return (v.startswith("/") and not v.startswith("//") and "?" not in v and "#" not in v) or v.startswith("data:image/")


def sheets(tier):
    def valid(s):
        try:
            toks = cssref.check_valid(s)
        except cssref.Invalid:
            return False
        return not any(site_url(v) for v in url_values(toks))

    one = st.one_of(cssgen.sheet(), cssgen.sheet(), cssgen.soup().filter(valid)).filter(valid)
    return st.lists(one, min_size=1, max_size=5)


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i, x, y
    i = min(len(a), len(b))
    return i, (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)


def run(case, ctx):
    with scratch.tempdir() as d:
        site.project(d, {f"src/public/css/s{i}.css": s for i, s in enumerate(case)})
        try:
            site.build(d)
        except site.BuildFailed as e:
            raise Violation(f"valid stylesheets {case!r} do not build: {e}")
        for i, s in enumerate(case):
            out = site.text(d, f"out/www/css/s{i}.css")
            want = cssref.normal(cssref.check_valid(s))
            got = cssref.normal(cssref.tokenize(out))
            if want != got:
                n, x, y = first_difference(want, got)
                raise Violation(f"token {n}: source has {x}, output has {y}; source {s!r}; output {out!r}")
    kinds = {t[0] for t in want}
    ctx.label(*kinds)
    if any("\\" in s for s in case):
        ctx.label("has-escape")
    if any(len(cssref.normal(cssref.tokenize(s))) > 12 for s in case):
        ctx.nontrivial()


CHECK = Check(
    "C10", [Prop("tokens", sheets, run, quick=2500, thorough=60000)],
    rule="one to five generated stylesheets (rules, at-rules, declarations, selectors, escapes, number forms, An+B, unicode ranges, comments and "
         "white space anywhere, and valid token soups) built as a site; the output is read with an independent CSS Syntax 3 tokenizer and must "
         "have the source's tokens; non-trivial: a sheet with more than 12 tokens",
    assumptions=["valid means: no parse error at the token level and no NUL character", "amount and kind of white space within a run are not significant",
                 "numbers: same exact decimal value, same integer/number type and same sign character"])
