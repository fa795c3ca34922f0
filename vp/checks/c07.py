"""C07: the built module is the same program as the source."""
from hypothesis import strategies as st

from vp import jsgen, jsoracle, scratch, site
from vp.core import Check, Prop, Violation


def modules(tier):
    return st.lists(jsgen.module(), min_size=1, max_size=3)


def run(case, ctx):
    ok = []
    for s in case:
        if jsoracle.ask("valid", src=s)["err"] is None:
            ok.append(s)
        else:
            ctx.label("invalid-source")
    if not ok:
        return
    with scratch.tempdir() as d:
        site.project(d, {f"src/public/js/m{i}.js": s for i, s in enumerate(ok)})
        try:
            site.build(d)
        except site.BuildFailed as e:
            raise Violation(f"valid modules {ok!r} do not build: {e}")
        for i, s in enumerate(ok):
            out = site.text(d, f"out/www/js/m{i}.js")
            r = jsoracle.ask("compare", a=s, b=out)
            if "invalidOutput" in r:
                raise Violation(f"output is not a valid module ({r['invalidOutput']}); source {s!r}; output {out!r}")
            if r.get("diff"):
                raise Violation(f"another program: {r['diff']}; source {s!r}; output {out!r}")
            if "invalidSource" in r:
                ctx.label("not-for-acorn")
                continue
            ctx.label("valid")
            for c, l in (("`", "template"), ("/", "slash"), ("\\", "escape"), ("import", "import-word"), ("//", "line-comment")):
                if c in s:
                    ctx.label(l)
            if r["nodes"] >= 15:
                ctx.nontrivial()


CHECK = Check(
    "C07", [Prop("program", modules, run, quick=1600, thorough=40000)],
    rule="one to three generated modules (grammar of statements and expressions, all literal forms, divisions and regular expressions, nested "
         "templates, comments and line breaks between tokens), kept if V8 accepts them as a module, built as a site; the output must be a valid "
         "module for V8 whose syntax tree (TypeScript parser: node kinds, operators, names, literal values, regex texts) is that of the source; "
         "non-trivial: a module with at least 15 syntax nodes",
    assumptions=["valid means accepted by V8 of node 22 as a module"])
