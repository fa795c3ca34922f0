"""C13: icon commands generate the documented classes and images."""
import re

from hypothesis import strategies as st
from PIL import ImageColor

from vp import cssref, scratch, site
from vp.core import Check, Prop, Violation

NAMED = dict({k: v for k, v in ImageColor.colormap.items() if isinstance(v, str)}, DarkSeaGreen="#8fbc8f", Black="#000000", LightGoldenRodYellow="#fafad2")
HEXES = ["#333", "#333333", "#abc", "#AaBbCc", "#0f0f0f", "#a1b2c3", "#FFF", "#000", "#123456", "#e0e0e0"]
COLORS = ["primary", "primary-dark", "primary-light", "disabled", "x", "a-b_c", "Cé", "all-colors", "medium"]
SIZES = ["large", "medium", "small", "xs", "a-b", "primary"]
ICONS = ["x", "navbar-toggler", "arrow_2", "é", "btn"]
NOISE = ["--font: Arial, sans-serif", "font: 1em/2 x", "--x:{a:b;c:d}", "--col-fn: rgb(1, 2, 3)", "--col-var: var(--col-primary)", "--col-long: #12345678", "--col-bad: #ggg", "margin: 0", "--empty:", "/* --col-no: #111; */color:red", "--icon-size: 3px",
         "--shadow: 0 0 2px rgba(0,0,0,.5)", "--col-two: red blue", "--a: url(data:x;y)"]
BEFORE = ["", ".a{color:red}", "@media (min-width: 1px) { :root { --col-primary: #eee; } }", "a:hover{color:blue}", "/* :root { --col-x: #010101; } */", "@charset \"utf-8\";", "a::before{content:\":root{}\"}", "@import url(x.css);"]
SVG_PIECES = ["<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox=\"0 0 1 1\">", "<path d=\"M2 2\"/>", "<a href=\"#x\"/>", "</svg>", "<!-- c -->", "\n", "<text>é #</text>", "<path stroke=\"#010203\"/>", "<path fill='none'/>"]


def named_color(v):
    """The 6-digit color that a :root value gives, or None."""
    v = v.strip()
    if v.startswith("#"):
        h = v[1:]
        if not re.fullmatch("[0-9a-fA-F]{3}|[0-9a-fA-F]{6}", h):
            return None
        if len(h) == 3:
            h = "".join(c * 2 for c in h)
        return "#" + h.lower()
    return {k.lower(): x for k, x in NAMED.items()}.get(v.lower())


def spell(draw, hexcolor):
    h = hexcolor[1:]
    if h[::2] == h[1::2] and draw(st.booleans()):
        h = h[::2]
    k = draw(st.integers(0, 2))
    h = [h, h.upper(), "".join(c.upper() if i % 2 else c for i, c in enumerate(h))][k]
    return "#" + h


GAP = st.sampled_from([" ", " ", "  ", "\n    ", "\t", " // c\n", " //[\n  "])
OPT = st.sampled_from(["", "", " ", "\n", " //'\n"])


def strlist(draw, items):
    out = "[" + draw(OPT)
    for i, x in enumerate(items):
        q = draw(st.sampled_from("\"'"))
        out += q + x + q + draw(OPT) + ("," + draw(OPT) if i + 1 < len(items) else draw(st.sampled_from(["", "", ","])))
    return out + draw(OPT) + "]"


@st.composite
def command(draw, icons, colors, sizes):
    """icons: {name: initial color}"""
    name = draw(st.sampled_from(sorted(icons)))
    some = lambda pool: draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3))
    cs = None if draw(st.integers(0, 2)) == 0 else some(sorted(colors) + ["undefined"])
    ss = None if draw(st.integers(0, 2)) == 0 else some(sizes + ["none"])
    k = draw(st.integers(0, 7))
    btn = "default"
    text = name + draw(GAP) + icons[name] + draw(GAP) + ("all-colors" if cs is None else strlist(draw, cs)) + draw(GAP) + ("all-sizes" if ss is None else strlist(draw, ss))
    if k <= 2:
        pass
    elif k == 3:
        text += draw(GAP) + "no-btn"
        btn = None
    elif k == 4:
        text += draw(GAP) + draw(st.sampled_from(["btn", "default"]))
    else:
        keys = draw(st.lists(st.sampled_from(["default", "danger", "alt-2", "a_b"]), max_size=3, unique=True))
        btn = {x: [draw(st.sampled_from(sorted(colors) * 3 + ["undefined"])) for _ in range(3)] for x in keys}
        text += draw(GAP) + "{" + draw(OPT)
        for i, (x, v) in enumerate(btn.items()):
            text += f'"{x}"' + draw(OPT) + ":" + draw(OPT) + strlist(draw, v) + draw(OPT) + ("," + draw(OPT) if i + 1 < len(btn) else "")
        text += "}"
    return [name, cs, ss, btn, draw(st.sampled_from(["/*! PREPROCESSOR: icon ", "/*!PREPROCESSOR : icon  ", "/* ! PREPROCESSOR: icon\n"])) + text + draw(st.sampled_from([" */", "\n*/", "*/"]))]


@st.composite
def case_strategy(draw):
    colors = {c: draw(st.one_of(st.sampled_from(HEXES), st.sampled_from(sorted(NAMED)))) for c in draw(st.lists(st.sampled_from(COLORS), min_size=1, max_size=5, unique=True))}
    sizes = draw(st.lists(st.sampled_from(SIZES), min_size=1, max_size=3, unique=True))
    decls = [["--col-" + c, v] for c, v in colors.items()] + [["--icon-size-" + s, draw(st.sampled_from(["1rem", "1.5em", "calc(1px + 2em)", "var(--z, 2px)"]))] for s in sizes]
    decls += [["", x] for x in draw(st.lists(st.sampled_from(NOISE), max_size=3))]
    decls = draw(st.permutations(decls))
    body = ""
    for i, (n, v) in enumerate(decls):
        body += draw(st.sampled_from(["", " ", "\n", "/* c */"])) + (f"{n}:{draw(st.sampled_from(['', ' ']))}{v}" if n else v)
        body += draw(st.sampled_from(["", " "])) + (";" if i + 1 < len(decls) or draw(st.booleans()) else "")
    root = draw(st.sampled_from(BEFORE)) + ":root" + draw(st.sampled_from(["", " ", "\n"])) + "{" + body + "}"
    icons = {i: draw(st.sampled_from(sorted(colors))) if draw(st.integers(0, 9)) else "undefined" for i in draw(st.lists(st.sampled_from(ICONS), min_size=1, max_size=2, unique=True))}
    svgs = {}
    for i, c in icons.items():
        hexc = named_color(colors[c]) if c in colors else "#777777"
        parts = []
        for _ in range(draw(st.integers(1, 5))):
            k = draw(st.integers(0, 6))
            if k <= 2:
                parts.append(draw(st.sampled_from(SVG_PIECES)))
            elif k == 3:
                parts.append(f"<g id=\"{hexc}88\" x='#{hexc[1:]}0'/>")
            else:
                a, b = draw(st.sampled_from([("<path stroke=\"", "\"/>"), ("<path fill='", "'/>"), ("<g style=\"fill:", "\"/>"), ("<g style=\"a:b;fill: ", ";c:d\"/>"), ("<style>.a{fill:", ";}</style>")]))
                parts += [a, [spell(draw, hexc)], b]
        svgs[i] = parts
    where = draw(st.lists(st.sampled_from(["css/main.css", "css/main.css", "css/a.css", "css/sub/b.css"]), min_size=1, max_size=3))
    sheets = {}
    for w in where:
        sheets.setdefault(w, []).append(draw(command(icons, colors, sizes)))
    cfg = draw(st.sampled_from([None, None, None, {"default_button": None}, {"default_button": {"active_color": "x"}}, {"default_button": {"active_color": "disabled", "hover_color": "primary", "disabled_color": "primary-light"}},
                                {"button_by_identifier": {"one": {"active_color": "x"}}}, {"default_button": None, "button_by_identifier": {"two": {"hover_color": "primary-light", "disabled_color": "primary"}}}, {},
                                {"button_by_identifier": None}]))
    return {"colors": colors, "sizes": sizes, "order": [d[0] for d in decls if d[0]], "root": root, "icons": icons, "svgs": svgs, "sheets": sheets, "cfg": cfg, "rank": draw(st.permutations(range(8)))}


def rules_of(toks):
    """[(selector text, {property: value text})]"""
    def text(ts):
        out = ""
        for t in ts:
            if t[0] == "ws":
                out += " "
            elif t[0] == "string":
                out += '"' + t[1] + '"'
            elif t[0] == "url":
                out += "url(\"" + t[1] + "\")"
            elif t[0] == "function":
                out += t[1] + "("
            elif t[0] == "percentage":
                out += t[1][0] + "%"
            elif t[0] == "delim":
                out += t[1]
            elif t[0] in ("ident",):
                out += t[1]
            elif len(t) == 1:
                out += t[0]
            else:
                out += repr(t)
        return out.strip()

    res = []
    i = 0
    while i < len(toks):
        j = i
        while j < len(toks) and toks[j][0] != "{":
            j += 1
        if j == len(toks):
            if text(toks[i:]):
                raise Violation(f"stray tokens {toks[i:]}")
            break
        k = j
        while toks[k][0] != "}":
            k += 1
        decls = {}
        cur = []
        for t in toks[j + 1:k] + [(";",)]:
            if t[0] == ";":
                c = text(cur)
                if c:
                    n, _, v = c.partition(":")
                    decls[n.strip()] = v.strip()
                cur = []
            else:
                cur.append(t)
        res.append((text(toks[i:j]), decls))
        i = k + 1
    return res


def run(case, ctx):
    colors = {c: named_color(v) for c, v in case["colors"].items()}
    corder = [n[6:] for n in case["order"] if n.startswith("--col-")]
    sorder = [n[12:] for n in case["order"] if n.startswith("--icon-size-")]
    default = {"active_color": "primary", "hover_color": "primary-dark", "disabled_color": "disabled"}
    idens = {}
    cfg = case["cfg"]
    fallback = dict(default)
    if cfg is not None:
        d = cfg.get("default_button", {})
        if d is None:
            default = None
        else:
            default.update(d)
            fallback = dict(default)
        for n, b in (cfg.get("button_by_identifier") or {}).items():
            idens[n] = dict(fallback, **b)
    as3 = lambda b: [b["active_color"], b["hover_color"], b["disabled_color"]]
    std = dict(({"default": as3(default)} if default else {}), **{n: as3(b) for n, b in idens.items()})
    files = {}
    for i, parts in case["svgs"].items():
        files[f"src/public/img/icons/{i}.svg"] = "".join(p if isinstance(p, str) else p[0] for p in parts)
    sheets = {"css/main.css": []}
    sheets.update(case["sheets"])
    for w, cmds in sheets.items():
        s = case["root"] if w == "css/main.css" else ""
        for n, c in enumerate(cmds):
            s += f"\n/*before {n}*/{c[4]}/*after {n}*/.z{{a:b}}"
        files["src/public/" + w] = s
    used = {}
    with scratch.tempdir() as d:
        # the order in which files are created decides the order they are found in
        names = sorted(files)
        ranked = sorted(range(len(names)), key=lambda k: case["rank"][k % 8])
        site.project(d, {names[k]: files[names[k]] for k in ranked}, site.config(**({"icons": cfg} if cfg is not None else {})))
        try:
            site.build(d)
        except site.BuildFailed as e:
            raise Violation(f"does not build: {e}; {files!r}")
        www = site.www(d)
    n_cls = 0
    for w, cmds in sheets.items():
        src = files["src/public/" + w]
        out = www[w].decode()
        stoks, otoks = cssref.normal(cssref.tokenize(src)), cssref.normal(cssref.tokenize(out))
        for n, (name, cs, ss, btn, text) in enumerate(cmds):
            a, b = ("comment", f"before {n}"), ("comment", f"after {n}")
            i, j = stoks.index(a), stoks.index(b)
            if otoks.count(a) != 1 or otoks.count(b) != 1:
                raise Violation(f"comments around a command are gone: {out!r}")
            k, m = otoks.index(a), otoks.index(b)
            gen = otoks[k + 1:m]
            original = stoks[i + 1:j]
            del stoks[i + 1:j]
            del otoks[k + 1:m]
            want_c = corder if cs is None else [c for c in dict.fromkeys(cs) if c in colors]
            want_s = sorder if ss is None else [s for s in dict.fromkeys(ss) if s in sorder]
            if case["icons"][name] not in colors or not want_c or not want_s:
                if gen != original:
                    raise Violation(f"command {text!r} that cannot apply became {gen}; {files!r}")
                ctx.label("inapplicable")
                continue
            buttons = {} if btn is None else (std if btn == "default" else btn)
            buttons = {x: v for x, v in buttons.items() if all(c in colors for c in v)}
            def url(c):
                used.setdefault(name, set()).add(c)
                path = f"img/icons/{name}/{c}.svg"
                if path not in www:
                    raise Violation(f"{path} is missing; {files!r}")
                return f'url("/{path}{site.suffix(www[path])}")'
            expect = {}
            for s in want_s:
                box = {"width": f"var(--icon-size-{s})", "height": f"var(--icon-size-{s})"}
                for c in want_c:
                    expect[f".icon-{name}-{s}-{c}"] = dict(box, **{"background-image": url(c)})
                for x, v in buttons.items():
                    base = f".icon-btn-{name}-{s}" + ("" if x == "default" else "-" + x)
                    expect[base] = {}
                    expect[base + " .icon-btn--icon"] = dict(box, **{"background-image": url(v[0])})
                    expect[base + ":hover .icon-btn--icon"] = {"background-image": url(v[1])}
                    expect[base + ":disabled .icon-btn--icon"] = {"background-image": url(v[2])}
                    expect[base + ":disabled"] = None
            rules = rules_of(gen)
            got = {}
            for sel, decls in rules:
                if sel in got:
                    raise Violation(f"{sel} twice; {text!r}; {out!r}")
                got[sel] = decls
            for sel, decls in expect.items():
                if decls is None:
                    got.pop(sel, None)
                    continue
                if sel not in got:
                    raise Violation(f"no rule {sel} for {text!r}; got {sorted(got)}; {files!r}")
                for p, v in decls.items():
                    if got[sel].get(p) != v:
                        raise Violation(f"{sel} has {p} {got[sel].get(p)!r} instead of {v!r}; {text!r}")
                got.pop(sel)
                n_cls += 1
            if got:
                raise Violation(f"unexpected rules {sorted(got)} for {text!r}; {files!r}")
        if stoks != otoks:
            raise Violation(f"the rest of the stylesheet changed: {src!r} became {out!r}")
    for name, cols in used.items():
        init = colors[case["icons"][name]]
        for c in cols:
            svg = www[f"img/icons/{name}/{c}.svg"].decode()
            rx = "".join(re.escape(p) if isinstance(p, str) else "(#[0-9a-fA-F]*)" for p in case["svgs"][name])
            mt = re.fullmatch(rx, svg)
            if not mt or any(named_color(g) != colors[c] for g in mt.groups()):
                raise Violation(f"icon {name} in {c} ({colors[c]}) from {init}: {svg!r}; source {files[f'src/public/img/icons/{name}.svg']!r}")
        if set(cols) != {f[len(f"img/icons/{name}/"):-4] for f in www if f.startswith(f"img/icons/{name}/") and f.endswith(".svg")}:
            raise Violation(f"images of {name} other than those used exist: {sorted(www)}; used {sorted(cols)}")
    ctx.label(f"rules-{min(n_cls, 20) // 5 * 5}")
    if n_cls:
        ctx.nontrivial()


CHECK = Check(
    "C13", [Prop("icons", lambda tier: case_strategy(), run, quick=3000, thorough=60000)],
    rule="a main stylesheet whose :root rule defines colors and sizes in every notation among other declarations, one or two svg icons written with the initial color in varied notation, and one to three icon commands "
         "(all or listed colors and sizes, default, custom or no buttons, comments and line breaks in the command) in the main and other stylesheets; rules, boxes, urls, images and the rest of the sheets are compared "
         "with what the command asks for; non-trivial: at least one class generated",
    assumptions=["colors and sizes are those of the first :root rule of the main stylesheet, as hex or named colors", "unknown colors and sizes in a command are ignored, and a command none of whose colors or sizes exist stays a comment",
                 "buttons with an undefined color are left out", "an icon has the same initial color in all commands"])
