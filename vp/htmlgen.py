"""Generates html documents as trees of JSON data, writes them as source text
in varied notation, and reads built pages back into the same form.

Nodes: ["t", text], ["c", comment], ["e", name, [[attribute, value], ...], [children]],
["d", name, public id, system id] and ["raw", source] (written as is, e.g. a command)."""
import random

from hypothesis import strategies as st

VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}
RAW = {"script", "style", "xmp", "iframe", "noembed", "noframes"}
INTEGRATION = {"title", "desc", "foreignObject"}  # svg elements with html inside
RCDATA = {"title", "textarea"}
BOOLEAN = {"disabled", "checked", "autoplay", "hidden", "selected", "multiple", "readonly", "async", "defer", "open", "required", "controls", "loop", "muted", "ismap", "itemscope", "nomodule", "reversed", "novalidate", "allowfullscreen", "inert",
           "autofocus", "default", "formnovalidate", "playsinline"}

TEXTS = ["a", "Hello world", "x < y", "a & b", "a&b=c", "&amp;", "&lt;b>", "<!-- no -->", "é ü 漢", "😀", "\u00a0", "«»", "1 > 0", "\"q\" 'r'", "&copy", "&notit;", "&#65;", "\n", " ", "\n    ", "  two  spaces ", "a\nb", "<", "</p>",
         "<script>", "{{x}}", "[TEMPLATE: no]", "&", "&#x", "]]>", "<!", "\u2028", "a\tb", "\u200b", "--", "\ufeff"]
SPACES = ["", "", "\n", " ", "\n    "]
COMMENTS = [" c ", "", "x", " a -- b ", " [IMAGE] ", "[TEMPLATE: ]", " [STACK: nope] ", "[STACK: [\"nothing\"", "<p>x</p>", " &amp; é ", "\n multi\n line ", "[if IE]><p>x</p><![endif]", "!", "-x", "[FOO: [\"a\"]]", "[TEMPLATE]"]
ATTR_VALUES = ["", "a", "a b", "a\"b", "a'b", "a'\"b", "<b>", "a&b", "&amp;", "&copy=1", "é", "\n", " x ", "x=y", "/css/a.css", "a`b", "\u00a0", "1", "{\"a\": [1]}", "https://x.example/?a=1&lt=2#f", ">", "a\tb", "😀", "\\", "&quot;", "true",
               "width=device-width, initial-scale=1"]
ATTR_NAMES = ["class", "id", "title", "data-x", "data-é", "aria-label", "style", "lang", "onclick", "@click", ":x", "x.y", "role", "hidden", "dir", "href2", "tabindex", "itemscope", "z"]


@st.composite
def attributes(draw, extra=(), max_size=3):
    names = draw(st.lists(st.sampled_from(ATTR_NAMES + list(extra) * 2), max_size=max_size, unique=True))
    return [[n, "" if n in BOOLEAN and draw(st.booleans()) else draw(st.sampled_from(ATTR_VALUES))] for n in names]


def text():
    return st.sampled_from(TEXTS).map(lambda t: ["t", t])


def comment():
    return st.sampled_from(COMMENTS).map(lambda t: ["c", t])


class Gen:
    """leaf: strategy of additional nodes that may occur wherever phrasing
    content may; block: likewise for flow content."""

    def __init__(self, draw, leaf=None, block=None, budget=40, foreign=True, headleaf=None):
        self.headleaf = leaf if headleaf is None else headleaf
        self.draw, self.leaf, self.block, self.left, self.foreign = draw, leaf, block, budget, foreign

    def many(self, f, hi=3):
        out = []
        for _ in range(self.draw(st.integers(0, hi))):
            if self.left <= 0:
                break
            self.left -= 1
            out.append(f())
        return out

    def ws(self):
        s = self.draw(st.sampled_from(SPACES))
        return [["t", s]] if s else []

    def el(self, name, children, extra=()):
        return ["e", name, self.draw(attributes(extra)), children]

    def rawtext(self, name):
        t = self.draw(st.sampled_from(TEXTS + ["<b>x</b>", "a</b>", "<!--x-->"]))
        if name != "textarea" and "</" + name in t.lower():
            t = ""
        return [["t", t]] if t else []

    def phrasing(self, ban=frozenset()):
        d = self.draw
        k = d(st.integers(0, 21))
        if self.leaf is not None and k in (0, 1, 2, 3):
            return d(self.leaf)
        if k <= 6:
            return d(text())
        if k <= 8:
            return d(comment())
        if k <= 12:
            name = d(st.sampled_from([x for x in ["b", "i", "em", "span", "strong", "code", "small", "label", "x-y", "sub", "q", "a", "button", "u", "bdi", "mark", "time", "kbd"] if x not in ban]))
            inner = ban | ({name} if name in ("a", "button", "label") else set()) | ({"a", "button", "label"} if name in ("a", "button") else set())
            # formatting elements of the same kind are not nested: a fourth one would be dropped
            inner |= {name}
            return self.el(name, self.many(lambda: self.phrasing(inner)), ["href", "target", "type", "for", "disabled"])
        if k == 13:
            return self.el(d(st.sampled_from(["br", "img", "wbr", "input", "embed"])), [], ["src", "alt", "value", "srcset", "type", "checked", "disabled", "ismap"])
        if k == 14:
            return self.el("select", self.ws() + self.many(lambda: self.el("option", self.many(lambda: d(text())), ["selected", "value"])), ["multiple"]) if "button" not in ban else d(text())
        if k == 15:
            return self.el("textarea", self.rawtext("textarea"), ["rows", "readonly"])
        if k == 16:
            name = d(st.sampled_from(["iframe", "noembed"]))
            return self.el(name, self.rawtext(name), ["src", "allowfullscreen"])
        if k == 17:
            return self.el("noscript", self.many(lambda: self.phrasing(ban | {"noscript"}))) if "noscript" not in ban else d(text())
        if k == 18:
            return self.el(d(st.sampled_from(["video", "audio"])), self.ws() + self.many(lambda: self.el("source", [], ["src", "type"])), ["src", "controls", "autoplay", "muted"]) if "video" not in ban else d(text())
        if k == 19 and self.foreign and "svg" not in ban:
            return self.svg()
        if k == 20 and self.foreign and "svg" not in ban:
            return self.el("math", self.many(lambda: ["e", d(st.sampled_from(["mi", "mn"])), [], [["t", d(st.sampled_from(["x", "1", "&", "<"]))]]]), ["xlink:href"])
        return self.el("picture", self.ws() + self.many(lambda: self.el("source", [], ["srcset", "media"])) + [self.el("img", [], ["src", "alt"])])

    def svg(self):
        d = self.draw

        def node(depth):
            k = d(st.integers(0, 6))
            if k <= 2:
                return self.el(d(st.sampled_from(["path", "use", "circle", "linearGradient"])), [], ["d", "xlink:href", "viewBox", "href", "stroke-width", "xml:space"])
            if k == 3:
                name = d(st.sampled_from(["title", "text", "desc", "foreignObject"]))
                if name != "text" and d(st.integers(0, 3)) == 0:
                    # html again
                    return self.el(name, self.many(lambda: self.el(d(st.sampled_from(["b", "div", "textarea", "br"])), [], ["class", "disabled"]) if d(st.booleans()) else d(text())), ["width"])
                return self.el(name, [d(text()) if name != "title" and d(st.integers(0, 3)) else ["t", "<!--x-->"]] if d(st.booleans()) else [])
            if k == 4 and depth < 2:
                return self.el(d(st.sampled_from(["g", "defs", "clipPath"])), self.many(lambda: node(depth + 1)), ["fill", "transform"])
            if k == 5:
                return d(comment())
            return ["t", d(st.sampled_from(SPACES[2:]))]

        at = [["xmlns", "http://www.w3.org/2000/svg"]] if d(st.booleans()) else []
        if d(st.booleans()):
            at.append(["xmlns:xlink", "http://www.w3.org/1999/xlink"])
        return ["e", "svg", at + d(attributes(["viewBox", "xml:lang", "preserveAspectRatio", "width"])), self.many(lambda: node(0))]

    def flow(self, ban=frozenset(), depth=0):
        d = self.draw
        k = d(st.integers(0, 19))
        if self.block is not None and k in (0, 1, 2, 3):
            return d(self.block)
        if k <= 7 or depth > 4:
            return self.phrasing(ban)
        deeper = lambda: self.flow(ban, depth + 1)
        if k <= 10:
            return self.el(d(st.sampled_from(["div", "section", "main", "article", "header", "nav", "blockquote", "figure", "details", "fieldset", "center"])), self.many(deeper), ["open", "disabled"])
        if k <= 12:
            name = d(st.sampled_from(["p", "h1", "h2"]))
            return self.el(name, self.many(lambda: self.phrasing(ban)), ["align"])
        if k == 13:
            lead = [["t", "\n" + d(st.sampled_from(["", "x", "\n"]))]] if d(st.integers(0, 3)) == 0 else []
            return self.el(d(st.sampled_from(["pre", "listing"])), lead + self.many(lambda: self.phrasing(ban | {"noscript"})))
        if k == 14:
            return self.el(d(st.sampled_from(["ul", "ol"])), self.ws() + self.many(lambda: self.el("li", self.many(deeper), ["value"])), ["reversed"])
        if k == 15:
            row = lambda: self.el("tr", self.ws() + self.many(lambda: self.el(d(st.sampled_from(["td", "th"])), self.many(deeper), ["colspan"])))
            return self.el("table", self.ws() + [self.el("tbody", self.ws() + self.many(row))] + self.ws(), ["border"])
        if k == 16:
            return self.el("dl", self.many(lambda: self.el(d(st.sampled_from(["dt", "dd"])), self.many(deeper))))
        if k == 17 and "form" not in ban:
            return self.el("form", self.many(lambda: self.flow(ban | {"form"}, depth + 1)), ["action", "novalidate"])
        if k == 18:
            return self.el("template", self.many(deeper), ["shadowrootmode"])
        return self.el("hr", [])

    def head(self):
        d = self.draw
        k = d(st.integers(0, 9))
        if self.headleaf is not None and k <= 3:
            return d(self.headleaf)
        if k <= 2:
            return d(comment())
        if k == 3:
            return ["t", d(st.sampled_from(SPACES[2:]))]
        if k <= 5:
            return self.el("meta", [], ["name", "content", "property"])
        if k <= 7:
            return self.el("link", [], ["type", "sizes", "disabled"])
        if k == 8:
            return self.el("noscript", self.many(lambda: self.el("link", [], ["type"])))
        return self.el("base", [], ["target"])

    def document(self, title=None):
        d = self.draw
        given = title is not None
        if not given:
            # comments within a title stay what they are: its text
            parts = [d(text()) for _ in range(d(st.integers(0, 3)))]
            title = [["t", p[1]] for p in parts]
        doctype = d(st.sampled_from([["d", "html", None, None]] * 6 + [["d", "html", "-//W3C//DTD HTML 4.01//EN", "http://www.w3.org/TR/html4/strict.dtd"], ["d", "html", None, "about:legacy-compat"], None]))
        head = []
        if d(st.integers(0, 2)):
            head.append(["e", "meta", [["charset", d(st.sampled_from(["utf-8", "UTF-8"]))]], []])
        head += self.ws()
        if given or d(st.integers(0, 4)):
            head.append(["e", "title", d(attributes(max_size=1)), title])
        head += self.many(self.head, 6)
        body = self.many(self.flow, 7)
        doc = ([doctype] if doctype else []) + ([d(comment())] if d(st.integers(0, 3)) == 0 else [])
        doc.append(["e", "html", d(attributes(["manifest"], max_size=1)), [["e", "head", [], head]] + self.ws() + [["e", "body", d(attributes(["onload"], max_size=2)), body]]])
        return doc


# -------------------------------------------------------------- writing

NAMED = {"&": "&amp;", "<": "&lt;", ">": "&gt;", "\"": "&quot;", "\u00a0": "&nbsp;", "é": "&eacute;", "«": "&laquo;"}


class Writer:
    """Writes nodes as html source; rng decides among equivalent notations."""

    def __init__(self, rng):
        self.rng = rng
        self.lasttext = ""

    def char(self, c, must):
        k = self.rng.random()
        if must or (k < 0.05 and c not in "\n\r"):
            if k < 0.35 and c not in NAMED or k < 0.2:
                return f"&#{ord(c)};" if k < 0.1 else f"&#x{ord(c):X};"
            return NAMED.get(c, f"&#{ord(c)};")
        return c

    def escape(self, s, special):
        out = ""
        for i, c in enumerate(s):
            nxt = s[i + 1] if i + 1 < len(s) else "\0"
            if c == "&":
                must = nxt != " " or self.rng.random() < 0.7
            elif c == "<":
                must = nxt != " " or self.rng.random() < 0.5
            else:
                must = c in special or c in "\ufeff\r"
            out += self.char(c, must)
        return out

    def attrs(self, attrs):
        out = ""
        for n, v in attrs:
            out += self.rng.choice([" ", " ", "\n  "])
            if v is None:
                continue
            if self.rng.random() < 0.05 and n.isascii() and ":" not in n and n.islower() and n not in ("viewBox", "preserveAspectRatio"):
                n = n.upper()
            if v == "" and self.rng.random() < 0.5:
                out += n
                continue
            k = self.rng.random()
            eq = "=" if self.rng.random() < 0.9 else " = "
            if k < 0.15 and v and not any(c in v for c in " \t\n\f\r\"'=<>`&") and eq == "=":
                out += n + eq + v + (" " if v.endswith("/") else "")
            elif k < 0.35:
                out += n + eq + "'" + self.escape(v, "'") + "'"
            else:
                out += n + eq + '"' + self.escape(v, '"') + '"'
        return out

    def nodes(self, nodes, parent=None, foreign=False):
        out = ""
        for i, n in enumerate(nodes):
            nxt = nodes[i + 1] if i + 1 < len(nodes) else None
            out += self.node(n, parent, nxt, foreign)
        return out

    def node(self, n, parent, nxt, foreign):
        if n[0] == "raw":
            return n[1]
        if n[0] == "t":
            if not foreign and parent in RAW:
                return n[1]
            return self.escape(n[1], "<" if not foreign else "<>")
        if n[0] == "c":
            return f"<!--{n[1]}-->"
        if n[0] == "d":
            s = "<!DOCTYPE " + n[1] if self.rng.random() < 0.8 else "<!doctype " + n[1]
            if n[2] is not None:
                s += f' PUBLIC "{n[2]}" "{n[3]}"'
            elif n[3] is not None:
                s += f" SYSTEM '{n[3]}'"
            return s + ">" + self.rng.choice(["", "\n"])
        _, name, attrs, children = n
        foreign = foreign or name in ("svg", "math")
        tag = name
        if not foreign and "-" not in name and self.rng.random() < 0.05:
            tag = name.upper()
        out = "<" + tag + self.attrs(attrs)
        if foreign and not children and name not in ("svg", "math", "title", "text", "desc", "foreignObject") and self.rng.random() < 0.5:
            return out + " />"
        if name in VOID and not foreign:
            return out + self.rng.choice([">", ">", " />"])
        out += self.rng.choice([">", ">", " >"])
        inner = self.nodes(children, name, foreign and name not in INTEGRATION)
        if name in ("pre", "textarea", "listing") and not foreign:
            # the parser skips one newline here
            if inner.startswith("\n") or self.rng.random() < 0.2:
                inner = "\n" + inner
        out += inner
        end = nxt is None or nxt[0] == "e"
        if not foreign and self.rng.random() < 0.3:
            after = nxt[1] if nxt is not None and nxt[0] == "e" else None
            if name in ("li", "td", "th", "tr", "dt", "dd", "option") and (nxt is None or after in {"li": ("li",), "td": ("td", "th"), "th": ("td", "th"), "tr": ("tr",), "dt": ("dt", "dd"), "dd": ("dt", "dd"), "option": ("option",)}[name]):
                return out
            if name == "p" and end and parent in ("div", "section", "li", "td", "body", "main") and (nxt is None and parent != "body" or after in ("p", "div", "ul", "ol", "h1", "section", "table" if False else "p")):
                return out
        return out + f"</{tag}" + self.rng.choice([">", ">", " >"])


def write(nodes, seed, crlf=False):
    s = Writer(random.Random(seed)).nodes(nodes)
    return s.replace("\n", "\r\n") if crlf else s


# -------------------------------------------------------------- reading

def parse(data):
    """The document in a built page, as nodes."""
    import html5lib

    parser = html5lib.HTMLParser(html5lib.treebuilders.getTreeBuilder("dom"), namespaceHTMLElements=False)
    doc = parser.parse(data.decode("utf-8"))
    return [_node(c, False) for c in doc.childNodes]


def _node(n, cell):
    if n.nodeType == n.DOCUMENT_TYPE_NODE:
        return ["d", n.name, n.publicId or None, n.systemId or None]
    if n.nodeType == n.TEXT_NODE:
        return ["t", n.nodeValue]
    if n.nodeType == n.COMMENT_NODE:
        return ["c", n.nodeValue]
    cell = cell or n.nodeName in ("td", "th", "caption")
    at = []
    for i in range(n.attributes.length):
        a = n.attributes.item(i)
        at.append([a.name, a.value])
    ch = [_node(c, cell) for c in n.childNodes]
    if cell and n.nodeName in ("pre", "textarea", "listing") and ch and ch[0][0] == "t" and ch[0][1].startswith("\n"):
        ch[0][1] = ch[0][1][1:]  # html5lib forgets to skip it there
    return ["e", n.nodeName, at, ch]


def normal(nodes, _top=True, _parent=None):
    """Adjacent text joined, attributes sorted, booleans without value, and
    the places where space means nothing dropped."""
    out = []
    for n in nodes:
        if n[0] == "t":
            if _parent == "html":
                continue
            if out and out[-1][0] == "t":
                out[-1] = ["t", out[-1][1] + n[1]]
            elif n[1]:
                out.append(["t", n[1]])
        elif n[0] == "e":
            at = sorted([k, "" if k in BOOLEAN else v] for k, v in n[2])
            if n[1] == "meta":
                at = [[k, v.lower() if k == "charset" else v] for k, v in at]
            ch = normal(n[3], False, n[1])
            if n[1] == "body" and ch and ch[-1][0] == "t":
                s = ch[-1][1].rstrip(" \n\t\f")
                ch = ch[:-1] + ([["t", s]] if s else [])
            if n[1] == "head" and ch and ch[0][0] == "t":
                s = ch[0][1].lstrip(" \n\t\f")
                ch = ([["t", s]] if s else []) + ch[1:]
            if n[1] == "head" and ch and ch[0] == ["e", "meta", [["charset", "utf-8"]], []]:
                ch = ch[1:]  # the build adds one if there is none
                if ch and ch[0][0] == "t":
                    s = ch[0][1].lstrip(" \n\t\f")
                    ch = ([["t", s]] if s else []) + ch[1:]
            out.append(["e", n[1], at, ch])
        else:
            out.append([n[0], *(x or None for x in n[1:])] if n[0] == "d" else list(n))
    return out


def walk(nodes):
    for n in nodes:
        yield n
        if n[0] == "e":
            yield from walk(n[3])


def mapped(nodes, f):
    """A copy with f applied to every element (children first); f returns a list."""
    out = []
    for n in nodes:
        if n[0] == "e":
            out += f(["e", n[1], [list(a) for a in n[2]], mapped(n[3], f)])
        else:
            out.append(list(n))
    return out


def diff(a, b, path=""):
    """Where two normal trees differ first."""
    for i in range(max(len(a), len(b))):
        if i >= len(a):
            return f"{path}: additional {b[i]!r}"
        if i >= len(b):
            return f"{path}: missing {a[i]!r}"
        x, y = a[i], b[i]
        if x == y:
            continue
        if x[0] == "e" == y[0] and x[1] == y[1] and x[2] == y[2]:
            return diff(x[3], y[3], path + "/" + x[1])
        if x[0] == "e" == y[0] and x[1] == y[1]:
            return f"{path}/{x[1]}: attributes {y[2]!r} instead of {x[2]!r}"
        return f"{path}: {y!r} instead of {x!r}"[:1500]
    return None
