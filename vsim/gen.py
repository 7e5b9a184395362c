"""Seeded generators: documents, directory trees, command lines and simulator settings.

Everything is drawn from the `random.Random` handed in, so a scenario is a function of its seed.
"""
import json
import os
import re
import string

HERE = os.path.dirname(os.path.abspath(__file__))
_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        with open(os.path.join(HERE, "..", "corpus", "corpus.json")) as f:
            _corpus = json.load(f)
    return _corpus


SVG = 'xmlns="http://www.w3.org/2000/svg"'
COLORS = ("red", "#ff0000", "#00f", "rgb(1, 2, 3)", "none", "currentColor", "hsl(120 50% 50%)", "#abcdef")


def num(r):
    return r.choice((str(r.randint(-99, 99)), "%.3f" % r.uniform(-50, 50), "%.1f" % r.uniform(0, 9), "0"))


def path_data(r):
    out = ["M%s %s" % (num(r), num(r))]
    for _ in range(r.randint(1, 6)):
        c = r.choice("LlHhVvCcQqTtAaZ")
        n = {"L": 2, "H": 1, "V": 1, "C": 6, "Q": 4, "T": 2, "Z": 0}.get(c.upper())
        if c in "Aa":
            out.append("%s%d %d 0 %d %d %s %s" % (c, r.randint(1, 9), r.randint(1, 9), r.randint(0, 1),
                                                  r.randint(0, 1), num(r), num(r)))
        else:
            out.append(c + " ".join(num(r) for _ in range(n)))
    return " ".join(out)


def attrs(r, ids):
    out = []
    if r.random() < .3:
        i = "i%d" % len(ids)
        ids.append(i)
        out.append('id="%s"' % i)
    if r.random() < .3:
        out.append('class="%s"' % " ".join(r.sample(["c0", "c1", "c2", "c3"], r.randint(1, 2))))
    if r.random() < .4:
        out.append('fill="%s"' % r.choice(COLORS))
    if r.random() < .2:
        out.append('stroke="%s" stroke-width="%s"' % (r.choice(COLORS), r.choice(("1", "2", "0"))))
    if r.random() < .2:
        out.append('style="%s:%s;opacity:%s"' % (r.choice(("fill", "stroke", "color")), r.choice(COLORS),
                                                 r.choice(("1", ".5", "0"))))
    if r.random() < .2:
        out.append('transform="%s"' % r.choice(("translate(1 2)", "scale(2)", "rotate(45 1 1)",
                                                "matrix(1 0 0 1 5 5)", "skewX(10)", "translate(0)")))
    if r.random() < .08:
        out.append(r.choice(('foo="bar"', 'data-x="1"', 'xlink:href="#i0"', 'unknown:attr="1"', 'baseProfile="full"')))
    return (" " + " ".join(out)) if out else ""


def shape(r, ids, depth):
    k = r.randrange(12)
    a = attrs(r, ids)
    if k < 3:
        return '<path%s d="%s"/>' % (a, path_data(r))
    if k < 5:
        return '<rect%s x="%s" y="%s" width="%d" height="%d"/>' % (a, num(r), num(r), r.randint(0, 90), r.randint(1, 90))
    if k == 5:
        return '<circle%s cx="%s" cy="%s" r="%d"/>' % (a, num(r), num(r), r.randint(0, 40))
    if k == 6:
        return '<text%s>%s</text>' % (a, r.choice(("Hello", "a &amp; b", "é世\U0001F600", "  spaced  ", "x&lt;y")))
    if k == 7:
        return '<polygon%s points="%s"/>' % (a, " ".join("%s,%s" % (num(r), num(r)) for _ in range(r.randint(2, 5))))
    if k == 8 and ids:
        return '<use href="#%s" x="%s"/>' % (r.choice(ids), num(r))
    if k == 9:
        return r.choice(("<!-- a comment -->", "<desc>d</desc>", "<title>t</title>", "<metadata>m</metadata>",
                         "<g/>", "<defs/>", "<image href='a.png' width='1' height='1'/>", "<foo/>"))
    if depth > 0:
        sep = r.choice(("", "\n  ", " "))
        return "<g%s>%s</g>" % (a, sep.join(shape(r, ids, depth - 1) for _ in range(r.randint(0, 4))))
    return "<line%s x1='0' y1='0' x2='%s' y2='5'/>" % (a, num(r))


PAINT = ("fill", "stroke", "color", "stop-color", "opacity", "fill-opacity", "stroke-width", "font-size", "display",
         "visibility", "marker", "fill-rule", "stroke-dasharray", "text-anchor", "clip-path", "mask", "filter")
VALUES = ("red", "#00f", "inherit", "0", "1", ".5", "none", "2px", "50%", "evenodd", "url(#i0)", "url('#i1')", "1,2 3",
          "10e1", "1e-9", "hidden", "middle", "calc(1px + 2px)", "var(--x)", "", "!important", "currentcolor", "1e999",
          "-0", "url(#missing)", "0 0 10 10", "matrix(1,0,0)", "  ", "#ggg", "NaN", "\u00e9")
SELECT = (".c0", ".c1", "#i0", "rect", "g>path", ".c0 .c1", ".c2:hover", "*", "svg", ".c0.c1", "[fill]", "a:link",
          "path:not(.c0)", ".c3,#i1", "g:first-child", "text::first-line")


def sheet(r):
    rules = []
    for _ in range(r.randint(1, 5)):
        rule = "%s{%s}" % (r.choice(SELECT), ";".join("%s:%s%s" % (r.choice(PAINT), r.choice(VALUES[:14]),
                                                                   " !important" if r.random() < .1 else "")
                                                      for _ in range(r.randint(1, 3))))
        if r.random() < .15:
            rule = "@media %s{%s}" % (r.choice(("screen", "print", "(min-width:1px)")), rule)
        rules.append(rule)
    if r.random() < .1:
        rules.append(r.choice(("@font-face{font-family:f;src:url(a.woff)}", "@keyframes k{from{opacity:0}to{opacity:1}}",
                               ".c0{fill:red", "/* c */", "}}", "@import url(x.css);", ".x{--y:1}")))
    text = "".join(rules)
    return "<style%s>%s</style>" % (r.choice(("", "", ' type="text/css"', ' media="print"', ' type="x"')),
                                    r.choice((text, text, "<![CDATA[%s]]>" % text)).replace(">path", "&gt;path")
                                    if "<![" not in text else text)


def feature(r, ids, uid):
    """A less common construct, with links to and from the rest of the document."""
    def fresh():
        ids.append("i%d" % len(ids))
        return ids[-1]

    def link():
        return r.choice(ids) if ids and r.random() < .85 else "missing"
    k = r.randrange(22)
    c = r.choice(COLORS)
    if k == 0:
        return sheet(r)
    if k == 1:
        return ('<linearGradient id="%s" %shref="#%s"><stop offset="%s" stop-color="%s"/></linearGradient>'
                % (fresh(), r.choice(("xlink:", "")), link(), r.choice(("0", "50%", "1")), c))
    if k == 2:
        return ('<radialGradient id="%s" gradientUnits="userSpaceOnUse" cx="1">%s</radialGradient>'
                % (fresh(), "".join('<stop offset="%d%%" style="stop-color:%s"/>' % (q * 30, c) for q in range(r.randint(0, 3)))))
    if k == 3:
        return '<path fill="url(#%s)" stroke="url(#%s) red" d="%s"/>' % (link(), link(), path_data(r))
    if k == 4:
        return '<symbol id="%s" viewBox="0 0 9 9">%s</symbol>' % (fresh(), shape(r, ids, 1))
    if k == 5:
        return '<clipPath id="%s">%s</clipPath><g clip-path="url(#%s)">%s</g>' % (fresh(), shape(r, ids, 0), link(), shape(r, ids, 1))
    if k == 6:
        return '<mask id="%s" maskUnits="userSpaceOnUse"><rect width="100%%" height="9"/></mask>' % fresh()
    if k == 7:
        return ('<filter id="%s" x="0"><feGaussianBlur in="SourceGraphic" stdDeviation="%s"/><feMerge><feMergeNode/></feMerge>'
                '</filter>' % (fresh(), num(r)))
    if k == 8:
        return '<rect width="5" height="5" id="%s"><animate attributeName="x" from="0" to="%s" dur="1s" begin="%s.click"/></rect>' % (
            fresh(), num(r), link())
    if k == 9:
        return '<pattern id="%s" width="%s" height="3" patternTransform="rotate(9)">%s</pattern>' % (fresh(), num(r), shape(r, ids, 0))
    if k == 10:
        return '<ellipse rx="%s" ry="%s" %s="%s"/>' % (r.choice("034"), r.choice("034"), r.choice(PAINT), r.choice(VALUES))
    if k == 11:
        return '<g style="%s">%s</g>' % (";".join("%s:%s" % (r.choice(PAINT), r.choice(VALUES)) for _ in range(r.randint(1, 4))),
                                         "".join(shape(r, ids, 0) for _ in range(2)))
    if k == 12:
        d = path_data(r)
        return "".join('<path d="%s" %s/>' % (d, r.choice(("", 'fill="red"', 'id="%s"' % fresh()))) for _ in range(r.randint(2, 3)))
    if k == 13:
        return '<text xml:space="preserve"> a <tspan x="%s" dy="1em">b</tspan><tspan/> c </text><text/>' % num(r)
    if k == 14:
        return '<svg x="1" viewBox="0 0 %s 5" enable-background="new 0 0 5 5">%s</svg>' % (num(r), shape(r, ids, 1))
    if k == 15:
        return r.choice(("<script>var a = 1 &lt; 2;</script>", "<script href='x.js'/>", "<!--! keep -->", "<?proc inst?>",
                         '<foreignObject width="5" height="5"><div xmlns="http://www.w3.org/1999/xhtml">h</div></foreignObject>',
                         '<image href="data:image/png;base64,AA==" width="0" height="1"/>', "<switch><g systemLanguage='en'/></switch>",
                         '<a href="#top" onclick="go(1)"><circle r="1"/></a>', '<view id="v1"/>', "<![CDATA[ raw ]]>"))
    if k == 16:
        return '<g display="%s"><use %shref="#%s" width="%s"/></g>' % (r.choice(("none", "inline")), r.choice(("xlink:", "")),
                                                                      link(), r.choice(("5", "0")))
    if k == 17:
        return '<g %s>%s</g>' % (" ".join('%s="%s"' % kv for kv in {r.choice(PAINT): r.choice(VALUES) for _ in range(3)}.items()),
                                 "".join('<rect width="3" height="%d" %s="%s"/>' % (q + 1, r.choice(PAINT), r.choice(VALUES))
                                         for q in range(r.randint(1, 3))))
    if k == 18:
        return '<path d="%s"/>' % r.choice(("", "M", "M1", "L1 1", "M0 0z z", "M1,2e999", "M0 0L", "m0 0 1 1 1", "M0 0A1 1 0 9 9 1 1",
                                            "M0 0h.1.2.3", "M0 0c1 1 2 2 3 3s1 1 2 2", "none", "M1 1 \u00e9", "M0 0l1e-20 1e20"))
    if k == 19:
        return '<polyline points="%s" %s/>' % (r.choice(("", "1", "1,2,3", "0 0 1 1", "a b", "1-1-1.5.5", "0,0 1e9,1")),
                                               r.choice(("", 'stroke="red"', 'transform="matrix(1 0 0)"')))
    if k == 20:
        return '<marker id="%s" orient="auto" refX="1">%s</marker><line marker-end="url(#%s)" x2="%s"/>' % (
            fresh(), shape(r, ids, 0), link(), num(r))
    return '<rect transform="%s" %s="%s" width="1" height="1"/>' % (
        r.choice(("rotate(90)translate(1)scale(.5)", "scale(0)", "matrix(0 1 -1 0 0 0)", "skewY(45)", "rotate()", "translate(1px,2px)",
                  "scale(1e9)", "rotate(1 2)", "matrix(1 2 3 4 5 6) scale(-1 1)")), r.choice(PAINT), r.choice(VALUES))


ROOTS = (' class="a b c"', ' class="c0"', ' id="i0"', ' style="fill:red"', ' version="1.1" baseProfile="tiny"',
         ' xml:space="preserve"', ' enable-background="new 0 0 9 9"', ' fill="none" stroke="red"', ' x="0px" y="0px"',
         ' xmlns:sketch="http://www.bohemiancoding.com/sketch/ns" sketch:type="t"', ' preserveAspectRatio="xMidYMid"',
         ' xmlns:inkscape="http://www.inkscape.org/namespaces/inkscape" inkscape:version="1"', ' role="img" aria-label="x"',
         ' width="100%" height="1em"', ' xmlns:svg="http://www.w3.org/2000/svg"', ' data-a="1" data-b="2"', ' onload="f()"',
         ' display="none"', ' class=""', ' class="b a b"')


def rich(r, uid, size):
    """Like `generated`, with more of the language."""
    ids = []
    head = r.choice(("", "", "", '<?xml version="1.0"?>', "<!-- top -->\n",
                     '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">\n',
                     '<!DOCTYPE svg [<!ENTITY e "text"><!ENTITY ns "http://ns.adobe.com/x/">]>'))
    ns = SVG + ' xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:unknown="http://example.com/u"'
    given = set()
    for a in r.sample(ROOTS, r.randint(0, 3)):
        key = {p.split("=")[0] for p in a.split() if "=" in p}
        if not key & given:
            given |= key
            ns += a
    if not {"width", "viewBox"} & given and r.random() < .5:
        ns += ' viewBox="0 0 %d %d"' % (r.randint(1, 200), r.randint(1, 200))
    body = []
    for _ in range(size):
        body.append(feature(r, ids, uid) if r.random() < .6 else shape(r, ids, 2))
        if r.random() < .15:
            body[-1] = "<defs>%s</defs>" % body[-1]
    body.append("<text>doc%d%s</text>" % (uid, "&e;" if "ENTITY e" in head and r.random() < .5 else ""))
    r.shuffle(body)
    sep = r.choice(("", "\n", "\n    "))
    return head + "<svg %s>%s</svg>" % (ns, sep.join(body)) + r.choice(("", "\n", "<!-- end -->"))


def generated(r, uid, size):
    if r.random() < .3:
        return rich(r, uid, min(size, 40))
    ids = []
    head = ""
    if r.random() < .15:
        head = '<?xml version="1.0" encoding="UTF-8"?>\n'
    ns = SVG + (' xmlns:xlink="http://www.w3.org/1999/xlink"' if True else "")
    if r.random() < .5:
        ns += ' viewBox="0 0 %d %d"' % (r.randint(1, 200), r.randint(1, 200))
    if r.random() < .4:
        ns += ' width="%d" height="%d"' % (r.randint(1, 200), r.randint(1, 200))
    ns += ' xmlns:unknown="http://example.com/u"' if r.random() < .9 else ' xmlns:unknown="urn:x" xmlns:unused="urn:y"'
    body = []
    if r.random() < .25:
        body.append("<style>%s</style>" % "".join(
            "%s{%s:%s}" % (r.choice((".c0", ".c1", "#i0", "rect", "g>path", ".c0 .c1", ".c2:hover")),
                           r.choice(("fill", "stroke", "opacity")), r.choice(("red", "#00f", "inherit")))
            for _ in range(r.randint(1, 4))))
    if r.random() < .25:
        body.append('<defs><linearGradient id="gr%d"><stop offset="0" stop-color="%s"/><stop offset="1"/></linearGradient>'
                    '</defs>' % (uid, r.choice(COLORS)))
        ids.append("gr%d" % uid)
    for _ in range(size):
        body.append(shape(r, ids, 2))
    body.append("<text>doc%d</text>" % uid)
    sep = r.choice(("", "\n", "\n    "))
    return head + "<svg %s>%s</svg>" % (ns, sep.join(body)) + r.choice(("", "\n"))


SHARED = ('fill="red"', 'stroke="#00f"', 'stroke-width="3"', 'color="red"', 'font-size="3"', 'opacity=".5"', 'fill-rule="evenodd"',
          'transform="rotate(9)"', 'stroke-linecap="round"', 'font-family="f"', 'letter-spacing="1"', 'fill-opacity=".3"',
          'class="c0 c1 c2"', 'data-a="1"', 'style="marker:none;cursor:help"', 'visibility="hidden"', 'foo="1"', 'onclick="f()"')
PREFIXES = ("inkscape=http://www.inkscape.org/namespaces/inkscape", "sodipodi=http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd",
            "sketch=http://www.bohemiancoding.com/sketch/ns", "u1=urn:1", "u2=urn:2", "u3=urn:3", "u4=urn:4",
            "figma=http://www.figma.com/figma/ns", "dc=http://purl.org/dc/elements/1.1/", "xlink=http://www.w3.org/1999/xlink")


def plenty(r, uid):
    """Several of everything that may be kept in a collection: shared attributes, ids, classes, rules, prefixes, duplicates."""
    prefixes = [p.split("=", 1) for p in r.sample(PREFIXES, r.randint(0, 8))]
    root = r.sample(SHARED, r.randint(0, 5)) + ['xmlns:%s="%s"' % tuple(p) for p in prefixes]
    root += ['%s:a%d="%d"' % (p[0], i, i) for i, p in enumerate(prefixes) if r.random() < .4]
    r.shuffle(root)
    n = r.randint(2, 6)
    body = []

    def leaf(i, a):
        a = list(a)
        r.shuffle(a)
        if not any(x.startswith("id=") for x in a) and r.random() < .5:
            a.insert(r.randint(0, len(a)), 'id="%s%d"' % (r.choice(("n", "i")), i))
        return r.choice(('<path d="M%d 1h2v3z" %s/>' % (r.randint(0, 3), " ".join(a)), '<rect width="%d" height="2" %s/>' % (i + 1, " ".join(a)),
                         '<text %s>t%d</text>' % (" ".join(a), i)))
    for k in range(r.randint(1, 4)):
        a = r.sample(SHARED, r.randint(2, 6))
        kids = "".join(leaf(10 * k + i, a) for i in range(r.randint(2, 4)))
        body.append(r.choice(("<g>%s</g>", "<g>%s</g>", "<g><g>%s</g></g>", "<g fill='none'>%s</g>", "<a>%s</a>", "%s")) % kids)
    if r.random() < .6:
        d = ["M%d 0h%dv1z" % (i, i + 5) for i in range(n)]
        body.append("".join('<path d="%s" stroke="%s"/>' % (x, c) for x in r.sample(d * 2, len(d) * 2) for c in ("red",)))
    if r.random() < .6:
        ids = ["gr%d" % i for i in range(n)]
        body.append("<defs>%s</defs>" % "".join('<%s id="%s"><stop offset="0" stop-color="red"/><stop offset="1"/></%s>' % (e, i, e)
                                               for i in r.sample(ids, n) for e in ("linearGradient",)))
        body.append("".join('<circle r="%d" fill="url(#%s)" stroke="url(#%s)"/>' % (i + 1, r.choice(ids), r.choice(ids)) for i in range(n)))
    if r.random() < .6:
        names = ["c%d" % i for i in range(n)]
        for _ in range(r.choice((1, 1, 2))):
            body.insert(0, "<style>%s</style>" % "".join(
                "%s{%s}" % (",".join("." + c for c in r.sample(names, r.choice((1, 1, 2)))),
                            ";".join("%s:%s" % (q, r.choice(("red", "1", "none"))) for q in r.sample(PAINT[:9], r.randint(1, 4))))
                for _ in range(n)))
        body.append("".join('<rect width="%d" height="1" class="%s"/>' % (i + 1, " ".join(r.sample(names, r.randint(1, len(names)))))
                            for i in range(n)))
    if r.random() < .4:
        body.append("".join("<%s:e%d/>" % (p[0], i) for i, p in enumerate(prefixes) if p[0] != "xlink" and r.random() < .5))
    if r.random() < .4:
        body.append("".join('<%s id="u%d" %s/>' % (r.choice(("g", "symbol", "view", "foo", "bar")), i, " ".join(r.sample(SHARED, r.randint(0, 4))))
                            for i in range(n)))
    return "<svg %s %s>%s</svg>" % (SVG, " ".join(root), r.choice(("", "\n")).join(body))


LETTERS = ("a", "\u00e9", "\u4e16", "\U0001F600", "e\u0301", " ", "&amp;", "\u200b", "\u2028", "x\t", "&#10;")


def words(r):
    """Text of any length, with characters of one to four bytes."""
    x = r.choice(LETTERS)
    n = r.choice((1, 3, 10, 30, 60, 100, 200))
    return r.choice(("", "x", "xx", "xxx")) + (x * n if r.random() < .6 else "".join(r.choice(LETTERS) for _ in range(n)))


def worded(r, uid):
    """Long and unusual text in every place where it can be."""
    nl = r.choice(("\n", "\n", "", "\r\n", "\n\n\t"))
    body = []
    for _ in range(r.randint(1, 5)):
        v = words(r)
        body.append(r.choice((
            "<text>%s</text>" % v, "<rect foo='%s' width='1' height='1'/>" % v, '<g id="%s"/>' % v.replace(" ", ""),
            "<!-- %s -->" % v, "<desc>%s</desc>" % v, '<path d="M0 0%s"/>' % v, '<circle r="1" class="%s"/>' % v,
            '<rect style="fill:red;%s"/>' % v, '<style>/* %s */.c0{fill:red}</style>' % v, '<a href="%s"/>' % v,
            '<rect fill="%s"/>' % v, '<use href="#%s"/>' % v, '<g transform="%s"/>' % v, '<rect xml:lang="%s" bar="1"/>' % v,
            '<%s/>' % ("e" + "\u00e9\u4e16"[:r.randint(0, 2)] * r.choice((1, 40))), "<?pi %s?>" % v.replace("?", ""),
            '<rect %s="1"/>' % ("a" + "\u4e16" * r.choice((1, 40))), '<g unknown:b="%s"/>' % v, '<style>.%s{fill:%s}</style>' % (v, v))))
    return "<svg %s%s xmlns:unknown='urn:%s'>%s%s</svg>" % (
        SVG, r.choice(("", ' viewBox="0 0 9 9"')), r.choice(("x", "\u4e16" * 50)), nl, nl.join(body) + nl)


def odd(r, uid):
    """Anything that may arrive as a document."""
    x = r.random()
    if x < .3:
        return worded(r, uid)
    if x < .5:
        return rich(r, uid, r.choice((1, 2, 4, 8)))
    if x < .6:
        return mutated(r, rich(r, uid, 4))
    if x < .85:
        d = mutated(r, r.choice(corpus()["docs" if x < .7 else "pairs"])["svg"])
        return mutated(r, d) if r.random() < .3 else d
    d = (worded(r, uid) if x < .92 else rich(r, uid, 3))
    for _ in range(r.choice((1, 1, 2, 5))):
        i = r.randrange(len(d) + 1)
        d = d[:i] + r.choice(("<", ">", "&", '"', "'", "/", "\u4e16", "", "]]>", "<!--", "--", "\0", "xmlns", "=", "#")) + d[i + r.choice((0, 0, 1, 7)):]
    return d


TAG = re.compile(r"<([A-Za-z][\w:.-]*)((?:\s+[\w:.-]+\s*=\s*(?:\"[^\"<]*\"|'[^'<]*'))*)\s*(/?)>")
ATTR = re.compile(r"([\w:.-]+)\s*=\s*(\"[^\"<]*\"|'[^'<]*')")
ELEMENTS = ("g", "path", "rect", "svg", "use", "defs", "a", "text", "tspan", "stop", "linearGradient", "mask", "symbol", "style",
            "circle", "ellipse", "line", "polygon", "image", "title", "foreignObject", "animate", "filter", "switch")
NAMES_OF_ATTRS = PAINT + ("id", "class", "style", "transform", "d", "x", "y", "width", "height", "href", "xlink:href", "viewBox",
                          "points", "cx", "r", "rx", "offset", "gradientTransform", "xml:space", "x1", "preserveAspectRatio",
                          "font-family", "begin", "values", "in", "result", "stdDeviation", "overflow", "version")


def mutated(r, doc):
    """The document with a few attributes, values, names and nodes exchanged; still well-formed unless it was not."""
    n = r.choice((1, 2, 4, 8))
    tags = list(TAG.finditer(doc))
    if not tags:
        return doc
    values = [m[2][1:-1] for m in ATTR.finditer(doc)]
    out, last = [], 0
    for m in sorted(r.sample(tags, min(n, len(tags))), key=lambda m: m.start()):
        attrs = [(a[1], a[2][1:-1]) for a in ATTR.finditer(m[2])]
        k = r.randrange(6)
        own = [i for i, a in enumerate(attrs) if not a[0].startswith("xmlns")]
        if k < 3 and own:
            i = r.choice(own)
            v = r.choice((r.choice(VALUES), r.choice(values), num(r), attrs[i][1][:r.randint(0, 9)], attrs[i][1] + " " + r.choice(VALUES)))
            attrs[i] = (attrs[i][0], v)
        elif k == 3 and own:
            del attrs[r.choice(own)]
        elif k < 5:
            key = r.choice(NAMES_OF_ATTRS)
            if key not in dict(attrs) and (":" not in key or key.startswith("xml:") or "xmlns:xlink" in doc):
                attrs.append((key, r.choice((r.choice(VALUES), r.choice(values), num(r)) if values else VALUES)))
        text = "<%s%s%s>" % (m[1], "".join(' %s="%s"' % (a, b.replace('"', "'")) for a, b in attrs), m[3])
        if k == 5 and m[3]:
            e = r.choice(ELEMENTS)
            text = "<%s%s>%s</%s>" % (e, r.choice(("", ' id="%s"' % r.choice(VALUES[:3]), ' class="c0"')), text * r.randint(1, 2), e)
        out += [doc[last:m.start()], text]
        last = m.end()
    return "".join(out) + doc[last:]


WORDS_OF_TEXT = ("lorem", "ipsum", "dolor", "a", "of", "x1", "\u00e9t\u00e9", "\u4e16\u754c", "&amp;", "&lt;", "-", "the")


def huge(r, uid, sizes=(70000, 140000, 300000)):
    """A document larger than the usual buffers; most of it is text, which is quick to process."""
    n = r.choice(sizes)
    line = " ".join(r.choice(WORDS_OF_TEXT) for _ in range(r.choice((7, 30, 400))))
    text = ("%d " % uid + line + r.choice(("\n", " "))) * (n // len(line) + 1)
    k = r.randrange(3)
    if k == 0:
        body = "<text>%s</text>" % text
    elif k == 1:
        body = '<g data-t="%s"/>' % text.replace("\n", " ")
    else:
        body = "".join("<text>%s</text>" % text[i:i + 9000].replace("&amp;", "+").replace("&lt;", "+").replace("&", "+")
                       for i in range(0, len(text), 9000))
    return '<svg %s>%s<path d="M%d 0L5 5"/></svg>' % (SVG, body, uid)


def document(r, uid, big=.05):
    if r.random() < big * .06:
        return huge(r, uid)
    x = r.random()
    if x < .20:
        return r.choice(corpus()["docs"])["svg"]
    if x < .28:
        return r.choice(corpus()["pairs"])["svg"]
    if x < .40:
        return mutated(r, r.choice(corpus()["docs" if x < .34 else "pairs"])["svg"])
    if x < .46:
        return odd(r, uid)
    if x < .5:
        return plenty(r, uid)
    if x < 1 - big:
        return generated(r, uid, r.choice((0, 1, 2, 3, 5, 8, 13)))
    return generated(r, uid, r.choice((60, 200)))


def own_document(r, uid, big=.05):
    """A well-formed document that no other document equals."""
    if r.random() < big * .06:
        return huge(r, uid)
    return generated(r, uid, r.choice((60, 200)) if r.random() < big else r.choice((0, 1, 2, 3, 5, 8, 13)))


def bad_document(r, uid):
    """Content that cannot be read as a document."""
    good = generated(r, uid, 3)
    k = r.randrange(8)
    if k == 0:
        return ""
    if k == 1:
        return good[:r.randint(1, len(good) - 8)]
    if k == 2:
        return {"hex": (good.encode()[:40] + b"\xff\xfe\xc3(" + good.encode()[40:]).hex()}
    if k == 3:
        return good.replace("</svg>", "</svgg>")
    if k == 4:
        return "not an svg %d" % uid
    if k == 5:
        return good + "<svg/>"
    if k == 6:
        return '<svg %s a="1" a="2"/>' % SVG
    return '<svg %s><x:y/></svg>' % SVG


NAMES = ("a", "b", "c", "icon", "Arrow-left", "arrow_right", "my icon", "1st", "x.y", "été", "logo", "z9",
         "UPPER", "d-e-f", "世界", "q'uote", "home", "tmp", "index2", "e")
DIRS = ("sub", "deep", "x y", "icons.svg", "n", ".hid", "Out")


def component(stem):
    """The component name of a document."""
    return "".join(w[:1].upper() + w[1:] for w in re.split(r"[^0-9A-Za-z]+", stem)).lstrip("0123456789")


def name(r, used, ext=".svg", odd=True):
    for _ in range(60):
        n = r.choice(NAMES) if odd else r.choice(string.ascii_lowercase)
        if r.random() < .3:
            n += str(r.randint(0, 99))
        if odd and r.random() < .02:
            n += "\udce9"
        if n + ext not in used:
            used.add(n + ext)
            return n + ext
    n = "f%d" % len(used)
    used.add(n + ext)
    return n + ext


def tree(r, top="in", ndocs=None, depth=2, bad=0., odd=True, make=document, hidden=.08, links=.06, bystanders=True,
         big=.05, ignores=.15):
    """A directory tree below `top`; returns {path: node}."""
    out = {}
    n = ndocs if ndocs is not None else r.choice((1, 2, 2, 3, 3, 4, 5, 6, 8, 12))
    dirs = [top]
    for _ in range(r.choice((0, 0, 1, 2, 3)) if depth else 0):
        base = r.choice(dirs)
        if base.count("/") >= depth:
            continue
        d = base + "/" + (r.choice(DIRS) if odd else r.choice(("sub", "deep", "n")))
        if "/.hid" in d and hidden == 0:
            continue
        if d not in dirs:
            dirs.append(d)
    used = {d: set() for d in dirs}
    uid = r.randint(1, 900) * 100
    for i in range(n):
        d = r.choice(dirs)
        f = name(r, used[d], odd=odd)
        if r.random() < hidden:
            f = "." + f
        p = d + "/" + f
        if r.random() < bad:
            out[p] = {"c": bad_document(r, uid + i)}
        elif r.random() < links and i:
            t = "ext/t%d.svg" % i
            out[t] = {"c": make(r, uid + i, big)}
            out[p] = {"l": "../" * (d.count("/") + 1) + t}
        else:
            out[p] = {"c": make(r, uid + i, big)}
            if r.random() < .1:
                out[p]["m"] = r.choice((0o600, 0o644, 0o664, 0o755, 0o640))
            if r.random() < links * .3:
                out["ext/h%d.svg" % i] = dict(out[p])
                out[p]["h"] = "ext/h%d.svg" % i
    for d in dirs:
        if d != top and not any(p.startswith(d + "/") for p in out):
            out[d] = {"d": 1}
    if bystanders:
        for _ in range(r.choice((0, 0, 1, 2, 3))):
            d = r.choice(dirs)
            f = r.choice(("notes.txt", "pic.SVG", "noext", "a.svg.bak", "README.md", "x.svgz", "keep.jsx", ".oxvg-1-2.tmp",
                          "svg", ".svg"))
            out.setdefault(d + "/" + f, {"c": "bystander <svg %s/>" % SVG})
    if r.random() < ignores:
        d = r.choice(dirs)
        fn = r.choice((".ignore", ".ignore", ".gitignore"))
        docs = [p for p in out if p.endswith(".svg") and "c" in out[p]]
        pats = []
        for _ in range(r.randint(1, 3)):
            b = os.path.basename(r.choice(docs)) if docs else "a.svg"
            b = "".join(c if c.isalnum() or c in "._-" else "?" for c in b)
            pats.append(r.choice((b, "/" + b, "!" + b, "# " + b, "sub/", "*" + b[-6:], "deep", "n/")))
        out[d + "/" + fn] = {"c": "\n".join(pats) + "\n"}
        if fn == ".gitignore" and r.random() < .7:
            out[".git/HEAD"] = {"c": "ref: refs/heads/main\n"}
    return out


FLAGS = ("cleanupEnableBackground", "collapseGroups", "convertEllipseToCircle", "convertOneStopGradients", "mergeStyles",
         "moveElemsAttrsToGroup", "moveGroupAttrsToElems", "removeDimensions", "removeDoctype", "removeEmptyAttrs",
         "removeMetadata", "removeNonInheritableGroupAttrs", "removeOffCanvasPaths",
         "removeRasterImages", "removeScripts", "removeStyleElement", "removeTitle", "removeUnusedNS",
         "removeUselessDefs", "removeViewBox", "removeXMLNS", "removeXMLProcInst", "reusePaths", "sortDefsChildren",
         "removeEmptyContainers")
BOOL = (True, False)
WORDS = (["c0", "c9"], ["x", "y", "a", "z", "b"], ["c1"], [])
# the options of each job and values they may have
OPTIONS = {
    "precheck": {"failFast": (False, False, False, True), "precleanChecks": BOOL},
    "addAttributesToSVGElement": {"attributes": ({"fill": "red", "role": "img", "data-q": "1", "class": "k"},
                                                 {"width": "5", "aria-hidden": "true"}, {})},
    "addClassesToSVGElement": {"classNames": WORDS, "className": ("one", "c0", "m n")},
    "cleanupListOfValues": {"floatPrecision": (0, 1, 3), "defaultPx": BOOL, "convertToPx": BOOL},
    "convertStyleToAttrs": {"keepImportant": BOOL},
    "removeAttrs": {"attrs": (["fill"], ["*:stroke"], ["path:d", "rect:.*", "g:id:i0"], ["(fill|stroke)"]),
                    "elemSeparator": (":", ":", ","), "preserveCurrentColor": BOOL},
    "removeElementsByAttr": {"id": (["i0"], ["i1", "gr100"], []), "class": (["c0"], ["c1", "c2"], [])},
    "removeComments": {"preservePatterns": (["^!"], ["a.c", "x"], ["a comment"])},
    "removeDeprecatedAttrs": {"removeAny": BOOL},
    "removeEditorsNSData": {"additionalNamespaces": (["urn:x", "http://example.com/u"], ["urn:y"], [])},
    "cleanupAttrs": {"newlines": BOOL, "trim": BOOL, "spaces": BOOL},
    "inlineStyles": {"onlyMatchedOnce": BOOL, "removeMatchedSelectors": BOOL, "useMqs": ([""], ["", "screen", "print"]),
                     "usePseudos": ([""], ["", ":hover", "::before"])},
    "minifyStyles": {"usage": (True, False, "force")},
    "cleanupIds": {"remove": BOOL, "minify": BOOL, "force": BOOL, "preserve": (["i0"], ["i1", "gr0"]),
                   "preservePrefixes": (["i"], ["gr", "x"])},
    "cleanupNumericValues": {"floatPrecision": (0, 1, 3), "defaultPx": BOOL, "convertToPx": BOOL},
    "convertColors": {"method": ("lightning", "currentColor")},
    "removeUnknownsAndDefaults": {k: BOOL for k in (
        "unknownContent", "unknownAttrs", "defaultAttrs", "defaultMarkupDeclarations", "uselessOverrides",
        "keepDataAttrs", "keepAriaAttrs", "keepRoleAttr")},
    "removeUselessStrokeAndFill": {"stroke": BOOL, "fill": BOOL, "removeNone": BOOL},
    "removeHiddenElems": {k: BOOL for k in (
        "isHidden", "displayNone", "opacityZero", "circleRZero", "ellipseRxZero", "ellipseRyZero", "rectWidthZero",
        "rectHeightZero", "patternWidthZero", "patternHeightZero", "imageWidthZero", "imageHeightZero", "pathEmptyD",
        "polylineEmptyPoints", "polygonEmptyPoints")},
    "convertShapeToPath": {"convertArcs": BOOL, "floatPrecision": (0, 2, 5)},
    "applyTransforms": {"transformPrecision": (1.0, 5.0), "applyTransformsStroked": BOOL},
    "convertPathData": {k: BOOL for k in (
        "closeSegments", "uniteSegments", "joinNodes", "removeEmptySegments", "removeZeroSegments", "removeCloseLine",
        "straightCurves", "arcCurves", "smartArcRounding")},
    "convertTransform": {"convertToShorts": BOOL, "degPrecision": (0, 2), "floatPrecision": (0, 3),
                         "transformPrecision": (1, 5), "matrixToTransform": BOOL, "shortRotate": BOOL,
                         "removeUseless": BOOL, "collapseIntoOne": BOOL},
    "mergePaths": {"force": BOOL},
    "sortAttrs": {"order": (["id", "d"], ["z", "fill", "class"], []), "xmlnsOrder": ("alphabetical", "front")},
    "removeEmptyText": {"text": BOOL, "tspan": BOOL, "tref": BOOL},
    "removeDesc": {"removeAny": BOOL},
    "prefixIds": {"delim": ("__", "-", ""), "prefix": ("p", "my", None), "prefixIds": BOOL, "prefixClassNames": BOOL},
    "removeXlink": {"includeLegacy": BOOL},
}
SELECTORS = ("rect", ".c0", "#i0", "g > path", "[fill]", "*")
REQUIRED = {"addAttributesToSVGElement": ("attributes",), "removeAttrs": ("attrs",)}
JOBS = FLAGS + tuple(sorted(OPTIONS)) + ("removeAttributesBySelector",)


def patterns(r):
    """Many different patterns, each of which is kept by the program once it was used."""
    out = []
    for _ in range(r.choice((3, 8, 20, 50))):
        attr = r.choice(("fill", "stroke", "id", "d", "x", "width", "opacity", "class", "data-x", "style", "transform"))
        out.append(r.choice(("%s", "%s", "path:%s", "rect:%s", "g:%s", "*:%s", "*:%s:none")) % r.choice(
            (attr, attr, attr[:2] + ".*", "(%s|%s%d)" % (attr, attr, r.randint(0, 99)), "%s[%d-9]+" % (attr, r.randint(0, 8)))))
    return out


def job(r, name):
    if name == "removeAttrs" and r.random() < .3:
        return {"attrs": patterns(r)}
    if name == "removeComments" and r.random() < .2:
        return {"preservePatterns": [p.replace(":", " ").replace("*", "[*]") for p in patterns(r)]}
    if name in OPTIONS:
        return {k: r.choice(v) for k, v in OPTIONS[name].items() if k in REQUIRED.get(name, ()) or r.random() < .5}
    if name in FLAGS:
        return r.random() < .95
    return [{"selector": s, "attributes": r.sample(("fill", "stroke", "id", "class", "d", "x"), r.randint(1, 3))}
            for s in r.sample(SELECTORS, r.randint(1, 3))]


def jobs(r):
    x = r.random()
    if x < .35:
        return r.choice(corpus()["pairs"])["jobs"]
    out = {}
    if x < .6:
        for _ in range(r.randint(1, 4)):
            out.update(r.choice(corpus()["pairs"])["jobs"])
        return out
    for n in r.sample(JOBS, r.choice((1, 1, 2, 3, 5, 12, len(JOBS)))):
        out[n] = job(r, n)
    return out


ACTIONS = (
    ["-select", "rect", "-attr", "fill", "blue"],
    ["-select", "path", "-class", "cx"],
    ["-select", "svg", "-style", "color", "red"],
    ["-select", "rect,circle", "-translate", "3", "4"],
    ["-select", "g", "-rotate", "45"],
    ["-select", "text", "-scale", "2"],
    ["-select", "svg", "-insert", "rect"],
    ["-select", "path", "-matrix", "1", "0", "0", "1", "2", "3"],
    ["-select", "*", "-deselect"],
    ["-select", "rect", "-forget"],
    ["-select", "rect", "-select-more", "path", "-skewX", "4"],
)
BAD_ACTIONS = (["-select", "[["], ["-select", ":::", "-attr", "a", "b"])


QUERIES = ("rect", "path", "*", "svg", "g > path", ".c0", "#i0", "[fill]", "path:nth-child(2)", "svg *", "text, circle",
           ":not(g)", "missing", "", "[[", "a:hover", "::before", "*|*", "rect:first-child ~ *", "\u4e16", ">", "#", "[d^=M]",
           ":is(g, path)", ":has(rect)", "#i0 .c1", "oxvg|state", "use")
NUMBERS = ("0", "1", "-3", "1e3", "1e999", "NaN", "", "abc", ".5", "90", "3.4e38", "1e-30")


def odd_actions(r):
    """Any action with any argument."""
    out = ["-select", r.choice(QUERIES)] if r.random() < .8 else []
    for _ in range(r.randint(1, 4)):
        k = r.choice(("attr", "attr", "class", "style", "path-union", "path-intersect", "path-subtract", "path-xor", "matrix",
                      "translate", "scale", "rotate", "skewX", "skewY", "insert", "forget", "select", "select-more", "deselect",
                      "create-element"))
        n = {"attr": 2, "style": 2, "class": 1, "matrix": 6, "translate": r.randint(1, 2), "scale": r.randint(1, 2),
             "rotate": r.choice((1, 3)), "skewX": 1, "skewY": 1, "insert": 1, "select": 1, "select-more": 1,
             "create-element": 1}.get(k, 0)
        if k.startswith("path-"):  # only between few paths, only once: the cost grows with the number of curves multiplied
            if any(x.startswith("-path-") for x in out):
                continue
            out += ["-select", r.choice(("path:nth-child(2)", "#i0, #i1", "defs > path", "path:first-child", "svg > path:nth-child(-n+2)"))]
        out.append("-" + k)
        for i in range(n):
            if k in ("attr", "style") and i == 0:
                out.append(r.choice(NAMES_OF_ATTRS + ("xmlns", "foo", "", "a b", "x:y")))
            elif k in ("attr", "style", "class"):
                out.append(r.choice(VALUES + ("c0", "a b")))
            elif k in ("select", "select-more"):
                out.append(r.choice(QUERIES))
            elif k in ("insert", "create-element"):
                out.append(r.choice(ELEMENTS + ("", "1x", "foo", "a b", "x:y", "svg:rect", "\u4e16")))
            else:
                out.append(r.choice(NUMBERS[:2] + ("2.5", "-1") if r.random() < .8 else NUMBERS))
    return out


def action_list(r):
    out = []
    for _ in range(r.randint(1, 3)):
        out += r.choice(ACTIONS)
    return out


def jsx_opts(r):
    out = []
    if r.random() < .3:
        out += ["--typescript", r.choice(("true", "false"))]
    if r.random() < .3:
        out += ["--export-type", r.choice(("named", "default"))]
    if r.random() < .15:
        out += ["--no-oxvg"]
    if r.random() < .15:
        out += ["--memo", "true"]
    if r.random() < .15:
        out += ["--ref", "true"]
    if r.random() < .15:
        out += ["--native", "true"]
    if r.random() < .15:
        out += ["--title-prop", "true"]
    if r.random() < .1:
        out += ["--desc-prop", "true"]
    if r.random() < .15:
        out += ["--icon", r.choice(("true", "24", "1em"))]
    if r.random() < .2:
        for p in r.sample(("fill=currentColor", "role=img", "data-a=1", "focusable={false}", "width=9"), r.randint(1, 3)):
            out += ["--svg-props", p]
    if r.random() < .2:
        for p in r.sample(("red=blue", "blue=red", "#00f=currentColor", "none={props.c}"), r.randint(1, 3)):
            out += ["--replace-attr-values", p]
    if r.random() < .1:
        out += ["--jsx-runtime", r.choice(("classic", "automatic"))]
    if r.random() < .1:
        out += ["--expand-props", r.choice(("start", "end", "none"))]
    if r.random() < .1:
        out += ["--no-dimensions"]
    if r.random() < .1:
        out += ["--extends", r.choice(("default", "safe", "none"))]
    return out


def pretty(r):
    out = []
    if r.random() < .3:
        out += ["--pretty", r.choice(("none", "tabs", "2", "4", "7"))]
    if r.random() < .2:
        out += ["--space", r.choice(("auto", "default", "preserve"))]
    return out


def config(r):
    c = {"optimise": {"jobs": jobs(r)}}
    if r.random() < .3:
        c["optimise"]["extends"] = r.choice(("default", "safe", "none"))
    if r.random() < .15:
        c["optimise"]["omit"] = r.sample(("remove_comments", "remove_metadata", "convert_path_data", "cleanup_ids", "prefix_ids", "inline_styles",
                                          "collapse_groups", "merge_paths", "no_such_job"), r.randint(0, 3))
    return c


TEMPLATES = (
    "$imports\n$interfaces\nfunction $componentName($props) {\n  return $jsx;\n}\n$exports\n",
    "$imports;\nimport T from 'prop-types';\nconst $componentName = ($props) => $jsx;\n$componentName.propTypes = { title: T.string };\n$exports;\n",
    "const $componentName = ($props) => { const a = $jsx; return a; };\nexport const again = $componentName;\nexport default $componentName;\n",
    "function a($props) { return $jsx; }\nfunction b(x, $props) { return x ? $jsx : a(x); }\n$exports;\n",
    "",
)


# What a configuration of known effect does: (job, its settings, its name in `omit`, part of every preset, what it removes).
KNOWN_JOBS = (("removeTitle", (True, True, False), "remove_title", False, "kn-title"),
              ("removeDesc", ({"removeAny": True},), "remove_desc", False, "kn-desc"),
              ("removeComments", ({},), "remove_comments", True, "kn-comment"),
              ("removeMetadata", (True, True, False), "remove_metadata", True, "kn-meta"))

# What each rule says of `known_problems`.
KNOWN_RULES = {"noDefaultAttributes": "attribute `x` has a value that matches its default", "noDeprecated": "Deprecated element <cursor>",
               "noInvalidAttributes": "attribute `fill` has an invalid value", "noUnknownAttributes": "Unknown attribute `kn-att",
               "noUnknownElements": "Unknown element <kn-el", "noUnusedIds": "kn-id", "noUnusedXmlns": "namespace `xmlns:kn-ns",
               "noXLink": "attribute `xlink:href` is deprecated"}


def known_document(uid):
    return ('<svg %s><title>kn-title%d</title><desc>kn-desc%d</desc><!--kn-comment%d--><metadata>kn-meta%d</metadata>'
            '<path d="M%d 0L5 5"/></svg>' % (SVG, uid, uid, uid, uid, uid))


def known_problems(r, uid):
    """A document with one problem for each of some rules, and the rules."""
    parts = {"noDefaultAttributes": '<rect x="0" width="%d"/>' % uid, "noDeprecated": "<cursor/>", "noInvalidAttributes": '<rect fill="banana 3 q"/>',
             "noUnknownAttributes": '<rect kn-att%d="2"/>' % uid, "noUnknownElements": "<kn-el%d/>" % uid, "noUnusedIds": '<g id="kn-id%d"/>' % uid,
             "noXLink": '<use xlink:href="#kn-r"/><g id="kn-r"/>'}
    rules = set(r.sample(sorted(KNOWN_RULES), r.randint(0, len(KNOWN_RULES))))
    ns = ' xmlns:kn-ns="http://kn"' if "noUnusedXmlns" in rules else ""
    ns += ' xmlns:xlink="http://www.w3.org/1999/xlink"' if "noXLink" in rules else ""
    body = [parts[k] for k in sorted(rules) if k in parts]
    r.shuffle(body)
    return "<svg %s%s>%s</svg>" % (SVG, ns, "".join(body)), rules


def known_config(r, cmd):
    """A configuration whose effect on `known_document` is known: (configuration, removed, left)."""
    jobs, gone, omit = {}, set(), []
    extends = r.choice((None, None, "none", "safe", "default"))
    for name, settings, snake, preset, mark in KNOWN_JOBS:
        on = preset and extends in ("safe", "default")
        if r.random() < .5:
            jobs[name] = r.choice(settings)
            on = jobs[name] is not False
        if r.random() < .2:
            omit.append(snake)
            on = False
        if on:
            gone.add(mark)
    c = {"jobs": jobs}
    if extends:
        c["extends"] = extends
    if omit:
        c["omit"] = omit
    left = {k[4] for k in KNOWN_JOBS} - gone
    if cmd == "jsx":
        left.discard("kn-comment")
    return {"optimise": c}, sorted(gone), sorted(left)


def command(r, cmds=("optimise", "format", "action", "jsx", "lint"), cfg=.25):
    """(command, options, list after `--`, configuration files)."""
    cmd = r.choice(cmds)
    opts, tail, files = [], [], {}
    if cmd == "optimise":
        opts += pretty(r)
        x = r.random()
        if x < .25:
            opts += ["--extends", r.choice(("default", "safe", "none"))]
        elif x < .25 + cfg:
            files["my.json"] = {"c": json.dumps(config(r))}
            opts += ["--config", "my.json"]
        elif x < .25 + 2 * cfg:
            files["oxvgrc.json"] = {"c": json.dumps(config(r))}
    elif cmd == "format":
        opts += pretty(r)
    elif cmd == "action":
        opts += pretty(r)
        tail = action_list(r)
    elif cmd == "jsx":
        opts += jsx_opts(r)
        if r.random() < .15:
            files["tpl.js"] = {"c": r.choice(TEMPLATES)}
            opts += ["--template", "tpl.js"]
        if r.random() < cfg:
            files["oxvgrc.json"] = {"c": json.dumps(config(r))}
    elif cmd == "lint":
        if r.random() < .6:
            opts += ["--level", r.choice(("error", "warn", "off"))]
        if r.random() < cfg:
            files["oxvgrc.json"] = {"c": json.dumps({"lint": lint_rules(r)})}
    return cmd, opts, tail, files


RULES = ("noDefaultAttributes", "noDeprecated", "noInvalidAttributes", "noUnknownAttributes", "noUnknownElements",
         "noUnusedIds", "noUnusedXmlns", "noXLink")


def lint_rules(r):
    return {k: r.choice(("Error", "Warn", "Off")) for k in r.sample(RULES, r.randint(1, len(RULES)))}


# ------------------------------------------------------------------ simulator
def schedule(r, calm=.1):
    """How the threads of one run are interleaved (swarm style: each run uses other rates)."""
    s = {"sseed": r.getrandbits(40), "fseed": r.getrandbits(40), "hseed": r.getrandbits(40),
         "dseed": r.getrandbits(30) if r.random() < .8 else 0,
         "ncpu": r.choice((1, 2, 2, 3, 4, 4, 6, 8)), "tokio": r.choice((1, 2, 2, 4))}
    x = r.random()
    if x < calm:
        pass
    elif x < .65:
        s.update(policy=0, patomic=r.choice((0, 0, 300, 3000, 30000)), psync=r.choice((0, 10000, 100000, 500000)),
                 pio=r.choice((0, 10000, 100000, 300000, 700000)))
    else:
        s.update(policy=1, pct=r.randint(1, 6), pctlen=r.choice((3000, 10000, 40000, 150000)))
        if r.random() < .5:
            s.update(pct=r.choice((0, 0, 1)), pspot=r.choice((8, 30, 100)))
    if r.random() < .25:
        s["pspur"] = r.choice((20000, 200000))
    if r.random() < .3:
        s["tick"] = r.choice((1, 50, 5000, 5000 if s.get("pspot") else 1000000))
    if r.random() < .2:
        s["tjump"] = r.choice((1000, 20000))
    return s


EINTR, EIO, ENOSPC, EACCES, EMFILE, EPIPE, ENOENT, EDQUOT, EROFS, EBUSY, ENOMEM, EAGAIN = 4, 5, 28, 13, 24, 32, 2, 122, 30, 16, 12, 11


def benign(r, stdout=True):
    """Legal behaviour of the operating system that must not change any result."""
    rules = []
    if r.random() < .5:
        rules.append(["read", "short", -1, r.choice((20000, 200000, 600000)), 0])
    if r.random() < .5:
        rules.append(["write", "short", -1, r.choice((20000, 200000, 600000)), 0])
    if stdout and r.random() < .5:
        rules.append(["stdout", "short", -1, r.choice((20000, 200000, 600000)), 0])
    for c in ("read", "write", "stdout", "openr", "openw"):
        if c == "stdout" and not stdout:
            continue
        if r.random() < .3:
            rules.append([c, "err", EINTR, r.choice((20000, 200000)), 0])
    return rules
