"""Properties of the libraries, called from the harness program in /verif/harness."""
import copy
import json
import re
import struct
import xml.etree.ElementTree as ET

from . import batch, build, gen, run
from .engine import Prop
from .props_batch import Batch, ending

CALM = dict(policy=0, ncpu=2, tty=0)
REAL = ("the oxvg_ast, oxvg_collections, oxvg_optimiser, oxvg_lint, oxvg_jsx and oxvg_actions crates of /repo with their "
        "dependencies, called by a small harness program; Rust's std; libc except the calls below")
STUB = ("thread scheduling, futexes, clocks, random bytes, CPU count, standard input and output: simulated by simrt; the "
        "writers that results go to: stand-ins that accept, shorten, interrupt or refuse as planned")
JOBS_WITH_MEMO = ("removeAttrs", "removeComments", "removeUnknownsAndDefaults", "sortAttrs")
SPACES = ("auto", "never", "default", "preserve")
KINDS = ("pipe", "pipe", "full", "full", "block", "timeout", "zero", "zero", "reset", "aborted", "denied", "eof", "invalid", "other", "other")


def call(w, scn, key="sim", sim=None):
    """Runs the harness; the answer, or the violations if it did not end properly."""
    res = w.execute([], dict(sim or scn[key], tty=0), key=key, program=build.HARNESS,
                    stdin=json.dumps(scn["call"]).encode())
    bad = ending(res)
    if not bad and res.code != 0:
        bad = [("abnormal-end", "the process ended with status %d: %s" % (res.code, batch.show(res.err[-600:], 600)))]
    return (None, bad) if bad else (json.loads(res.out), [])


def cut(text, n=200):
    text = text if isinstance(text, str) else json.dumps(text)
    return text if len(text) <= n else text[:n] + "..."


def layout(r):
    if r.random() < .2:
        return None
    return {"single": r.random() < .3, "indent": r.choice((None, None, "tabs", 0, 1, 2, 7)), "space": r.choice(SPACES),
            "attrs": r.choice((None, None, None, "tabs", 3)), "closing": r.random() < .7, "minify": r.random() < .7}


def component(r):
    out = {}
    for k in ("ref", "title", "desc", "dimensions", "native", "typescript", "oxvg", "memo"):
        if r.random() < .35:
            out[k] = r.random() < .7
    if r.random() < .3:
        out["expand"] = r.choice(("start", "end", "none"))
    if r.random() < .3:
        out["icon"] = r.choice((True, False, "1em", 24))
    if r.random() < .3:
        out["jobs"] = r.choice((gen.jobs(r), "safe"))
    if r.random() < .4:
        out["export"] = r.choice(("named", "default"))
    if r.random() < .2:
        out["name"] = r.choice(("Icon", "ReactComponent", "A1"))
    if r.random() < .3:
        out["runtime"] = r.choice(("classic", "automatic", "preact"))
    return out


def some_document(r, uid=0, big=0):
    x = r.random()
    if x < .6:
        return gen.document(r, uid, big)
    return gen.own_document(r, uid, big) if x < .8 else r.choice((gen.odd, gen.worded))(r, uid)


def operation(r, doc, kinds=("format", "optimise", "optimise", "jsx", "lint")):
    """A call of the library with any settings."""
    op = {"op": r.choice(kinds), "doc": doc}
    if op["op"] in ("format", "optimise"):
        op["options"] = layout(r)
    if op["op"] == "optimise":
        op["jobs"] = r.choice((None, "safe", gen.jobs(r), gen.jobs(r)))
    elif op["op"] == "jsx":
        op["config"] = component(r)
    elif op["op"] == "lint":
        op["rules"] = gen.lint_rules(r) if r.random() < .6 else None
    elif op["op"] == "action":
        op["actions"] = steps(r, r.randint(1, 5))
    return op


class Library(Prop):
    harness = True
    program = False
    real, stub = REAL, STUB

    def describe(self, scn):
        return cut(scn["call"], 300)


# ---------------------------------------------------------------- writers that fail
class C13(Library):
    id = "C13"
    rule = ("An evaluation is one process that makes several calls, each into a writer with a plan of its own. "
            "distinct_nontrivial counts distinct pairs of call and plan in which the writer refused something.")
    level = "fault_enumeration"
    budget = {"quick": (5000, 100), "thorough": (200000, 2400)}
    assumptions = ["A writer keeps to the contract of std::io::Write: what it reports as accepted it has taken, in order."]

    def plan(self, r):
        p = {"sticky": r.random() < .6}
        if r.random() < .5:
            p["sizes"] = [r.choice((1, 1, 2, 3, 7, 64, 0)) for _ in range(r.randint(1, 4))]
        if r.random() < .3:
            p["interrupted"] = sorted({r.choice((0, 1, 2, 3, 5, 9, 20, 60, 200)) for _ in range(r.randint(1, 5))})
        if r.random() < .85:
            p["kind"] = r.choice(KINDS)
            if r.random() < .7:
                p["part"] = r.choice((0, 1000, 999, r.randrange(1000), r.randrange(1000), r.randrange(1000)))
            else:
                p["fail"] = r.choice((0, 1, 2, 3, r.randrange(300), r.randrange(3000)))
        return p

    def generate(self, r, tier):
        cases = []
        for _ in range(r.choice((4, 8))):
            doc = gen.huge(r, 0) if r.random() < .01 else some_document(r, big=.04)
            if r.random() < .05 and not doc.startswith("<?"):
                doc = r.choice(("<?xml-stylesheet href='a.css'?>", "<?p?>\n", "<?p a?><?q?>")) + doc
            op = operation(r, doc)
            for _ in range(r.randint(1, 4)):
                cases.append(dict(op, plan=self.plan(r)))
        return {"call": {"mode": "write", "cases": cases}, "sim": dict(CALM)}

    def judge(self, w, scn):
        answers, out = call(w, scn)
        for case, a in zip(scn["call"]["cases"], answers or ()):
            what = "%s into a writer that behaves as %s" % (case["op"], json.dumps(case["plan"]))
            if "panic" in a["outcome"] and "panic" not in a["whole"]:
                out.append(("panic", "%s panicked: %s" % (what, cut(a["outcome"]["panic"], 400))))
            if "ok" not in a["whole"]:
                w.probe("calls that fail whatever the writer does")
                continue
            w.probe("calls")
            w.probe("writers that failed", a["failed"])
            if a["failed"]:
                w.seen.add(hash(json.dumps(case)))
            w.faults["writer:" + case["plan"].get("kind", "none")] += a["failed"]
            if not a["prefix"]:
                out.append(("not-a-prefix", "%s got something else than the beginning of the complete output (%d of %d bytes)"
                            % (what, a["got"], a["length"])))
            elif "ok" in a["outcome"] and a["got"] != a["length"]:
                out.append(("truncated", "%s succeeded, but the writer got %d of %d bytes" % (what, a["got"], a["length"])))
            if "ok" in a["outcome"] and a["outcome"] != a["whole"]:
                out.append(("other-result", "%s gave %s instead of %s" % (what, cut(a["outcome"]), cut(a["whole"]))))
            if "err" in a["outcome"] and not a["failed"]:
                out.append(("false-failure", "%s failed although the writer did not: %s" % (what, cut(a["outcome"]["err"], 400))))
        return out

    def reductions(self, scn):
        cases = scn["call"]["cases"]
        for n in (len(cases) // 2, 1):
            for i in range(0, len(cases), max(1, n)):
                if 0 < n < len(cases):
                    yield self.with_cases(scn, cases[i:i + n])
        if len(cases) == 1:
            for k in ("sizes", "interrupted", "sticky", "kind"):
                if k in cases[0]["plan"]:
                    c = copy.deepcopy(cases)
                    del c[0]["plan"][k]
                    yield self.with_cases(scn, c)
            for doc in smaller(cases[0]["doc"]):
                yield self.with_cases(scn, [dict(cases[0], doc=doc)])

    def with_cases(self, scn, cases):
        return dict(scn, call=dict(scn["call"], cases=cases))


def smaller(doc):
    """Documents without one of the elements."""
    try:
        root = ET.fromstring(doc)
    except (ET.ParseError, ValueError):
        return
    spots = [(p, c) for p in root.iter() for c in p]
    for p, c in spots[:60]:
        i = list(p).index(c)
        p.remove(c)
        yield ET.tostring(root, encoding="unicode")
        p.insert(i, c)


# ------------------------------------------------------------------ several threads
class C14(Library):
    id = "C14"
    budget = {"quick": (3000, 100), "thorough": (100000, 2400)}
    assumptions = ["Context switches happen at atomic operations, locks and system calls.",
                   "The operation alone in a process of its own defines its result."]

    def generate(self, r, tier):
        docs = [some_document(r, i) for i in range(r.randint(1, 3))]
        kinds = r.choice((("optimise",), ("format", "optimise", "optimise", "jsx", "lint", "action"), ("lint", "optimise"),
                          ("jsx",), ("action", "optimise", "lint")))
        pool = [operation(r, r.choice(docs), kinds) for _ in range(r.randint(1, 5))]
        if r.random() < .15:
            pool = [{"op": "optimise", "doc": r.choice(docs), "options": None, "jobs": {n: gen.job(r, n) for n in JOBS_WITH_MEMO}}
                    for _ in range(r.randint(2, 4))]
        threads = [[r.choice(pool) for _ in range(r.choice((1, 1, 2, 3)))] for _ in range(r.choice((1, 2, 2, 3, 4)))]
        return {"call": {"mode": "threads", "shared": r.random() < .5, "threads": threads},
                "sims": [gen.schedule(r) for _ in range(3)]}

    def alone(self, w, op):
        key = "lib" + json.dumps(op)
        if key not in w.refs.memo:
            w.refs.trim()
            res = run.execute(w.refs.slot, [], CALM, program=build.HARNESS, stdin=json.dumps({"ops": [op]}).encode())
            w.refs.runs += 1
            w.refs.memo[key] = json.loads(res.out)[0] if res.code == 0 else {"end": res.code}
        return w.refs.memo[key]

    def judge(self, w, scn):
        answers, out = call(w, scn)
        for t, (ops, got) in enumerate(zip(scn["call"]["threads"], answers or ())):
            for i, (op, a) in enumerate(zip(ops, got)):
                want = self.alone(w, op)
                w.probe("operations")
                w.probe("operations that fail", "ok" not in want)
                if a != want:
                    x, y = (json.dumps(v, ensure_ascii=False) for v in (a, want))
                    n = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
                    out.append(("other-result", "operation %d (%s) of thread %d gave ...%s, alone it gives ...%s"
                                % (i, op["op"], t, x[max(0, n - 60):n + 200], y[max(0, n - 60):n + 200])))
                    return out
        return out

    def reductions(self, scn):
        threads = scn["call"]["threads"]

        def w(t):
            return dict(scn, call=dict(scn["call"], threads=t))
        for i in range(len(threads)):
            if len(threads) > 1:
                yield w(threads[:i] + threads[i + 1:])
        for i, t in enumerate(threads):
            for j in range(len(t)):
                if len(t) > 1:
                    yield w(threads[:i] + [t[:j] + t[j + 1:]] + threads[i + 1:])
        for doc in sorted({op["doc"] for t in threads for op in t}):
            for d in smaller(doc):
                yield w([[dict(op, doc=d) if op["doc"] == doc else op for op in t] for t in threads])


# ------------------------------------------------------------------ editing sessions
QUERIES = ("rect", "path", "g", "svg", "text", "circle", "use", "defs", "g > path", "rect, circle", ".c0", ".c1", "#i0", "#i1",
           "[fill]", "[id]", "[class]", "path:nth-child(2)", "[d^=M]", "g *", "missing", "svg > rect", "tspan",
           "linearGradient, filter", "rect:first-child", "g, rect, path", "rect ~ rect",
           ".世", "svg rect,svg path", "rect, path, circle, g, text, polygon, line", "1", "2", "3", "2, 4", "5 3 3", "1,2,3,4,5,6,7")
NAMES = ("fill", "stroke", "id", "class", "x", "width", "d", "transform", "opacity", "data-x", "viewBox", "points", "style",
         "href", "foo", "xml:space", "clip-path", "aria-label", "stroke-width")
VALUES = ("red", "#00f", "12", "1 2 3 4", "none", "url(#i0)", "M0 0h5v5z", "a b", "", "translate(2)", "<&>\"'", "é世",
          "  spaced  ", "line\nbreak", "{x}", "50%", "fill:red", "a,b", "]]>", "&amp;", "c0 c1", "\t", "a\\b")
NUMBERS = (0, 1, -3, 2.5, 90, .125, 1e6, -0.0, 3.3333333, 1e-7, 45, -1, 100000.5)


def step(r):
    k = r.choice(("select", "select", "select", "select-more", "select-more", "attr", "attr", "class", "style", "matrix",
                  "translate", "scale", "rotate", "skewX", "skewY", "insert", "forget", "deselect"))

    def n(k):
        return [r.choice(NUMBERS) for _ in range(k)]
    if k in ("select", "select-more"):
        return [k, r.choice(QUERIES)]
    if k == "attr":
        return [k, r.choice(NAMES), r.choice(VALUES)]
    if k == "style":
        return [k, r.choice(("color", "fill", "opacity", "stroke-width", "--x", "display")),
                r.choice(("red", "1", "none", "2px", "blue !important", "var(--x)", "url(#i0)", "a;b", "\"q\""))]
    if k == "class":
        return [k, r.choice(("k", "a b", "c0", " k ", "é", "<"))]
    if k == "insert":
        return [k, r.choice(("rect", "g", "path", "text", "circle", "defs", "use", "linearGradient", "svg", "a", "svg:rect"))]
    return [k] + n({"matrix": 6, "translate": r.randint(1, 2), "scale": r.randint(1, 2), "rotate": r.choice((1, 3)),
                    "skewX": 1, "skewY": 1}.get(k, 0))


def fit(doc, actions, numbers):
    """The actions, without prefixes that the document does not declare and numbers of elements that it does not have.
    Nor do they select what a session keeps in the document."""
    n = numbers and len(re.findall("<[A-Za-z]", doc))
    declared = 'xmlns:svg="http://www.w3.org/2000/svg"' in doc
    out = []
    for a in actions:
        if a[0].startswith("select") and re.fullmatch("[0-9]+([ ,]+[0-9]+)*", a[1]) and max(map(int, re.findall("[0-9]+", a[1]))) > n:
            a = [a[0], "svg"] if a not in FAILING else a
        if a[1:] == ["g *"] and re.findall("</(?:[^:<>]+:)?([^:<>]+)>", doc)[-1:] == ["g"]:
            a = [a[0], "g"]
        if a == ["insert", "svg:rect"] and not declared:
            a = ["insert", "rect"]
        out.append(a)
    return out


def length(r, usual):
    """The number of actions of a session: sometimes more than any limit that may have been thought sufficient."""
    x = r.random()
    return r.choice((300, 150)) if x < .002 else r.choice((35, 70)) if x < .02 else r.choice((2, 4, 7, usual))


def steps(r, n, paths=.3):
    """Actions.  Path operations occur once only: their results are rounded when they are written."""
    out = [step(r) for _ in range(n)]
    if r.random() < paths:
        i = r.randint(0, len(out))
        out[i:i] = [["select", r.choice(("path:nth-child(2)", "#i0, #i1", "path:first-child", "svg > path:nth-child(-n+2)"))],
                    [r.choice(("path-union", "path-xor", "path-intersect", "path-subtract"))]]
    return out


SVG = "{http://www.w3.org/2000/svg}"
KNOWN = {"svg", "rect", "path", "g", "text", "circle", "use", "defs", "tspan", "linearGradient", "filter"}
UNITS = re.compile(r"\d *(px|em|%|deg|rad|turn|pt)")
NS = "{https://oxvg.noahwbaldwin.me}"
STATE = re.compile(r"<oxvg:state.*</oxvg:state>|<oxvg:state[^>]*/>| xmlns:oxvg=\"[^\"]*\"", re.S)


def canon(text):
    """A document without the state saved in it, whatever the order of attributes."""
    try:
        root = ET.fromstring(text)
    except (ET.ParseError, ValueError):
        return "unparsed " + STATE.sub("", text)

    def c(e):
        kids, text = [], e.text or ""
        for k in e:
            if k.tag == NS + "state":
                text += k.tail or ""
                continue
            kids.append((text, c(k)))
            text = k.tail or ""
        return (str(e.tag), tuple(sorted(e.attrib.items())), tuple(kids), text)
    return c(root)


def sight(s):
    """What can be seen of a session at one point."""
    out = {"outcome": s.get("outcome"), "document": canon(s["doc"])}
    st = s["state"].get("ok")
    if st is None:
        out["state"] = s["state"]
    else:
        out.update(history=st["history"], selection=st["selection"],
                   information=flat([re.sub("Aliased .*element_id: (.*) }", "\\1", str(st["element"]))] +
                                    [st.get(k) for k in ("text", "values", "attributes", "children")]))
    return out


def flat(v):
    """As after parsing: with spaces for other whitespace in attributes, without the declarations of prefixes and
    the data of paths, which are compared in documents."""
    return [flat(x) for x in v if not str(x).startswith(("xmlns", "d="))] if isinstance(v, list) else re.sub("[\t\r\n]", " ", v) if isinstance(v, str) else v


def single(v):
    """Numbers as they are kept: with single precision."""
    return struct.unpack("f", struct.pack("f", v))[0] if isinstance(v, (int, float)) else v


def within(shorter, longer):
    """Whether a sequence is what is left of another when some of its elements are removed."""
    it = iter(longer)
    return all(x in it for x in shorter)


def history(actions, seen):
    """What is wrong with the history after a session: it must list the actions that succeeded, may list the others."""
    given = [[single(v) for v in a] for a in actions]
    done = [a for a, x in zip(given, seen[1:]) if "ok" in x["outcome"]]
    if "ok" not in seen[-1]["state"]:
        return [("no-history", "the state after %s cannot be read: %s" % (cut(actions), cut(seen[-1]["state"])))]
    listed = seen[-1]["state"]["ok"]["history"]
    if within(done, listed) and within(listed, given):
        return []
    return [("wrong-history", "the history is %s when the actions that succeeded are listed" % apart(listed, done))]


def apart(a, b):
    """Where two texts differ first."""
    a, b = (v if isinstance(v, str) else repr(v) for v in (a, b))
    n = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return "...%s... and ...%s..." % (a[max(0, n - 60):n + 160], b[max(0, n - 60):n + 160])


def plain(doc):
    """Whether a document is one in SVG's namespace.  Elements called as SVG's but belonging to others end up with two
    attributes of the same name when they are changed."""
    try:
        elements = list(ET.fromstring(doc).iter())
    except (ET.ParseError, ValueError):
        return False
    if any(UNITS.search(v) for e in elements for k, v in e.attrib.items() if k.endswith("ransform")):
        return False  # lengths with units cannot be combined with the numbers of the actions
    tags = {str(e.tag) for e in elements}
    names = {t[len(SVG):] for t in tags if t.startswith(SVG)}
    return all(t.startswith(SVG) or t.split("}")[-1] not in names | KNOWN for t in tags)


class Session(Library):
    def start(self, r):
        while True:
            doc = some_document(r, big=.02)
            if plain(doc):
                return doc

    def describe(self, scn):
        return cut(dict(actions=scn.get("actions"), saves=scn.get("saves")), 300)

    def ask(self, w, key, scn, case):
        answers, bad = call(w, {"call": {"mode": "session", "cases": [case]}, key: scn["sim"]}, key=key)
        return (answers[0] if answers else None), bad

    def reductions(self, scn):
        if "actions" not in scn:
            return
        for i in range(len(scn["actions"])):
            c = copy.deepcopy(scn)
            del c["actions"][i]
            if "saves" in c:
                c["saves"] = [s - (s > i) for s in c["saves"] if s != i]
            yield c
        for i in range(len(scn.get("saves", ()))):
            c = copy.deepcopy(scn)
            del c["saves"][i]
            yield c
        for d in smaller(scn["doc"]):
            yield dict(scn, doc=d)


class C15(Session):
    id = "C15"
    rule = ("An evaluation is one session, once left open and once saved and resumed. distinct_nontrivial counts distinct "
            "sessions (document, actions, points of resumption) that were resumed at least once.")
    simkeys = ("sim",)
    budget = {"quick": (8000, 100), "thorough": (400000, 2400)}
    assumptions = ["Documents are such that parsing and writing them again changes nothing; other documents are written once "
                   "more before they are used, and left out if that does not settle.",
                   "Documents are compared as trees: the order of attributes is immaterial.",
                   "Path operations are used once per session, since their results are rounded when written."]

    def generate(self, r, tier):
        actions = steps(r, length(r, 12))
        if r.random() < .1:
            actions.insert(r.randint(0, len(actions)), r.choice(FAILING))
        p = r.choice((.2, .5, 1))
        doc = self.start(r)
        return {"doc": doc, "actions": fit(doc, actions, False), "saves": [i for i in range(len(actions)) if r.random() < p],
                "fresh": r.random() < .25, "sim": dict(CALM)}

    def judge(self, w, s):
        one, bad = self.ask(w, "open", s, {"doc": s["doc"], "actions": s["actions"]})
        if bad:
            return bad
        if "skip" in one:
            w.probe("unsuitable documents")
            return [("panic", cut(one["skip"], 400))] if "panic" in one["skip"] else []
        if "ok" not in one["end"]:
            w.probe("documents that cannot be saved")
            return [("panic", cut(one["end"], 400))] if "panic" in one["end"] else []
        for i, x in enumerate(one["seen"][1:]):
            if "panic" in x["outcome"]:
                return [("panic", "%s panicked: %s" % (cut(s["actions"][i]), cut(x["outcome"], 400)))]
        bad = history(s["actions"], one["seen"])
        if bad:
            return bad
        if s["fresh"]:
            two, bad = self.in_pieces(w, s)
        else:
            two, bad = self.ask(w, "sim", s, {"doc": s["doc"], "actions": s["actions"], "saves": s["saves"]})
        if bad:
            return bad
        w.probe("sessions")
        w.probe("resumed", len(s["saves"]))
        if s["saves"]:
            w.seen.add(hash(json.dumps([s["doc"], s["actions"], s["saves"]])))
        w.probe("selected elements at the end", len((one["seen"][-1]["state"].get("ok") or {}).get("selection", ())))
        if two["end"] != one["end"]:
            return [("cannot-resume", "%s when the session is saved after %s" % (cut(two["end"], 400), s["saves"]))]
        for i, (x, y) in enumerate(zip(one["seen"], two["seen"])):
            x, y = sight(x), sight(y)
            for k in x:
                if x[k] != y.get(k):
                    return [("other-" + k, "after %s the %s is %s when the session was saved and resumed after the actions %s"
                             % (cut(s["actions"][i - 1]) if i else "the start", k, apart(x[k], y.get(k)), s["saves"]))]
        if canon(one["settled"]) != canon(two["settled"]):
            return [("other-saved", "the saved documents are %s" % apart(canon(one["settled"]), canon(two["settled"])))]
        return []

    def in_pieces(self, w, s):
        """The session resumed in a process of its own each time."""
        ends = sorted({i + 1 for i in s["saves"] if i + 1 < len(s["actions"])}) + [len(s["actions"])]
        at, doc, total = 0, s["doc"], None
        for n, end in enumerate(ends):
            part, bad = self.ask(w, "sim", s, {"doc": doc, "actions": s["actions"][at:end], "resume": n > 0})
            if bad:
                return None, bad
            if "skip" in part:
                return {"end": part["skip"], "seen": []}, []
            if total is None:
                total = part
            else:
                total = {"seen": total["seen"] + part["seen"][1:], "end": part["end"], "saved": part["saved"], "settled": part["settled"]}
            if "ok" not in part["end"]:
                break
            at, doc = end, part["saved"]
        return total, []


# actions that fail, at least when something is selected
FAILING = [[k, q] for k in ("select", "select-more") for q in ("[[", "", "#", ">", "::before", "a:hover", ":has(rect)",
                                                                ":is(g, path)", "oxvg|state", "rect[", "a b >")]
FAILING += [[k, q] for k in ("select", "select-more") for q in ("1 x", "2;", "1.5")]
FAILING += [["style", n, "red"] for n in ("a b", "", "x:y", "1")]
SURE = [f for f in FAILING if f[0] != "style"]


class C16(Session, Batch):
    id = "C16"
    rule = ("An evaluation is one session with actions that fail and the same session without them, or one run of the "
            "command line with a failing action. distinct_nontrivial counts distinct sessions in which an action failed and "
            "distinct interleavings of the runs of the command line.")
    program = True
    real = stub = None
    budget = {"quick": (6000, 100), "thorough": (200000, 2400)}
    cmds = ("action",)
    assumptions = ["An action fails when the call reports an error; the history may list it all the same.",
                   "Documents are compared as trees: the order of attributes is immaterial."]

    def generate(self, r, tier):
        if r.random() < .3:
            return self.on_disk(r)
        actions = steps(r, length(r, 7))
        for _ in range(r.randint(1, 4)):
            actions.insert(r.randint(0, len(actions)), r.choice(FAILING))
        doc = self.start(r)
        return {"doc": doc, "actions": fit(doc, actions, True), "sim": dict(CALM)}

    def on_disk(self, r):
        s = self.scenario(r)
        args = list(s["tail"])
        bad = ["-" + r.choice(("select", "select-more")), r.choice(("[[", "#", ">", "::before", "a:hover", ":has(rect)"))]
        starts = [i for i, a in enumerate(args) if a.startswith("-") and a[1:2].isalpha()] + [len(args)]
        i = r.choice(starts)
        s["tail"] = args[:i] + bad + args[i:]
        s["sims"] = self.sims(r, n=2)
        return s

    def describe(self, scn):
        return Session.describe(self, scn) if "doc" in scn else Batch.describe(self, scn)

    def reductions(self, scn):
        return Session.reductions(self, scn) if "doc" in scn else Batch.reductions(self, scn)

    def judge(self, w, s):
        if "doc" not in s:
            return self.judge_disk(w, s)
        one, bad = self.ask(w, "sim", s, {"doc": s["doc"], "actions": s["actions"]})
        if bad:
            return bad
        if "skip" in one:
            w.probe("unsuitable documents")
            return []
        seen = one["seen"]
        for i, x in enumerate(seen[1:]):
            if "panic" in x["outcome"]:
                return [("panic", "%s panicked: %s" % (cut(s["actions"][i]), cut(x["outcome"], 400)))]
        failed = [i for i, x in enumerate(seen[1:]) if "err" in x["outcome"]]
        w.probe("actions", len(s["actions"]))
        w.probe("actions that failed", len(failed))
        w.faults["action:invalid"] += len(failed)
        if failed:
            w.seen.add(hash(json.dumps([s["doc"], s["actions"]])))
        rest = [a for i, a in enumerate(s["actions"]) if i not in failed]
        two, bad = self.ask(w, "without", s, {"doc": s["doc"], "actions": rest})
        if bad:
            return bad
        if one["end"] != two["end"]:
            return [("cannot-go-on", "the session ends with %s, without the actions that fail with %s"
                     % (cut(one["end"], 300), cut(two["end"], 300)))]
        other = iter(two["seen"])
        now = sight(next(other))
        for i, x in enumerate(seen):
            what = cut(s["actions"][i - 1]) if i else "the start"
            if i and i - 1 not in failed:
                now = sight(next(other))
            x = sight(x)
            for k in now:
                if k in ("outcome", "history"):
                    continue
                if x.get(k) != now[k]:
                    return [("other-" + k, "after %s the %s is %s without the actions that fail, %s"
                             % (what, k, apart(x.get(k), now[k]), [s["actions"][j] for j in failed]))]
            if "history" in now and not within(now["history"], x["history"]):
                return [("other-history", "after %s the history is %s without the actions that fail"
                         % (what, apart(x["history"], now["history"])))]
        bad = history(s["actions"], seen)
        if bad:
            return bad
        if canon(one["settled"]) != canon(two["settled"]):
            return [("other-saved", "the saved document is %s without the actions that fail"
                     % apart(canon(one["settled"]), canon(two["settled"])))]
        return []

    def judge_disk(self, w, s):
        res = self.run(w, s)
        out = ending(res)
        if out:
            return out
        if res.code not in (1,) and batch.select(s)[0]:
            out.append(("exit", "the run ended with %d although actions failed: %s" % (res.code, batch.show(res.err, 300))))
        for p, node in s["tree"].items():
            if "c" in node and res.files.get(p) != run.data(node["c"]):
                out.append(("changed", "%s was %s and is %s although the actions on it failed"
                            % (p, batch.show(run.data(node["c"])), batch.show(res.files.get(p)))))
        dests = {batch.dest(s, d) for d in batch.select(s)[0]} - {None}
        for p in sorted(dests):
            if p not in s["tree"] and p in res.files:
                out.append(("written", "%s was written although the actions failed: %s" % (p, batch.show(res.files[p]))))
        if res.out.strip():
            out.append(("written", "standard output got %s although the actions failed" % batch.show(res.out)))
        w.probe("documents on disk", len(batch.select(s)[0]))
        return out[:1]


ALL = (C13(), C14(), C15(), C16())
