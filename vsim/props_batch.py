"""Properties of the command line over documents on disk."""
import copy
import json
import posixpath
import re

from . import batch, gen, run
from .engine import Prop

ENDINGS = {98: "deadlock", 97: "no end within the step limit"}
HARD = {
    "openr": (("err", gen.EACCES), ("err", gen.EIO), ("err", gen.EMFILE), ("vanish", 0)),
    "openw": (("err", gen.ENOSPC), ("err", gen.EACCES), ("err", gen.EROFS), ("err", gen.EMFILE), ("sticky", gen.ENOSPC)),
    "read": (("err", gen.EIO),),
    "write": (("err", gen.ENOSPC), ("err", gen.EIO), ("err", gen.EDQUOT), ("sticky", gen.ENOSPC)),
    "stat": (("err", gen.EACCES), ("err", gen.EIO)),
    "opendir": (("err", gen.EACCES), ("err", gen.EMFILE)),
    "readdir": (("err", gen.EIO),),
    "mkdir": (("err", gen.ENOSPC), ("err", gen.EACCES)),
    "rename": (("err", gen.EACCES), ("err", gen.EIO), ("err", gen.ENOSPC)),
    "meta": (("err", gen.EACCES),),
    "trunc": (("err", gen.ENOSPC), ("err", gen.EIO)),
    "unlink": (("err", gen.EIO),),
    "sync": (("err", gen.EIO),),
    "stdout": (("err", gen.EPIPE), ("err", gen.ENOSPC), ("err", gen.EIO), ("sticky", gen.EPIPE), ("sticky", gen.ENOSPC),
               ("err", gen.EAGAIN), ("sticky", gen.EAGAIN)),
}
MUTATING = ("openw", "write", "mkdir", "unlink", "rename", "trunc", "meta", "close", "sync")


def ours(op):
    """Operations on documents, directories and results (not on the configuration or ignore files)."""
    p = op["path"]
    return p.startswith(("in", "out", "ext", "deep", "res", "<stdout>", "v")) and not p.endswith(("/.ignore", "/.gitignore", "/.git"))


def ending(res):
    if res.code in ENDINGS:
        return [("no-end", "the run did not end: %s after %d steps" % (ENDINGS[res.code], res.rep["steps"]))]
    if res.timeout:
        return [("no-end", "the run did not end within the time limit")]
    return []


def vanished(res):
    """Files that somebody else removed during the run."""
    return {f[4] for f in res.fired() if f[1] == "vanish"}


def outside(res):
    e = res.escapes()
    return [("escape", "the run tried to write outside the working tree: %s" % e[0])] if e else []


class Batch(Prop):
    cmds = ("optimise", "format", "action", "jsx")
    outs = (None, "", "out", "out", "deep/er/out")
    treeargs = {}
    nsims = 4
    multi = .15
    single = .08
    lists = .4
    forms = .25
    mass = 0
    quiet = .4
    premade = .25
    assumptions = ["A kill is a kill of the process: what was written before it survives in the page cache.",
                   "Other processes change nothing during a run, apart from injected removals of a document.",
                   "Context switches happen at atomic operations, locks, thread creation and system calls; the code "
                   "between two of those runs without interruption."]

    def scenario(self, r, **over):
        cmd, opts, tail, files = gen.command(r, self.cmds)
        s = dict(cmd=cmd, opts=opts, tail=tail, r=r.random() < .75, hidden=r.random() < .2, noignore=r.random() < .1,
                 threads=r.choice((0, 0, 1, 2, 2, 3, 4, 8)), quiet=r.random() < self.quiet, paths=["in"],
                 out=r.choice(self.outs))
        kw = dict(self.treeargs)
        kw.update(over.pop("treeargs", {}))
        s.update(over)
        x = r.random()
        if x < self.multi:
            s["tree"] = gen.tree(r, "in", **kw)
            s["tree"].update(gen.tree(r, "in2", **kw))
            s["paths"] = r.choice((["in", "in2"], ["in2", "in"], ["./in", "in2/"]))
            if r.random() < self.lists:
                s["paths"] = self.pick(r, s["tree"], r.randint(2, 5))
            if s["out"] and (r.random() < .5 or self.collide(s)):
                s["out"] = r.choice((None, ""))
        elif x < self.multi + self.single:
            s["tree"] = gen.tree(r, "in", ndocs=1, depth=0, **{k: v for k, v in kw.items() if k not in ("ndocs", "depth")})
            d = [p for p in s["tree"] if p.startswith("in/") and p.endswith(".svg") and "d" not in s["tree"][p]]
            s["paths"] = d[:1] or ["in"]
            if s["out"]:
                s["out"] = r.choice(("res.svg", "deep/res.svg"))
        else:
            s["tree"] = gen.tree(r, "in", **kw)
            if x > .95 and not s["out"]:
                s["paths"] = ["."]
            elif r.random() < .08:
                s["paths"] = [r.choice([p for p in self.dirs(s["tree"])])]
                if kw.get("ignores", 1) and r.random() < .4:
                    # an ignore file above the given path
                    docs = [posixpath.basename(p) for p in sorted(s["tree"]) if p.endswith(".svg")]
                    d = posixpath.dirname(s["paths"][0])
                    s["tree"][(d + "/" if d and r.random() < .7 else "") + ".ignore"] = {
                        "c": "".join(c if c.isalnum() or c in "._-" else "?" for c in r.choice(docs or ["a.svg"])) + "\n"}
        if s["paths"] != ["."] and r.random() < self.forms:
            s["paths"] = [self.form(r, p, not p.endswith(".svg")) for p in s["paths"]]
            if s["out"] and r.random() < .4:
                s["out"] = self.form(r, s["out"], not s["out"].endswith(".svg"))
        if cmd == "lint":
            s["out"] = r.choice((None, None, None, "out"))
        s["tree"].update(files)
        if s["paths"] == ["."]:
            s["hidden"] = False
        if r.random() < self.mass:
            self.many(r, s)
        self.no_collisions(s)
        if r.random() < self.premade:
            self.premake(r, s)
        if cmd == "jsx" and r.random() < .1:
            s["opts"] = s["opts"] + ["--no-index"]
        return s

    def dirs(self, tree):
        """The directories that hold documents."""
        return sorted({posixpath.dirname(p) for p in tree if p.endswith(".svg") and posixpath.dirname(p)}) or ["in"]

    def pick(self, r, tree, n):
        """Some documents and directories, none of which contains another."""
        docs = [p for p in sorted(tree) if p.endswith(".svg") and p != ".svg" and "d" not in tree[p] and posixpath.dirname(p)]
        out = []
        for p in [r.choice(docs if r.random() < .7 and docs else self.dirs(tree)) for _ in range(n)]:
            if not any((a + "/").startswith(b + "/") for q in out for a, b in ((p, q), (q, p))):
                out.append(p)
        return out

    def form(self, r, p, isdir):
        """The same path written in another way."""
        x = r.random()
        if x < .3:
            return "./" + p
        if x < .6:
            return run.ROOT + "/" + p
        if x < .75 and isdir:
            return p.rstrip("/") + "/"
        if x < .9 and p.startswith("in"):
            return "in/../" + p
        return p

    def collide(self, s):
        d = [batch.dest(s, d) or batch.resolve(s["tree"], d[0]) for d in batch.select(s)[0]]
        return len(d) != len(set(d)) or any(y.startswith(x + "/") for x in d for y in d)

    def crowd(self, r):
        """Many unusual documents at once."""
        cmd, opts, tail, files = gen.command(r, self.cmds, cfg=.4)
        s = dict(cmd=cmd, opts=opts, tail=gen.odd_actions(r) if cmd == "action" else tail, r=False, hidden=False, noignore=False,
                 threads=r.choice((0, 1, 2, 4)), quiet=True, paths=["in"], out="out", tree=files)
        for i in range(r.choice((8, 20, 40)) if cmd != "lint" else r.choice((3, 8))):
            s["tree"]["in/%d.svg" % i] = {"c": gen.odd(r, i)}
        return s

    def plenty(self, r):
        """Documents with several of everything, and jobs that are not followed by one that puts things in order."""
        cmd, opts, tail, files = gen.command(r, self.cmds, cfg=0)
        if cmd == "optimise":
            names = r.sample(gen.JOBS, r.choice((1, 1, 1, 2, 4)))
            files = {"oxvgrc.json": {"c": json.dumps({"optimise": {"extends": "none", "jobs": {n: gen.job(r, n) for n in names}}})}}
            opts = gen.pretty(r)
        s = dict(cmd=cmd, opts=opts, tail=tail, r=False, hidden=False, noignore=False,
                 threads=r.choice((0, 1, 2, 4)), quiet=True, paths=["in"], out="out", tree=files)
        for i in range(r.choice((4, 10, 20)) if cmd != "lint" else r.choice((1, 3, 6))):
            s["tree"]["in/%d.svg" % i] = {"c": gen.plenty(r, i)}
        return s

    def racing(self, r):
        """A few small documents that are done at about the same time, one of which fails."""
        cmd, opts, tail, files = gen.command(r, self.cmds, cfg=0)
        s = dict(cmd=cmd, opts=opts, tail=tail, r=False, hidden=False, noignore=False,
                 threads=r.choice((2, 2, 3, 4)), quiet=True, paths=["in"], out=r.choice(self.outs), tree=files)
        n = r.choice((2, 2, 3, 4))
        bad = r.randrange(n)
        for i in range(n):
            s["tree"]["in/%d.svg" % i] = {"c": "<svg %s/>" % gen.SVG}
        if s["out"] == "out" and cmd in ("optimise", "format", "action") and r.random() < .5:
            s["tree"]["out/%d.svg" % bad] = {"d": 1}
        else:
            s["tree"]["in/%d.svg" % bad] = {"c": r.choice(("<svg", "<svg><g></svg>"))}
        if cmd == "lint":
            s["out"] = None
        s["sims"] = self.sims(r, n=16)
        for sim in s["sims"]:
            if r.random() < .7:
                sim.update(policy=1, pct=r.choice((0, 0, 1)), pctlen=3000, pspot=r.choice((8, 30, 100)), tick=200)
        return s

    def many(self, r, s):
        """Many small documents, most of which fail in the same way."""
        d = next((batch.local(p) for p in s["paths"] if p != "." and not p.endswith(".svg")), "in")
        n = r.choice((10, 20, 40))
        fail = r.choice((0, .5, .9))
        if r.random() < .2:
            n, fail = 256, 1
            s["tree"] = {p: t for p, t in s["tree"].items() if p in batch.CONFIGS}
            s["paths"] = [d]
        kinds = r.choice((("<svg",), ("<svg><g></svg>",), ({"hex": "3c737667fffe"},), ("<svg",), ({"hex": "3c737667fffe"}, "<svg", "")))
        for i in range(n):
            s["tree"]["%s/m%03d.svg" % (d, i)] = {"c": r.choice(kinds) if r.random() < fail else '<svg %s><path d="M%d 1z"/></svg>' % (gen.SVG, i)}

    def no_collisions(self, s):
        """Links are removed when two selected documents would share a destination."""
        if self.collide(s):
            s["tree"] = {p: n for p, n in s["tree"].items() if "l" not in n}

    def premake(self, r, s):
        """Results of an earlier run already exist."""
        for d in batch.select(s)[0]:
            p = batch.dest(s, d)
            if p and p not in s["tree"] and r.random() < .5:
                if r.random() < .1:
                    s["tree"]["ext/old%d" % len(s["tree"])] = {"c": "old"}
                    s["tree"][p] = {"l": "../" * p.count("/") + "ext/old%d" % (len(s["tree"]) - 1)}
                else:
                    own = batch.content(s, d)
                    s["tree"][p] = {"c": r.choice(("", "<svg>old</svg>", "old " * 400, "o" * len(own), run.undata(own))), "m": r.choice((0o600, 0o644, 0o664))}
        if batch.uses_index(s):
            for d in batch.select(s)[0][:2]:
                stem = posixpath.splitext(posixpath.basename(batch.place(s, d)))[0]
                own = 'export { %s } from "./%s"' % (r.choice(("%s", "default as %s")) % gen.component(stem), batch.lossy(stem))
                s["tree"].setdefault(batch.index_of(s, d), {"c": r.choice(
                    ('export { default as Old } from "./old"\n', "// mine", "", "export const x = 1;\n// no newline",
                     'export { default as Old } from "./old"\r\nexport const y = 2;\r\n', "// %s\n" % own, "/* %s */" % own, own + "\n"))})

    def sims(self, r, rules=lambda r: [], n=None):
        out = []
        for _ in range(n or self.nsims):
            s = gen.schedule(r)
            s["rules"] = rules(r)
            out.append(s)
        return out

    def run(self, w, s, key="sim", keep=False, sim=None):
        return w.execute(batch.argv(s), sim or s[key], key=key, tree=s["tree"], keep=keep)

    # -- faults placed inside operations that a first, fault-free run of the same schedule shows
    def place(self, w, s, r, n=1, table=HARD, want=ours):
        faults = []
        for _ in range(n):
            cur = dict(s, sim=dict(s["sim"], faults=faults))
            last = max([f[0] for f in faults], default=-1)
            by = {}
            for o in self.run(w, cur).ops():
                if o["cls"] in table and want(o) and o["i"] > last:
                    by.setdefault(o["cls"], []).append(o)
            w.runs.clear()
            if not by:
                break
            o = r.choice(by[r.choice(sorted(by))])
            kind, arg = r.choice(table[o["cls"]])
            faults = faults + [[o["i"], kind, arg, o["cls"], o["path"]]]
        return dict(s, sim=dict(s["sim"], faults=faults)) if faults else None

    def reductions(self, s):
        def cut(**kw):
            c = copy.deepcopy(s)
            c.update(kw)
            return c
        if s["sim"].get("faults") and not s["sim"].get("decisions"):
            # faults by place instead of by operation number, so that they survive smaller trees
            c = copy.deepcopy(s)
            rules = []
            for f in c["sim"].pop("faults"):
                p = f[4] if len(f) > 4 else ""
                if posixpath.basename(p).startswith("."):
                    p = posixpath.dirname(p) + "/*"
                rules.append([f[3], f[1], f[2], 1000000, 1] + ([p] if p else []))
            c["sim"]["rules"] = list(s["sim"].get("rules") or ()) + rules
            yield c
        if s["sim"].get("rules"):
            for i in range(len(s["sim"]["rules"])):
                c = copy.deepcopy(s)
                del c["sim"]["rules"][i]
                yield c
        if len(s["sim"].get("faults") or ()) > 1:
            for i in range(len(s["sim"]["faults"])):
                c = copy.deepcopy(s)
                del c["sim"]["faults"][i]
                yield c
        paths = sorted(p for p in s["tree"])
        k = len(paths) // 2
        while k >= 1:
            for i in range(0, len(paths), k):
                c = copy.deepcopy(s)
                for p in paths[i:i + k]:
                    del c["tree"][p]
                if c["tree"]:
                    yield c
            k //= 2
        for field, v in (("threads", 2), ("quiet", True), ("hidden", False), ("noignore", False)):
            if s.get(field) != v:
                yield cut(**{field: v})
        if s["opts"] and s["cmd"] != "action":
            yield cut(opts=[])
        for sub in ({"pspur": 0}, {"tjump": 0}, {"dseed": 0}, {"ncpu": 2}, {"tokio": 1}):
            if any(s["sim"].get(a, b) != b for a, b in sub.items()):
                c = copy.deepcopy(s)
                c["sim"].update(sub)
                yield c
        small = '<svg xmlns="http://www.w3.org/2000/svg"><path d="M%d 1z"/></svg>'
        for n, p in enumerate(paths):
            if p.endswith(".svg") and isinstance(s["tree"][p].get("c"), str) and len(s["tree"][p]["c"]) > 90:
                c = copy.deepcopy(s)
                c["tree"][p]["c"] = small % n
                yield c

    def describe(self, s):
        return " ".join(batch.argv(s)) + " | files: " + ", ".join(sorted(s["tree"]))[:200]


def usable(v):
    """References ended in an ordinary way, so the model of the batch is known."""
    return all(v.refs.alone(v.s, d)[0] in (0, 1) for d in v.docs)


def results(v, only=None):
    """Every good document's result is in its place, exactly."""
    out = []
    for d in v.good if only is None else only:
        p = v.dest[d]
        if p and not v.delivered(d):
            got = v.res.files.get(p)
            kind = "missing-result" if got is None or got == v.before.get(p) else "wrong-result"
            out.append((kind, "%s: the result at %s is %s instead of %s" % (d[0], p, batch.show(got), batch.show(v.want[d]))))
    return out


def printed(v, docs=None):
    """Standard output is the documents' outputs, each once and whole."""
    blocks = [v.refs.alone(v.s, d)[1] for d in (v.docs if docs is None else docs)]
    if not batch.as_permutation(v.res.out, blocks):
        return [("wrong-output", "standard output %s is not the outputs of the %d documents in some order: %s"
                 % (batch.show(v.res.out, 1200), len([b for b in blocks if b]), [batch.show(b, 120) for b in blocks]))]
    return []


def extras(v):
    ok = v.allowed()
    out = []
    for p in v.changed():
        now = v.res.files.get(p)
        if p in ok or (now == ("d",) and p + "/" in ok):
            continue
        out.append(("unexpected-change", "%s was %s and is now %s" % (p, batch.show(v.before.get(p), 80), batch.show(now, 80))))
    return out


class C01(Batch):
    id = "C01"
    budget = {"quick": (1800, 150), "thorough": (60000, 2400)}
    quiet = .7
    treeargs = dict(bad=.03)

    def generate(self, r, tier):
        s = self.scenario(r)
        s["sims"] = self.sims(r, gen.benign)
        return s

    def judge(self, w, s):
        res = self.run(w, s)
        v = batch.View(s, res, w.refs)
        if not usable(v):
            w.probe("reference does not end ordinarily")
            return []
        out = ending(res) + outside(res)
        if out:
            return out
        out = results(v) + extras(v)
        for d in v.bad:
            p = v.dest[d]
            if p and res.files.get(p) != v.before.get(p):
                out.append(("result-for-bad-document", "%s fails alone, but %s changed to %s" % (d[0], p, batch.show(res.files.get(p)))))
        if not s["out"] and s["cmd"] != "jsx" and not out and s["out"] is None:
            out += printed(v)
        if not v.bad and not v.errors and res.code != 0:
            out.append(("spurious-failure", "every document succeeds alone but the run exits with %d: %s" % (res.code, batch.show(res.err, 300))))
        w.probe("documents", len(v.docs))
        w.probe("documents that fail alone", len(v.bad))
        if res.rep["nthreads"] > 2 and len(v.docs) > 1:
            w.probe("several documents on several threads")
        if not v.docs:
            w.probe("nothing selected")
        return out


def undelivered(v):
    """Documents whose result is not (completely) where it belongs."""
    out = []
    for d in v.docs:
        if v.want[d] is None:
            out.append(d)
        elif v.dest[d]:
            if not v.delivered(d):
                out.append(d)
        elif v.want[d] and v.res.out.count(v.want[d]) < 1:
            out.append(d)
    return out


def named(v, d):
    """Standard error names the document, or a directory or path that contains it."""
    p = d[0]
    while p:
        if batch.names(v.res.err, p):
            return True
        p = posixpath.dirname(p)
    return False


class C02(Batch):
    id = "C02"
    level = "fault_enumeration"
    budget = {"quick": (1100, 150), "thorough": (50000, 2400)}
    cmds = ("optimise", "format", "action", "jsx")
    treeargs = dict(make=gen.own_document, ignores=0, bad=.08)
    mass = .05

    def generate(self, r, tier):
        if r.random() < .15:
            return dict(self.racing(r), n=0, k=0)
        s = self.scenario(r)
        if r.random() < .1:
            s["paths"] = s["paths"] + ["in/none.svg"] if s["out"] in (None, "") else s["paths"]
        s["sims"] = self.sims(r, n=3)
        s["n"] = r.choice((1, 1, 1, 2, 3))
        s["k"] = r.choice((1, 2, 4))
        return s

    def concrete(self, w, s, r):
        n, k = s.pop("n"), s.pop("k")
        for sim in s.pop("sims"):
            one = dict(s, sim=sim)
            yield one
            for _ in range(k):
                placed = self.place(w, one, r, n)
                if placed:
                    yield placed

    def judge(self, w, s):
        res = self.run(w, s)
        v = batch.View(s, res, w.refs)
        if not usable(v):
            return []
        out = ending(res)
        lost = undelivered(v)
        hard = v.hard()
        if res.code == 0:
            for d in v.docs:
                if batch.hopeless(batch.content(s, d)):
                    out.append(("silent", "exit status 0 although %s is not a document" % d[0]))
            if lost:
                out.append(("silent", "exit status 0 although %s was not delivered (%s)" % (lost[0][0], batch.show(v.want[lost[0]], 80))))
            for e in v.errors:
                out.append(("silent", "exit status 0 although %s cannot be read" % e))
            if not s["out"] and s["out"] is None and s["cmd"] != "jsx" and not lost:
                out += printed(v)
            for d in v.docs:
                if not lost and not batch.path_matters(s) and w.refs.piped(s, d) != v.want[d]:
                    out.append(("incomplete", "%s: exit status 0, but the result %s differs from the result for the same document on "
                                "standard input, %s" % (d[0], batch.show(v.want[d]), batch.show(w.refs.piped(s, d)))))
        else:
            for d in lost:
                if not named(v, d):
                    out.append(("unnamed", "%s was not delivered, but standard error does not name it: %s"
                                % (d[0], batch.show(res.err, 500))))
                    break
            for e in v.errors:
                if not batch.names(res.err, e):
                    out.append(("unnamed", "%s cannot be read, but standard error does not name it" % e))
        if lost:
            w.probe("runs with undelivered documents")
        if hard and not lost:
            w.probe("faults that delivered everything")
        if res.code:
            w.probe("runs that fail")
        return out


class C03(Batch):
    id = "C03"
    level = "fault_enumeration"
    budget = {"quick": (1500, 150), "thorough": (50000, 2400)}
    cmds = ("optimise", "format", "action", "jsx", "lint")
    treeargs = dict(make=gen.own_document, ignores=0, bad=.25)
    mass = .08
    multi = .1
    single = 0

    def generate(self, r, tier):
        s = self.scenario(r)
        s["r"] = True
        self.no_collisions(s)
        victims = []
        for i in range(r.randint(0, 2)):
            d = "v%d" % i
            p = next((batch.local(p) for p in s["paths"] if p != "." and not p.endswith(".svg")), "in")
            f = "%s/%s/w%d.svg" % (p, d, i)
            s["tree"][f] = {"c": gen.own_document(r, 990000 + i)}
            victims.append(f)
        s["victims"] = victims
        s["place1"] = r.random() < .4
        s["sims"] = self.sims(r, lambda r: self.rules(r, s, victims))
        return s

    def rules(self, r, s, victims):
        if s["place1"]:
            return []
        out = []
        for f in victims:
            docs = [d for d in batch.select(s)[0] if batch.local(d[0]) == f]
            dst = batch.dest(s, docs[0]) if docs else None
            k = r.randrange(6)
            if k == 0 or not dst:
                out.append([r.choice(("openr", "read")), "err", r.choice((gen.EIO, gen.EACCES)), 1000000, 0, f])
            elif k == 1:
                out.append(["openr", "vanish", 0, 1000000, 1, f])
            else:
                c = r.choice(("openw", "write", "rename", "mkdir", "meta"))
                out.append([c, "err", r.choice(HARD[c])[1], 1000000, 0, posixpath.dirname(dst) + ("*" if c == "mkdir" else "/*")])
        if s["cmd"] == "jsx" or s["cmd"] != "lint" and s["out"] is not None:
            if r.random() < .15:
                out.append(["stdout", r.choice(("err", "sticky")), gen.EPIPE, 500000, 0])
        return out

    def concrete(self, w, s, r):
        for sim in s.pop("sims"):
            one = dict(s, sim=sim)
            if s["place1"]:
                t = {k: HARD[k] for k in ("openr", "read", "openw", "write", "rename", "meta")}
                t = {k: tuple(x for x in v if x[0] != "sticky") for k, v in t.items()}
                one = self.place(w, one, r, r.choice((1, 1, 2)), table=t)
                if not one:
                    continue
            yield one

    def judge(self, w, s):
        res = self.run(w, s)
        v = batch.View(s, res, w.refs)
        if not usable(v):
            return []
        out = ending(res)
        victims = [d for d in v.good if batch.local(d[0]) in s["victims"]]
        others = [d for d in v.good if d not in victims]
        hard = [f for f in v.hard() if f[3] != "stdout"]
        if s["cmd"] == "lint":
            lost = [d for d in others if v.refs.alone(s, d)[1] not in res.out]
        else:
            lost = [d for d in undelivered(v) if d in others]
        allowed = 0
        if s["place1"]:
            # a fault that hits a document's own file explains that document; others explain one each
            hit = {f[4] for f in hard if f[3] in ("openr", "read")}
            lost = [d for d in lost if batch.local(d[0]) not in hit and batch.resolve(s["tree"], d[0]) not in hit]
            allowed = len([f for f in hard if f[3] not in ("openr", "read")])
        if len(lost) > allowed:
            d = lost[0]
            out.append(("others-affected", "%s has no failure of its own (failing: %s; faults: %s) but its result is %s instead of %s; exit %d: %s"
                        % (d[0], [x[0] for x in v.bad + victims], hard, batch.show(res.files.get(v.dest[d]) if v.dest[d] else res.out, 100),
                           batch.show(v.want[d], 100), res.code, batch.show(res.err, 400))))
        for d in others:
            p = v.dest[d]
            if p and not v.delivered(d) and res.files.get(p) != v.before.get(p) and p not in vanished(res):
                out.append(("others-changed", "%s: %s holds %s" % (d[0], p, batch.show(res.files.get(p)))))
        w.probe("failing documents", len(v.bad))
        w.probe("victims of faults", len(victims))
        w.probe("other documents", len(others))
        return out


class C04(Batch):
    id = "C04"
    level = "fault_enumeration"
    budget = {"quick": (1500, 150), "thorough": (50000, 2400)}
    cmds = ("optimise", "format", "action", "jsx", "lint")
    outs = (None, "", "", "out", "deep/er/out")
    treeargs = dict(bad=.1, links=.15)
    premade = .5

    def generate(self, r, tier):
        s = self.scenario(r)
        s["sims"] = self.sims(r, n=2)
        s["k"] = r.choice((2, 3, 4))
        return s

    def concrete(self, w, s, r):
        k = s.pop("k")
        for sim in s.pop("sims"):
            one = dict(s, sim=sim)
            yield one
            for _ in range(k):
                if r.random() < .5:
                    # a directory that cannot be read may hide its ignore files: not part of the claim
                    t = dict(HARD)
                    if any(p.endswith("ignore") for p in s["tree"]):
                        t = {c: v for c, v in HARD.items() if c not in ("readdir", "opendir", "stat")}
                    placed = self.place(w, one, r, r.choice((1, 1, 2)), table=t)
                else:
                    t = {c: (("crashb", 0), ("crasha", 0)) for c in MUTATING}
                    t["write"] = (("crashb", 0), ("crasha", 0), ("crashp", r.randint(0, 300)))
                    placed = self.place(w, one, r, 1, table=t)
                if placed:
                    yield placed

    def judge(self, w, s):
        res = self.run(w, s)
        v = batch.View(s, res, w.refs)
        out = ending(res) + outside(res)
        ok = v.allowed()
        dirs = {posixpath.dirname(p) for p in ok if not p.endswith("/")}
        killed = bool(res.rep["crashed"])
        unlink = any(f[3] == "unlink" for f in v.hard())
        gone = vanished(res)
        for p in v.changed():
            now, was = res.files.get(p), v.before.get(p)
            if p in ok or (now == ("d",) and p + "/" in ok) or p in gone:
                if was is not None and now is None and p not in gone:
                    out.append(("removed", "%s was removed" % p))
                continue
            if was is None and isinstance(now, bytes):
                if (killed or unlink) and posixpath.basename(p).startswith(".") and posixpath.dirname(p) in dirs:
                    w.probe("hidden leftovers after a kill")
                    continue
                out.append(("leftover", "%s was left behind with %s" % (p, batch.show(now, 80))))
            else:
                out.append(("touched", "%s was %s and is now %s" % (p, batch.show(was, 80), batch.show(now, 80))))
        if not any(f[3] == "meta" for f in v.hard()):
            for p, n in s["tree"].items():
                if "m" in n and p in res.modes and res.modes[p] != n["m"]:
                    out.append(("mode", "%s had mode %o and now has %o" % (p, n["m"], res.modes[p])))
        w.probe("kills", int(killed))
        w.probe("runs with changes", int(bool(v.changed())))
        w.probe("runs that must change nothing", int(not ok))
        return out


def index_ok(v, p):
    """An index holds what it held before, plus complete lines for documents of this run."""
    was, now = v.before.get(p), v.res.files.get(p)
    if now == was:
        return True
    if now is None:
        return False
    head = was or b""
    if head and not head.endswith(b"\n"):
        head += b"\n"
    if not now.startswith(head):
        return False
    lines = set()
    for d in v.docs:
        if v.dest[d] and batch.index_of(v.s, d) == p:
            idx = v.refs.alone(v.s, d)[4]
            if idx:
                lines.add(idx)
    rest = now[len(head):]
    return batch.as_sub_permutation(rest, sorted(lines))


class C05(Batch):
    id = "C05"
    level = "fault_enumeration"
    budget = {"quick": (900, 150), "thorough": (30000, 2400)}
    outs = ("", "", "out", "out", "deep/er/out")
    premade = .7
    treeargs = dict(ignores=0, bystanders=False, big=.15)
    single = .2

    def generate(self, r, tier):
        s = self.scenario(r)
        s["sims"] = self.sims(r, lambda r: gen.benign(r) if r.random() < .3 else [], n=1)
        s["k"] = 8 if tier == "quick" else 16
        return s

    def concrete(self, w, s, r):
        k = s.pop("k")
        for sim in s.pop("sims"):
            one = dict(s, sim=sim)
            ops = [o for o in self.run(w, one).ops() if o["cls"] in MUTATING and ours(o)]
            w.runs.clear()
            for o in r.sample(ops, min(k, len(ops))):
                if r.random() < .3 and o["cls"] in HARD:
                    kind, arg = r.choice(HARD[o["cls"]])
                elif o["cls"] == "write" and r.random() < .7:
                    kind, arg = "crashp", r.randint(0, max(0, o["arg"] - 1))
                else:
                    kind, arg = r.choice(("crashb", "crasha")), 0
                x = dict(s, sim=dict(sim, faults=[[o["i"], kind, arg, o["cls"], o["path"]]]))
                yield x
                if kind == "err" and r.random() < .5:
                    # what is done about the failure may be interrupted as well
                    later = [q for q in self.run(w, x).ops() if q["cls"] in MUTATING and ours(q) and q["i"] > o["i"]]
                    w.runs.clear()
                    for q in r.sample(later[:12], min(2, len(later))):
                        kind = r.choice(("crashb", "crasha")) if q["cls"] != "write" else r.choice(("crashp", "crashb", "err"))
                        arg = r.randint(0, max(0, q["arg"] - 1)) if kind == "crashp" else gen.ENOSPC if kind == "err" else 0
                        yield dict(s, sim=dict(sim, faults=x["sim"]["faults"] + [[q["i"], kind, arg, q["cls"], q["path"]]]))

    def judge(self, w, s):
        res = self.run(w, s)
        v = batch.View(s, res, w.refs)
        if not usable(v):
            return []
        out = ending(res) if not res.rep["crashed"] else []
        for d in v.docs:
            p = v.dest[d]
            now, was = res.files.get(p), v.before.get(p)
            if isinstance(was, tuple):
                continue
            if now != was and (now is None or now != v.want[d]):
                out.append(("partial", "%s: %s held %s, must become %s, but holds %s after %s"
                            % (d[0], p, batch.show(was, 80), batch.show(v.want[d], 80), batch.show(now, 80), res.fired()[-3:])))
            if now == v.want[d] and not batch.path_matters(s) and v.want[d] is not None:
                if not batch.well_formed(now) or w.refs.piped(s, d) != now:
                    out.append(("incomplete", "%s: the result %s is not the complete document %s"
                                % (d[0], batch.show(now), batch.show(w.refs.piped(s, d)))))
        for p in v.indexes():
            if not index_ok(v, p):
                out.append(("partial-index", "%s held %s and holds %s" % (p, batch.show(v.before.get(p)), batch.show(res.files.get(p), 400))))
        w.probe("kills", int(bool(res.rep["crashed"])))
        n = sum(1 for d in v.docs if res.files.get(v.dest[d]) == v.want[d])
        if res.rep["crashed"] and 0 < n < len(v.docs):
            w.probe("kills with some results written and some not")
        if v.before and any(v.dest[d] in v.before for d in v.docs):
            w.probe("runs that overwrite")
        return out


class C06(Batch):
    id = "C06"
    budget = {"quick": (2000, 150), "thorough": (60000, 2400)}
    cmds = ("optimise", "format", "action", "jsx", "lint", "lint")
    outs = (None, None, None, "out", "")
    quiet = .1
    treeargs = dict(make=gen.own_document, bad=.05, big=.15, ignores=0)

    def generate(self, r, tier):
        s = self.scenario(r)
        s["sims"] = self.sims(r, gen.benign)
        return s

    def judge(self, w, s):
        res = self.run(w, s)
        v = batch.View(s, res, w.refs)
        if not usable(v):
            return []
        out = ending(res) + printed(v)
        err = res.err.decode("utf-8", "replace").split("\n")
        for d in v.docs:
            for line in v.refs.alone(s, d)[2].decode("utf-8", "replace").split("\n"):
                if line and not line.startswith(("Error:", "Created ")) and line not in err:
                    out.append(("broken-report", "the line %r about %s is not whole in standard error: %s" % (line, d[0], batch.show(res.err, 600))))
        w.probe("outputs", len([d for d in v.docs if v.refs.alone(s, d)[1]]))
        if sum(1 for d in v.docs if v.refs.alone(s, d)[1]) > 1 and res.rep["nthreads"] > 2:
            w.probe("several outputs from several threads")
        return out


class C07(Batch):
    id = "C07"
    budget = {"quick": (1500, 150), "thorough": (50000, 2400)}
    cmds = ("jsx",)
    outs = (None, "", "out", "out", "deep/er/out")
    treeargs = dict(make=gen.own_document, ignores=0, bad=.05, big=0)
    premade = .5
    simkeys = ("sim", "sim2")

    def generate(self, r, tier):
        s = self.scenario(r)
        s["sims"] = self.sims(r, gen.benign)
        s["again"] = r.random() < .3
        s["fault"] = r.random() < .3
        sims = s["sims"]
        if s["again"]:
            docs = batch.select(s)[0]
            s["later"] = sorted({batch.local(d[0]) for d in docs if r.random() < .4 and batch.local(d[0]) in s["tree"]})
            for x in sims:
                x["second"] = gen.schedule(r)
        return s

    def concrete(self, w, s, r):
        fault = s.pop("fault")
        for sim in s.pop("sims"):
            second = sim.pop("second", None)
            one = dict(s, sim=sim)
            if second:
                one["sim2"] = second
            if fault:
                t = {k: tuple(x for x in HARD[k] if x[0] != "vanish") for k in ("openr", "read", "openw", "write", "rename", "mkdir")}
                one = self.place(w, one, r, 1, table=t)
                if not one:
                    continue
            yield one

    def judge(self, w, s):
        again = s["again"] and "sim2" in s
        s1 = s
        if again:
            s1 = dict(s, tree={p: n for p, n in s["tree"].items() if p not in s["later"]})
        res = self.run(w, s1)
        v = batch.View(s1, res, w.refs)
        if not usable(v):
            return []
        out = ending(res) or self.indexes(v, w)
        if again and not out:
            t2 = dict(s["tree"])
            for p, b in res.files.items():
                if isinstance(b, bytes):
                    t2[p] = dict(s["tree"].get(p, {}), c=run.undata(b))
                elif b[0] == "l":
                    t2[p] = {"l": b[1]}
            s2 = dict(s, tree=t2)
            res2 = self.run(w, s2, key="sim2")
            v2 = batch.View(s2, res2, w.refs)
            if usable(v2):
                w.probe("second runs")
                out += ending(res2) or self.indexes(v2, w)
        return out

    def indexes(self, v, w):
        out = []
        s, res = v.s, v.res
        if not batch.uses_index(s):
            w.probe("without index")
            return [("index-not-wanted", "%s changed although indexes are disabled" % p) for p in v.changed()
                    if posixpath.basename(p) in batch.IDX]
        hard = v.hard()
        for p in sorted(v.indexes()):
            docs = [d for d in v.docs if v.dest[d] and batch.index_of(s, d) == p]
            made = [d for d in docs if v.want[d] is not None and v.delivered(d)]
            head = v.before.get(p, b"")
            now = res.files.get(p, b"")
            if isinstance(head, tuple):
                continue
            if hard:
                if res.code != 0 and not index_ok(v, p):
                    out.append(("broken-index", "%s held %s and holds %s after %s" % (p, batch.show(head), batch.show(now, 400), hard)))
                if res.code != 0:
                    if batch.names(res.err, p):
                        w.probe("index reported as failed")
                        continue
                    if any(batch.names(res.err, d[0]) for d in made):
                        continue
            if head and not head.endswith(b"\n") and now != head:
                head += b"\n"
            if not now.startswith(head):
                out.append(("index-lost-content", "%s held %s and holds %s" % (p, batch.show(head), batch.show(now, 400))))
                continue
            lines = []
            for d in made:
                idx = v.refs.alone(s, d)[4] or b""
                if not idx.endswith(b"\n") or b"from" not in idx:
                    out.append(("no-index-line", "%s: running it alone gives the index %r" % (d[0], idx)))
                    continue
                stem = posixpath.splitext(posixpath.basename(batch.place(s, d)))[0]
                if batch.lossy("./%s\"" % stem) not in idx.decode():
                    out.append(("wrong-index-line", "%s: the index line %r does not name the component %s" % (d[0], idx, v.dest[d])))
                lines.append(idx)
            have = (b"\n" + head).count
            lines = [x for x in lines if not have(b"\n" + x)]
            if not batch.as_permutation(now[len(head):], lines):
                out.append(("broken-index", "%s: after %s must come the lines %s in some order, but it holds %s"
                            % (p, batch.show(head), lines, batch.show(now, 600))))
            w.probe("index lines", len(lines))
            if len(lines) > 1 and res.rep["nthreads"] > 2:
                w.probe("indexes shared by several documents")
        return out


class C08(Batch):
    id = "C08"
    budget = {"quick": (3000, 150), "thorough": (100000, 2400)}
    cmds = ("optimise", "optimise", "optimise", "jsx", "format", "lint", "action")
    outs = (None, "", "out", "out")
    simkeys = ("sim", "sim2")
    treeargs = dict(bad=.03)

    def generate(self, r, tier):
        x = r.random()
        s = self.crowd(r) if x < .1 else self.plenty(r) if x < .25 else self.scenario(r)
        sims = []
        for _ in range(2):
            a, b = gen.schedule(r), gen.schedule(r)
            sims.append((a, b, r.choice((0, 1, 2, 4)), r.choice((0, 1, 3, 8))))
        s["sims"] = sims
        return s

    def concrete(self, w, s, r):
        for a, b, t1, t2 in s.pop("sims"):
            yield dict(s, sim=a, sim2=b, t1=t1, t2=t2)

    def judge(self, w, s):
        a = self.run(w, dict(s, threads=s["t1"]))
        b = self.run(w, dict(s, threads=s["t2"]), key="sim2")
        out = ending(a) + ending(b)
        if a.code not in (0, 1) or b.code not in (0, 1) or out:
            if a.code != b.code and {a.code, b.code} & {0, 1}:
                return out + [("exit", "exit status %d in one run and %d in the other: %s" % (a.code, b.code, batch.show(a.err + b.err)))]
            return out
        v = batch.View(s, a, w.refs)
        if a.code != b.code:
            out.append(("exit", "exit status %d in one run and %d in the other" % (a.code, b.code)))
        for p in sorted(set(a.files) | set(b.files)):
            if a.files.get(p) != b.files.get(p):
                out.append(("different-files", "%s is %s in one run and %s in the other" % (p, batch.show(a.files.get(p), 500), batch.show(b.files.get(p), 500))))
                break
        if a.out != b.out:
            if not (usable(v) and batch.as_permutation(a.out, [v.refs.alone(s, d)[1] for d in v.docs]) and
                    batch.as_permutation(b.out, [v.refs.alone(s, d)[1] for d in v.docs])):
                out.append(("different-output", "standard output is %s in one run and %s in the other" % (batch.show(a.out, 800), batch.show(b.out, 800))))
        if sorted(a.err.split(b"\n")) != sorted(b.err.split(b"\n")):
            # the last line tells which kind of failure was met first; what is said about documents must agree
            x, y = (sorted(l for l in e.err.split(b"\n") if not l.startswith(b"Error:")) for e in (a, b))
            if x != y:
                out.append(("different-report", "standard error is %s in one run and %s in the other" % (batch.show(a.err, 500), batch.show(b.err, 500))))
        w.probe("documents", len(v.docs))
        return out


class C09(Batch):
    id = "C09"
    level = "fault_enumeration"
    budget = {"quick": (1800, 150), "thorough": (60000, 2400)}
    cmds = ("optimise", "format", "action", "jsx", "lint")
    outs = (None, "", "out")
    treeargs = dict(bad=.2, ignores=.1, big=.15)

    def generate(self, r, tier):
        if r.random() < .5:
            s = self.crowd(r)
            s["sims"] = self.sims(r, n=1)
            s["k"] = 0
            return s
        s = self.scenario(r)
        if r.random() < .1:
            s["tail"] = r.choice(gen.BAD_ACTIONS) if s["cmd"] == "action" else s["tail"]
        s["sims"] = self.sims(r, self.rules, n=3)
        for x in s["sims"]:
            if r.random() < .5:
                x["pspur"] = r.choice((50000, 300000))
        s["k"] = 2
        return s

    def rules(self, r):
        out = gen.benign(r)
        if r.random() < .5:
            for c in r.sample(sorted(HARD), r.randint(1, 3)):
                k, a = r.choice(HARD[c])
                if k == "err" and r.random() < .3:
                    k = "sticky"
                out.append([c, k, a, r.choice((10000, 100000, 400000)), r.choice((0, 1, 2)), r.choice(("in*", "out*", "in*")) if c != "stdout" else ""])
        return [x if len(x) == 6 and x[5] else x[:5] for x in out]

    def concrete(self, w, s, r):
        k = s.pop("k")
        for sim in s.pop("sims"):
            one = dict(s, sim=sim)
            yield one
            calm = dict(s, sim=dict(sim, rules=[]))
            for _ in range(k):
                placed = self.place(w, calm, r, r.choice((1, 2, 4)))
                if placed:
                    yield placed

    def judge(self, w, s):
        res = self.run(w, s)
        out = ending(res)
        if not out and (res.code not in (0, 1, 2) or res.signal):
            out.append(("abnormal-end", "the run ended with status %d%s: %s" % (res.code, " by signal %d" % res.signal if res.signal else "", batch.show(res.err[-600:], 600))))
        w.probe("exit %d" % res.code)
        w.probe("spurious wake-ups", res.rep["spurious"])
        return out


MARK = re.compile("^ \x1b\\[3[13]m(×|⚠) ".encode(), re.M)


class C10(Batch):
    id = "C10"
    budget = {"quick": (1800, 150), "thorough": (60000, 2400)}
    cmds = ("lint",)
    treeargs = dict(bad=.06, ignores=.1)
    mass = .03

    def generate(self, r, tier):
        if r.random() < .1:
            return dict(self.racing(r), uniform=None, fault=False)
        s = self.scenario(r)
        s["uniform"] = None
        if r.random() < .4:
            sev = r.choice(("Error", "Warn"))
            s["uniform"] = sev
            s["tree"]["oxvgrc.json"] = {"c": json.dumps({"lint": {k: sev for k in gen.RULES}})}
        s["sims"] = self.sims(r, gen.benign)
        s["fault"] = r.random() < .3
        return s

    def concrete(self, w, s, r):
        fault = s.pop("fault")
        for sim in s.pop("sims"):
            one = dict(s, sim=sim)
            if fault:
                one = self.place(w, one, r, 1, table={k: tuple(x for x in HARD[k] if x[0] != "vanish") for k in ("openr", "read")},
                                 want=lambda o: ours(o) and o["path"].endswith(".svg"))
                if not one:
                    continue
            yield one

    def judge(self, w, s):
        res = self.run(w, s)
        v = batch.View(s, res, w.refs)
        if not all(w.refs.alone(s, d)[0] in (0, 1) for d in v.docs):
            return []
        out = ending(res)
        hit = {f[4] for f in v.hard()}
        failed = [d for d in v.docs if batch.local(d[0]) in hit or batch.resolve(s["tree"], d[0]) in hit]
        rest = [d for d in v.docs if d not in failed]
        blocks = [w.refs.alone(s, d)[1] for d in rest]
        if not batch.as_permutation(res.out, blocks):
            out.append(("wrong-report", "the report %s is not the reports of the %d documents in some order: %s"
                        % (batch.show(res.out, 1200), len(rest), [batch.show(b, 150) for b in blocks])))
        bad = [d for d in rest if w.refs.alone(s, d)[0] != 0]
        want = bool(bad or failed or v.errors)
        if (res.code != 0) != want:
            out.append(("wrong-status", "exit status %d although %s" % (res.code, "%s fails" % (bad or failed)[0][0] if bad or failed else "no document fails")))
        level = s["opts"][s["opts"].index("--level") + 1] if "--level" in s["opts"] else "error"
        for d in rest:
            code, o, e, _, _ = w.refs.alone(s, d)
            marks = MARK.findall(o)
            must = "×".encode() in marks and level != "off" or "⚠".encode() in marks and level == "warn"
            if o and (code != 0) != must:
                out.append(("wrong-level", "%s: exit status %d with level %s and the problems %s" % (d[0], code, level, batch.show(o, 600))))
        if s["uniform"]:
            for d in rest:
                code, o, e, _, _ = w.refs.alone(s, d)
                if e and o == b"":
                    continue  # could not be parsed
                must = bool(o) and (level == "warn" or level == "error" and s["uniform"] == "Error")
                if (code != 0) != must:
                    out.append(("wrong-level", "%s: exit status %d with level %s and problems of severity %s: %s"
                                % (d[0], code, level, s["uniform"], batch.show(o, 300))))
        for d in v.docs:
            code, o, e, _, _ = w.refs.alone(s, d)
            if batch.hopeless(batch.content(s, d)) and (code == 0 or res.code == 0):
                out.append(("wrong-status", "exit status %d although %s is not a document" % (res.code, d[0])))
            if code != 0 and o == b"" and not batch.names(res.err, d[0]):
                out.append(("unnamed", "%s cannot be linted, but standard error does not name it" % d[0]))
        w.probe("documents with problems", len([b for b in blocks if b]))
        w.probe("exit %d" % res.code)
        return out


CONFIG_FAULTS = {"openr": (("err", gen.EACCES), ("err", gen.EIO), ("err", gen.EMFILE)), "read": (("err", gen.EIO), ("short", 1), ("short", 7), ("err", gen.EINTR)),
                 "stat": (("err", gen.EACCES), ("err", gen.EIO))}

PLACES = {"local": "oxvgrc.json", "home": ".home/.config/oxvg/config.json", "named": "my.json"}


class C17(Batch):
    id = "C17"
    level = "fault_enumeration"
    budget = {"quick": (2500, 150), "thorough": (60000, 2400)}
    cmds = ("optimise", "optimise", "jsx", "lint")
    outs = (None, "", "out")
    treeargs = dict(make=gen.own_document, ignores=0, big=0, ndocs=2, links=0)
    multi = single = 0
    premade = .3

    def generate(self, r, tier):
        s = self.scenario(r)
        for c in PLACES.values():
            s["tree"].pop(c, None)
        s["opts"] = [o for i, o in enumerate(s["opts"]) if o not in ("--config", "--extends", "my.json", "default", "safe", "none")
                     or (i and s["opts"][i - 1] in ("--pretty", "--space", "--expand-props", "--export-type", "--jsx-runtime", "--level") and o in ("none", "default"))]
        where = r.choice(("local", "home", "named", "local+home", "named+local", "named+home"))
        s["where"] = where
        main = PLACES[where.split("+")[0]]
        if where.startswith("named"):
            s["opts"] = s["opts"] + ["--config-file" if s["cmd"] == "jsx" else "--config", main]
        good = self.known(r, s) if r.random() < .4 else self.good(r, s["cmd"])
        s["state"] = r.choice(("good", "good", "good", "cut", "empty", "type", "garbage", "dir", "missing") if where.startswith("named") else
                              ("good", "good", "good", "cut", "empty", "type", "garbage", "dir"))
        node = {"c": good}
        if s["state"] == "cut":
            node = {"c": good[:r.randint(1, len(good) - 1)]}
        elif s["state"] == "empty":
            node = {"c": ""}
        elif s["state"] == "type":
            node = {"c": r.choice(('{"optimise": 3}', '{"lint": [1]}', '[]x', '{"optimise":{"jobs":{"removeComments":7}}}', '{"lint":{"noUnusedIds":"loud"}}', '3', '"x"'))}
        elif s["state"] == "garbage":
            node = r.choice(({"hex": "fffe00"}, "not json", "{}}", '{"optimise":{"jobs":{}},}'))
            node = {"c": node}
        elif s["state"] == "dir":
            node = {"d": 1}
        if s["state"] != "missing":
            s["tree"][main] = node
        if "+" in where:
            s["tree"][PLACES[where.split("+")[1]]] = {"c": self.good(r, s["cmd"])}
        s["main"] = main
        s["sims"] = self.sims(r, n=1)
        return s

    def known(self, r, s):
        """Gives a configuration whose effect is known, and documents to see it by."""
        named = s["opts"][-2:] if s["where"].startswith("named") else []
        s["opts"] = (r.choice(([], ["--typescript", "true"])) if s["cmd"] == "jsx" else []) + named
        s["known"] = {}
        if s["cmd"] == "lint":
            rules = {k: r.choice(("Error", "Warn", "Off")) for k in gen.RULES if r.random() < .8}
            if r.random() < .5:
                s["opts"] = ["--level", r.choice(("error", "warn", "off"))] + s["opts"]
            c = {"lint": rules}
        else:
            c, s["gone"], s["left"] = gen.known_config(r, s["cmd"])
        for i, p in enumerate(sorted(s["tree"])):
            if isinstance(s["tree"][p].get("c"), str) and p.endswith(".svg"):
                if s["cmd"] == "lint":
                    text, has = gen.known_problems(r, i)
                    s["known"][p] = [sorted(has), text]
                else:
                    text = gen.known_document(i)
                    s["known"][p] = [i, text]
                s["tree"][p] = dict(s["tree"][p], c=text)
        s["config"] = json.dumps(c)
        return s["config"]

    def expected(self, s, v, res):
        """Compares the results with the known effect of the configuration."""
        out = []
        if s["tree"].get(s["main"], {}).get("c") != s["config"] or s["where"].startswith("named") and s["main"] not in s["opts"]:
            return out
        c = json.loads(s["config"])
        known = {d: s["known"][batch.local(d[0])][0] for d in v.docs
                 if s["known"].get(batch.local(d[0]), [0, 0])[1] == s["tree"][batch.local(d[0])].get("c")}
        if s["cmd"] == "lint":
            if len(known) != len(v.docs):
                return out
            text = res.out.decode("utf-8", "replace")
            count = {"Error": 0, "Warn": 0, "Off": 0}
            for k, mark in gen.KNOWN_RULES.items():
                n = sum(k in has for has in known.values())
                level = c["lint"].get(k, "Off")
                count[level] += n
                if len(re.findall("[×⚠] [^\n]*" + re.escape(mark), text)) != (0 if level == "Off" else n):
                    out.append(("ignored", "%s is %s and %d documents have this problem, but the report is: %s" % (k, level, n, batch.show(res.out, 600))))
            level = s["opts"][1] if s["opts"][:1] == ["--level"] else "error"
            bad = level != "off" and (count["Error"] or level == "warn" and count["Warn"])
            if (res.code != 0) != bool(bad):
                out.append(("ignored", "%d errors and %d warnings at level %s, but the exit status is %d" % (count["Error"], count["Warn"], level, res.code)))
            return out
        for d, uid in known.items():
            got = res.files.get(v.dest[d]) if v.dest[d] else res.out
            if not isinstance(got, bytes):
                continue
            for mark in s["gone"] + s["left"]:
                there = re.search(r"%s%d\b" % (mark, uid), got.decode("utf-8", "replace")) is not None
                if there == (mark in s["gone"]):
                    out.append(("ignored", "%s: %s is %s although the configuration is %s" % (d[0], mark, "left" if there else "removed", json.dumps(c))))
        return out

    def good(self, r, cmd):
        if cmd == "lint":
            return json.dumps({"lint": r.choice(({}, {k: "Error" for k in gen.RULES}, {k: "Warn" for k in gen.RULES}, gen.lint_rules(r)))})
        return json.dumps(r.choice(({"optimise": {"jobs": {}}}, {"optimise": {"jobs": {"removeTitle": True}, "extends": "none"}},
                                    {"optimise": {"extends": "safe", "jobs": {}}}, gen.config(r))))

    def concrete(self, w, s, r):
        for sim in s.pop("sims"):
            one = dict(s, sim=sim)
            yield one
            if s["state"] == "good":
                for n in (1, 1, 2):
                    x = self.place(w, one, r, n, table=CONFIG_FAULTS, want=lambda o: o["path"] == s["main"])
                    if x:
                        yield x

    def judge(self, w, s):
        res = self.run(w, s)
        # the reference sees only the configuration that must be used
        only = dict(s, tree={p: n for p, n in s["tree"].items() if p == s["main"] or p not in PLACES.values()})
        out = ending(res)
        before = batch.View(dict(s, paths=[], opts=[]), res, w.refs)
        refused = res.code != 0 and not before.changed() and not res.out
        if s["state"] != "good":
            if not refused:
                out.append(("not-refused", "the configuration %s is unusable (%s) but the run ends with %d, changes %s and prints %s"
                            % (s["main"], s["state"], res.code, before.changed()[:3], batch.show(res.out))))
            w.probe("unusable configurations")
            return out
        v = batch.View(only, res, w.refs)
        if not usable(v):
            if not refused and v.refs.alone(only, v.docs[0])[0] not in (0, 1) and res.code == 0:
                out.append(("not-refused", "the configuration is refused for one document but not for the batch"))
            return out
        hard = v.hard()
        if refused and (hard or any(v.refs.alone(only, d)[0] for d in v.docs)):
            w.probe("refused after a fault")
            return out
        if s["cmd"] == "lint":
            if not batch.as_permutation(res.out, [w.refs.alone(only, d)[1] for d in v.docs]):
                out.append(("ignored", "the report does not follow %s (%s): %s" % (s["main"], s["tree"][s["main"]]["c"], batch.show(res.out, 600))))
            if (res.code != 0) != any(w.refs.alone(only, d)[0] != 0 for d in v.docs):
                out.append(("ignored", "exit status %d does not follow %s" % (res.code, s["main"])))
        else:
            bad = results(v)
            if s["out"] is None and s["cmd"] != "jsx":
                bad = bad or printed(v)
            if bad:
                out.append(("ignored", "the results do not follow %s (%s): %s" % (s["main"], s["tree"][s["main"]]["c"], bad[0][1])))
            if res.code != 0 and not v.bad:
                out.append(("spurious-failure", "exit status %d: %s" % (res.code, batch.show(res.err, 300))))
        if "known" in s and not hard and res.code in (0, 1):
            out += self.expected(s, v, res)
            w.probe("configurations of known effect")
        w.probe("configurations followed")
        other = dict(s, tree={p: n for p, n in s["tree"].items() if p not in PLACES.values()},
                     opts=[o for o in s["opts"] if o not in ("--config", "--config-file", "my.json")])
        if any(w.refs.alone(other, d)[:2] + w.refs.alone(other, d)[3:4] != w.refs.alone(only, d)[:2] + w.refs.alone(only, d)[3:4] for d in v.docs):
            w.probe("configurations that make a difference")
        return out


class C18(Batch):
    id = "C18"
    level = "fault_enumeration"
    budget = {"quick": (1200, 150), "thorough": (40000, 2400)}
    outs = ("", "out", "out", "deep/er/out", None)
    cmds = ("optimise", "format", "action", "jsx", "jsx")
    treeargs = dict(make=gen.own_document, ignores=0, big=.1, links=.03)
    premade = .3
    simkeys = ("sim", "sim2", "sim3")

    def generate(self, r, tier):
        s = self.scenario(r)
        if s["out"] is None and s["cmd"] != "jsx":
            s["out"] = "out" if len(s["paths"]) == 1 and not s["paths"][0].endswith(".svg") else ""
        if s["paths"] == ["."]:
            s["paths"] = ["in"]
        s["hidden"] = s["hidden"] and s["out"] not in (None, "")
        s["sims"] = self.sims(r, n=1)
        s["k"] = 4
        return s

    def crash(self, w, s, key, r, tree, keep):
        ops = [o for o in w.execute(batch.argv(s), s[key], key=key, tree=tree).ops() if o["cls"] in MUTATING and ours(o)]
        w.runs.clear()
        if not ops:
            return None
        o = r.choice(ops)
        if o["cls"] == "write" and r.random() < .6:
            f = [o["i"], "crashp", r.randint(0, max(0, o["arg"] - 1))]
        elif r.random() < .3 and o["cls"] in HARD:
            f = [o["i"], *r.choice(HARD[o["cls"]])]
        else:
            f = [o["i"], r.choice(("crashb", "crasha")), 0]
        return dict(s[key], faults=[f + [o["cls"], o["path"]]])

    def concrete(self, w, s, r):
        k = s.pop("k")
        for sim in s.pop("sims"):
            for _ in range(k):
                one = dict(s, sim=sim, sim2=gen.schedule(r))
                x = self.crash(w, one, "sim", r, s["tree"], False)
                if not x:
                    continue
                one["sim"] = x
                if r.random() < .25:
                    # the second run is interrupted as well
                    one["sim3"] = one["sim2"]
                    one["sim2"] = dict(gen.schedule(r), rules=[[r.choice(("write", "rename", "openw")), r.choice(("crashb", "crasha")), 0, 300000, 1]])
                yield one

    def judge(self, w, s):
        left = self.run(w, s)
        out = []
        steps = [left]
        for key in ("sim2", "sim3"):
            if key in s:
                steps.append(self.run(w, s, key=key, keep=True))
        last = steps[-1]
        out += ending(last)
        v = batch.View(s, last, w.refs)
        if not usable(v):
            return []
        inplace = s["out"] == "" and s["cmd"] != "jsx"
        refused = False
        if inplace:
            for d in v.docs:
                p = v.dest[d]
                state = v.before[p]
                for st in steps[:-1]:
                    if st.files.get(p) != state:
                        state = st.files.get(p)
                if state is None or isinstance(state, tuple):
                    out.append(("lost", "%s is gone after the interrupted run" % p))
                    continue
                again = dict(s, tree=dict(s["tree"]))
                again["tree"][p] = {"c": run.undata(state)}
                want = w.refs.complete(again, d)
                got = last.files.get(p)
                if want is None:  # the result of the first run is not accepted as a document
                    refused = True
                    continue
                if got != want:
                    out.append(("not-repeatable", "%s held %s after the interrupted run; running again must give %s but gives %s"
                                % (p, batch.show(state, 100), batch.show(want, 100), batch.show(got, 100))))
        else:
            out += results(v)
            for d in v.bad:
                p = v.dest[d]
                if p and last.files.get(p) != v.before.get(p):
                    out.append(("result-for-bad-document", "%s fails alone, but %s changed" % (d[0], p)))
            if batch.uses_index(s):
                for p in sorted(v.indexes()):
                    head = v.before.get(p, b"")
                    if isinstance(head, tuple):
                        continue
                    if head and not head.endswith(b"\n"):
                        head += b"\n"
                    lines = [v.refs.alone(s, d)[4] or b"" for d in v.good if batch.index_of(s, d) == p]
                    lines = [x for x in lines if not (b"\n" + head).count(b"\n" + x)]
                    now = last.files.get(p, b"")
                    if not now.startswith(head) or not batch.as_permutation(now[len(head):], lines):
                        if lines or now != v.before.get(p, b""):
                            out.append(("index-not-repeatable", "%s must hold %s and the lines %s but holds %s"
                                        % (p, batch.show(head), lines, batch.show(now, 500))))
        if not v.bad and not v.errors and not refused and last.code != 0:
            out.append(("spurious-failure", "the repeated run fails with %d: %s" % (last.code, batch.show(last.err, 300))))
        w.probe("kills", sum(int(bool(x.rep["crashed"])) for x in steps))
        if any(posixpath.basename(p).startswith(".") and p not in v.before for p in left.files):
            w.probe("leftovers of the interrupted run present")
        return out


class C19(Batch):
    id = "C19"
    level = "fault_enumeration"
    budget = {"quick": (4500, 150), "thorough": (120000, 2400)}
    cmds = ("optimise", "format", "action", "jsx", "lint")

    def generate(self, r, tier):
        cmd, opts, tail, files = gen.command(r, self.cmds)
        uid = r.randint(1, 9999)
        x = r.random()
        doc = gen.bad_document(r, uid) if x < .1 else gen.huge(r, uid, (70000, 300000, 1100000)) if x < .11 else gen.document(r, uid, .15)
        s = dict(cmd=cmd, opts=opts, tail=tail, tree=dict(files), paths=r.choice(([], [], ["."])), quiet=r.random() < .5,
                 out=r.choice((None, None, None, "out.svg", "sub/out.svg", "dir")), r=False, hidden=False, noignore=False,
                 threads=0, doc=doc)
        if cmd == "lint":
            s["out"] = None
        if s["out"] and r.random() < .4:
            s["tree"][s["out"] if s["out"] != "dir" else "dir/x"] = {"c": "old"}
        elif s["out"] == "dir":
            s["tree"]["dir/x"] = {"c": "old"}
        data = run.data(doc)
        sims = []
        for _ in range(3):
            sim = gen.schedule(r)
            sim["tty"] = 0
            sim["stdin"] = self.chunks(r, len(data))
            rules = gen.benign(r)
            sim["rules"] = rules
            k = r.random()
            if k < .35:
                # at a random place of the input
                sim["cut"] = r.randrange(len(sim["stdin"]))
                sim["errno"] = r.choice((gen.EIO, gen.EACCES, 104, gen.EINTR, gen.EINTR))
            sims.append(sim)
        s["sims"] = sims
        return s

    def chunks(self, r, n):
        out = []
        k = r.random()
        while n > 0:
            size = {0: 1, 1: r.randint(1, 7), 2: r.randint(1, 64), 3: n, 4: r.randint(1, n)}[r.choice((0, 1, 2, 4, 4) if k < .5 else (2, 4, 4, 3))]
            if len(out) > 200:
                size = n
            size = min(size, n)
            out.append([size, r.choice("nnnd"), r.choice((0, 1000, 1000000, 3000000000))])
            n -= size
        out.append([0, r.choice("nd"), 1000])
        return out

    def concrete(self, w, s, r):
        for sim in s.pop("sims"):
            sim = dict(sim)
            cut = sim.pop("cut", None)
            eno = sim.pop("errno", None)
            one = dict(s, sim=sim)
            if cut is not None:
                res = self.run(w, one)
                ops = [o for o in res.ops() if o["cls"] == "stdin"]
                w.runs.clear()
                if not ops:
                    continue
                o = ops[cut % len(ops)]
                one["sim"] = dict(sim, faults=[[o["i"], "err", eno, "stdin"]])
            yield one

    def run(self, w, s, key="sim", keep=False, sim=None):
        return w.execute(batch.argv(s), s[key], key=key, tree=s["tree"], stdin=run.data(s["doc"]))

    def judge(self, w, s):
        res = self.run(w, s)
        out = ending(res) + outside(res)
        tree = {c: n for c, n in s["tree"].items() if c in batch.CONFIGS}
        path = "SvgComponent.svg"
        f = dict(s, tree=dict(tree, **{path: {"c": s["doc"]}}), paths=[path], out="res.svg" if s["cmd"] != "lint" else None, quiet=True)
        d = (path, path)
        code, fo, fe, fres, _ = w.refs.alone(f, d)
        if code not in (0, 1):
            w.probe("reference does not end ordinarily")
            return []
        want = (fo if s["cmd"] == "lint" else fres) if code == 0 or s["cmd"] == "lint" else None
        if s["cmd"] == "jsx" or batch.path_matters(f):
            want2 = w.refs.piped(f, d)
            if (want2 is None) != (want is None):
                out.append(("differs-from-file", "the document %s as a file but %s on standard input"
                            % ("fails" if want is None else "succeeds", "succeeds" if want is None else "fails")))
            want = want2
        elif s["cmd"] == "lint":
            want = None  # the report names the file; compared below
        dst = s["out"] if s["out"] != "dir" else None
        if dst and s["cmd"] == "jsx":
            dst = posixpath.splitext(dst)[0] + (".tsx" if batch.typescript(s) else ".jsx")
        if s["cmd"] == "jsx" and s["out"] == "dir":
            dst = "dir" + (".tsx" if batch.typescript(s) else ".jsx")
        broken = [x for x in res.fired() if x[3] == "stdin" and x[1] == "err" and x[2] != gen.EINTR]
        before = batch.View(dict(s, paths=[], opts=[]), res, w.refs)
        changed = [p for p in before.changed() if res.files.get(p) != ("d",)]
        if broken:
            w.probe("input broken off")
            if res.code == 0:
                out.append(("silent", "reading standard input fails but the exit status is 0"))
            if changed or res.out:
                out.append(("made-from-part", "reading standard input fails, but %s" % ("%s is written: %s" % (changed[0], batch.show(res.files.get(changed[0])))
                                                                                        if changed else "this is printed: %s" % batch.show(res.out))))
            return out
        if s["cmd"] == "lint":
            calm = w.refs.piped_run(f, d)
            if (res.code, res.out) != calm:
                out.append(("differs", "exit %d and %s instead of exit %d and %s" % (res.code, batch.show(res.out, 400), calm[0], batch.show(calm[1], 400))))
            if calm[0] != code or fo.count(b"\n") != calm[1].count(b"\n"):
                out.append(("differs-from-file", "exit %d and %s as a file, exit %d and %s on standard input" % (code, batch.show(fo, 300), calm[0], batch.show(calm[1], 300))))
            return out
        if want is None:
            w.probe("documents that fail")
            if res.code == 0 or changed or (res.out and not s["out"]):
                out.append(("delivers-bad", "the document fails as a file, but exit status is %d, changed %s, printed %s" % (res.code, changed, batch.show(res.out))))
            return out
        if res.code != 0:
            out.append(("spurious-failure", "exit status %d: %s" % (res.code, batch.show(res.err, 300))))
        elif dst:
            got = res.files.get(dst)
            if s["cmd"] == "jsx":
                pass
            if got != want:
                out.append(("differs", "%s holds %s instead of %s" % (dst, batch.show(got, 300), batch.show(want, 300))))
            x = [p for p in changed if p != dst and posixpath.basename(p) not in batch.IDX]
            if x:
                out.append(("touched", "%s changed" % x[0]))
        else:
            if res.out != want:
                out.append(("differs", "standard output is %s instead of %s" % (batch.show(res.out, 300), batch.show(want, 300))))
            if changed:
                out.append(("touched", "%s changed" % changed[0]))
        w.probe("delivered")
        w.probe("chunks", len(s["sim"]["stdin"]))
        return out

    def reductions(self, s):
        for x in super().reductions(s):
            yield x
        if isinstance(s["doc"], str) and len(s["doc"]) > 200 and not s["sim"].get("faults"):
            c = copy.deepcopy(s)
            c["doc"] = '<svg xmlns="http://www.w3.org/2000/svg"><path d="M1 1z"/></svg>'
            c["sim"]["stdin"] = [[1, "n", 0]] * len(c["doc"]) + [[0, "n", 0]]
            yield c


ALL = [C01(), C02(), C03(), C04(), C05(), C06(), C07(), C08(), C09(), C10(), C17(), C18(), C19()]
