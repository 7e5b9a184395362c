"""Runs of the command line over many documents, and what has to come out of them.

A batch scenario is a dictionary:

  cmd, opts, tail   command, its own options, the list after `--`
  paths             paths given on the command line
  out               None (no -o), "" (-o without a value: in place) or a path
  r, hidden, noignore, threads, quiet    the walk options
  tree              the files before the run
  sim               the simulator's settings for the run
"""
import fnmatch
import hashlib
import json
import os
import posixpath
import re
import xml.parsers.expat

from . import run

IDX = ("index.js", "index.ts")


def argv(s, **over):
    s = dict(s, **over)
    a = [s["cmd"]] if s["cmd"] != "lint" else ["lint", "check"]
    a += s["opts"]
    if s.get("r"):
        a.append("--recursive")
    if s.get("hidden"):
        a.append("--hidden")
    if s.get("noignore"):
        a.append("--no-ignore")
    if s.get("quiet"):
        a.append("--quiet")
    if s.get("threads"):
        a += ["--threads", str(s["threads"])]
    if s["out"]:
        a += ["-o", s["out"]]
    a += s["paths"]
    if s["out"] == "":
        a.append("-o")
    if s["tail"]:
        a += ["--", *s["tail"]]
    return a


# -------------------------------------------------------------------- the model
def local(path):
    """A path relative to the scratch directory, also when it was given as an absolute one."""
    path = posixpath.normpath(path)
    return path[len(run.ROOT) + 1:] or "." if path == run.ROOT or path.startswith(run.ROOT + "/") else path


def resolve(tree, path):
    """Follows links; returns the real path of a file or directory, or None."""
    path = local(path)
    for _ in range(40):
        parts = path.split("/")
        for i in range(1, len(parts) + 1):
            p = "/".join(parts[:i])
            n = tree.get(p)
            if n and "l" in n:
                path = posixpath.normpath(posixpath.join(posixpath.dirname(p), n["l"], *parts[i:]))
                break
        else:
            break
    else:
        return None
    if path == "." or path in tree or any(q.startswith(path + "/") for q in tree):
        return path
    return None


def is_dir(tree, real):
    if real == ".":
        return True
    n = tree.get(real)
    return (n is None or "d" in n) and (n is not None or any(q.startswith(real + "/") for q in tree))


def children(tree, real):
    pre = "" if real == "." else real + "/"
    return sorted({q[len(pre):].split("/")[0] for q in tree if q.startswith(pre) and len(q) > len(pre)})


def parse_ignore(text):
    out = []
    for line in text.split("\n"):
        line = line.rstrip("\r")
        if not line.strip() or line.startswith("#"):
            continue
        neg = line.startswith("!")
        if neg:
            line = line[1:]
        dironly = line.endswith("/")
        line = line.rstrip("/")
        anchored = "/" in line
        out.append((neg, dironly, anchored, line.lstrip("/")))
    return out


def ignored(rules, rel, isdir):
    """The verdict of one ignore file on a path relative to it: True, False or None."""
    for neg, dironly, anchored, pat in reversed(rules):
        if dironly and not isdir:
            continue
        target = rel if anchored else posixpath.basename(rel)
        if anchored and target.count("/") != pat.count("/"):
            continue
        if fnmatch.fnmatchcase(target, pat):
            return not neg
    return None


def select(s):
    """The documents a run selects: [(walked path, given path)] and the paths that are errors."""
    tree = s["tree"]
    docs, errors = [], []
    git = any(p == ".git" or p.startswith(".git/") for p in tree)

    def walk(walked, real, depth, top, stack):
        if depth >= 1 and not s.get("r"):
            return
        here = []
        if not s.get("noignore"):
            for f in (".gitignore", ".ignore"):
                n = tree.get(f if real == "." else real + "/" + f)
                if n and "c" in n and isinstance(n["c"], str) and (f == ".ignore" or git):
                    here.append((f, walked, parse_ignore(n["c"])))
        stack = stack + here
        for name in children(tree, real):
            w = walked + "/" + name
            rl = (name if real == "." else real + "/" + name)
            t = resolve(tree, rl)
            if t is None:
                if not (name.startswith(".") and not s.get("hidden")):
                    errors.append(w)
                continue
            isdir = is_dir(tree, t)
            verdict = None
            for kind in (".ignore", ".gitignore"):
                for f, base, rules in reversed(stack):
                    if f == kind and verdict is None:
                        verdict = ignored(rules, w[len(base) + 1:], isdir)
            if verdict:
                continue
            if verdict is None and name.startswith(".") and not s.get("hidden"):
                continue
            if isdir:
                walk(w, t, depth + 1, top, stack)
            elif name.endswith(".svg") and name != ".svg":
                docs.append((w, top))

    def above(real):
        out = []
        if s.get("noignore"):
            return out
        parts = real.split("/") if real != "." else []
        for i in range(len(parts)):
            d = "/".join(parts[:i])
            for f in (".gitignore", ".ignore"):
                n = tree.get((d + "/" if d else "") + f)
                if n and "c" in n and isinstance(n["c"], str) and (f == ".ignore" or git):
                    out.append((f, d or ".", parse_ignore(n["c"])))
        return out

    for p in s["paths"]:
        real = resolve(tree, p)
        if real is None:
            errors.append(p)
        elif is_dir(tree, real):
            walk(p.rstrip("/") if p != "." else ".", real, 0, p, [] if p == "." else above(real))
        elif posixpath.basename(p).endswith(".svg") and posixpath.basename(p) != ".svg":
            docs.append((p, p))
    return docs, errors


def typescript(s):
    o = s["opts"]
    return any(o[i] == "--typescript" and o[i + 1] == "true" for i in range(len(o) - 1))


def place(s, doc):
    """The path a document's result is written to, before following links."""
    walked, top = doc
    if s["cmd"] == "lint":
        return None
    if s["out"] is None and s["cmd"] != "jsx":
        return None
    if s["out"]:
        rel = walked[len(top.rstrip("/")) + 1:] if walked != top else ""
        d = posixpath.join(s["out"], rel) if rel else s["out"]
    else:
        d = walked
    if s["cmd"] == "jsx":
        stem, _ = posixpath.splitext(d.rstrip("/"))
        d = stem + (".tsx" if typescript(s) else ".jsx")
    return local(d)


def dest(s, doc):
    """Where the result of a document belongs (relative to the root), or None for standard output."""
    d = place(s, doc)
    if d is None:
        return None
    t = s["tree"]
    if d in t and "l" in t[d]:
        d = resolve(t, d) or d
    else:
        par = resolve(t, posixpath.dirname(d) or ".")
        if par and par != ".":
            d = par + "/" + posixpath.basename(d)
    return d


def content(s, doc):
    """What the selected file contains before the run."""
    return run.data(s["tree"][resolve(s["tree"], doc[0])]["c"])


def index_of(s, doc):
    d = posixpath.dirname(place(s, doc))
    par = resolve(s["tree"], d or ".")
    return posixpath.normpath(posixpath.join(par or d, "index.ts" if typescript(s) else "index.js"))


def uses_index(s):
    return s["cmd"] == "jsx" and "--no-index" not in s["opts"]


CALM = {"policy": 0, "ncpu": 1, "tokio": 1, "sseed": 7, "fseed": 7, "hseed": 7}
CONFIGS = ("oxvgrc.json", "my.json", ".home/.config/oxvg/config.json", "tpl.js")


class Refs:
    """Fault-free single-document runs of the program itself, remembered by what they depend on."""

    def __init__(self, slot):
        self.slot = slot
        self.memo = {}
        self.runs = 0

    def trim(self):
        if len(self.memo) > 20000:
            self.memo.clear()

    def alone(self, s, doc):
        """The run in which `doc` is the only document: (exit code, stdout, stderr, result, index)."""
        tree = s["tree"]
        key = json.dumps([s["cmd"], s["opts"], s["tail"], s["out"], s.get("quiet"), doc,
                          dest(s, doc), hashlib.sha256(content(s, doc)).hexdigest(),
                          [(c, tree[c]) for c in CONFIGS if c in tree]])
        if key in self.memo:
            return self.memo[key]
        self.trim()
        own = local(doc[0])
        t = {own: {"c": run.undata(content(s, doc))}}
        t.setdefault("in", {"d": 1})  # paths may lead through it
        for c in CONFIGS:
            if c in tree:
                t[c] = tree[c]
        one = dict(s, tree=t, paths=[doc[1]], r=True, hidden=True, noignore=True, threads=1)
        r = run.execute(self.slot, argv(one), CALM, tree=t)
        self.runs += 1
        d = dest(one, doc)
        res = r.files.get(d) if d else None
        if d and t.get(d, {}).get("c") is not None and r.code != 0:
            res = None
        index = r.files.get(index_of(one, doc)) if d and uses_index(s) else None
        self.memo[key] = (r.code, r.out, r.err, res, index)
        return self.memo[key]

    def piped(self, s, doc):
        """The result when the document comes from standard input, or None if it fails."""
        code, out = self.piped_run(s, doc)
        return out if code == 0 else None

    def piped_run(self, s, doc):
        """(exit code, stdout) when the document comes from standard input."""
        tree = s["tree"]
        key = json.dumps(["|", s["cmd"], s["opts"], s["tail"], hashlib.sha256(content(s, doc)).hexdigest(),
                          [(c, tree[c]) for c in CONFIGS if c in tree]])
        if key in self.memo:
            return self.memo[key]
        self.trim()
        t = {c: tree[c] for c in CONFIGS if c in tree}
        one = dict(s, tree=t, paths=[], out=None, threads=1)
        r = run.execute(self.slot, argv(one), dict(CALM, tty=0), tree=t, stdin=content(s, doc))
        self.runs += 1
        self.memo[key] = (r.code, r.out)
        return self.memo[key]

    def complete(self, s, doc):
        """The complete result of a document, or None when the document fails even alone."""
        code, out, _, res, _ = self.alone(s, doc)
        if code != 0:
            return None
        return res if dest(s, doc) else out


def path_matters(s):
    if s["cmd"] == "jsx":
        return True
    return any("prefixIds" in json.dumps(s["tree"][c]) for c in CONFIGS if c in s["tree"])


# ------------------------------------------------------------------- judgement
def hopeless(b):
    """Whether no reader can take the bytes for a document: not text, without an element, or broken off."""
    try:
        text = b.decode()
    except UnicodeDecodeError:
        return True
    if "<!DOCTYPE" in text:
        return False
    p = xml.parsers.expat.ParserCreate()
    try:
        p.Parse(b, True)
    except xml.parsers.expat.ExpatError as e:
        return e.code in (xml.parsers.expat.errors.codes[xml.parsers.expat.errors.XML_ERROR_NO_ELEMENTS],
                          xml.parsers.expat.errors.codes[xml.parsers.expat.errors.XML_ERROR_TAG_MISMATCH])
    return False


def well_formed(b):
    p = xml.parsers.expat.ParserCreate()
    try:
        # the text of styles is written without escapes
        b = re.sub(rb"<!--.*?-->", b"", b, flags=re.S)
        p.Parse(re.sub(rb"(<style(?:\s[^>]*)?(?<!/)>).*?</style>", rb"\1</style>", b, flags=re.S), True)
        return True
    except xml.parsers.expat.ExpatError:
        # jobs may remove every element of a document whose root they do not know
        return not re.search(rb"<[^!?]", re.sub(rb"<!DOCTYPE.*", b"", b, flags=re.S))


def as_permutation(data, blocks):
    """Whether `data` is the concatenation of `blocks` in some order."""
    blocks = [b for b in blocks if b]
    if sum(map(len, blocks)) != len(data):
        return False
    kinds = sorted(set(blocks), key=lambda b: -len(b))
    left = {b: blocks.count(b) for b in kinds}
    seen = set()

    def go(pos):
        if pos == len(data):
            return True
        key = (pos, tuple(left[b] for b in kinds))
        if key in seen:
            return False
        seen.add(key)
        for b in kinds:
            if left[b] and data.startswith(b, pos):
                left[b] -= 1
                if go(pos + len(b)):
                    return True
                left[b] += 1
        return False

    return go(0)


def as_sub_permutation(data, blocks):
    """Whether `data` is the concatenation of some of `blocks`, in some order."""
    blocks = [b for b in blocks if b]
    kinds = sorted(set(blocks), key=lambda b: -len(b))
    left = {b: blocks.count(b) for b in kinds}
    seen = set()

    def go(pos):
        if pos == len(data):
            return True
        key = (pos, tuple(left[b] for b in kinds))
        if key in seen:
            return False
        seen.add(key)
        for b in kinds:
            if left[b] and data.startswith(b, pos):
                left[b] -= 1
                if go(pos + len(b)):
                    return True
                left[b] += 1
        return False

    return go(0)


def lossy(p):
    return p.encode("utf-8", "surrogateescape").decode("utf-8", "replace")


def names(err, p):
    """Whether an error output names a path."""
    return lossy(p) in err.decode("utf-8", "replace")


TEMP = re.compile(r"(^|/)\.[^/]*$")


class View:
    """What a run did, compared with the model."""

    def __init__(self, s, res, refs):
        self.s, self.res, self.refs = s, res, refs
        self.docs, self.errors = select(s)
        self.want = {d: refs.complete(s, d) for d in self.docs}
        self.dest = {d: dest(s, d) for d in self.docs}
        self.good = [d for d in self.docs if self.want[d] is not None]
        self.bad = [d for d in self.docs if self.want[d] is None]
        self.before = {}
        for p, n in s["tree"].items():
            if "c" in n:
                self.before[p] = run.data(n["c"])
            elif "l" in n:
                self.before[p] = ("l", n["l"])
            else:
                self.before[p] = ("d",)
            q = posixpath.dirname(p)
            while q:
                self.before.setdefault(q, ("d",))
                q = posixpath.dirname(q)

    def delivered(self, d):
        """Whether the complete result of a document with a file destination is in its place."""
        return self.res.files.get(self.dest[d]) == self.want[d]

    def changed(self):
        """Paths whose content differs from before the run."""
        f = self.res.files
        return sorted(p for p in set(f) | set(self.before) if f.get(p) != self.before.get(p))

    def indexes(self):
        if not uses_index(self.s):
            return set()
        return {index_of(self.s, d) for d in self.docs}

    def allowed(self):
        """Everything a run may create or change."""
        ok = set()
        for d in self.docs:
            if self.dest[d]:
                ok.add(self.dest[d])
        ok |= self.indexes()
        for p in list(ok):
            q = posixpath.dirname(p)
            while q:
                ok.add(q + "/")
                q = posixpath.dirname(q)
        return ok

    def ordinary(self):
        """The run ended with an ordinary exit status."""
        return self.res.code in (0, 1, 2) and not self.res.signal

    def panicked(self):
        return self.res.code == 101 or self.res.signal != 0

    def hard(self):
        """Injected faults that a program cannot work around."""
        return [f for f in self.res.fired() if f[1] in ("err", "sticky", "vanish") and not (f[1] == "err" and f[2] == 4)]


def show(b, n=200):
    if b is None:
        return "nothing"
    if isinstance(b, tuple):
        return repr(b)
    return repr(b[:n]) + ("… (%d bytes)" % len(b) if len(b) > n else "")
