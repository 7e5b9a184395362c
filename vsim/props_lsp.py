"""Properties of the language server."""
import copy
import hashlib
import json
import re

from . import batch, gen, run
from .engine import Prop
from .props_batch import ending, outside

SERVE = ["lint", "serve"]


# ----------------------------------------------------------------------- messages
def frame(m):
    """The bytes of a message: a JSON value, or {"raw": text} for a body sent as it is."""
    if "raw" in m:
        body = m["raw"].encode("utf-8", "surrogateescape")
    else:
        body = json.dumps(m["j"], ensure_ascii=m.get("ascii", True)).encode()
    head = b"Content-Length: %d\r\n" % len(body)
    if m.get("type"):
        head = r_header(m["type"], head)
    return head + b"\r\n" + body


def r_header(kind, head):
    t = b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"
    return t + head if kind == 1 else head + t


def request(i, method, params=None):
    j = {"jsonrpc": "2.0", "id": i, "method": method}
    if params is not None:
        j["params"] = params
    return {"j": j}


def notification(method, params=None):
    j = {"jsonrpc": "2.0", "method": method}
    if params is not None:
        j["params"] = params
    return {"j": j}


def did_open(uri, text, version=1):
    return notification("textDocument/didOpen",
                        {"textDocument": {"uri": uri, "languageId": "svg", "version": version, "text": text}})


def did_change(uri, texts, version):
    return notification("textDocument/didChange", {"textDocument": {"uri": uri, "version": version},
                                                   "contentChanges": [{"text": t} for t in texts]})


HELLO = [request(0, "initialize", {"capabilities": {}}), notification("initialized", {})]


def parse_output(out):
    """The messages in what the server wrote, and what is wrong with the framing, if anything."""
    msgs, pos = [], 0
    while pos < len(out):
        end = out.find(b"\r\n\r\n", pos)
        if end < 0:
            return msgs, "no complete header at byte %d: %s" % (pos, batch.show(out[pos:]))
        length = None
        for line in out[pos:end].split(b"\r\n"):
            m = re.fullmatch(rb"Content-Length: (\d+)", line)
            if m:
                length = int(m.group(1))
            elif not line.startswith(b"Content-Type: "):
                return msgs, "a header line %s at byte %d" % (batch.show(line), pos)
        if length is None:
            return msgs, "no length at byte %d: %s" % (pos, batch.show(out[pos:end]))
        body = out[end + 4:end + 4 + length]
        if len(body) < length:
            return msgs, "the last message has %d of its %d bytes" % (len(body), length)
        try:
            msgs.append(json.loads(body))
        except ValueError:
            return msgs, "a message that is not JSON: %s" % batch.show(body)
        pos = end + 4 + length
    return msgs, None


def published(msgs):
    """The last diagnostics of every document and how often they were published."""
    last, count = {}, {}
    for m in msgs:
        if m.get("method") == "textDocument/publishDiagnostics":
            u = m["params"]["uri"]
            last[u] = m["params"]["diagnostics"]
            count[u] = count.get(u, 0) + 1
    return last, count


def serve(w, s, key="sim", sim=None):
    sim = dict(sim or s[key])
    sim["tty"] = 0
    sim["stdin"] = s["chunks"]
    return w.execute(SERVE + s["opts"], sim, key=key, tree=s["tree"], stdin=b"".join(frame(m) for m in s["msgs"]))


# --------------------------------------------------------------------- references
def diagnostics_alone(w, s, uri, text):
    """What a server that is only ever told this text publishes for it: (exit code, diagnostics)."""
    key = "lsp" + json.dumps([uri, text, s["tree"], s["opts"]])
    refs = w.refs
    if key not in refs.memo:
        refs.trim()
        msgs = HELLO + [did_open(uri, text)]
        data = [frame(m) for m in msgs]
        sim = dict(batch.CALM, tty=0, stdin=[[len(d), "i", 0] for d in data] + [[0, "i", 0]])
        r = run.execute(refs.slot, SERVE + s["opts"], sim, tree=s["tree"], stdin=b"".join(data))
        refs.runs += 1
        refs.memo[key] = (r.code, published(parse_output(r.out)[0])[0].get(uri))
    return refs.memo[key]


PROBLEM = re.compile(r"^ ?\x1b\[\d+m([×⚠]) ", re.M)


def report_alone(w, s, text):
    """What the command line says about this text: (parsed, errors, warnings)."""
    key = "cli" + json.dumps([text, s["tree"], s["opts"]])
    refs = w.refs
    if key not in refs.memo:
        t = dict(s["tree"])
        t["a.svg"] = {"c": text}
        r = run.execute(refs.slot, ["lint", "check", *s["opts"], "a.svg"], dict(batch.CALM), tree=t)
        refs.runs += 1
        out = r.out.decode("utf-8", "replace")
        found = PROBLEM.findall(out)
        refs.memo[key] = ("a.svg:" not in r.err.decode("utf-8", "replace"), found.count("×"), found.count("⚠"), r.code)
    return refs.memo[key]


# --------------------------------------------------------------------- generation
URIS = ("file:///a.svg", "file:///dir/b.svg", "file:///dir/c%20d.svg", "untitled:Untitled-1", "file:///e.svg?x=1",
        "file:///%C3%A9.svg", "http://example.com/f.svg", "file:///dir/g.svg#h", "untitled:", "git://host", "file:///%FF.svg")
DIRTY = ('<svg %s><foo/></svg>', '<svg %s><rect foo="1"/></svg>', '<svg %s>\n<g id="unused"/>\n</svg>',
         '<svg %s xmlns:x="urn:x"/>', '<svg %s baseProfile="full"/>', '<svg %s><rect x="0"/><bar/>é世\U0001F600<foo/></svg>')


def text(r, uid):
    x = r.random()
    if x < .2:
        b = gen.bad_document(r, uid)
        return b if isinstance(b, str) else "<svg %s>�" % gen.SVG
    if x < .4:
        return r.choice(DIRTY) % gen.SVG
    if x < .5:
        return '<svg %s viewBox="0 0 9 9"><path d="M0 %dz"/></svg>' % (gen.SVG, uid)
    if x < .65:
        return gen.odd(r, uid)
    return gen.document(r, uid, big=.04)


def edit(r, t, uid):
    """The next version of a text: mostly a small change, as an editor would send."""
    x = r.random()
    if x < .3 or not t:
        return text(r, uid)
    if x < .5:
        k = r.randint(0, len(t))
        return t[:k] + r.choice(("<foo/>", "<", " ", "\n", "<g>", "é", '"', "&", "x")) + t[k:]
    if x < .7:
        a = r.randint(0, len(t))
        return t[:a] + t[min(len(t), a + r.randint(1, 20)):]
    if x < .85:
        return t.replace("</svg>", r.choice(("<foo/></svg>", '<rect bar="%d"/></svg>' % uid, "</sv", "<!-- %d --></svg>" % uid)))
    return re.sub(r"<foo/>| id=\"[^\"]*\"", "", t)


def chunks(r, msgs, wait=()):
    """How the bytes arrive.  Before a message whose index is in `wait` the client waits until the server has
    nothing left to do."""
    out = []
    style = r.choice(("messages", "messages", "all", "bytes", "cut", "cut", "mixed"))
    pend = 0
    for i, m in enumerate(msgs):
        n = len(frame(m))
        if i in wait:
            if pend:
                out.append([pend, "n", 0])
                pend = 0
            how = "i"
        else:
            how = r.choice("nnnd" if style != "all" else "n")
        ns = r.choice((1000, 100000, 3000000, 200000000)) if how == "d" else 0
        if style == "all" and how == "n":
            pend += n
            continue
        if style == "messages" or style == "all":
            out.append([n, how, ns])
            continue
        cuts = {"bytes": n if n < 400 else 200, "cut": r.randint(0, 3), "mixed": r.choice((0, 0, 1, 5))}[style]
        at = sorted({r.randint(1, n - 1) for _ in range(cuts)}) + [n]
        prev = 0
        for k in at:
            out.append([k - prev, how, ns])
            how, ns = r.choice("nnd"), 0
            if how == "d":
                ns = r.choice((100, 10000, 1000000))
            prev = k
    if pend:
        out.append([pend, "n", 0])
    return out


def slow_output(r):
    rules = []
    if r.random() < .4:
        rules.append(["stdout", "short", -1, r.choice((50000, 300000, 800000)), 0])
    if r.random() < .3:
        rules.append(["stdout", "err", gen.EINTR, r.choice((50000, 300000)), 0])
    if r.random() < .4:
        rules.append(["stdout", "delay", -r.choice((10000, 1000000, 500000000)), r.choice((200000, 700000)), 0])
    if r.random() < .3:
        rules.append(["stdin", "short", -1, r.choice((50000, 500000)), 0])
    if r.random() < .2:
        rules.append(["stdin", "err", gen.EINTR, r.choice((50000, 200000)), 0])
    return rules


class Server(Prop):
    nsims = 3
    assumptions = ["The client waits for the answer to initialize before it sends anything else, as the protocol requires, "
                   "and takes everything the server writes.",
                   "Context switches happen at atomic operations, locks, thread creation and system calls."]

    def setup(self, r):
        s = dict(tree={}, opts=[])
        if r.random() < .3:
            cfg = {"c": json.dumps({"lint": gen.lint_rules(r)})}
            if r.random() < .5:
                s["tree"]["oxvgrc.json"] = cfg
            else:
                s["tree"]["my.json"] = cfg
                s["opts"] = ["--config", "my.json"]
        return s

    def sims(self, r):
        out = []
        for _ in range(self.nsims):
            s = gen.schedule(r)
            s["rules"] = slow_output(r)
            out.append(s)
        return out

    def reductions(self, s):
        for i in range(len(s["msgs"]) - 1, 1, -1):
            c = copy.deepcopy(s)
            del c["msgs"][i]
            c["chunks"] = [[len(frame(m)), "i" if k < 3 else "n", 0] for k, m in enumerate(c["msgs"])] + [[0, "i", 0]]
            yield c
        plain = [[len(frame(m)), "i" if k < 3 else "n", 0] for k, m in enumerate(s["msgs"])] + [[0, "i", 0]]
        if s["chunks"] != plain:
            yield dict(copy.deepcopy(s), chunks=plain)
        for i in range(len(s["sim"].get("rules") or ())):
            c = copy.deepcopy(s)
            del c["sim"]["rules"][i]
            yield c
        if s["tree"]:
            yield dict(copy.deepcopy(s), tree={}, opts=[])
        for sub in ({"pspur": 0}, {"tjump": 0}, {"ncpu": 2}, {"tokio": 1}):
            if any(s["sim"].get(a, b) != b for a, b in sub.items()):
                c = copy.deepcopy(s)
                c["sim"].update(sub)
                yield c

    def describe(self, s):
        return "%d messages in %d chunks: %s" % (len(s["msgs"]), len(s["chunks"]),
                                                 " ".join(m.get("j", {}).get("method", "?").split("/")[-1] for m in s["msgs"]))[:250]


def crashed(res):
    out = ending(res) + outside(res)
    if not out and (res.signal or res.code not in (0, 1)):
        out.append(("crash", "the server ended with status %d: %s" % (res.code, batch.show(res.err, 300))))
    if not out and b"panicked at" in res.err:
        out.append(("panic", "the server panicked: %s" % batch.show(res.err, 300)))
    return out


def latest(msgs):
    """The latest text of every document, by the rules of full synchronisation."""
    texts = {}
    for m in msgs:
        j = m.get("j") or {}
        p = j.get("params") or {}
        if "textDocument" not in p:
            continue
        if j.get("method") == "textDocument/didOpen":
            texts[p["textDocument"]["uri"]] = p["textDocument"]["text"]
        elif j.get("method") == "textDocument/didChange" and p["contentChanges"]:
            texts[p["textDocument"]["uri"]] = p["contentChanges"][-1]["text"]
    return texts


class C11(Server):
    id = "C11"
    budget = {"quick": (1500, 150), "thorough": (40000, 2400)}

    def generate(self, r, tier):
        s = self.setup(r)
        msgs = list(HELLO)
        uris = r.sample(URIS, r.choice((1, 1, 2, 2, 3, 5)))
        texts, version = {}, 1
        pool = [text(r, k) for k in range(3)]
        for k in range(r.choice((1, 2, 3, 4, 6, 9, 14, 25))):
            u = r.choice(uris)
            version += 1
            if u not in texts:
                texts[u] = text(r, k)
                msgs.append(did_open(u, texts[u], version))
            else:
                n = 1 if r.random() < .8 else r.choice((0, 2, 3))
                new = [r.choice(pool) if r.random() < .2 else edit(r, texts[u], k) for _ in range(n)]
                if new:
                    texts[u] = new[-1]
                msgs.append(did_change(u, new, version))
            if r.random() < .08:
                msgs.append(r.choice((request(version, "textDocument/hover", {"textDocument": {"uri": u}, "position": {"line": 0, "character": 0}}),
                                      notification("textDocument/didSave", {"textDocument": {"uri": u}}),
                                      notification("$/setTrace", {"value": "off"}),
                                      notification("workspace/didChangeConfiguration", {"settings": {}}))))
        for m in msgs:
            if r.random() < .3:
                m["ascii"] = False
            if r.random() < .05:
                m["type"] = r.choice((1, 2))
        wait = {1, 2} if r.random() < .7 else {1}
        wait |= {i for i in range(3, len(msgs)) if r.random() < .1}
        s["msgs"] = msgs
        s["chunks"] = chunks(r, msgs, wait) + [[0, "i", 0]]
        s["sims"] = self.sims(r)
        return s

    def judge(self, w, s):
        res = serve(w, s)
        out = crashed(res)
        if out:
            return out
        msgs, broken = parse_output(res.out)
        if broken:
            return [("broken-message", broken)]
        last, count = published(msgs)
        texts = latest(s["msgs"])
        for u, t in sorted(texts.items()):
            code, want = diagnostics_alone(w, s, u, t)
            if code != 0:
                w.probe("reference does not end ordinarily")
                continue
            got = last.get(u)
            if got is None:
                out.append(("no-diagnostics", "nothing was published for %s, whose text is %r" % (u, t[:300])))
            elif got != want:
                out.append(("stale-diagnostics", "the last diagnostics of %s are %s instead of %s" % (u, json.dumps(got)[:400], json.dumps(want)[:400])))
            else:
                parsed, errors, warnings, rc = report_alone(w, s, t)
                if rc not in (0, 1):
                    continue
                sev = [d.get("severity") for d in got]
                if not parsed and 1 not in sev:
                    out.append(("no-parse-error", "%s cannot be parsed, but its diagnostics are %s" % (u, json.dumps(got)[:300])))
                if parsed and (sev.count(1), sev.count(2)) != (errors, warnings):
                    out.append(("wrong-diagnostics", "%s has %d errors and %d warnings, but its diagnostics are %s"
                                % (u, errors, warnings, json.dumps(got)[:400])))
                w.probe("clean text" if not got else "text with problems" if parsed else "text that cannot be parsed")
        for u in last:
            if u not in texts:
                out.append(("unknown-document", "diagnostics were published for %s, which is not open" % u))
        w.probe("documents", len(texts))
        w.probe("versions", sum(1 for m in s["msgs"] if "didChange" in m.get("j", {}).get("method", "")))
        return out


class C12(Server):
    id = "C12"
    budget = {"quick": (1500, 150), "thorough": (40000, 2400)}
    METHODS = ("textDocument/hover", "textDocument/completion", "workspace/symbol", "textDocument/diagnostic", "textDocument/formatting",
               "workspace/diagnostic", "textDocument/codeAction", "no/such", "", "initialize", "textDocument/documentSymbol",
               "workspace/executeCommand", "completionItem/resolve")

    def generate(self, r, tier):
        s = self.setup(r)
        msgs = []
        used = {0, 1 << 40}
        early = r.random() < .2

        def new_id():
            while True:
                i = r.choice((r.randint(1, 99), r.randint(1, 99), "s%d" % r.randint(0, 99), r.randint(-5, 1 << 31), "é%d" % r.randint(0, 9)))
                if i not in used:
                    used.add(i)
                    return i

        if early:
            msgs.append(request(new_id(), r.choice(self.METHODS[:3] + ("shutdown",))))
            if r.random() < .5:
                msgs.append(did_open(URIS[0], text(r, 1)))
        msgs += [dict(m) for m in HELLO]
        n0 = len(msgs)
        pend = []
        for k in range(r.choice((0, 1, 2, 4, 7, 12, 25))):
            x = r.random()
            u = r.choice(URIS)
            if x < .4:
                i = new_id()
                pend.append(i)
                p = r.choice((None, {}, {"textDocument": {"uri": u}, "position": {"line": 0, "character": 0}}, [], {"x": 1}, {"textDocument": {"uri": u}}))
                msgs.append(request(i, r.choice(self.METHODS), p))
            elif x < .7:
                msgs.append(did_open(u, text(r, k), k) if r.random() < .5 else did_change(u, [text(r, k)] * r.randint(0, 2), k))
            elif x < .8 and pend:
                msgs.append(notification("$/cancelRequest", {"id": r.choice(pend)}))
            else:
                msgs.append(r.choice((notification("textDocument/didClose", {"textDocument": {"uri": u}}), notification("no/such", {"a": 1}),
                                      notification("$/unknown"), notification("textDocument/didSave", {"textDocument": {"uri": u}}),
                                      notification("textDocument/didOpen", {"bad": 1}), notification("textDocument/didChange"),
                                      {"j": {"jsonrpc": "2.0", "id": 1 << 40, "result": None}})))
        s["end"] = r.choice(("eof", "eof", "exit", "exit", "shutdown-eof", "abrupt", "gone"))
        if s["end"] in ("exit", "shutdown-eof"):
            msgs.append(request(new_id(), "shutdown"))
            if r.random() < .3:
                msgs.append(request(new_id(), "textDocument/hover", {}))
            if s["end"] == "exit":
                msgs.append(notification("exit"))
        s["msgs"] = msgs
        wait = {n0 - 2, n0 - 1} | {i for i in range(n0, len(msgs)) if r.random() < .15}
        if msgs[-1].get("j", {}).get("method") == "exit" or r.random() < .5:
            wait.add(len(msgs) - 1)
        s["chunks"] = chunks(r, msgs, wait) + [[0, "n" if s["end"] == "abrupt" else "i", 0]]
        s["sims"] = self.sims(r)
        if s["end"] == "gone":
            for sim in s["sims"]:
                sim["rules"] = sim["rules"] + [r.choice((["stdout", "sticky", gen.EPIPE, r.choice((100000, 400000, 1000000)), 1],
                                                         ["stdin", "sticky", gen.EIO, r.choice((50000, 300000)), 1]))]
        return s

    def judge(self, w, s):
        res = serve(w, s)
        out = crashed(res)
        if out:
            return out
        if s["end"] == "gone":
            w.probe("end: gone")
            return []
        msgs, broken = parse_output(res.out)
        if broken:
            return [("broken-message", broken)]
        asked = [m["j"]["id"] for m in s["msgs"] if "j" in m and "id" in m["j"] and "method" in m["j"]]
        answers = [m for m in msgs if "method" not in m]
        for i in asked:
            n = sum(1 for m in answers if m.get("id") == i)
            if n != 1:
                q = [m["j"] for m in s["msgs"] if m.get("j", {}).get("id") == i][0]
                out.append(("lost-answer" if n == 0 else "repeated-answer", "request %s got %d answers" % (json.dumps(q)[:200], n)))
        for m in answers:
            if m.get("id") is not None and m.get("id") not in asked:
                out.append(("unasked-answer", json.dumps(m)[:300]))
            if ("result" in m) == ("error" in m):
                out.append(("malformed-answer", json.dumps(m)[:300]))
            if m.get("jsonrpc") != "2.0":
                out.append(("malformed-answer", json.dumps(m)[:300]))
        hello = [m for m in answers if m.get("id") == 0]
        if hello and "result" not in hello[0]:
            out.append(("refused", "initialize was refused: %s" % json.dumps(hello[0])[:300]))
        if res.code != 0:
            out.append(("bad-status", "the server ended with status %d: %s" % (res.code, batch.show(res.err, 300))))
        # a document after whatever came before is still handled
        down = [k for k, m in enumerate(s["msgs"]) if m.get("j", {}).get("method") in ("shutdown", "exit")]
        at = [k for k, m in enumerate(s["msgs"]) if m.get("j", {}).get("method") == "initialized"]
        if at and s["end"] != "abrupt":
            live = latest(s["msgs"][at[0] + 1:(down[-1] if down and down[-1] > at[0] else None)])
            last, _ = published(msgs)
            for u in live:
                if u not in last:
                    out.append(("ignored-document", "nothing was published for %s" % u))
        w.probe("requests", len(asked))
        w.probe("end: " + s["end"])
        return out


ALL = [C11(), C12()]
