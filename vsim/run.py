"""Runs one simulated process and reads back what happened."""
import hashlib
import os
import shutil
import signal
import stat
import struct

from . import build

SCRATCH_BASES = ("/dev/shm", "/tmp")
CLASSES = ("openr openw read write close stat opendir readdir mkdir unlink rename trunc sync stdin "
           "stdout stderr meta spawn").split()
ROOT = "@ROOT@"  # stands for the scratch directory in arguments and in what is printed
KINDS = "none err sticky short crashb crasha crashp vanish delay".split()
MAXDEC, MAXOPS, PATHBYTES, MAXFIRED = 65536, 32768, 262144, 4096
HEAD = struct.Struct("<8Q4I4I12Q2I")
DEC, OP, FIRED = struct.Struct("<QII"), struct.Struct("<IBBHIiQQQ"), struct.Struct("<IIq")
OFF_DEC = HEAD.size
OFF_OP = OFF_DEC + MAXDEC * DEC.size
OFF_FIRED = OFF_OP + MAXOPS * OP.size
OFF_PATHS = OFF_FIRED + MAXFIRED * FIRED.size
FIELDS = ("magic steps switches nops nthreads simtime sched_hash io_hash deadlock stepcap escapes "
          "crashed ndec decover nopl nfired atomics futexwaits spurious maxready readdirs randoms "
          "timejumps exited futexwakes preempts stdin_off done pathlen pad").split()


class HarnessError(Exception):
    """Something went wrong that says nothing about the program under test."""


def scratch_base():
    for b in SCRATCH_BASES:
        if os.path.isdir(b) and os.access(b, os.W_OK):
            return b
    raise HarnessError("no scratch directory")


class Slot:
    """A scratch directory in which one simulated run at a time takes place."""

    def __init__(self, tag):
        self.dir = os.path.join(scratch_base(), "vsim.%07d" % os.getpid(), "%s" % tag)
        self.root = os.path.join(self.dir, "r")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def clear(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.mkdir(self.root)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        try:
            os.rmdir(os.path.dirname(self.dir))
        except OSError:
            pass


def data(v):
    """File contents in scenarios are text, or {"hex": ...} when they are not UTF-8."""
    if isinstance(v, str):
        return v.encode()
    return bytes.fromhex(v["hex"])


def undata(b):
    try:
        return b.decode()
    except UnicodeDecodeError:
        return {"hex": b.hex()}


def plant(root, tree):
    """Creates the files of a scenario.

    A node is {"c": content}, {"d": 1} or {"l": target}; {"c": content, "h": path} is another name of the file at path.
    """
    for path in sorted(tree):
        node = tree[path]
        p = os.path.join(root, path)
        if "d" in node:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if "l" in node:
            os.symlink(node["l"], p)
        elif "h" in node and node["h"] < path and tree.get(node["h"]) == {k: v for k, v in node.items() if k != "h"}:
            os.link(os.path.join(root, node["h"]), p)
        else:
            with open(p, "wb") as f:
                f.write(data(node["c"]))
            if "m" in node:
                os.chmod(p, node["m"])


def snapshot(root):
    """{relative path: bytes | ("l", target) | ("d",)} and modes of regular files."""
    out, modes = {}, {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        rel = "" if rel == "." else rel + "/"
        for d in list(dirs):
            p = os.path.join(base, d)
            if os.path.islink(p):
                out[rel + d] = ("l", os.readlink(p))
                dirs.remove(d)
            else:
                out[rel + d] = ("d",)
        for f in files:
            p = os.path.join(base, f)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel + f] = ("l", os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as fd:
                    out[rel + f] = fd.read()
                modes[rel + f] = stat.S_IMODE(st.st_mode)
            else:
                out[rel + f] = ("?", st.st_mode)
    return out, modes


class Result:
    __slots__ = ("code", "signal", "out", "err", "rep", "files", "modes", "_raw", "timeout")

    def decisions(self):
        n = self.rep["ndec"]
        return [DEC.unpack_from(self._raw, OFF_DEC + i * DEC.size)[:2] for i in range(n)]

    def path_at(self, off):
        base = OFF_PATHS + off
        return self._raw[base:self._raw.index(b"\0", base)].decode("utf-8", "replace")

    def ops(self):
        out = []
        for i in range(self.rep["nopl"]):
            idx, cls, fault, tid, path, res, step, arg, aux = OP.unpack_from(self._raw, OFF_OP + i * OP.size)
            out.append(dict(i=idx, cls=CLASSES[cls], fault=KINDS[fault], tid=tid, path=self.path_at(path),
                            res=res, step=step, arg=arg, aux=aux))
        return out

    def fired(self):
        """Injected faults as (operation index, kind, argument, class, path)."""
        ops = {}
        n = self.rep["nfired"]
        if n:
            ops = {o["i"]: o for o in self.ops()}
        out = []
        for i in range(n):
            op, kind, arg = FIRED.unpack_from(self._raw, OFF_FIRED + i * FIRED.size)
            o = ops.get(op, {})
            out.append((op, KINDS[kind], arg, o.get("cls", "?"), o.get("path", "?")))
        return out

    def paths(self):
        raw = self._raw[OFF_PATHS:OFF_PATHS + self.rep["pathlen"]]
        return [p.decode("utf-8", "replace") for p in raw.split(b"\0") if p]

    def escapes(self):
        return [p for p in self.paths() if p.startswith("!")]

    def fingerprint(self):
        """Everything observable about the run; equal for equal seeds."""
        h = hashlib.sha256()
        r = self.rep
        h.update(repr((self.code, self.signal, r["steps"], r["switches"], r["nops"], r["sched_hash"],
                       r["io_hash"], r["simtime"])).encode())
        h.update(self.out + b"\0" + self.err + b"\0")
        for k in sorted(self.files):
            h.update(repr((k, self.files[k])).encode())
        return h.hexdigest()


BASE_ENV = {
    "PATH": "/usr/bin:/bin",
    "LANG": "C.UTF-8",
    "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0",
    "MALLOC_ARENA_MAX": "1",
    "RUST_BACKTRACE": "0",
}
DEFAULT_SIM = dict(policy=0, ncpu=4, tty=1, sseed=1, fseed=1, hseed=1, dseed=0, patomic=0, psync=0, pio=0,
                   pspur=0, pspot=0, tick=200, tjump=0, stepcap=6000000, pct=0, pctlen=0, script=0)


def write_config(path, slot, sim, verbose=None):
    s = dict(DEFAULT_SIM)
    s.update({k: v for k, v in sim.items() if k in DEFAULT_SIM})
    lines = ["root=" + slot.root, "report=" + os.path.join(slot.dir, "report")]
    lines += ["%s=%d" % (k, s[k]) for k in DEFAULT_SIM]
    if verbose:
        lines.append("verbose=" + verbose)
    lines += ["d %d %d" % tuple(d) for d in sim.get("decisions") or ()]
    lines += [("f %d %s %d %s %s" % tuple((list(f) + ["", ""])[:5])).rstrip() for f in sim.get("faults") or ()]
    lines += [("fr %s %s %d %d %d %s" % tuple((list(f) + [""])[:6])).rstrip() for f in sim.get("rules") or ()]
    lines += ["in %d %s %d" % tuple(c) for c in sim.get("stdin") or ()]
    with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write("\n".join(lines) + "\n")


def execute(slot, argv, sim, env=None, stdin=b"", program=None, seconds=60, keep=False, tree=None,
            verbose=None):
    """One run.  The scratch root holds `tree` (unless `keep`), the process starts in it."""
    if not keep:
        slot.clear()
        plant(slot.root, tree or {})
    cfg, rep = os.path.join(slot.dir, "cfg"), os.path.join(slot.dir, "report")
    fin, fout, ferr = (os.path.join(slot.dir, n) for n in ("stdin", "stdout", "stderr"))
    with open(fin, "wb") as f:
        f.write(stdin)
    try:
        os.unlink(rep)
    except FileNotFoundError:
        pass
    write_config(cfg, slot, sim, verbose)
    e = dict(BASE_ENV)
    e["HOME"] = slot.root + "/.home"
    e["TOKIO_WORKER_THREADS"] = str(sim.get("tokio", 2))
    e["RAYON_NUM_THREADS"] = str(sim.get("rayon", 2))
    e.update({k: v.replace(ROOT, slot.root) for k, v in (env or {}).items()})
    e["SIMRT"] = cfg
    e["SIMRT_SO"] = build.SO
    prog = program or build.OXVG
    pid = os.posix_spawn(build.EXEC, [build.EXEC, slot.root, fin, fout, ferr, str(seconds), prog,
                                       *[a.replace(ROOT, slot.root) for a in argv]], e)
    _, status = os.waitpid(pid, 0)
    r = Result()
    r.signal = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    r.code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -r.signal
    r.timeout = r.signal == signal.SIGALRM
    with open(fout, "rb") as f:
        r.out = f.read()
    with open(ferr, "rb") as f:
        r.err = f.read()
    if any(ROOT in a for a in argv):
        r.out, r.err = (b.replace(slot.root.encode(), ROOT.encode()) for b in (r.out, r.err))
    if r.code in (92, 93, 94, 95, 96):
        raise HarnessError("run failed with %d: %s" % (r.code, r.err[-300:]))
    with open(rep, "rb") as f:
        raw = f.read(OFF_DEC)
        vals = HEAD.unpack_from(raw, 0)
        r.rep = dict(zip(FIELDS, vals))
        if r.rep["magic"] != 0x53494d5254303031:
            raise HarnessError("no report: %r" % r.err[-300:])
        f.seek(0)
        r._raw = f.read()
    r.files, r.modes = snapshot(slot.root)
    return r
