"""Runs one simulated execution of the real system in a forked child under the
libc seam, and returns its recorded history.  Lives in a lane process that was
started with the shim preloaded and has the real compiler imported."""
import base64
import ctypes
import errno
import fcntl
import io
import json
import mmap
import os
import resource
import select
import shutil
import signal
import struct
import sys
import time

REPO = os.environ.get("AMASIM_REPO", "/repo")

EV = struct.Struct("<BBBBiiII")
READ0, WRITE, OPEN, FREAD, STAT, FWRITE, CLOSE, UNLINK = 1, 2, 3, 4, 5, 6, 7, 8
OPS = {"open": 1, "read": 2, "stat": 3, "write": 4}
ACTS = {"errno": 1, "short": 2, "redirect": 3, "eof": 4}

CPU_LIMIT = 20
AS_LIMIT = 3 << 30
WALL_LIMIT = 120


class Event:
    __slots__ = ("kind", "fd", "fault", "w", "res", "err", "data")

    def __init__(self, kind, fd, fault, w, res, err, data):
        self.kind, self.fd, self.fault, self.w, self.res, self.err, self.data = kind, fd, fault, w, res, err, data


class Obs:
    """What one run did."""
    def __init__(self):
        self.events = []
        self.out = b""
        self.err = b""
        self.status = None       # exit code, or -signal
        self.hang = False
        self.flood = False
        self.killed = False
        self.faults = {}
        self.marks = []
        self.maxrss = 0
        self.in_pos = 0
        self.result = None

    @property
    def started(self):
        return any("vm" in m for m in self.marks)

    def served(self):
        n = 0
        for e in self.events:
            if e.kind == READ0 and e.res > 0:
                n += e.res
        return n


def native(path):
    """a path as this process's locale writes it"""
    return os.fsdecode(path.encode("utf-8"))


class Engine:
    def __init__(self, work, libs, lane=0):
        self.work = work
        self.libs = libs
        self.lane = lane
        self.dll = ctypes.CDLL(None)
        d = self.dll
        d.sim_field.restype = ctypes.c_void_p
        d.sim_field.argtypes = [ctypes.c_char_p]
        d.sim_rule.argtypes = [ctypes.c_int] * 6 + [ctypes.c_char_p] * 2
        size = d.sim_sizeof()
        self.mem = mmap.mmap(-1, (size + 4095) & ~4095)
        base = ctypes.addressof(ctypes.c_char.from_buffer(self.mem))
        d.sim_attach(ctypes.c_void_p(base))
        d.sim_reset()
        self.off = {}
        self.base = base
        self.root = os.path.join(work, "lane-%s" % lane)
        os.makedirs(self.root, exist_ok=True)
        self.wfd = None
        self.no_vm = False
        self.runs = 0
        self.events = 0
        self.sigs = set()
        self.fault_counts = {}
        self.preimport()

    def preimport(self):
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        import runpy  # noqa
        import argparse, gettext, traceback  # noqa
        import amanda.compiler.check.core, amanda.compiler.codegen, amanda.compiler.compile  # noqa
        import amanda.libamanda, amanda.compiler.parse  # noqa
        self.load_libs()
        orig = ctypes.CDLL
        eng = self

        class Patched(orig):
            def __init__(s, name, *a, **k):
                if isinstance(name, (str, os.PathLike)) and os.path.basename(str(name)) in ("libamanda.so",):
                    name = eng.libs[eng.profile]
                    lib = True
                else:
                    lib = False
                orig.__init__(s, name, *a, **k)
                if lib:
                    class Entry(s._FuncPtr):
                        """a call into the runtime: noted, so that it is known whether the program was started"""
                        _flags_ = s._FuncPtr._flags_
                        _restype_ = s._FuncPtr._restype_

                        def __call__(f, *args):
                            if eng.wfd is not None:
                                os.write(eng.wfd, (json.dumps({"vm": f.__name__, "ev": eng.get_i("nev")}) + "\n").encode())
                                if eng.no_vm:
                                    return 0
                            return super().__call__(*args)
                    s._FuncPtr = Entry
        ctypes.CDLL = Patched
        self.profile = "debug"

    def load_libs(self):
        self.keep = [ctypes.CDLL(self.libs["debug"]), ctypes.CDLL(self.libs["release"])]

    # ---- shared memory access
    def _o(self, name):
        o = self.off.get(name)
        if o is None:
            o = self.off[name] = self.dll.sim_field(name.encode()) - self.base
        return o

    def put_i(self, name, v, idx=0, fmt="<i"):
        struct.pack_into(fmt, self.mem, self._o(name) + idx * struct.calcsize(fmt), v)

    def get_i(self, name, idx=0, fmt="<I"):
        return struct.unpack_from(fmt, self.mem, self._o(name) + idx * struct.calcsize(fmt))[0]

    # ---- scenario -> plan
    def plan(self, p):
        d = self.dll
        d.sim_reset()
        inp = p.get("inp", b"")
        if isinstance(inp, str):
            inp = base64.b64decode(inp)
        o = self._o("in_data")
        self.mem[o:o + len(inp)] = inp
        self.put_i("in_len", len(inp))
        ch = p.get("in_chunks", [])[:512]
        for i, c in enumerate(ch):
            self.put_i("in_chunk", c, i)
        self.put_i("in_nchunk", len(ch))
        self.put_i("in_end_errno", p.get("in_end_errno", 0))
        for j, key in ((0, "o1"), (1, "o2")):
            o = p.get(key) or {}
            ch = o.get("chunks", [])[:512]
            for i, c in enumerate(ch):
                self.put_i("out_chunk", c, j * 512 + i)
            self.put_i("out_nchunk", len(ch), j)
            if "cap" in o:
                self.put_i("out_cap", o["cap"], j, "<q")
                self.put_i("out_errno", o.get("errno", errno.ENOSPC), j)
        self.put_i("kill_at", p.get("kill_at", -1))
        if "max_ev" in p:
            self.put_i("max_ev", min(p["max_ev"], 59000))
        if "max_out" in p:
            self.put_i("max_out", p["max_out"])
        self.put_i("lean", 1 if p.get("lean") else 0)
        self.put_i("rnd", p.get("rnd", 1), 0, "<Q")
        for r in p.get("rules", []):
            d.sim_rule(OPS[r["op"]], r.get("nth", 0), 1 if r.get("persist") else 0, ACTS[r["act"]], r.get("arg", 0), 0,
                       r.get("match", "").encode(), r.get("alt", "").encode())

    def project(self, files, sub="p"):
        d = os.path.join(self.root, native(sub))
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        for path, text in files.items():
            self.put(os.path.join(d, path), text)
        return d

    @staticmethod
    def put(full, text):
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if isinstance(text, dict):
            if text.get("dir"):
                os.makedirs(full)
                return
            data = base64.b64decode(text["b64"])
        else:
            data = text.encode("utf-8", "surrogateescape")
        with open(full, "wb") as f:
            f.write(data)

    # ---- run
    def run(self, sc):
        """sc: files, main/args, profile, plan fields, optional sub/cwd/env/calls"""
        d = self.project(sc["files"], sc.get("sub", "p"))
        before = self.snapshot(d)
        obs = self.run_in(d, sc)
        obs.dir_before, obs.dir_after, obs.dir = before, self.snapshot(d), d
        return obs

    @staticmethod
    def snapshot(d):
        out = {}
        for root, dirs, names in os.walk(d):
            for n in names:
                p = os.path.join(root, n)
                try:
                    with open(p, "rb") as f:
                        out[os.path.relpath(p, d)] = f.read()
                except OSError:
                    out[os.path.relpath(p, d)] = None
        return out

    def run_in(self, d, sc):
        self.plan(sc.get("plan", {}))
        self.profile = sc.get("profile", "debug")
        self.runs += 1
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            try:
                self.child(d, sc, wfd)
            finally:
                os._exit(99)
        os.close(wfd)
        obs = Obs()
        payload = b""
        deadline = time.time() + WALL_LIMIT
        while True:
            left = deadline - time.time()
            if left <= 0:
                obs.hang = True
                os.kill(pid, signal.SIGKILL)
                break
            r, _, _ = select.select([rfd], [], [], left)
            if r:
                b = os.read(rfd, 65536)
                if not b:
                    break
                payload += b
        while True:
            p, st, ru = os.wait4(pid, os.WNOHANG)
            if p:
                break
            if time.time() > deadline:
                obs.hang = True
                os.kill(pid, signal.SIGKILL)
            time.sleep(0.0005)
        os.close(rfd)
        obs.maxrss = ru.ru_maxrss
        obs.cpu = ru.ru_utime + ru.ru_stime
        obs.status = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        obs.killed = bool(self.get_i("killed"))
        obs.flood = bool(self.get_i("flood"))
        if not obs.killed and obs.status in (-signal.SIGXCPU, -signal.SIGKILL):
            obs.hang = True
        self.collect(obs)
        for line in payload.split(b"\n"):
            if line:
                obs.marks.append(json.loads(line))
        return obs

    def collect(self, obs):
        nev, nd = self.get_i("nev"), self.get_i("ndata")
        o = self._o("data")
        data = self.mem[o:o + nd]
        eo = self._o("ev")
        raw = self.mem[eo:eo + nev * 20]
        outs = {1: [], 2: []}
        f = obs.faults
        for kind, fd, fault, w, res, err, off, ln in EV.iter_unpack(raw):
            e = Event(kind, fd, fault, w, res, err, data[off:off + ln] if ln else b"")
            obs.events.append(e)
            if kind == WRITE and res > 0:
                outs[fd].append(e.data)
            if fault:
                key = {READ0: "stdin", WRITE: "stdout" if fd == 1 else "stderr", OPEN: "open", FREAD: "file-read",
                       STAT: "stat", FWRITE: "file-write"}.get(kind, "other")
                key += ":" + (errno.errorcode.get(err, str(err)) if err else "short")
                f[key] = f.get(key, 0) + 1
        ns = self.get_i("in_short")
        if ns:
            f["stdin:short"] = ns
        if obs.killed:
            f["kill"] = 1
        o = self._o("tail")
        obs.tail = self.mem[o:o + 32].lstrip(b"\0")
        obs.out_total = self.get_i("out_total", 0, "<q")
        obs.out, obs.err = b"".join(outs[1]), b"".join(outs[2])
        obs.in_pos = self.get_i("in_pos")
        obs.in_after_eof = self.get_i("in_reads_after_eof")
        for k, v in f.items():
            self.fault_counts[k] = self.fault_counts.get(k, 0) + v
        self.events += nev
        self.sigs.add(self.signature(obs))

    @staticmethod
    def signature(obs):
        """distinct-interleaving measure: order and result class of every seam event"""
        s = 0
        for e in obs.events:
            s = hash((s, e.kind, e.fd if e.fd < 3 else 9, e.res if e.kind in (READ0, WRITE) else e.res > 0, e.err))
        return hash((s, obs.status))

    # ---- inside the child
    def child(self, d, sc, wfd):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        self.wfd = wfd
        self.no_vm = bool(sc.get("no_vm"))
        resource.setrlimit(resource.RLIMIT_CPU, (sc.get("cpu", CPU_LIMIT), sc.get("cpu", CPU_LIMIT) + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (sc.get("mem", AS_LIMIT), sc.get("mem", AS_LIMIT)))
        for k, v in (sc.get("env") or {}).items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        if sc.get("env") and "TZ" in sc["env"]:
            time.tzset()
        os.chdir(os.path.join(d, sc.get("cwd", ".")))
        pad = sc.get("heap_pad")
        if pad:
            self.pad = [bytearray(64 + i % 977) for i in range(pad)]
        enc, errs = sys.__stdout__.encoding, sys.__stdout__.errors
        enc2 = sys.__stderr__.encoding
        sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, "r", closefd=False)), encoding=enc)
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding=enc, errors=errs)
        sys.stderr = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, "w", closefd=False)), encoding=enc2,
                                      errors="backslashreplace", write_through=True)
        args = list(sc.get("args") or [sc.get("main", "main.ama")])
        if args and args[-1].startswith("@/"):
            args[-1] = os.path.join(d, args[-1][2:])
        self.dll.sim_arm(1)
        calls = sc.get("calls")
        if calls is None:
            code = self.as_program(args)
        else:
            code = 0
            import amanda.__main__ as am
            for i, c in enumerate(calls):
                cd = os.path.join(d, c.get("cwd", "."))
                os.chdir(cd)
                self.dll.sim_arm(0)
                for path, text in (c.get("write") or {}).items():
                    self.put(os.path.join(d, path), text)
                self.call_plan(c.get("plan") or {})
                mark = self.get_i("nev")
                self.dll.sim_arm(1)
                code = self.guard(lambda: am.main(*(c.get("args") or ["main.ama"])))
                self.flush_std()
                self.dll.sim_arm(0)
                os.write(wfd, (json.dumps({"call": i, "ev0": mark, "ev1": self.get_i("nev"), "code": code}) + "\n").encode())
                self.dll.sim_arm(1)
        self.dll.sim_arm(0)
        os._exit(code)

    def call_plan(self, p):
        """replace the stdin/stdout plan between two runs of one process"""
        inp = base64.b64decode(p.get("inp", ""))
        o = self._o("in_data")
        self.mem[o:o + len(inp)] = inp
        self.put_i("in_len", len(inp))
        self.put_i("in_pos", 0)
        self.put_i("in_ichunk", 0)
        ch = p.get("in_chunks", [])[:512]
        for i, c in enumerate(ch):
            self.put_i("in_chunk", c, i)
        self.put_i("in_nchunk", len(ch))
        self.put_i("in_end_errno", p.get("in_end_errno", 0))
        self.put_i("nrule", 0)
        for r in p.get("rules", []):
            self.dll.sim_rule(OPS[r["op"]], r.get("nth", 0), 1 if r.get("persist") else 0, ACTS[r["act"]], r.get("arg", 0), 0,
                              r.get("match", "").encode(), r.get("alt", "").encode())

    def guard(self, fn):
        """what the interpreter does around a main program"""
        import traceback
        code = 0
        try:
            fn()
        except SystemExit as e:
            c = e.code
            if c is None:
                code = 0
            elif isinstance(c, int):
                code = c & 0xFF
            else:
                try:
                    print(c, file=sys.stderr)
                except BaseException:
                    pass
                code = 1
        except BaseException:
            try:
                traceback.print_exc(file=sys.stderr)
            except BaseException:
                pass
            code = 1
        return code

    def flush_std(self):
        bad = False
        for f in (sys.stdout, sys.stderr):
            try:
                f.flush()
            except BaseException:
                bad = bad or f is sys.stdout
        return bad

    def as_program(self, args):
        import runpy
        sys.argv = ["amanda"] + args
        code = self.guard(lambda: runpy.run_module("amanda", run_name="__main__", alter_sys=True))
        if self.flush_std():
            code = 120
        return code
