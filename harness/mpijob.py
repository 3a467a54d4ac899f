"""Runs the postprocessing CLI as a job of several processes inside one forked
child: every rank is a thread with its own copy of the CLI module, mpi4py is a
stand-in whose every operation is scheduled explicitly, and the whole job can be
killed at a chosen point.  All files live in a scratch folder."""
import copy
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import threading
import time
import types

PKG = "gw_eccentricity.postprocess"
_tls = threading.local()


class Killed(BaseException):
    pass


class Sched:
    def __init__(self, n, schedule, seed, sync, emit):
        self.n, self.sched, self.rng, self.sync, self.emit = n, list(schedule), random.Random(seed), sync, emit
        self.back = threading.Semaphore(0)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.state = ["ready"] * n          # ready | recv | ack | coll | done
        self.want = [None] * n
        self.pick = [None] * n
        self.box = [[] for _ in range(n)]
        self.coll = {}
        self.ncoll = [0] * n
        self.ops = 0
        self.crash_op = None
        self.kill_at_end = False

    # ---- rank side
    def pause(self, state, want=None):
        r = _tls.rank
        self.ops += 1
        if self.crash_op is not None and self.ops >= self.crash_op:
            os._exit(9)
        self.state[r], self.want[r] = state, want
        self.back.release()
        self.go[r].acquire()
        return self.pick[r]

    # ---- scheduler side
    def options(self):
        o = []
        for r in range(self.n):
            st = self.state[r]
            if st == "ready":
                o.append((r, None))
            elif st == "recv":
                src, tag = self.want[r]
                seen = set()
                for m in self.box[r]:
                    if m["src"] in seen:
                        continue
                    if (src in (-1, m["src"])) and (tag in (-1, m["tag"])):
                        seen.add(m["src"])
                        o.append((r, m["src"]))
            elif st == "ack" and self.want[r]["taken"]:
                o.append((r, None))
            elif st == "coll" and len(self.coll[self.want[r]]) == self.n:
                o.append((r, None))
        return o

    def choose(self, o):
        while self.sched:
            e = self.sched.pop(0)
            for x in o:
                if (e == 0 and x == (0, None)) or (e < 0 and x == (0, -e)) or (e > 0 and x[0] == e):
                    return x
        if self.kill_at_end:
            os._exit(9)
        return self.rng.choice(o)

    def loop(self):
        while True:
            if all(s == "done" for s in self.state):
                return "end"
            o = self.options()
            if not o:
                return "deadlock"
            r, m = self.choose(o)
            self.pick[r] = m
            self.state[r] = "ready"
            self.go[r].release()
            self.back.acquire()


class Status:
    source = tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Request:
    def __init__(self, fn, ready=lambda: True):
        self.fn, self.ready, self.val, self.did = fn, ready, None, False

    def wait(self, status=None):
        if not self.did:
            self.val, self.did = self.fn(), True
        return self.val

    Wait = wait

    def test(self, status=None):
        S.pause("ready")
        if not self.did and self.ready():
            self.wait()
        return self.did, self.val

    Test = test


S = None


class Comm:
    def Get_rank(self):
        return _tls.rank

    def Get_size(self):
        return S.n

    rank = property(Get_rank)
    size = property(Get_size)

    def _put(self, obj, dest, tag):
        if not 0 <= dest < S.n:
            raise ValueError(f"MPI_ERR_RANK: invalid rank {dest}")
        m = dict(src=_tls.rank, tag=tag, data=Data(obj), taken=False)
        S.box[dest].append(m)
        return m

    def send(self, obj, dest, tag=0):
        S.pause("ready")
        m = self._put(obj, dest, tag)
        if S.sync:
            S.pause("ack", m)

    bsend = send

    def ssend(self, obj, dest, tag=0):
        S.pause("ready")
        S.pause("ack", self._put(obj, dest, tag))

    def isend(self, obj, dest, tag=0):
        S.pause("ready")
        m = self._put(obj, dest, tag)
        return Request(lambda: S.pause("ack", m) if S.sync else None)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        src = S.pause("recv", (source, tag))
        r = _tls.rank
        for m in S.box[r]:
            if m["src"] == src and tag in (-1, m["tag"]):
                S.box[r].remove(m)
                m["taken"] = True
                if status is not None:
                    status.source, status.tag = m["src"], m["tag"]
                return m["data"].get()
        raise RuntimeError("scheduler: no message")

    def irecv(self, buf=None, source=-1, tag=-1):
        return Request(lambda: self.recv(None, source, tag), lambda: self._any(source, tag))

    def _any(self, source, tag):
        return any(source in (-1, m["src"]) and tag in (-1, m["tag"]) for m in S.box[_tls.rank])

    def iprobe(self, source=-1, tag=-1, status=None):
        S.pause("ready")
        for m in S.box[_tls.rank]:
            if source in (-1, m["src"]) and tag in (-1, m["tag"]):
                if status is not None:
                    status.source, status.tag = m["src"], m["tag"]
                return True
        return False

    Iprobe = iprobe

    def probe(self, source=-1, tag=-1, status=None):
        src = S.pause("recv", (source, tag))
        if status is not None:
            m = next(m for m in S.box[_tls.rank] if m["src"] == src and tag in (-1, m["tag"]))
            status.source, status.tag = m["src"], m["tag"]
        return True

    Probe = probe

    def _coll(self, value):
        r = _tls.rank
        k = S.ncoll[r]
        S.ncoll[r] += 1
        S.coll.setdefault(k, {})[r] = Data(value)
        S.pause("coll", k)
        return [S.coll[k][i].get() for i in range(S.n)]

    def bcast(self, obj=None, root=0):
        return self._coll(obj)[root]

    def barrier(self):
        self._coll(None)

    Barrier = barrier

    def gather(self, obj, root=0):
        v = self._coll(obj)
        return v if _tls.rank == root else None

    def allgather(self, obj):
        return self._coll(obj)

    def scatter(self, obj=None, root=0):
        return self._coll(obj)[root][_tls.rank]

    def allreduce(self, obj, op=None):
        v = self._coll(obj)
        return op(v) if callable(op) else sum(v[1:], v[0])

    def reduce(self, obj, op=None, root=0):
        v = self.allreduce(obj, op)
        return v if _tls.rank == root else None

    def Abort(self, code=0):
        S.emit(["abort", _tls.rank, code])
        os._exit(10)


class Data:
    """what a message carries: nothing of the sender's memory"""

    def __init__(self, obj):
        try:
            self.p, self.o = pickle.dumps(obj), None
        except pickle.PicklingError:      # a class of a rank's own module copy
            self.p, self.o = None, copy.deepcopy(obj)

    def get(self):
        return pickle.loads(self.p) if self.p is not None else copy.deepcopy(self.o)


def uses_mpi(module):
    """module-level state that depends on the rank"""
    fn = getattr(module, "__file__", None)
    try:
        return bool(fn) and "mpi4py" in open(fn).read()
    except OSError:
        return False


def stub():
    mod = types.ModuleType("mpi4py")
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.COMM_WORLD = Comm()
    MPI.ANY_SOURCE = MPI.ANY_TAG = -1
    MPI.Status, MPI.Request, MPI.Comm = Status, Request, Comm
    MPI.SUM, MPI.MAX, MPI.MIN = (lambda v: sum(v[1:], v[0])), max, min
    MPI.Wtime = time.time
    MPI.Finalize = MPI.Init = lambda: None
    MPI.Is_initialized, MPI.Is_finalized = (lambda: True), (lambda: False)
    MPI.Get_processor_name = lambda: "here"
    MPI.Exception = type("Exception", (RuntimeError,), {})
    mod.MPI = MPI
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = mod, MPI


def _child(job, fd):
    global S
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)

    def emit(x):
        os.write(fd, (json.dumps(x) + "\n").encode())
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(job.get("timeout", 60))
    sys.dont_write_bytecode = True
    stub()
    os.chdir(job["cwd"])
    sys.argv = ["postprocess_cli"] + job["argv"]
    sys.path[:0] = job.get("path", [])
    S = Sched(job["P"], job["sched"], job["seed"], job["sync"], emit)
    crash = job.get("crash") or {}
    S.crash_op = crash.get("op")
    S.kill_at_end = crash.get("end_of_schedule", False)
    if "fsize" in crash:
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if not crash.get("soft") else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (crash["fsize"], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    count = {"gen": 0, "line": 0, "audit": 0}
    armed = {"on": False}

    def hook(event, args):
        if "audit" in crash and armed["on"] and event in ("open", "os.rename", "os.remove", "os.link", "shutil.move", "os.truncate"):
            if not any(isinstance(a, (str, bytes, os.PathLike)) and job["out"] in os.fsdecode(a) for a in args):
                return
            count["audit"] += 1
            if count["audit"] == crash["audit"]:
                os._exit(9)
    if "audit" in crash:
        sys.addaudithook(hook)

    # the generator of the job calls this
    def call(params, extra):
        S.pause("ready")
        emit(["eval", int(round(params["x"] * 1000)), _tls.rank, sorted(params)])
        count["gen"] += 1
        if crash.get("gen") == count["gen"]:
            os._exit(9)
        return job["make"](params, extra)
    h = types.ModuleType("_vp_hook")
    h.call = call
    sys.modules["_vp_hook"] = h

    where = ("/postprocess/", "/pandas/io/", "/pyarrow/") if crash.get("io") else ("/postprocess/",)

    def tracer(frame, event, arg):
        fn = frame.f_code.co_filename
        if not any(x in fn for x in where):
            return None

        def local(frame, event, arg):
            if event == "line":
                count["line"] += 1
                if count["line"] == crash["line"]:
                    os._exit(9)
            return local
        return local

    def rank(r):
        _tls.rank = r
        S.go[r].acquire()
        try:
            for m in [m for m, v in sys.modules.items() if m.startswith(PKG) and uses_mpi(v)]:
                del sys.modules[m]
            mod = importlib.import_module(PKG + ".postprocess_cli")
            armed["on"] = True
            if "line" in crash:
                sys.settrace(tracer)
            mod.main()
            sys.settrace(None)
            emit(["exit", r, "ok"])
        except SystemExit as ex:
            sys.settrace(None)
            emit(["exit", r, "ok" if ex.code in (0, None) else f"exit {ex.code}"])
        except BaseException as ex:
            sys.settrace(None)
            import traceback
            # the interpreter of this rank waits in MPI_Finalize for the others
            emit(["exit", r, repr(ex) + traceback.format_exc()[-800:]])
        S.state[r] = "done"
        S.back.release()
    ts = [threading.Thread(target=rank, args=(r,), daemon=True) for r in range(job["P"])]
    for t in ts:
        t.start()
    end = S.loop()
    emit(["lines", count["line"], count["gen"], S.ops, count["audit"]])
    emit([end])
    os._exit(0)


def fork(fn, timeout=90):
    """fn(fd) in a forked child; bytes it wrote, and wait status"""
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            fn(wr)
        except BaseException:
            import traceback
            try:
                os.write(wr, (json.dumps(["harness", traceback.format_exc()[-1500:]]) + "\n").encode())
            except BaseException:
                pass
        os._exit(7)
    os.close(wr)
    buf = b""
    t0 = time.time()
    while True:
        if not select.select([rd], [], [], 1.0)[0]:
            if time.time() - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
            continue
        b = os.read(rd, 65536)
        if not b:
            break
        buf += b
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    return buf, st


def run(job):
    buf, st = fork(lambda fd: _child(job, fd))
    ev = [json.loads(x) for x in buf.decode().splitlines()]
    h = [e for e in ev if e[0] == "harness"]
    if h:
        raise RuntimeError("harness: " + h[0][1])
    end = ev[-1][0] if ev else ""
    r = dict(evals=[e[1] for e in ev if e[0] == "eval"], params=[e[3] for e in ev if e[0] == "eval"],
             exits={e[1]: e[2] for e in ev if e[0] == "exit"}, counts=next((e[1:] for e in ev if e[0] == "lines"), None))
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGALRM, signal.SIGKILL):
        r["end"] = "hang"
    elif os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 9:
        r["end"] = "killed"
    elif any(e[0] == "abort" for e in ev):
        r["end"] = "failed"
    else:
        r["end"] = end if end in ("end", "deadlock") else "hang"
        if end == "end" and any(v != "ok" for v in r["exits"].values()):
            r["end"] = "failed"
    return r


def inspect(out, fmt):
    """state of the files, read in a process of its own"""
    def go(fd):
        os.dup2(os.open("/dev/null", os.O_WRONLY), 2)
        import pandas as pd

        def table(fn, f):
            if not os.path.exists(fn):
                return dict(state="none", rows=[])
            try:
                if f == "csv":
                    d = pd.read_csv(fn, float_precision="round_trip")
                elif f == "json":
                    d = pd.read_json(fn, precise_float=True)
                else:
                    d = pd.read_parquet(fn)
                rows = d.to_dict("records")
            except BaseException as ex:
                if isinstance(ex, pd.errors.EmptyDataError) and os.path.getsize(fn) == 0:
                    return dict(state="partial", rows=[])
                return dict(state="partial", rows=[], why=repr(ex)[:200])
            ok = []
            for r in rows:
                ok.append({str(k): (None if v is None or v != v else v if isinstance(v, (str, int)) else float(v)) for k, v in r.items()})
            return dict(state="complete", rows=ok, columns=[str(c) for c in d.columns], size=os.path.getsize(fn))
        x = dict(ckpt=table(f"{out}/checkpoint.parquet", "parquet"), out=table(f"{out}/eccentricity_results.{fmt}", fmt))
        os.write(fd, json.dumps(x).encode())
        os._exit(0)
    buf, st = fork(go)
    x = json.loads(buf.decode())
    if isinstance(x, list):
        raise RuntimeError(str(x))
    return x
