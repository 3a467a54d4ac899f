"""Shared machinery of the checks: environment, process pool, TLC, the judge,
verdicts, evidence."""
import atexit
import contextlib
import hashlib
import io
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
warnings.filterwarnings("ignore", message=".*multi-threaded.*fork.*")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = 8

_scratch = None
_owner = os.getpid()


def _cleanup():
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


atexit.register(_cleanup)


def scratch(*p):
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vchk_", dir=os.environ.get("TMPDIR", "/tmp"))
    d = os.path.join(_scratch, *p)
    os.makedirs(d, exist_ok=True)
    return d


def pick(quick, thorough):
    return thorough if THOROUGH else quick


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- verdicts
def load_known():
    """known_findings.txt: lines 'finding: property=<id> key=<key> <text>'
    (suppress exactly that key) and 'fixed: ...' (suppress nothing)."""
    out = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.viol = []
        self.known = load_known()
        self.known_hit = {}

    def tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, x, limit=6):
        if x is not None and len(self.samples) < limit:
            self.samples.append(x)

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and k in self.cov:
                self.cov[k] += v
            else:
                self.cov[k] = v

    def violation(self, key, what, replay=None):
        """key identifies the failing input/history (for known findings)."""
        if (self.pid, key) in self.known:
            self.known_hit[key] = self.known[(self.pid, key)]
            return
        self.viol.append(dict(key=key, what=what, replay=replay))

    def not_recorded(self):
        """results of a shape that no conforming run has (an empty analysed
        part, lists of different lengths, ...)"""
        for tb, item in malformed:
            self.violation("malformed:" + item[:150], "the result cannot be recorded: " + tb[-700:], dict(item=item, error=tb))
        malformed.clear()

    def finish(self):
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(no sample recorded)"])
        cov.update(self.cov)
        ev = dict(property=self.pid, tier="thorough" if THOROUGH else "quick",
                  seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viol))
        tmp = os.path.join(EVID, f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=jdefault)
        os.replace(tmp, os.path.join(EVID, f"{self.pid}.json"))
        for k, v in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {v}")
        if self.viol:
            rp = os.path.join(EVID, "replays", f"{self.pid}.json")
            with open(rp, "w") as f:
                json.dump(self.viol[:50], f, indent=1, default=jdefault)
            for v in self.viol[:8]:
                print(f"  {v['key']}: {v['what']}"[:1500])
            print(f"{len(self.viol)} violation(s)")
            print(f"VIOLATION property={self.pid} replay={rp}")
            sys.stdout.flush()
            code = 1
        else:
            print(f"OK property={self.pid} states={self.states} "
                  f"traces={self.traces} wall={ev['wall_s']}s")
            code = 0
        sys.stdout.flush()
        _cleanup()
        os._exit(code)


def main(fn, pid, level="model_checking"):
    c = Check(pid, level)
    scratch()
    try:
        fn(c)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        c.not_recorded()
        if c.viol:
            c.finish()
        _cleanup()
        os._exit(2)
    c.not_recorded()
    c.finish()


def jdefault(o):
    try:
        import numpy as np
        if isinstance(o, np.generic):
            return o.item()
        if isinstance(o, np.ndarray):
            return o.tolist()
    except Exception:
        pass
    return repr(o)


# ---------------------------------------------------------------- encoding
BASE = 10000


def fx(x, digits=15):
    """real -> exact fixed-point signed bignum <<sign, limbs>> at 10^-digits
    (sign 0/1/-1, little-endian limbs base 10^4)."""
    if isinstance(x, Fraction):
        f = x
    else:
        f = Fraction(float(x))
    n = round(f * 10 ** digits)
    return big(n)


def big(n):
    s = (n > 0) - (n < 0)
    n = abs(n)
    limbs = []
    while n:
        limbs.append(n % BASE)
        n //= BASE
    return {"s": s, "m": limbs}


def dense_ranks(values):
    """order- and equality-preserving map of floats to small integers"""
    u = sorted(set(float(v) for v in values))
    m = {v: i for i, v in enumerate(u)}
    return lambda v: m[float(v)]


class Ids:
    """equality-preserving small integers for arbitrary hashables/arrays"""

    def __init__(self):
        self.m = {}

    def __call__(self, x):
        h = digest(x)
        return self.m.setdefault(h, len(self.m) + 1)


def digest(x):
    h = hashlib.sha256()
    _feed(h, x)
    return h.hexdigest()


def _feed(h, x):
    import numpy as np
    if isinstance(x, np.ndarray):
        h.update(b"A" + str(x.dtype).encode() + str(x.shape).encode())
        if x.dtype == object:
            for y in x.ravel().tolist():
                _feed(h, y)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, np.generic):
        h.update(b"G" + str(x.dtype).encode() + x.tobytes())
    elif isinstance(x, dict):
        h.update(b"D")
        for k in x:          # insertion order is part of the object
            _feed(h, k)
            _feed(h, x[k])
        h.update(b"d")
    elif isinstance(x, (list, tuple)):
        h.update(b"L" if isinstance(x, list) else b"T")
        for y in x:
            _feed(h, y)
        h.update(b"l")
    elif isinstance(x, (set, frozenset)):
        h.update(b"S")
        for y in sorted(map(digest, x)):
            h.update(y.encode())
    else:
        h.update(b"R" + type(x).__name__.encode() + repr(x).encode())


# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states", out)
        if m:
            self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1])
        else:
            self.generated = self.distinct = 0
        self.ok = "Model checking completed. No error has been found" in out or \
            ("Progress" in out and rc == 0)


def tlc(module, cfg=None, env=None, workers=1, timeout=300, heap="3g", extra=(),
        expect_ok=True, defs=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg in a scratch copy.
    defs: extra text appended to the cfg (CONSTANT lines)."""
    wd = tempfile.mkdtemp(prefix="tlc_", dir=scratch("tlc"))
    cfgname = (cfg or module) + ".cfg"
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f == cfgname:
            shutil.copy(os.path.join(SPEC, f), wd)
    if defs:
        with open(os.path.join(wd, cfgname), "a") as f:
            f.write("\n" + defs + "\n")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={wd}", "-cp", CP,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(wd, "meta"),
           "-config", cfgname, "-noGenerateSpecTE", *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out on {module}") from ex
    r = TLCResult(p.returncode, p.stdout)
    shutil.rmtree(wd, ignore_errors=True)
    if expect_ok and not r.ok:
        raise MachineryError(f"TLC failed on {module}/{cfgname}:\n" + p.stdout[-6000:])
    return r


def tlc_emit(module, cfg=None, env=None, **kw):
    """TLC run whose spec prints JSON lines  "@@" \\o ToJson(x)  -> list"""
    r = tlc(module, cfg, env=env, **kw)
    out = []
    for line in r.out.splitlines():
        if line.startswith('"@@'):
            s = json.loads(line)          # TLC prints the string quoted
            out.append(json.loads(s[2:]))
        elif line.startswith("@@"):
            out.append(json.loads(line[2:]))
    seen, u = set(), []
    for x in out:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            u.append(x)
    u.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return r, u


def nonull(x):
    """TLC's JSON reader has no null"""
    if isinstance(x, dict):
        return {k: nonull(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [nonull(v) for v in x]
    return "none" if x is None else x


# TLC breaks values longer than a line, with a space after the brackets
_CLEAN = re.compile(r'^<<\s*"BAD",\s*(\d+),\s*(.*)>>$')


def judge(check, module, records, cfg=None, workers=8, controls=(), timeout=600,
          key=None, what=None, env=None, count=True):
    """Let TLC evaluate <module>!Failed on every record (spec/Judge.tla).

    records: list of JSON-able dicts.  controls: list of (record, clause) that
    the specification must reject, naming clause (binding self-test); a record
    may be given as a callable, for records derived from those recorded.
    Returns {index: [clauses]} for failing records and registers violations
    through key/what callables (index, clauses) if given."""
    missed, ctl = [], []
    for r, clause in controls:
        try:
            ctl.append((r() if callable(r) else r, clause))
        except (StopIteration, IndexError, KeyError) as ex:
            missed.append(f"{module}: no record to derive the control for {clause} from ({ex!r})")
    controls = ctl
    recs = [nonull(r) for r in records] + [nonull(r) for r, _ in controls]
    fn = os.path.join(scratch("rec"), f"{module}_{len(os.listdir(scratch('rec')))}.json")
    with open(fn, "w") as f:
        json.dump(recs, f, default=jdefault)
    if not recs:
        raise MachineryError("no records to judge")
    e = {"RECORDS": fn}
    e.update(env or {})
    log("judge", module, len(recs))
    r = tlc(module, cfg, env=e, workers=workers, timeout=timeout, heap="6g")
    log("judged")
    bad = {}
    done = 0
    buf = ""
    for line in r.out.splitlines():
        if re.match(r'<<\s*"BAD"', line) or buf:
            buf += line.strip() + " "
            if buf.rstrip().endswith(">>"):
                m = _CLEAN.match(buf.strip())
                if not m:
                    raise MachineryError("cannot parse verdict " + buf)
                bad[int(m.group(1)) - 1] = re.findall(r'"([^"]*)"', m.group(2))
                buf = ""
        m = re.match(r'<<"DONE", (\d+), (\d+)>>', line)
        if m:
            done += int(m.group(2))
    if buf or len(bad) != len(re.findall(r'<<\s*"BAD"', r.out)):
        raise MachineryError("verdicts lost\n" + r.out[-3000:])
    if done != len(recs):
        raise MachineryError(f"judge covered {done} of {len(recs)} records\n" + r.out[-3000:])
    n = len(records)
    for j, (rec, clause) in enumerate(controls):
        got = bad.pop(n + j, [])
        if clause not in got:
            missed.append(f"{module}: corrupted control record {j} not rejected by {clause} ({got})")
    check.tlc(r)
    check.note(binding_controls_rejected=len(controls))
    if count:
        check.traces += n
    before = len(check.viol)
    for i in sorted(bad):
        k = key(i, bad[i]) if key else f"{module}:{i}:{','.join(sorted(bad[i]))}"
        w = what(i, bad[i]) if what else f"record {i} violates {sorted(bad[i])}"
        check.violation(k, w, records[i])
    # controls derive from recorded runs: meaningless if those are in violation
    if missed and len(check.viol) == before:
        raise MachineryError("; ".join(missed))
    return bad


# ---------------------------------------------------------------- running code
class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


_late = 0


def guarded(fn, timeout=30):
    """Run fn; return dict(ok, value|etype,msg, warns, printed)."""
    global _late
    if _late >= 2:      # code that hangs must not keep the check from ending
        timeout = min(timeout, 4 if _late < 6 else 1)
    out = dict(ok=False, etype=None, msg=None, warns=[], printed="")
    buf = io.StringIO()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                try:
                    out["value"] = fn()
                    out["ok"] = True
                except CaseTimeout:
                    out["etype"], out["msg"] = "TIMEOUT", f"no answer in {timeout} s"
                except SystemExit as ex:
                    out["etype"], out["msg"] = "SystemExit", str(ex.code)
                except Exception as ex:
                    out["etype"], out["msg"] = type(ex).__name__, str(ex)
                    out["tb"] = traceback.format_exc()[-1500:]
                signal.setitimer(signal.ITIMER_REAL, 0)
        out["warns"] = [(x.category.__name__, str(x.message)) for x in w]
        out["printed"] = buf.getvalue()
    except CaseTimeout:
        out["ok"] = False
        out["etype"], out["msg"] = "TIMEOUT", "late"
    finally:
        _late += out["etype"] == "TIMEOUT"
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return out


def log(*a):
    if os.environ.get("VERIF_LOG"):
        print(f"[{time.time() - _T0:7.2f}]", *a, flush=True)


_T0 = time.time()


def pmap(fn, items, procs=NCPU, died=None):
    log("pmap", len(items))
    try:
        return _pmap(fn, items, procs)
    finally:
        log("pmap done")


malformed = []       # observations that could not be recorded


def _pmap(fn, items, procs=NCPU):
    """fn over items in forked processes; a child that dies yields
    {"died": status} for the item it was working on."""
    items = list(items)
    if not items:
        return []
    procs = min(procs, len(items))
    res = [None] * len(items)
    todo = [list(range(k, len(items), procs)) for k in range(procs)]
    d = tempfile.mkdtemp(prefix="pm_", dir=scratch("pm"))
    running = {}

    def spawn(k):
        fn_out = os.path.join(d, f"{k}_{time.monotonic_ns()}")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                with open(fn_out, "ab") as f:
                    for i in todo[k]:
                        try:
                            v = fn(items[i])
                        except MachineryError as ex:
                            v = ("__machinery__", str(ex) + traceback.format_exc())
                        except (IndexError, ValueError, ZeroDivisionError, FloatingPointError, TypeError) as ex:
                            # what the code returned cannot even be recorded
                            v = ("__malformed__", repr(ex) + traceback.format_exc(), repr(items[i])[:300])
                        except Exception as ex:
                            v = ("__machinery__", repr(ex) + traceback.format_exc())
                        pickle.dump((i, v), f)
                        f.flush()
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        running[pid] = (k, fn_out)

    for k in range(procs):
        spawn(k)
    while running:
        pid, st = os.wait()
        if pid not in running:
            continue
        k, fn_out = running.pop(pid)
        seen = []
        if os.path.exists(fn_out):
            with open(fn_out, "rb") as f:
                while True:
                    try:
                        i, v = pickle.load(f)
                    except (EOFError, pickle.UnpicklingError):
                        break
                    seen.append(i)
                    res[i] = v
        rest = [i for i in todo[k] if i not in set(seen)]
        if rest and st != 0:
            res[rest[0]] = {"died": st}
            todo[k] = rest[1:]
            if todo[k]:
                spawn(k)
    shutil.rmtree(d, ignore_errors=True)
    for v in res:
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "__machinery__":
            raise MachineryError(v[1])
    for i, v in enumerate(res):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "__malformed__":
            malformed.append(v[1:])
            res[i] = None
    if malformed and len(malformed) >= len(items):
        raise MachineryError(malformed[0][0])
    return res


def import_gwecc():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import gw_eccentricity
        p = os.path.realpath(gw_eccentricity.__file__)
        if not p.startswith(os.path.realpath(REPO) + os.sep):
            raise MachineryError(f"gw_eccentricity imported from {p}")
        import matplotlib
        matplotlib.use("Agg")
    return gw_eccentricity
