"""Exhaustive enumeration of finite case spaces whose step is a run of a real program (mps, generators, scripts).

A part supplies  cases(tier) -> list of JSON-able cases  and  run(case, dir, env) -> Obs.  Every case is run in a
fresh scratch directory, by a pool of forked workers; a failing case is run twice more before it is reported."""
import errno
import hashlib
import json
import multiprocessing as mp
import os
import selectors
import shutil
import signal
import struct
import subprocess
import tempfile
import time
import traceback
from pathlib import Path

NOBODY = 65534
FLOOD = 30000000  # a program that prints more than this is stopped and counts as one that does not end
CAN_DROP = os.geteuid() == 0


class Violation(Exception):
    pass


class Obs:
    def __init__(self):
        self.states, self.outcomes, self.transitions, self.nontrivial, self.tags, self.lines = set(), set(), 0, False, {}, []

    def state(self, *a):
        self.states.add(h(a))

    def outcome(self, *a):
        self.outcomes.add(h(a))

    def step(self, n=1):
        self.transitions += n

    def tag(self, t, n=1):
        self.tags[t] = self.tags.get(t, 0) + n

    def note(self, s):
        self.lines.append(str(s)[:600])

    def check(self, ok, msg):
        if not ok:
            raise Violation(msg)


def h(x):
    return hashlib.sha256(repr(x).encode("utf-8", "surrogateescape")).hexdigest()[:20]


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 400e6 else None
    d = tempfile.mkdtemp(prefix="mpsmc-", dir=base)
    os.chmod(d, 0o755)
    return Path(d)


def give(path, user=None):
    """Hand a scratch tree to the unprivileged user the programs run as."""
    if not CAN_DROP:
        return
    u = user or NOBODY
    os.chown(path, u, u)
    for root, ds, fs in os.walk(path):
        for n in ds + fs:
            os.chown(os.path.join(root, n), u, u, follow_symlinks=False)


class Run:
    def __init__(self, code, out, err, timeout=False):
        self.code, self.out, self.err, self.timeout = code, out, err, timeout


def run(argv, cwd, stdin=b"", env=None, timeout=60, user=None):
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": str(cwd), "LC_ALL": "C"}
    e.update(env or {})
    kw = {}
    if CAN_DROP:
        kw = dict(user=user or NOBODY, group=user or NOBODY, extra_groups=[])
    p = subprocess.Popen([str(a) for a in argv], cwd=str(cwd), stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True, **kw)
    bufs, timed = {p.stdout: bytearray(), p.stderr: bytearray()}, False
    end = time.monotonic() + timeout
    sel = selectors.DefaultSelector()
    for k in bufs:
        os.set_blocking(k.fileno(), False)
        sel.register(k, selectors.EVENT_READ)
    if stdin is not None:
        os.set_blocking(p.stdin.fileno(), False)
        sel.register(p.stdin, selectors.EVENT_WRITE)
    left = stdin or b""
    try:
        while sel.get_map():
            ready = sel.select(max(0, end - time.monotonic()))
            if not ready and time.monotonic() >= end or any(len(v) > FLOOD for v in bufs.values()):
                timed = True
                break
            for k, _ in ready:
                k = k.fileobj
                if k is p.stdin:
                    try:
                        left = left[os.write(k.fileno(), left):] if left else left
                    except BrokenPipeError:
                        left = b""
                    if not left:
                        sel.unregister(k)
                        k.close()
                    continue
                data = os.read(k.fileno(), 1 << 16)
                if data:
                    bufs[k] += data
                else:
                    sel.unregister(k)
        if not timed:
            try:
                p.wait(max(0.1, end - time.monotonic()))
            except subprocess.TimeoutExpired:
                timed = True
    finally:
        try:  # nothing of the case may outlive it
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        sel.close()
        for k in (p.stdin, p.stdout, p.stderr):
            if k and not k.closed:
                k.close()
    return Run(None if timed else p.returncode, bytes(bufs[p.stdout]), bytes(bufs[p.stderr]), timed)


_part = _env = _root = None


def _one(case):
    d = Path(tempfile.mkdtemp(prefix="c", dir=_root))
    os.chmod(d, 0o755)
    give(d)
    obs = Obs()
    res = {"case": case, "end": "ok", "msg": ""}
    try:
        _part.run(case, d, _env, obs)
    except Violation as v:
        res.update(end="violation", msg=str(v))
    except (OSError, ValueError, LookupError, struct.error) as e:
        # what the program left behind cannot be examined: a file is missing, is of another kind or is not readable as what it should be
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN):
            res.update(end="error", msg=traceback.format_exc()[-1500:])
        else:
            at = traceback.extract_tb(e.__traceback__)
            res.update(end="violation", msg="the result cannot be examined: %s: %s (%s)" % (type(e).__name__, str(e).replace(str(d), "."), [x.line for x in at if "explore" not in x.filename][:1]))
    except Exception:
        res.update(end="error", msg=traceback.format_exc()[-1500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res.update(states=list(obs.states), outcomes=list(obs.outcomes), transitions=obs.transitions, nontrivial=obs.nontrivial, tags=obs.tags, desc="\n".join(obs.lines))
    return res


def explore(part, env, tier, deadline, workers=8):
    global _part, _env, _root
    t0 = time.time()
    root = scratch_root()
    _part, _env, _root = part, env, root
    tot = {"executions": 0, "nontrivial": 0, "transitions": 0, "pruned": 0, "inconclusive": 0, "tags": {}, "samples": [], "capped": False, "violations": 0,
           "message": "", "saturated": 0}
    states, outs = set(), set()
    bad = None
    try:
        part.env = env
        cases = list(part.cases(tier))
        tot["space"] = len(cases)
        chunk = max(1, min(16, len(cases) // (workers * 8)))
        with mp.get_context("fork").Pool(workers) as pool:
            for r in pool.imap(_one, cases, chunksize=chunk):
                tot["executions"] += 1
                tot["nontrivial"] += bool(r["nontrivial"])
                tot["transitions"] += r["transitions"]
                states.update(r["states"])
                outs.update(r["outcomes"])
                for k, v in r["tags"].items():
                    tot["tags"][k] = tot["tags"].get(k, 0) + v
                if r["nontrivial"] and (len(tot["samples"]) < 2 or (len(tot["samples"]) < 4 and tot["executions"] % 97 == 0)):
                    tot["samples"].append({"case": json.dumps(r["case"])[:1500], "observed": r["desc"][:1500]})
                if r["end"] != "ok":
                    bad = r
                    pool.terminate()
                    break
                if time.time() - t0 > deadline:
                    tot["capped"] = True
                    pool.terminate()
                    break
        if bad:
            again = [_one(bad["case"]) for _ in range(2)]
            if any(a["end"] != bad["end"] for a in again):
                # a single disturbed run (for example a time-out on an overloaded machine) is not evidence
                if all(a["end"] == "ok" for a in again):
                    raise RuntimeError("a case failed once and passed twice: %s: %s" % (json.dumps(bad["case"])[:500], bad["msg"]))
                raise RuntimeError("a case does not replay: %s: %s / %s" % (json.dumps(bad["case"])[:500], bad["msg"], [a["msg"] for a in again]))
            if bad["end"] == "error":
                raise RuntimeError("harness error in %s:\n%s" % (json.dumps(bad["case"])[:800], bad["msg"]))
            tot.update(violations=1, message=again[1]["msg"], bad=bad["case"], desc=again[1]["desc"])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    tot.update(states=len(states), outcomes=len(outs), wall=time.time() - t0)
    return tot


def replay(part, env, case):
    global _part, _env, _root
    root = scratch_root()
    _part, _env, _root = part, env, root
    part.env = env
    try:
        if hasattr(part, 'need_cases'):
            part.cases('thorough')
        return _one(case)
    finally:
        shutil.rmtree(root, ignore_errors=True)
