"""Properties observed on the command line program as a whole."""
import hashlib
import itertools
import json
import os
import re
import shutil
from pathlib import Path

import files as F
import yaml_lite
from explore import Violation, give, run


def tree(d):
    """every path below d with its kind and content"""
    r = {}
    for root, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(root, n)
            k = os.path.relpath(p, d)
            if os.path.islink(p):
                r[k] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                r[k] = ("d",)
            else:
                with open(p, "rb") as f:
                    r[k] = ("f", hashlib.sha256(f.read()).hexdigest()[:20])
    return r


def outputs(out):
    """numbers of the outputs present in each format, and anything else found there"""
    res, other = {}, []
    for k in ("prof", "vtu", "csv"):
        d = Path(out) / k
        s = set()
        for f in (d.iterdir() if d.is_dir() else []):
            n = f.name
            if n.startswith("output_") and n.endswith("." + k) and n[7:-len(k) - 1].isdigit():
                s.add(n[7:-len(k) - 1])
            else:
                other.append(str(f))
        res[k] = s
    return res, other


def encodings(out):
    """how the data of each VTK output is stored"""
    r = set()
    for f in sorted((Path(out) / "vtu").glob("output_*.vtu")):
        b = f.read_bytes()
        r.add("binary" if b"<AppendedData" in b else "text")
        fm = set(re.findall(rb'<DataArray[^>]*format="(\w+)"', b.split(b"<AppendedData")[0]))
        r |= {"binary" if k == b"appended" else "text" for k in fm - {b"ascii"}}
        if fm == {b"ascii"}:
            r.add("text")
    return r


def visible(r):
    """a message a user can see"""
    return len(r.err.strip()) > 0


class Cadence:
    """C17: every output of a run, its time and its state, against the documented schedule."""

    def prepare(self, b):
        return {"mps": b.mps()}

    def cases(self, tier):
        c = []
        dts = [0.125, 0.25, 0.1, 0.03125, 0.3]
        periods = [0.0625, 0.125, 0.25, 0.375, 0.1, 0.3, 0.7, 5.0]
        starts = [0.0, 0.5, 0.1, 2.0, 3.7, -1.25]
        ends = [0.0, 0.5, 1.0, 1.3, 0.9, 2.0]
        for dt, per, st, en in itertools.product(dts, periods, starts, ends):
            fmt = ("csv", "prof", "vtu")[len(c) % 3]
            c.append({"dt": dt, "period": per, "start": st, "end": en, "fmt": fmt, "bin": (len(c) // 3) % 2})
        for fmt, b, st in itertools.product(("csv", "prof", "vtu"), (0, 1), starts):  # formats fully crossed on one schedule
            c.append({"dt": 0.125, "period": 0.25, "start": st, "end": st + 1.0, "fmt": fmt, "bin": b})
        if tier == "thorough":
            for dt, per, st, en in itertools.product([0.2, 0.5, 0.07, 0.0625, 1.0], [0.05, 0.2, 0.5, 0.21, 0.33, 1.0, 2.5], [0, 1.0, 0.3, 7.7, -1.0], [1.0, 2.6, 0.35, 3.0]):
                c.append({"dt": dt, "period": per, "start": st, "end": en, "fmt": ("csv", "prof", "vtu")[len(c) % 3], "bin": (len(c) // 3) % 2})
        for dt, per, st in itertools.product((0.125 - 2.0 ** -13, 0.125 - 2.0 ** -22, 0.125 + 2.0 ** -22, 0.125), (0.5, 0.5 - 2.0 ** -21, 0.25), (0.0, 2.0, -1.25)):  # just before, just after
            c.append({"dt": dt, "period": per, "start": st, "end": st + 2.0, "fmt": ("csv", "prof", "vtu")[len(c) % 3], "bin": 0})
        for e, sign, per, st in itertools.product((32, 40), (-1, 1), (0.5, 0.25), (0.0, 2.0, -1.25)):
            c.append({"dt": 0.125 + sign * 2.0 ** -e, "period": per, "start": st, "end": st + 2.0, "fmt": ("csv", "prof", "vtu")[len(c) % 3], "bin": 0})
        for k in (-36, -30, -20, -12, 12, 20):  # other units of time
            u = 2.0 ** k
            for dt, per, st, en in itertools.product((0.125, 0.25), (0.0625, 0.25, 0.375, 1.0), (0.0, 0.5, -1.25), (0.0, 1.0, 2.0)):
                c.append({"dt": dt * u, "period": per * u, "start": st * u, "end": en * u, "fmt": ("csv", "prof", "vtu")[len(c) % 3], "bin": (len(c) // 3) % 2, "unit": k})
        for dt in (0.7, 0.02, 0.1, 0.3, 0.05, 0.001, 0.0007):  # an output at every step, with numbers that are no binary fractions
            for m in (0.5, 3.5):
                c.append({"dt": dt, "period": dt, "start": 0.0, "end": m * dt, "fmt": "csv", "bin": 0})
        c.append({"dt": 0.0009765625, "period": 0.0009765625, "start": 0.0, "end": 9.8, "fmt": "csv", "bin": 0, "many": 1})  # more than 9999 outputs
        if tier == "thorough":
            c.append({"dt": 0.0009765625, "period": 0.0009765625, "start": 0.0, "end": 33.0, "fmt": "csv", "bin": 0, "many": 1})  # more than 32767 outputs
        return c

    G = -0.25

    def run(self, c, d, env, obs):
        ps = [[1, 0.0, 1.0, 0.0, 0.25, -0.5, 0.0], [3, 9.0, 3.0, 0.0, 0.0, 0.0, 0.0], [1, -9.0, 4.0, 0.0, -0.125, 0.75, 0.0]]
        if c.get("many"):
            ps = ps[:1]
        G = self.G
        if c.get("unit", 0) > 0:  # long times: nothing may leave
            G *= 4.0 ** -c["unit"]
            for p in ps:
                p[4:] = [v * 2.0 ** -c["unit"] for v in p[4:]]
        (d / ("in." + c["fmt"])).write_text(F.WRITERS[c["fmt"]](ps, c["start"]))
        (d / "s.yml").write_text(F.settings(dt=c["dt"], outputPeriod=c["period"], endTime=c["end"], particlesPath="in." + c["fmt"], outputVtkInBinary="true" if c["bin"] else "false",
                                            gravity="[0, %r, 0]" % G))
        (d / "out").mkdir()
        give(d)
        r = run([env["mps"], "-s", "s.yml", "-o", "out"], d, timeout=400 if c.get("many") else 120)
        obs.note("settings %s" % json.dumps(c))
        obs.check(r.code == 0, "the run failed with status %s: %s" % (r.code, r.err[-300:]))
        got, other = outputs(d / "out")
        obs.check(not other, "unexpected files %s" % other[:3])
        obs.check(got["prof"] == got["csv"] == got["vtu"], "outputs are not the same in all formats: %s" % {k: sorted(v)[:20] for k, v in got.items()})
        obs.check(encodings(d / "out") in ({"binary"}, {"binary", "text"}) if c["bin"] else encodings(d / "out") == {"text"}, "VTK outputs are %s, outputVtkInBinary is %s" % (sorted(encodings(d / "out")), bool(c["bin"])))
        n = len(got["prof"])
        obs.check(got["prof"] == {"%04d" % i for i in range(n)}, "outputs are not numbered consecutively from 0000: %s" % sorted(got["prof"])[:20])
        obs.note("%d outputs" % n)
        # the schedule; where a comparison is within rounding both answers are accepted
        dt, per, st, en = c["dt"], c["period"], c["start"], c["end"]
        exact = all(v * 2 ** 45 == int(v * 2 ** 45) for v in (dt, per, st, en))
        eps = 0 if exact else 1e-11
        # state after each step, in free flight
        cur = [list(p) for p in ps]

        def check(k, t, where):
            fs = [("prof", F.read_any(d / "out/prof" / ("output_%04d.prof" % k))), ("csv", F.read_any(d / "out/csv" / ("output_%04d.csv" % k))),
                  ("vtu", F.read_any(d / "out/vtu" / ("output_%04d.vtu" % k)))]
            for name, (ft, fps) in fs:
                obs.check(F.near(ft, t, 6e-6, 1e-9 * min(1.0, dt)), "output %d (%s) states the time %r, it is that of %s: %r" % (k, name, ft, where, t))
                obs.check(len(fps) == len(cur), "output %d (%s) has %d particles" % (k, name, len(fps)))
                for i, (a, b) in enumerate(zip(fps, cur)):
                    obs.check(a[0] == b[0] and all(F.near(u, v, 6e-6, 1e-9) for u, v in zip(a[1:], b[1:])), "output %d (%s), %s, t=%r: particle %d is %s, expected %s" % (k, name, where, t, i, a, b))

        def filetime(k):
            return F.read_any(d / "out/prof" / ("output_%04d.prof" % k))[0]
        obs.check(n >= 1, "output 0 is missing")
        check(0, st, "the start")
        k, step, t = 1, 0, st
        while True:
            if abs(t - en) <= eps and eps:  # may stop here or make one more step
                nxt = t + dt
                if not (k < n and F.near(filetime(k), nxt, 6e-6, 1e-9)) and k == n:
                    # no further output: fine if stopping, or if the next step writes none
                    break
            elif t >= en:
                break
            step += 1
            t = t + dt
            obs.step()
            for p in cur:
                if p[0] == 1:
                    p[5] += G * dt
                    for a in range(3):
                        p[1 + a] += p[4 + a] * dt
            due = (t - st) - per * k
            if step == 1 and st == 0 and dt == per:
                write = True  # nothing has been rounded yet
            elif abs(due) <= eps * (1 + abs(t)) and eps:
                write = k < n and F.near(filetime(k), t, 6e-6, 1e-9)
            else:
                write = due >= 0
            if write:
                obs.check(k < n, "after step %d (t=%r) output %d is due and missing" % (step, t, k))
                check(k, t, "step %d" % step)
                k += 1
            obs.check(step < 50000, "schedule does not end")
        obs.check(k == n, "%d outputs were written, %d were due; the next has time %r" % (n, k, filetime(k) if k < n else None))
        obs.state(c["dt"], c["period"], c["start"], c["end"], n)
        obs.outcome(n, step)
        obs.nontrivial = True


class Report:
    """C29: what a run says on standard output and standard error, under a clock that advances by a fixed amount per reading."""
    LINE = re.compile(r"^(\d+): dt=(\S+)s   t=(\S+)s   fin=(\S+)s   elapsed=(-?\d+)h (-?\d+)m (-?\d+)s   remain=(-?\d+)h (-?\d+)m (-?\d+)s   ave=(\S+)s/step   last=(\S+)s/step   out=(\d+)files   Courant=(\S+)$")

    def prepare(self, b):
        return {"mps": b.mps(), "clock": b.shim("stepclock")}

    def cases(self, tier):
        c = []
        clocks = [0, 0.25, 0.0625, 1, 7, 29.5, 30, 59, 60, 61.25, 1799.5, 1800, 3599, 3600, 3661, 7325.5, 86400, 100000, 362439]
        if tier == "thorough":
            clocks += [0.001, 0.03125, 14.75, 29, 30.5, 119, 120, 121, 600, 1199, 5400, 43200, 1e6]
        scheds = [(0.125, 0.25, 0.0, 1.0), (0.25, 0.25, 0.0, 0.5), (0.125, 0.5, 2.0, 3.3), (0.1, 0.3, 0.0, 1.0), (0.5, 0.1, 0.5, 3.0), (0.25, 10.0, -1.0, 0.7), (0.0625, 0.0625, 0.0, 1.5), (0.125, 0.25, 1.0, 1.0),
                  (1e-4, 5e-4, 0.0, 0.004), (1e-4, 5e-4, 7.25, 7.2535), (2.0, 4.0, 0.0, 31.0)]
        speeds = [0.0, 1.0, -3.0, 4.0, 40.0]
        for (dt, per, st, en), k, v in itertools.product(scheds, clocks, speeds):
            c.append({"dt": dt, "period": per, "start": st, "end": en, "clock": k, "v": v, "method": "Explicit" if len(c) % 2 else "Implicit"})
        # long runs: the step number passes four and five digits
        c.append({"dt": 2.0 ** -10, "period": 4.0, "start": 0.0, "end": 34.0, "clock": 0, "v": 1.0, "method": "Explicit"})
        c.append({"dt": 2.0 ** -8, "period": 1.0, "start": 0.0, "end": 4.5, "clock": 0.25, "v": -1.0, "method": "Implicit"})
        if tier == "thorough":
            c.append({"dt": 2.0 ** -10, "period": 32.0, "start": 0.0, "end": 103.0, "clock": 0, "v": 1.0, "method": "Explicit"})
        return c

    def run(self, c, d, env, obs):
        dt, per, st, en, inc = c["dt"], c["period"], c["start"], c["end"], c["clock"]
        ps = [[1, 0.0, 1.0, 0.0, c["v"], 0.0, 0.0], [3, 9.0, 3.0, 0.0, 50.0, 0.0, 0.0], [1, -9.0, 4.0, 0.0, 0.0, 0.25, 0.0]]
        (d / "in.csv").write_text(F.csv(ps, st))
        (d / "s.yml").write_text(F.settings(dt=dt, outputPeriod=per, endTime=en, particlesPath="in.csv", gravity="[0, 0, 0]", cflCondition="0.9", pressureCalculationMethod=c["method"], domainMin="[-400, -40, 0]", domainMax="[400, 40, 0]"))
        (d / "out").mkdir()
        give(d)
        e = {"LD_PRELOAD": str(env["clock"]), "STEPCLOCK": repr(inc)} if inc else {}
        r = run([env["mps"], "-s", "s.yml", "-o", "out"], d, timeout=120, env=e)
        obs.note(json.dumps(c))
        obs.check(r.code == 0, "the run failed with status %s: %s" % (r.code, r.err[-300:]))
        text = r.out.decode("utf-8", "replace")
        L = text.split("\n")
        obs.check(any("START SIMULATION" in x for x in L) and any("END SIMULATION" in x for x in L[-4:]), "the start or the end of the run is not announced")
        rows = [m for m in (self.LINE.match(x) for x in L) if m]
        like = [x for x in L if re.match(r"^\d+:", x)]
        obs.check(len(like) == len(rows), "a step line is malformed: %s" % [x for x in like if not self.LINE.match(x)][:1])
        err = [x for x in r.err.decode("utf-8", "replace").split("\n") if x]
        # the steps the schedule has
        t, steps = st, []
        while t < en:
            t += dt
            steps.append(t)
        alt = bool(steps) and abs(steps[-1] - dt - en) < 1e-9  # the last one depends on rounding
        obs.check(len(rows) == len(steps) or (alt and len(rows) == len(steps) - 1), "%d step lines were printed for %d steps" % (len(rows), len(steps)))
        elines = [x for x in err if re.match(r"^ *\d+: t=", x)]
        obs.check(len(elines) == len(rows), "%d step lines on standard error for %d steps" % (len(elines), len(rows)))
        written, N = 1, (en - st) / dt
        vmax = max(abs(c["v"]), 0.25)
        gone = None
        x = 0.0
        before, exceed = -1, 0
        for i, m in enumerate(rows):
            k, t = i + 1, steps[i]
            x += c["v"] * dt
            if abs(x) > 400:
                gone = True
            who = "line of step %d: %r: " % (k, m.group(0))
            obs.check(int(m[1]) == k, who + "the step number is wrong")
            obs.check(abs(float(m[3]) - t) <= 0.00051, who + "the time is %r" % t)
            obs.check(abs(float(m[4]) - en) <= 0.051, who + "the end time is %r" % en)
            obs.check(int(m[13]) == written, who + "%d outputs have been written" % written)
            co = (0.25 if gone else vmax) * dt / 0.5
            exceed += co > 0.9
            obs.check(abs(float(m[14]) - co) <= 0.0051 + 1e-9 * co, who + "the Courant number is %r" % co)
            E = elines[i]
            q = re.match(r"^ *(\d+): t=(\S+)s$", E)
            obs.check(q and int(q[1]) == k and abs(float(q[2]) - t) <= 0.00051, "standard error says %r for step %d at %r" % (E, k, t))
            h1, m1, s1, h2, m2, s2 = (int(m[j]) for j in range(5, 11))
            obs.check(0 <= m1 < 60 and 0 <= s1 < 60 and h1 >= 0 and abs(m2) < 60 and abs(s2) < 60, who + "minutes or seconds out of range")
            el, rem = h1 * 3600 + m1 * 60 + s1, h2 * 3600 + m2 * 60 + s2
            obs.check(el >= before, who + "the elapsed time went back")
            before = el
            if inc:  # some whole number of readings explains all the times stated
                fits = []
                for n in range(k, 8 * k + 9):
                    e = n * inc
                    tot = e / k * N
                    if int(e) == el and abs(rem - (tot - e)) <= 1.01 + 1e-6 * abs(tot) and abs(float(m[11]) - e / k) <= 0.00051 + 1e-9 * e:
                        fits.append(n)
                obs.check(fits, who + "elapsed, average and remaining time do not fit each other for a clock advancing by %r s per reading" % inc)
                la = float(m[12])
                obs.check(la >= inc - 0.00051 and any(abs(la - n * inc) <= 0.00051 for n in range(1, 9)), who + "the time of the last step is no multiple of the clock's advance %r s" % inc)
            due = (t - st) - per * written
            if abs(due) <= 1e-9:
                nxt = int(rows[i + 1][13]) if i + 1 < len(rows) else None
                written += 1 if nxt == written + 1 or (nxt is None and len(outputs(d / "out")[0]["prof"]) > written) else 0
            elif due > 0:
                written += 1
            obs.step()
        got, _ = outputs(d / "out")
        obs.check(len(got["prof"]) == written, "%d outputs exist, %d were reported or due" % (len(got["prof"]), written))
        tot = [re.search(r"Total Simulation time = (-?\d+)h (-?\d+)m (-?\d+)s$", y) for y in L]
        tot = [y for y in tot if y]
        obs.check(len(tot) == 1, "the total time is stated %d times" % len(tot))
        T = int(tot[0][1]) * 3600 + int(tot[0][2]) * 60 + int(tot[0][3])
        obs.check(T >= max(before, 0) and int(tot[0][2]) < 60 and int(tot[0][3]) < 60, "the total time %r is less than the time elapsed before" % tot[0][0])
        if inc:
            obs.check(any(int(n * inc) == T for n in range(len(rows), 8 * len(rows) + 9)), "the total time %r is no whole number of readings of %r s" % (tot[0][0], inc))
        other = [y for y in err if y not in elines]
        obs.check(sum("Courant" in y for y in other) == exceed, "%d Courant number errors on standard error, %d steps exceed the limit" % (sum("Courant" in y for y in other), exceed))
        obs.check(all("Courant" in y or "out of domain" in y or re.match(r"^x = ", y) for y in other), "standard error has other lines: %s" % other[:2])
        obs.state(dt, per, st, en, inc, c["v"])
        obs.outcome(len(rows), before)
        obs.nontrivial = len(rows) > 0


class Restart:
    """C14: every output file of a run is used to restart it."""
    SETS = {
        "drop": ([[1, 0.0, 1.0, 0, 0.5, -1.0, 0], [1, 0.5, 1.0, 0, -0.25, -1.0, 0], [1, 0.25, 1.5, 0, 0, -2.0, 0], [2, 0, 0, 0, 0, 0, 0], [2, 0.5, 0, 0, 0, 0, 0], [3, 0, -0.5, 0, 0, 0, 0], [3, 0.5, -0.5, 0, 0, 0, 0]], {}),
        "block": ([[1, 0.5 * i, 0.5 * j, 0, 0.125 * i, -0.25 * j, 0] for i in range(4) for j in range(3)] + [[2, 0.5 * i, -0.5, 0, 0, 0, 0] for i in range(4)] + [[3, 0.5 * i, -1.0, 0, 0, 0, 0] for i in range(4)], {}),
        "leave": ([[1, 2.75, 0.5, 0, 3.0, 0, 0], [1, 2.25, 0.5, 0, 1.0, 0.5, 0], [1, 1.5, 0.5, 0, 0, 0, 0], [0, 2.5, 1.0, 0, 1.0, 0, 0], [2, 1.5, 0, 0, 0, 0, 0], [2, 2.0, 0, 0, 0, 0, 0]], {"domainMax": "[3, 4, 0]"}),
    }

    def prepare(self, b):
        return {"mps": b.mps()}

    def cases(self, tier):
        c = []
        steps = 6 if tier == "thorough" else 4
        for s, m, start in itertools.product(self.SETS, ("Implicit", "Explicit"), (0.0, 1.5)):
            for dt in (0.015625, 0.03125) if tier == "thorough" else (0.015625,):
                for fmt in ("prof", "csv", "vtu"):
                    for k in range(steps):
                        c.append({"set": s, "method": m, "start": start, "fmt": fmt, "k": k, "steps": steps, "dt": dt})
        return c

    def run(self, c, d, env, obs):
        ps, over = self.SETS[c["set"]]
        dt = c["dt"]
        base = dict(dt=dt, outputPeriod=0.9 * dt, endTime=c["start"] + (c["steps"] - 0.5) * dt, pressureCalculationMethod=c["method"], compressibility="1e-4", **over)
        (d / "in.csv").write_text(F.csv(ps, c["start"]))
        (d / "s.yml").write_text(F.settings(particlesPath="in.csv", **base))
        (d / "a").mkdir()
        (d / "b").mkdir()
        give(d)
        r = run([env["mps"], "-s", "s.yml", "-o", "a"], d)
        obs.check(r.code == 0, "the run failed: %s %s" % (r.code, r.err[-300:]))
        rest = "a/%s/output_%04d.%s" % (c["fmt"], c["k"], c["fmt"])
        obs.check((d / rest).exists(), "output %d is missing" % c["k"])
        (d / "r.yml").write_text(F.settings(particlesPath=rest, **base))
        r = run([env["mps"], "-s", "r.yml", "-o", "b"], d)
        obs.check(r.code == 0, "the restart from %s failed: %s %s" % (rest, r.code, r.err[-300:]))
        na, nb = len(outputs(d / "a")[0]["csv"]), len(outputs(d / "b")[0]["csv"])
        obs.check(na == c["steps"] + 1, "the run wrote %d outputs" % na)
        obs.check(nb == na - c["k"], "the restart from output %d of %d wrote %d outputs" % (c["k"], na, nb))
        move = 0
        for j in range(nb):
            ta, pa = F.read_vtu((d / "a/vtu" / ("output_%04d.vtu" % (j + c["k"]))).read_bytes())
            tb, pb = F.read_vtu((d / "b/vtu" / ("output_%04d.vtu" % j)).read_bytes())
            obs.check(F.near(ta, tb, 2e-5), "time %r after the restart, %r in the run" % (tb, ta))
            for i, (p, q) in enumerate(zip(pa, pb)):
                tol = 0 if j == 0 else TOL * 4 ** (j - 1)
                ok = p[0] == q[0] and all(abs(u - v) <= max(1e-5 * abs(u), tol) for u, v in zip(p[1:4], q[1:4])) and all(abs(u - v) <= max(1e-5 * abs(u), tol / dt) for u, v in zip(p[4:], q[4:]))
                obs.check(ok, "%d steps after the restart from %s particle %d is %s, in the run it was %s" % (j, rest, i, q, p))
                move = max(move, abs(p[2] - ps[i][2]))
            obs.state(c["set"], c["method"], j + c["k"], ta)
            obs.step()
        obs.outcome(c["set"], c["method"], c["k"])
        obs.nontrivial = nb > 1 and move > 0


TOL = 2e-6  # what six written digits become in one step, with margin; grows fourfold each step


class SettingsRefused:
    """C21: the whole program on incomplete settings."""

    def prepare(self, b):
        return {"mps": b.mps()}

    OPTIONAL = {"xyz-input", "gravity-norm", "gravity-angle", "outputVtkInBinary"}
    WRONG = {"surfaceDetection-particleDistribution": ["[1]", "2.5", "x y"], "pressureCalculationMethod": ["[Implicit]", "implicit", "Both", "''"], "particlesPath": ["[a]", "in.txt", "none.csv", "sub", "''"],
             "gravity": ["down", "[0, 1]", "[0, x, 0]", "[[0], 0, 0]"], "domainMin": ["0", "[0, 0]", "[0, y, 0]", "[0, 0, z]"], "domainMax": ["0", "[]", "[x, 0, 0]", "[0, 0, z]"], "xyz-input": ["perhaps", "[true]"],
             "outputVtkInBinary": ["perhaps", "3"], "dim": ["two", "2.5", "[2]", "''"], "numPhysicalCores": ["many", "[]"]}

    def cases(self, tier):
        c = [{"ok": 1}]
        for k in F.DEFAULTS:
            if k not in self.OPTIONAL:
                c.append({"drop": k})
            else:
                c.append({"drop": k, "ok": 1})
            for w in self.WRONG.get(k, ["word", "[1]", "''", "{a: 1}"]):
                c.append({"key": k, "val": w})
        for k in ("prof", "csv", "vtu"):
            c.append({"path": "in." + k, "ok": 1})
            c.append({"path": "none." + k})
            c.append({"path": "in." + k.upper()})
        for b in ("true", "false"):
            c.append({"key": "outputVtkInBinary", "val": b, "ok": 1})
        for t in ("", "nonsense", "dim: 2\n", "[1, 2]\n", "dim: [\n", "\t\n"):
            c.append({"text": t})
        out = []
        for x in c:  # from a directory of its own, from the settings' directory, from elsewhere
            for cwd in (".", "set", "other"):
                out.append(dict(x, cwd=cwd))
        return out

    def run(self, c, d, env, obs):
        for n in ("set", "set/sub", "other", "out"):
            (d / n).mkdir()
        ps = [[1, 0.0, 1.0, 0.0, 0.25, -0.5, 0.0], [3, 9.0, 3.0, 0.0, 0.0, 0.0, 0.0]]
        for k in ("prof", "csv", "vtu"):
            for e in (k, k.upper()):
                (d / "set" / ("in." + e)).write_text(F.WRITERS[k](ps, 0.0))
        (d / "set/in.txt").write_text(F.csv(ps, 0.0))
        over = {"endTime": "0.25"}
        if "key" in c:
            over[c["key"]] = c["val"]
        if "path" in c:
            over["particlesPath"] = c["path"]
        (d / "set/s.yml").write_text(c["text"] if "text" in c else F.settings(drop=[c["drop"]] if "drop" in c else [], **over))
        give(d)
        pre = {".": "", "set": "../", "other": "../"}[c["cwd"]]
        r = run([env["mps"], "-s", pre + "set/s.yml" if c["cwd"] != "set" else "s.yml", "-o", pre + "out"], d / c["cwd"])
        obs.note(json.dumps(c) + " -> status %s, %s" % (r.code, r.err[-200:]))
        got, _ = outputs(d / "out")
        obs.check(not r.timeout, "no end within the time limit")
        if c.get("ok"):
            obs.check(r.code == 0 and len(got["prof"]) == 2, "valid settings were refused with status %s: %s" % (r.code, r.err[-300:]))
            want = "binary" if c.get("key") == "outputVtkInBinary" and c["val"] == "true" else "text"
            obs.check(want in encodings(d / "out") and (want == "binary" or len(encodings(d / "out")) == 1), "VTK outputs are %s with %s" % (sorted(encodings(d / "out")), json.dumps(c)))
        else:
            obs.check(r.code != 0, "the program ended with status 0")
            obs.check(not any(got.values()), "particle output was written before the settings were refused")
            obs.check(visible(r), "no message")
        obs.step()
        obs.state(json.dumps(c))
        obs.outcome(r.code)
        obs.nontrivial = True


class Reproducible:
    """C32: the same settings and particles under other circumstances; every output byte for byte."""
    CIRC = {
        "heap": ["", "85", "170", "255"], "tz": ["", "Asia/Tokyo", "America/St_Johns"], "clock": [0, 7.25, 86400.0], "aslr": [1, 0], "place": ["rel", "abs", "elsewhere", "blank", "link"], "fmt": ["csv", "prof", "vtu"],
        "order": ["", "reversed", "commented"], "before": ["", "bigger", "unrelated", "readable"], "decoy": ["", "around", "below"], "cores": [1, 4, 64], "env": ["", "big", "omp", "locale", "none"], "dirs": ["", "nested", "blank"], "stack": ["", "zero", "pattern"],
    }

    def prepare(self, b):
        return {"mps": b.mps(), "mps-zero": b.mps_filled("zero"), "mps-pattern": b.mps_filled("pattern"), "clock": b.shim("stepclock")}

    @staticmethod
    def sets():
        s = {k: v for k, v in Restart.SETS.items()}
        s["many"] = ([[1 + (i == 0 or j == 0), 0.5 * i, 0.5 * j, 0, 0.0625 * ((i * 5 + j * 3) % 7 - 3), -0.125 * ((i + j) % 3), 0] for i in range(9) for j in range(7)], {})
        return s

    def cases(self, tier):
        c, keys = [], list(self.CIRC)
        big = tier == "thorough"
        for n, m, dist in itertools.product(self.sets(), ("Implicit", "Explicit"), ("false", "true")):
            base = {"set": n, "method": m, "dist": dist}
            for k in keys:
                for v in self.CIRC[k][1:]:
                    c.append(dict(base, **{k: v}))
            if big or (n in ("many", "leave") and (m == "Implicit") == (dist == "true")):
                for a, b in itertools.combinations(keys, 2):
                    for u, v in itertools.product(self.CIRC[a][1:], self.CIRC[b][1:]):
                        c.append(dict(base, **{a: u, b: v}))
        return c

    def one(self, d, name, c, env):
        """one run in a directory of its own; returns its outputs"""
        g = lambda k: c.get(k, self.CIRC[k][0])
        ps, over = self.sets()[c["set"]]
        root = d / name
        sub = {"": "w", "nested": "a/b/c/d/w", "blank": "with blank/w w"}[g("dirs")]
        w = root / sub
        w.mkdir(parents=True)
        (root / "other").mkdir()
        fmt = g("fmt")
        part = "in put." + fmt if g("place") == "blank" else "in." + fmt
        (w / part).write_text(F.WRITERS[fmt](ps, 0.5))
        dt = 0.015625
        text = F.settings(dt=dt, outputPeriod=2 * dt, endTime=0.5 + 8 * dt, pressureCalculationMethod=c["method"], compressibility="1e-4", particlesPath=part, numPhysicalCores=g("cores"), outputVtkInBinary=c["dist"],
                          **{"surfaceDetection-particleDistribution": c["dist"]}, **over)
        L = text.strip().split("\n")
        if g("order") == "reversed":
            L = L[::-1]
        elif g("order") == "commented":
            L = [y for x in L for y in ("# " + x.replace(":", " ="), "", x + "   # as " + x.split(":")[0])]
        sname = "set tings.yml" if g("place") == "blank" else "s.yml"
        (w / sname).write_text("\n".join(L) + "\n")
        out = w / ("o u t" if g("place") == "blank" else "out")
        out.mkdir()
        if g("before") == "bigger":
            for k in ("prof", "csv", "vtu"):
                (out / k).mkdir()
                for i in range(7):
                    (out / k / ("output_%04d.%s" % (i, k))).write_text("9\n" * 40000)
        elif g("before") == "unrelated":
            for k in ("output_0000.prof", "in.yml", "note.txt", "output.csv"):
                (out / k).write_text("x\n")
        elif g("before") == "readable":
            for k in ("prof", "csv", "vtu"):
                (out / k).mkdir()
                (out / k / "note.txt").write_text("x\n")
        cwd, a, b = w, sname, out.name
        if g("place") == "abs":
            a, b = str(w / sname), str(out)
        elif g("place") == "elsewhere":
            cwd = root / "other"
            a, b = os.path.relpath(w / sname, cwd), os.path.relpath(out, cwd)
        elif g("place") == "link":
            (root / "dir").symlink_to(w)
            a, b = "../" * (sub.count("/") + 1) + "dir/" + sname, str(root / "dir" / out.name)
        # files of the same names that are not meant
        decoys = {"": [], "around": [w.parent, root], "below": [w / "input", w / "data", w / "out2"]}[g("decoy")] + ([cwd] if cwd != w else [])
        for x in decoys:
            x.mkdir(exist_ok=True)
            (x / part).write_text(F.WRITERS[fmt]([[1, -3.0, 0.25, 0, 1.0, 1.0, 0]], 0.25))
            (x / sname).write_text(text.replace("kinematicViscosity: 0.01", "kinematicViscosity: 0.5"))
        give(d)
        e = {}
        if g("heap"):
            e["MALLOC_PERTURB_"] = g("heap")
        if g("tz"):
            e["TZ"] = g("tz")
        if g("clock"):
            e.update(LD_PRELOAD=str(env["clock"]), STEPCLOCK=repr(g("clock")))
        e.update({"": {}, "big": {"JUNK": "x" * 60000, "HOME": "/nowhere"}, "omp": {"OMP_NUM_THREADS": "3", "OMP_SCHEDULE": "dynamic"}, "locale": {"LC_ALL": "C.UTF-8", "LANG": "de_DE.UTF-8"}, "none": {"PATH": "", "HOME": ""}}[g("env")])
        argv = [env["mps-" + g("stack") if g("stack") else "mps"], "-s", a, "-o", b]
        if not g("aslr"):
            argv = ["/usr/bin/setarch", "-R"] + argv
        r = run(argv, cwd, env=e)
        if not g("aslr") and r.code == 1 and b"setarch" in r.err:
            return None, r
        got = {}
        for k in ("prof", "csv", "vtu"):
            for i in range(5):
                f = out / k / ("output_%04d.%s" % (i, k))
                got["%s %d" % (k, i)] = f.read_bytes() if f.exists() else None
        return got, r

    def run(self, c, d, env, obs):
        want, r = self.one(d, "usual", {k: c[k] for k in ("set", "method", "dist")}, env)
        obs.check(r.code == 0, "the run failed with status %s: %s" % (r.code, r.err[-300:]))
        obs.check(None not in want.values(), "outputs are missing: %s" % [k for k, v in want.items() if v is None])
        got, s = self.one(d, "changed", c, env)
        obs.note("%s -> status %s %s" % (json.dumps(c), s.code, s.err[-200:]))
        if got is None:
            obs.tag("no setarch")
            return
        obs.check(s.code == 0, "under other circumstances the run failed with status %s: %s" % (s.code, s.err[-300:]))
        for k in want:
            obs.check(got[k] is not None, "output %s is missing under other circumstances" % k)
            if got[k] != want[k]:
                A, B = want[k].split(b"\n"), got[k].split(b"\n")
                i = next((i for i, (x, y) in enumerate(zip(A, B)) if x != y), min(len(A), len(B)))
                raise Violation("output %s differs under other circumstances, first in line %d: %r and %r" % (k, i + 1, A[i:i + 1], B[i:i + 1]))
        obs.step(len(want) * 2)
        obs.state(json.dumps(c, sort_keys=True))
        obs.outcome(hashlib.sha256(b"".join(want.values())).hexdigest()[:16])
        obs.nontrivial = want["csv 0"] != want["csv 4"]


class WholeRuns:
    """C34: the outputs of whole runs followed, output by output, with the reference model of the method."""
    EX = ("dambreak", "hydrostatic")  # their VTK files are for viewing only (docs/input-output.md)
    START = {"prof": 0.0, "csv": 2.5, "vtu": 0.3125}

    def prepare(self, b):
        return {"mps": b.mps(), "follow": b.plain("refrun")}

    @staticmethod
    def sets():
        def tank(w, h, fill):
            r = []
            for i in range(-2, w + 2):
                for j in range(-2, h):
                    if 0 <= i < w and j >= 0:
                        if fill(i, j):
                            r.append([1, 0.5 * i, 0.5 * j, 0, 0, 0, 0])
                    else:
                        r.append([2 if -1 <= i <= w and j >= -1 else 3, 0.5 * i, 0.5 * j, 0, 0, 0, 0])
            return r
        jit = [0.03, -0.02, 0.01, 0.04, -0.035, 0.0, 0.025, -0.015, 0.005]

        def shake(ps, amp=1.0):
            return [[p[0]] + [c + amp * jit[(5 * i + 3 * k) % 9] * (p[0] == 1) for k, c in enumerate(p[1:3])] + [p[3]] + p[4:] for i, p in enumerate(ps)]
        z3 = {"dim": 3, "domainMin": "[-6, -6, -6]", "domainMax": "[9, 9, 9]"}
        return {
            "column": (shake(tank(10, 8, lambda i, j: i < 5 and j < 7)), {}),
            "drop": (shake(tank(7, 3, lambda i, j: False)) + [[1, 0.5 + 0.5 * i + jit[(i + 2 * j) % 9], 0.6 + 0.5 * j, 0, 0.125 * i, -4.0, 0] for i in range(5) for j in range(4)], {}),
            "jets": ([[1, -2.5 + 0.5 * i, 0.5 * j + jit[(i + j) % 9], 0, 3.0, 0.25, 0] for i in range(4) for j in range(4)] + [[1, 0.25 + 0.5 * i, 0.5 * j + jit[(i * 3 + j) % 9], 0, -3.0, 0, 0] for i in range(4) for j in range(4)], {}),
            "lid": (shake([[2, 0.5 * i, 3.0, 0, 2.0, 0, 0] for i in range(9)] + tank(9, 6, lambda i, j: True)), {"kinematicViscosity": "0.25"}),
            "leave": (shake([[1, 0.5 * i, 0.5 * j, 0, 4.0 - i, 0.5 * j, 0] for i in range(6) for j in range(5)] + [[0, 1.25, 0.75, 0, 1.0, 0, 0], [2, 0.5, -0.5, 0, 0, 0, 0], [3, 1.0, -0.5, 0, 0, 0, 0]]), {"domainMin": "[-1, -1, 0]", "domainMax": "[2.75, 2.6, 0]"}),
            "rush": ([[1, -9.0 + 0.5 * i, 0.5 * j + jit[(i + j) % 9], 0, 90.0 - 20 * j, 5.0, 0] for i in range(5) for j in range(4)] + [[1, 3.0 + 0.5 * i, 0.5 * j + jit[(i * 3 + j) % 9], 0, -70.0, 0, 0] for i in range(5) for j in range(4)], {"gravity": "[0, 0, 0]"}),
            "overlap": ([[1, 1.0 * i + 0.125 * k, 1.0 * j + 0.0625 * k, 0, 0.5 * (1 - 2 * k), 0.25 * i, 0] for i in range(4) for j in range(3) for k in range(2)]
                        + [[2, 1.0 * i, -0.875, 0, 0, 0, 0] for i in range(4)] + [[1, 0.0625, -0.75, 0, 0, 0, 0], [1, 50.0, 0, 0, 1.0, 0, 0], [3, 1.125, -0.125, 0, 0, 0, 0]], {}),
            "block3": ([[1, 0.5 * i + jit[(i + j + 2 * k) % 9], 0.5 * j + jit[(3 * i + j + k) % 9], 0.5 * k, 0, 0, -0.5 * k] for i in range(4) for j in range(4) for k in range(3)]
                       + [[2, 0.5 * i, 0.5 * j, -0.5, 0, 0, 0] for i in range(-1, 5) for j in range(-1, 5)] + [[3, 0.5 * i, 0.5 * j, -1.0, 0, 0, 0] for i in range(-1, 5) for j in range(-1, 5)], dict(z3, gravity="[0, 0, -8]")),
        }

    def cases(self, tier):
        c = []
        big = tier == "thorough"
        for n, m, dist, grav, fmt, each in itertools.product(self.sets(), ("Implicit", "Explicit"), ("false", "true"), ("xyz", "angle"), ("prof", "csv", "vtu"), (1, 3)):
            for radii in ([("3.1", "3.1", "3.1"), ("2.1", "3.1", "2.6"), ("3.1", "2.1", "4.05")] if big else [("3.1", "2.1", "3.1")] if fmt == "csv" else [("2.1", "3.1", "2.6")]):
                for mix in ((0, 1) if fmt == "csv" else (0,)):
                    c.append({"set": n, "method": m, "dist": dist, "grav": grav, "fmt": fmt, "each": each, "radii": radii, "outputs": 60 // each if big else 12 // each, "mix": mix})
        for n, fmt, m in itertools.product(self.EX, ("prof", "csv"), ("Implicit", "Explicit")):
            for dist, each in ((("true", 1), ("false", 1), ("true", 2), ("false", 3)) if big else (("true", 1),)):
                c.append({"example": n, "fmt": fmt, "method": m, "dist": dist, "each": each, "outputs": 40 if big else 6})
        return c

    def run(self, c, d, env, obs):
        each, fmt = c["each"], c["fmt"]
        n_out, t0, rho = c["outputs"], 0.0, None
        if "example" in c:
            src = Path(os.environ.get("MC_REPO", "/repo")) / "input" / c["example"]
            text = (src / "settings.yml").read_text()
            s = yaml_lite.load(text)
            shutil.copy(src / ("input." + fmt), d / ("in." + fmt))
            dt = float(s["dt"])
            over = {"outputPeriod": repr(dt * (each - 0.25 / n_out)), "endTime": repr(dt * (each * n_out - 0.5)), "particlesPath": "in." + fmt, "outputVtkInBinary": "true", "pressureCalculationMethod": c["method"],
                    "surfaceDetection-particleDistribution": c["dist"]}
            text = re.sub(r"(?m)^([\w-]+):.*$", lambda m: "%s: %s" % (m.group(1), over[m.group(1)]) if m.group(1) in over else m.group(0), text)
            text += "".join("\n%s: %s" % kv for kv in over.items() if not re.search("(?m)^%s:" % re.escape(kv[0]), text))
        else:
            ps, over = self.sets()[c["set"]]
            t0 = self.START[fmt]
            dt = 2.0 ** -7 if c["method"] == "Implicit" else 2.0 ** -8
            a, b, e = c["radii"]
            over = dict({"gravity": "[0, -8, 0]"}, **over)
            if c["grav"] == "angle":
                over.update({"xyz-input": "false", "gravity-norm": "7.5", "gravity-angle": "22.5"})
            text = F.settings(dt=repr(dt), outputPeriod=repr(dt * (each - 0.25 / n_out)), endTime=repr(t0 + dt * (each * n_out - 0.5)), particlesPath="in." + fmt, outputVtkInBinary="true", pressureCalculationMethod=c["method"],
                              radiusRatioForNumberDensity=a, radiusRatioForGradient=b, radiusRatioForLaplacian=e, soundSpeed="12", compressibility="1e-7", **{"surfaceDetection-particleDistribution": c["dist"]}, **over)
            if fmt != "csv":
                text = text.replace("defaultDensity: 1000", "defaultDensity: 850.5")
            if c["mix"]:  # two liquids and walls of other densities
                rho = [(500, 998.5, 13600, 1.25)[(i * i + i // 3) % (3 if q[0] == 1 else 4)] for i, q in enumerate(ps)]
                (d / "in.csv").write_text("%r\n%d\ntype,fluidType,density,x,y,z,vx,vy,vz\n" % (t0, len(ps)) + "".join("%d,%d,%r,%s\n" % (q[0], r > 900, float(r), ",".join(F.g(w) for w in q[1:7])) for q, r in zip(ps, rho)))
            else:
                (d / ("in." + fmt)).write_text(F.WRITERS[fmt](ps, t0))
        s = yaml_lite.load(text)
        (d / "s.yml").write_text(text)
        (d / "out").mkdir()
        start = F.read_any(src / "input.prof" if "example" in c else d / ("in." + fmt))
        give(d)
        r = run([env["mps"], "-s", "s.yml", "-o", "out"], d, timeout=400)
        obs.note("%s -> status %s, %s" % (json.dumps(c), r.code, r.err[-200:]))
        obs.check(r.code == 0, "the run failed with status %s: %s" % (r.code, r.err[-300:]))
        got, _ = outputs(d / "out")
        obs.check(len(got["vtu"]) >= n_out and got["vtu"] == got["csv"] == got["prof"], "%s outputs, expected %d" % ({k: len(v) for k, v in got.items()}, n_out + 1))
        vec = lambda k: s[k].strip("[]").replace(",", " ")
        l0 = float(s["particleDistance"])
        radius = lambda k: repr(float(s["radiusRatioFor" + k]) * l0)
        P = ["dim " + s["dim"], "l0 %r" % l0, "dt %r" % dt, "nu " + s["kinematicViscosity"], "g " + vec("gravity"), "xyz %d" % (s.get("xyz-input", "true") == "true"), "gNorm " + s.get("gravity-norm", "0"), "gAngle " + s.get("gravity-angle", "0"),
             "reN " + radius("NumberDensity"), "reG " + radius("Gradient"), "reL " + radius("Laplacian"), "thrN " + s["surfaceDetection-numberDensity-threshold"], "dist %d" % (s["surfaceDetection-particleDistribution"] == "true"),
             "thrD " + s["surfaceDetection-particleDistribution-threshold"], "implicit %d" % (s["pressureCalculationMethod"] == "Implicit"), "comp " + s["compressibility"], "gamma " + s["relaxationCoefficientForPressure"], "c " + s["soundSpeed"],
             "colDist %r" % (float(s["collisionDistanceRatio"]) * l0), "rest " + s["coefficientOfRestitution"], "lo " + vec("domainMin"), "hi " + vec("domainMax"), "rho " + s["defaultDensity"], "steps %d" % each, "end"]
        n = min(len(got["vtu"]), n_out + 1)
        for k in range(n):
            a = F.vtu_arrays((d / "out/vtu" / ("output_%04d.vtu" % k)).read_bytes())
            m = a["#"]
            x, v = a["Position"], a["Velocity"]
            rows = [[int(a["Particle Type"][i])] + x[3 * i:3 * i + 3] + v[3 * i:3 * i + 3] for i in range(m)]
            obs.check(m == len(start[1]), "output %d has %d particles, the input %d" % (k, m, len(start[1])))
            # the initial state is the input
            for i in range(m if k == 0 else 0):
                obs.check(rows[i] == start[1][i] or rows[i][0] == start[1][i][0] and all(F.near(p, q, 1e-14) for p, q in zip(rows[i], start[1][i])), "output 0: particle %d is %s, the input says %s" % (i, rows[i], start[1][i]))
            # the text formats say the same
            for o in (F.read_any(d / "out/csv" / ("output_%04d.csv" % k)), F.read_any(d / "out/prof" / ("output_%04d.prof" % k))):
                obs.check(F.near(o[0], a["Time"][0]) and len(o[1]) == m, "output %d differs between formats in time or number" % k)
                for i in range(m):
                    obs.check(rows[i][0] == o[1][i][0] and all(F.near(p, q, 6e-6) for p, q in zip(rows[i], o[1][i])), "output %d: particle %d is %s in one format and %s in another" % (k, i, rows[i], o[1][i]))
            P.append("state %d" % m)
            P += ["%d %s %r %r %d %r" % (q[0], " ".join(repr(float(w)) for w in q[1:]), float(a["Pressure"][i]), float(a["Number Density"][i]), a["Boundary Condition"][i], float(rho[i] if rho else s["defaultDensity"])) for i, q in enumerate(rows)]
        f = run([env["follow"]], d, stdin=("\n".join(P) + "\n").encode(), timeout=600)
        L = f.out.decode().split("\n")[:-1]
        if f.code != 0 or len(L) != n - 1:
            raise RuntimeError("the reference did not answer: %s %s" % (f.code, f.err[-200:]))
        shown = [float(x) for x in re.findall(r"Courant=([-+\d.einfa]+)", r.out.decode("utf-8", "replace"))]
        ok = 0
        for k, line in enumerate(L):
            obs.step(each)
            obs.state(k, line, P[-1])
            kind, _, rest = line.partition(" ")
            obs.check(kind != "bad", "output %d does not follow from output %d: %s" % (k + 1, k, rest))
            obs.tag("outputs explained" if kind == "ok" else "outputs undecided: " + rest)
            if kind == "ok":
                ok += 1
                for q, want in enumerate(rest.split()):
                    at = k * each + q
                    obs.check(at < len(shown) and abs(shown[at] - float(want)) <= 0.0051 + 1e-6 * abs(float(want)), "step %d reports the Courant number %s, expected %s" % (at + 1, shown[at:at + 1], want))
        obs.outcome(P[-1])
        obs.nontrivial = ok > 0


class Sound:
    """C35: whole runs of instrumented programs; a report of a sanitizer, of the library's assertions or of memcheck is a violation."""
    SAN = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=99"}
    MARK = re.compile(rb"ERROR: AddressSanitizer|runtime error:|/bits/.*Assertion '|Assertion `|(?m:^==\d+== (?:Invalid|Conditional|Use of|Syscall|Jump|Source and|Argument|Mismatched|Process terminating with default action of signal (?:4|7|8|11)))")

    def prepare(self, b):
        return {"checked": b.mps_checked(), "traced": b.mps_traced(), "valgrind": shutil.which("valgrind")}

    @staticmethod
    def sets():
        s = dict(WholeRuns.sets())
        up, down = (lambda v: float.fromhex(v))("0x1.0000000000001p+2"), float.fromhex("0x1.fffffffffffffp+1")
        box = {"domainMin": "[-4, -4, 0]", "domainMax": "[4, 4, 0]"}
        still = dict(box, gravity="[0, 0, 0]")
        s["nothing"] = ([], {})
        s["one"] = ([[1, 0.5, 0.5, 0, 1.0, 0, 0]], {})
        s["outside"] = ([[t, 60.0 + i, 60.0, 0, 0, 0, 0] for i, t in enumerate((1, 2, 3, 0))], {})
        s["border"] = ([[1, x, y, 0, vx, 0, 0] for x in (-4.0, 4.0, down, -down, up, -up, 0.0) for y in (-4.0, 4.0, down, -down, up, 0.125) for vx in (0.0, 2.0 ** -40)], still)
        s["same"] = ([[1, 0.5, 0.5, 0, 0, 0, 0], [1, 0.5, 0.5, 0, 0, 0, 0], [2, 0.5, 0.5, 0, 0, 0, 0], [1, 0.75, 0.5, 0, 0, 0, 0]], box)
        s["tiny"] = ([[1, 0.0625 * i, 0.0625 * j, 0, 0.5 * i, 0, 0] for i in range(3) for j in range(3)], {"domainMin": "[-0.0625, -0.0625, 0]", "domainMax": "[0.25, 0.25, 0]"})
        s["huge"] = ([[1, x, 0.5 * i, 0, v, -v, 0] for i, (x, v) in enumerate(((0.0, 1e12), (0.5, -1e12), (1e300, 0.0), (-1e300, 1e300), (0.25, 1e200), (0.0, 0.0)))], still)
        # the domain is a whole number of radii wide
        s["exact"] = ([[1, x, y, 0, 0, 0, 0] for x in (-3.0, 3.0, -1.5, 1.5, 0.0) for y in (-3.0, 3.0, 0.0)],
                      dict(still, domainMin="[-3, -3, 0]", domainMax="[3, 3, 0]", radiusRatioForNumberDensity="3.0", radiusRatioForGradient="3.0", radiusRatioForLaplacian="3.0"))
        s["exact3"] = ([[1, x, y, z, 0, 0, 0] for x in (-3.0, 3.0) for y in (-1.5, 1.5) for z in (0.0, 1.5)],
                       dict(still, dim=3, domainMin="[-3, -1.5, 0]", domainMax="[3, 1.5, 1.5]", radiusRatioForNumberDensity="3.0", radiusRatioForGradient="3.0", radiusRatioForLaplacian="3.0"))
        s["ranged"] = ([[1, 0.5 * i, 0.5 * j, 0, 0, 0, 0] for i in range(5) for j in range(5)], {"radiusRatioForNumberDensity": "9.1"})
        s["flat"] = ([[1 + (k == 0), 0.5 * i, 0.5 * j, 0.5 * k, 0, 0, 0] for i in range(3) for j in range(3) for k in range(2)], {"dim": 3, "domainMin": "[-1, -1, -0.5]", "domainMax": "[2, 2, 0.5]"})
        s["floating"] = ([[1, -30.0, -30.0, 0, 0, 0, 0], [1, 30.0, 30.0, 0, 0, 0, 0], [1, 39.9375, 39.9375, 0, 0, 0, 0], [2, -39.9375, -39.9375, 0, 0, 0, 0]], {})
        return s

    def cases(self, tier):
        c = []
        big = tier == "thorough"
        for n, m, dist, fmt, b in itertools.product(self.sets(), ("Implicit", "Explicit"), ("false", "true"), ("prof", "csv", "vtu"), ("false", "true")):
            if n == "nothing" and m == "Implicit":
                continue  # whether a system of no equations can be factorised is the solver library's affair
            case = {"set": n, "method": m, "dist": dist, "fmt": fmt, "bin": b, "steps": 40 if big else 6}
            c.append(dict(case, how="sanitized"))
            if big or (fmt, b) == (("prof", "true") if m == "Implicit" else ("csv", "false")) or (fmt == "vtu" and n in ("leave", "overlap")):
                c.append(dict(case, how="memcheck", steps=8 if big else 3))
        for fmt in ("prof", "csv", "vtu"):
            for k in range(0, 100, 2 if big else 4):
                for how in ("sanitized", "memcheck"):
                    if how == "sanitized" or big or k % 20 == 0:
                        c.append({"cut": k, "fmt": fmt, "how": how})
        for how in ("sanitized", "memcheck"):
            for k in list(F.DEFAULTS) if how == "sanitized" or big else list(F.DEFAULTS)[::6]:
                for v in (None, "", "text", "[]", "-1", "0", "4", "[1]", "1e400", "1e300", "1e-320", ".nan", "[1e300, 1e300, 0]", "[-1e300, -1e300, -1e300]", "{a: 1}"):
                    if how == "sanitized" or v in (None, "text", "[]", "1e300"):
                        if k in ("dt", "endTime", "outputPeriod", "cflCondition") and v in ("-1", "0", "1e300", "1e-320", ".nan", "4"):
                            continue  # such schedules may go on for ever
                        if k.startswith("radius") and v in ("-1", "0", "1e300", "1e-320", ".nan") or k == "particleDistance" and v in ("-1", "0", "1e300", "1e-320", ".nan"):
                            continue  # no lattice has such a spacing or radius
                        c.append({"key": k, "val": v, "how": how})
        c.append({"set": "one", "method": "Explicit", "dist": "true", "fmt": "csv", "bin": "true", "steps": 10010, "every": 1, "how": "sanitized"})  # output numbers of five digits
        # domains of so many radii that the number of cells leaves the range of int (of an unsigned, of a long)
        for r, box in itertools.product((32768.0, 46341.0, 65533.0, 92682.0, 131072.0, 1e6, 1.4e9, 4.3e9, 1e10, 1.3e154, 1e300), ("[0, %r, 0]", "[%r, %r, 0]", "[%r, %r, %r]")):
            if box.count("%") > 1 or r > 1e9:
                c.append({"domain": box % ((r * 1.55,) * box.count("%")), "how": "sanitized"})
        return c

    def run(self, c, d, env, obs):
        dt = 2.0 ** -7
        fmt = c.get("fmt", "csv")
        (d / "out").mkdir()
        if "set" in c:
            ps, over = self.sets()[c["set"]]
            n = c["steps"]
            text = F.settings(**dict(dict(dt=repr(dt), outputPeriod=repr(c.get("every", 2) * dt), endTime=repr((n - 0.5) * dt), particlesPath="in." + fmt, outputVtkInBinary=c["bin"], pressureCalculationMethod=c["method"], soundSpeed="12",
                                     radiusRatioForNumberDensity="2.1", compressibility="1e-7", gravity="[0, -8, 0]", **{"surfaceDetection-particleDistribution": c["dist"]}), **over))
            data = F.WRITERS[fmt](ps, 0.0)
        else:
            ps = [[1 + (i == 4), 0.5 * i, 0.25, 0, 0.125 * i, 0, 0] for i in range(5)]
            data = F.WRITERS[fmt](ps, 0.0)
            text = F.settings(dt=repr(dt), outputPeriod=repr(dt), endTime=repr(2 * dt), particlesPath="in." + fmt)
            if "cut" in c:
                data = data[:len(data) * c["cut"] // 100]
            elif "domain" in c:
                text = F.settings(dt=repr(dt), outputPeriod=repr(dt), endTime=repr(2 * dt), particlesPath="in." + fmt, domainMin="[0, 0, 0]", domainMax=c["domain"])
            else:
                L = text.strip().split("\n")
                text = "\n".join(x for x in (y if not y.startswith(c["key"] + ":") else None if c["val"] is None else "%s: %s" % (c["key"], c["val"]) for y in L) if x is not None) + "\n"
        (d / ("in." + fmt)).write_text(data)
        (d / "s.yml").write_text(text)
        give(d)
        if c["how"] == "sanitized":
            argv, e = [env["checked"]], self.SAN
        elif env["valgrind"]:
            argv, e = [env["valgrind"], "-q", "--vgdb=no", "--leak-check=no", "--suppressions=" + str(Path(__file__).with_name("memcheck.supp")), "--error-exitcode=98", env["traced"]], {}
        else:
            obs.tag("no memcheck")
            return
        r = run(argv + ["-s", "s.yml", "-o", "out"], d, env=e, timeout=300)
        obs.note("%s -> status %s, %s" % (json.dumps(c), r.code, r.err[-1500:]))
        m = self.MARK.search(r.err) or self.MARK.search(r.out)
        where = (r.err + r.out)[m.start():m.start() + 500] if m else b""
        obs.check(not m and r.code not in (98, 99) and r.code not in (-4, -7, -8, -11), "undefined behaviour (status %s): %s" % (r.code, where.decode("utf-8", "replace")))
        if "set" in c:
            obs.check(r.code == 0 or c["set"] in ("same", "huge", "nothing") or b"Pressure calculation failed" in r.err, "the run failed with status %s: %s" % (r.code, r.err[-300:]))
        obs.check(r.code == 0 or r.err.strip() or r.out.strip(), "the run failed with status %s and without a message" % r.code)
        obs.step(c.get("steps", 1))
        obs.state(json.dumps(c, sort_keys=True))
        obs.outcome(c["how"], r.code)
        obs.tag("%s, status %s" % (c["how"], r.code))
        obs.nontrivial = True


class Sustained:
    """C33: the same system run for more and more steps under a limit of open files; the memory it keeps."""
    FILES = 16

    def prepare(self, b):
        return {"mps": b.mps(), "count": b.shim("memcount")}

    @staticmethod
    def sets():
        grid = [(i, j) for i in range(8) for j in range(6)]
        wall = [[2 + (j == -2), 0.5 * i, 0.5 * j, 0, 0, 0, 0] for i in range(8) for j in (-1, -2)]
        return {
            "still": ([[1, 0.5 * i, 0.5 * j, 0, 0, 0, 0] for i, j in grid] + wall, {}),
            "drift": ([[1, 0.5 * i, 0.5 * j, 0, 2.0 ** -9, 2.0 ** -10, 0] for i, j in grid], {}),
            "apart": ([[1, 2.0 * i, 2.0 * j, 0, 0, 0.0, 0] for i, j in grid], {}),
            "gone": ([[1 if i % 2 else 0, 50.0 + i, 0.5 * j, 0, 1.0, 0, 0] for i, j in grid] + wall, {}),
            "hasty": ([[1, 0.5 * i, 0.5 * j, 0, 0, 0, 0] for i, j in grid] + wall + [[1, -25.0, 8.0 + j, 0, 2.0 ** -6, 0, 0] for j in range(4)], {"cflCondition": "0.0000001"}),
            "3d": ([[1, 0.5 * i, 0.5 * j, 0.5 * k, 0, 0, 0] for i in range(4) for j in range(4) for k in range(3)] + [[2, 0.5 * i, 0.5 * j, -0.5, 0, 0, 0] for i in range(4) for j in range(4)],
                   {"dim": 3, "domainMin": "[-30, -30, -30]", "domainMax": "[30, 30, 30]"}),
        }

    def cases(self, tier):
        c = []
        big = tier == "thorough"
        for n, m, dist in itertools.product(self.sets(), ("Implicit", "Explicit"), ("false", "true")):
            for fmt in ("csv", "prof", "vtu"):
                if big or fmt == "csv":
                    c.append({"set": n, "method": m, "dist": dist, "fmt": fmt, "steps": [200, 400, 800, 1600] + ([3200, 6400, 12800] if big else []), "each": 0})
            for b in ("false", "true"):
                c.append({"set": n, "method": m, "dist": dist, "fmt": "csv", "bin": b, "steps": [25, 50, 100] + ([200, 400, 800] if big else []), "each": 1})
        return c

    def run(self, c, d, env, obs):
        ps, over = self.sets()[c["set"]]
        dt = 2.0 ** -12
        (d / ("in." + c["fmt"])).write_text(F.WRITERS[c["fmt"]](ps, 0.0))
        use = []
        obs.note(json.dumps(c))
        for n in c["steps"]:
            (d / "s.yml").write_text(F.settings(particlesPath="in." + c["fmt"], dt=repr(dt), outputPeriod=repr(dt if c["each"] else dt * 100000), endTime=repr((n - 0.5) * dt), pressureCalculationMethod=c["method"],
                                                compressibility="1e-4", gravity="[0, 0, 0]", outputVtkInBinary=c.get("bin", "false"), **{"surfaceDetection-particleDistribution": c["dist"]}, **over))
            out = d / ("out%d" % n)
            out.mkdir()
            give(d)
            to = d / ("use%d" % n)
            r = run([env["mps"], "-s", "s.yml", "-o", out.name], d, env={"LD_PRELOAD": str(env["count"]), "MEMCOUNT_TO": str(to), "MEMCOUNT_FILES": str(self.FILES)}, timeout=200)
            obs.check(r.code == 0, "a run of %d steps with at most %d open files failed with status %s: %s" % (n, self.FILES, r.code, r.err[-300:]))
            got, _ = outputs(out)
            for k, v in got.items():
                obs.check(len(v) == (n + 1 if c["each"] else 1), "%d outputs in %s of %d steps" % (len(v), k, n))
            use.append(int(to.read_text()))
            obs.note("%d steps: %d bytes kept" % (n, use[-1]))
            shutil.rmtree(out)
            obs.step(n)
        # 16 bytes per step are less than a quarter of a byte per particle, and room for longer numbers
        for a, b, u, v in zip(c["steps"], c["steps"][1:], use, use[1:]):
            obs.tag("grows" if v > u else "constant")
        a, b = c["steps"][-2:]
        obs.check(use[-1] - use[-2] <= 16 * (b - a) + 4096, "memory grows with the number of steps: %s bytes for %s steps" % (use, c["steps"]))
        obs.state(json.dumps(c, sort_keys=True))
        obs.outcome(use[-1] - use[0])
        obs.nontrivial = True


class Threads:
    """C21: the number of threads of the program built with OpenMP, and that its results are those of the serial one."""

    def prepare(self, b):
        return {"mps": b.mps(), "omp": b.mps_openmp(), "threads": b.shim("threads")}

    def cases(self, tier):
        c = []
        for n, e, m in itertools.product((1, 2, 3, 4, 5, 8, 12) + ((6, 7, 16, 24, 32) if tier == "thorough" else ()), ("", "1", "2", "6"), ("Explicit", "Implicit")):
            c.append({"n": n, "env": e, "method": m})
        return c

    def run(self, c, d, env, obs):
        ps = [[1 + (k % 11 == 0), 0.45 * (k % 20), 0.5 * (k // 20), 0, 0.25 * (k % 3), -0.125 * (k % 5), 0] for k in range(300)]
        (d / "in.csv").write_text(F.csv(ps, 0.0))
        (d / "s.yml").write_text(F.settings(particlesPath="in.csv", numPhysicalCores=c["n"], pressureCalculationMethod=c["method"], dt="0.0078125", outputPeriod="0.0078125", endTime="0.02", gravity="[0, -1, 0]", compressibility="1e-4"))
        for k in ("a", "b"):
            (d / k).mkdir()
        give(d)
        e = {"OMP_NUM_THREADS": c["env"]} if c["env"] else {}
        r = run([env["omp"], "-s", "s.yml", "-o", "a"], d, env=dict(e, LD_PRELOAD=str(env["threads"]), THREADS_TO=str(d / "started")))
        obs.note("%s -> status %s %s" % (json.dumps(c), r.code, r.err[-200:]))
        obs.check(r.code == 0, "the run failed")
        started = int((d / "started").read_text())
        obs.note("%d threads besides the first" % started)
        obs.check(started + 1 == c["n"], "numPhysicalCores is %d, the program works with %d threads (OMP_NUM_THREADS %r)" % (c["n"], started + 1, c["env"]))
        s = run([env["mps"], "-s", "s.yml", "-o", "b"], d)
        obs.check(s.code == 0, "the serial run failed")
        for k in range(4):
            (ta, pa), (tb, pb) = (F.read_any(d / w / "csv" / ("output_%04d.csv" % k)) for w in ("a", "b"))
            obs.check(ta == tb and len(pa) == len(pb), "output %d differs in time or number from the serial run" % k)
            for i, (p, q) in enumerate(zip(pa, pb)):
                obs.check(p[0] == q[0] and all(abs(u - v) <= 2e-5 * max(1, abs(u)) for u, v in zip(p[1:], q[1:])), "output %d: particle %d is %s with %d threads and %s with one" % (k, i, p, c["n"], q))
            obs.step()
        obs.state(c["n"], c["env"], c["method"])
        obs.outcome(started)
        obs.nontrivial = c["n"] > 1


class Unsolvable:
    """C31: runs that meet a pressure system without a solution at a known step, and their solvable neighbours."""
    L0, RE, DT = 0.5, 1.55, 0.125

    def prepare(self, b):
        return {"mps": b.mps()}

    def cases(self, tier):
        c = []
        sites = [(0.5 * i, 0.5 * j) for j in range(2) for i in range(3)]
        big = tier == "thorough"
        for m in range(1, 64):  # every occupation of six sites
            s = [k for k in range(6) if m >> k & 1]
            for comp in (0, 0.45e-9):
                for near in ("", "wall", "dummy", "ghost", "surface"):
                    if near in ("wall", "dummy") and not big and m % 3:
                        continue
                    for meth in ("Implicit", "Explicit") if comp == 0 and (big or near == "") else ("Implicit",):
                        c.append({"kind": "still", "sites": s, "comp": comp, "near": near, "method": meth, "relax": 0.2})
            c.append({"kind": "still", "sites": s, "comp": 0, "near": "", "method": "Implicit", "relax": 0})
        # two particles or two pairs, alone and solvable until they meet
        for gap, v, comp, first in itertools.product((1.6, 1.7, 2.0, 2.3, 3.0, 4.0), (0.5, 1.0, 2.0, -1.0), (0, 0.45e-9), (0, 1)):
            for more in ((0, 1, 3) if big else (0, 1)):
                c.append({"kind": "meet", "gap": gap, "v": v, "comp": comp, "first": first, "more": more})
        for n in (3, 6, 10) if big else (3, 6):  # larger groups, alone or with a solvable group far away
            for other in (0, 4):
                for comp in (0, 0.45e-9):
                    c.append({"kind": "block", "n": n, "other": other, "comp": comp})
        return c

    def density(self, ps):
        w = lambda r: self.RE / r - 1 if r < self.RE else 0.0
        r = []
        for i, p in enumerate(ps):
            r.append(sum(w(sum((a - b) ** 2 for a, b in zip(p[1:4], q[1:4])) ** 0.5) for j, q in enumerate(ps) if j != i and q[0] != 0) if p[0] != 0 else 0.0)
        return r

    def unsolvable(self, ps, thr, comp, relax):
        """True or False, or None when the documented system is too close to call"""
        if comp != 0 or relax == 0:
            return False
        w = lambda r: self.RE / r - 1 if r < self.RE else 0.0
        n0 = sum(w(self.L0 * (i * i + j * j) ** 0.5) for i in range(-4, 5) for j in range(-4, 5) if (i, j) != (0, 0))
        n = self.density(ps)
        inner = [i for i, p in enumerate(ps) if p[0] in (1, 2) and not n[i] < thr * n0]
        if any(abs(n[i] - thr * n0) < 1e-9 for i, p in enumerate(ps) if p[0] in (1, 2) and n[i] != thr * n0):
            return None
        free = [i for i, p in enumerate(ps) if p[0] in (1, 2) and i not in inner]
        left, answer = set(inner), False
        while left:  # each group of coupled inner particles without a particle held at zero is singular
            grp, todo = set(), [left.pop()]
            held = False
            while todo:
                i = todo.pop()
                grp.add(i)
                for j in inner + free:
                    if j != i and w(sum((a - b) ** 2 for a, b in zip(ps[i][1:4], ps[j][1:4])) ** 0.5) > 0:
                        if j in free:
                            held = True
                        elif j in left:
                            left.discard(j)
                            todo.append(j)
            if not held:
                s = sum(n[i] - n0 for i in grp) / n0
                if abs(s) < 0.01:
                    return None
                answer = True
        return answer

    def run(self, c, d, env, obs):
        g, steps, thr, relax, method = 0.0, 3, 0.0, 0.2, "Implicit"
        if c["kind"] == "still":
            ps = [[1, 0.5 * (k % 3), 0.5 * (k // 3), 0, 0, 0, 0] for k in c["sites"]]
            relax, method = c["relax"], c["method"]
            if c["near"] == "wall":
                ps.insert(len(ps) // 2, [2, 0.5, -0.5, 0, 0, 0, 0])
            elif c["near"] == "dummy":
                ps.insert(0, [3, 0.5, -0.5, 0, 0, 0, 0])
            elif c["near"] == "ghost":
                ps.append([0, 0.5, -0.5, 0, 0, 0, 0])
            elif c["near"] == "surface":  # a lone particle, far away: held at zero, coupled to nothing
                thr = 1e-3
                ps.insert(0, [1, 9.0, 0, 0, 0, 0, 0])
            steps = 1
        elif c["kind"] == "meet":
            a, b = [1, 0, 0, 0, c["v"] * c["first"], 0, 0], [1, c["gap"], 0, 0, -c["v"] * (1 - c["first"]), 0, 0]
            ps, thr, steps = [a, b], 1e-3, 5
            for k in range(c["more"]):
                ps.insert(k, [1, -9.0 - 3 * k, 5.0, 0, 1.0, 0, 0])
        else:
            ps = [[1, 0.5 * i, 0.5 * j, 0, 0, 0, 0] for j in range(c["n"]) for i in range(c["n"])]
            for k in range(c["other"]):
                ps.insert(7 * k, [1, -9.0 - 3 * k, -9.0, 0, 0, 0, 0])
            thr, steps = (1e-3 if c["other"] else 0.0), 1
        # the step that meets it: free flight until then, as a solvable system here has no pressure beyond rounding
        x, stop, sure = [list(p) for p in ps], None, True
        for k in range(steps):
            for p in x:
                for a in range(3):
                    p[1 + a] += p[4 + a] * self.DT if p[0] == 1 else 0
            u = self.unsolvable(x, thr, c.get("comp", 0), relax) if method == "Implicit" else False
            if u is None:
                sure = False
            if u:
                stop = k
                break
        (d / "in.csv").write_text(F.csv(ps, 0.0))
        (d / "s.yml").write_text(F.settings(particlesPath="in.csv", dt=self.DT, outputPeriod=0.9 * self.DT, endTime=(steps - 0.5) * self.DT, gravity="[0, 0, 0]", kinematicViscosity="0", compressibility=repr(c["comp"]),
                                            relaxationCoefficientForPressure=repr(relax), pressureCalculationMethod=method, **{"surfaceDetection-numberDensity-threshold": repr(thr)}))
        (d / "out").mkdir()
        give(d)
        r = run([env["mps"], "-s", "s.yml", "-o", "out"], d)
        obs.note("%s\n%s -> status %s, expected %s" % (json.dumps(c), ps, r.code, "any" if not sure else "a run" if stop is None else "an end in step %d" % (stop + 1)))
        if not sure:
            obs.tag("inconclusive")
            return
        got, _ = outputs(d / "out")
        obs.check(not r.timeout, "no end within the time limit")
        n = len(got["csv"])
        obs.check(got["csv"] == got["prof"] == got["vtu"] == {"%04d" % i for i in range(n)}, "outputs are incomplete: %s" % {k: sorted(v) for k, v in got.items()})
        if stop is None:
            obs.check(r.code == 0, "a run whose pressure systems all have solutions ended with status %s: %s" % (r.code, r.err[-300:]))
            obs.check(n == steps + 1, "%d outputs for %d steps" % (n, steps))
        else:
            obs.check(r.code != 0, "step %d has a pressure system without a solution and the run ended with status 0" % (stop + 1))
            obs.check(n == stop + 1, "%d outputs were written, the run cannot go past step %d" % (n, stop))
            lines = [y for y in r.err.decode("utf-8", "replace").split("\n") if y.strip() and not re.match(r"^ *\d+: t=", y) and "Courant" not in y]
            obs.check(lines, "no message")
            obs.check(b"END SIMULATION" not in r.out, "the end of the simulation is announced as if it had succeeded")
        obs.step(n)
        obs.state(json.dumps(c))
        obs.outcome(c["kind"], stop, n)
        obs.nontrivial = stop is not None


class Refusals:
    """C22: arguments, inputs and output directory in every state; the whole tree before and after."""

    def prepare(self, b):
        return {"mps": b.mps()}

    def cases(self, tier):
        c = []
        sets = ["file", "abs", "absent", "dir", "link", "noarg", "deep"]
        outs = ["empty", "abs", "absent", "file", "same", "noarg", "blank", "readonly", "nested"]
        parts = ["here", "sub", "up", "absent", "link", "dots"]
        pres = ["none", "settings", "particles", "both", "dangling", "other", "old outputs", "settings dir", "empty settings", "empty particles", "identical settings", "identical particles", "identical both"]
        for s, o, p, e in itertools.product(sets, outs, parts, pres):
            if o in ("absent", "file", "noarg") and e != "none":
                continue
            if o in ("same",) and e != "none":
                continue
            bad = (s not in ("file", "abs", "link", "deep")) + (o not in ("empty", "abs", "blank", "nested")) + (p == "absent") + (e != "none")
            if bad > 1 and tier == "quick":
                continue
            for fmt in ("csv", "prof", "vtu") if tier == "thorough" or bad == 0 else ("csv",):
                c.append({"s": s, "o": o, "p": p, "e": e, "fmt": fmt})
        for fmt, sw in itertools.product(("csv", "prof", "vtu"), ("same", "second settings", "second particles", "changed")):
            c.append({"s": "file", "o": "empty", "p": "here", "e": "none", "fmt": fmt, "again": sw})
        for a in ([], ["-h"], ["-s"], ["-o"], ["-s", "set/s.yml"], ["-o", "out"], ["-s", "-o"], ["set/s.yml", "out"], ["-s", "set/s.yml", "-o", "out", "extra"], ["--setting", "set/s.yml", "--output", "out"],
                  ["-s", "set/s.yml", "-o"], ["-s", "", "-o", "out"], ["-s", "set/s.yml", "-o", ""], ["--nonsense"], ["-s", "set/s.yml", "-o", "out", "--nonsense", "1"]):
            c.append({"args": a})
        return c

    def run(self, c, d, env, obs):
        for n in ("set", "set/sub", "up", "out", "outer", "outer/deep", "out dir", "real"):
            (d / n).mkdir()
        ps = [[1, 0.0, 1.0, 0.0, 0.25, -0.5, 0.0], [3, 9.0, 3.0, 0.0, 0.0, 0.0, 0.0]]
        fmt = c.get("fmt", "csv")
        pname = "in." + fmt
        text = F.WRITERS[fmt](ps, 0.0)
        loc = {"here": "set/" + pname, "sub": "set/sub/" + pname, "up": "up/" + pname, "absent": None, "link": "real/" + pname, "dots": "set/" + pname}[c.get("p", "here")]
        ref = {"here": pname, "sub": "sub/" + pname, "up": "../up/" + pname, "absent": pname, "link": pname, "dots": "./sub/../" + pname}[c.get("p", "here")]
        if loc:
            (d / loc).write_text(text)
        if c.get("p") == "link":
            os.symlink("../real/" + pname, d / "set" / pname)
        stext = "# settings of this case\n" + F.settings(endTime="0.25", particlesPath=ref)
        s = c.get("s", "file")
        o = c.get("o", "empty")
        sname = "s.yml"
        sarg = {"file": "set/s.yml", "abs": str(d / "set/s.yml"), "absent": "set/none.yml", "dir": "set/sub", "link": "set/l.yml", "noarg": None, "deep": "set/./../set/s.yml"}[s]
        if s != "absent":
            (d / "set/s.yml").write_text(stext)
        if s == "link":
            (d / "set/s.yml").unlink()
            (d / "real/s.yml").write_text(stext)
            os.symlink("../real/s.yml", d / "set/l.yml")
            sname = "l.yml"
        oarg = {"empty": "out", "abs": str(d / "out"), "absent": "nowhere", "file": "afile", "same": "set", "noarg": None, "blank": "out dir", "readonly": "out", "nested": "outer/deep"}[o]
        (d / "afile").write_text("precious\n")
        odir = d / oarg if oarg and o not in ("absent", "file") else None
        e = c.get("e", "none")
        if odir is not None and o != "same":
            if e in ("settings", "both"):
                (odir / sname).write_text("old settings\n")
            if e in ("particles", "both"):
                (odir / pname).write_text("old particles\n")
            if e == "settings dir":
                (odir / sname).mkdir()
            if e == "empty settings":
                (odir / sname).write_text("")
            if e == "empty particles":
                (odir / pname).write_text("")
            if e in ("identical settings", "identical both"):
                (odir / sname).write_text(stext)
            if e in ("identical particles", "identical both"):
                (odir / pname).write_text(text)
            if e == "dangling":
                os.symlink("../elsewhere.yml", odir / sname)
            if e == "other":
                (odir / "notes.txt").write_text("notes\n")
                (odir / "prof").mkdir()
            if e == "old outputs":
                (odir / "prof").mkdir()
                (odir / "prof/notes.prof").write_text("notes\n")
        give(d)
        if o == "readonly":
            os.chmod(d / "out", 0o555)
            os.chown(d / "out", 0, 0) if os.geteuid() == 0 else None
        before = tree(d)
        if "args" in c:
            args = c["args"]
        else:
            args = (["-s", sarg] if sarg else []) + (["-o", oarg] if oarg else [])
        r = run([env["mps"], *args], d)
        after = tree(d)
        obs.note("%s: mps %s -> status %s, %s" % (json.dumps(c), " ".join(args), r.code, r.err[-150:].decode("utf-8", "replace").strip()))
        obs.step()
        obs.check(not r.timeout, "no end within the time limit")
        rel = os.path.relpath(odir, d) if odir is not None else None
        # nothing that was there changes, whatever happens; nothing appears outside the output directory
        for k, v in before.items():
            obs.check(after.get(k) == v, "%s was changed or removed" % k)
        new = [k for k in after if k not in before]
        outside = [k for k in new if rel is None or not (k + "/").startswith(rel + "/")]
        obs.check(not outside, "created outside the output directory: %s" % outside[:4])
        if "args" in c:
            good = c["args"] == ["--setting", "set/s.yml", "--output", "out"]
            if c["args"] == ["-h"]:
                obs.check(not new, "-h created %s" % new[:3])
                obs.nontrivial = True
                return
            rel = "out"
        else:
            good = s in ("file", "abs", "link", "deep") and o in ("empty", "abs", "blank", "nested") and c["p"] != "absent" and e in ("none", "other", "old outputs")
        if good:
            obs.check(r.code == 0, "a valid call failed with status %s: %s" % (r.code, r.err[-300:]))
            for n in (sname, pname):
                q = d / rel / n
                obs.check(q.is_file() and not q.is_symlink() and q.stat().st_nlink == 1, "%s in the output directory is no copy of its own" % n)
            obs.check((d / rel / sname).read_text() == stext, "the saved settings differ from the settings file")
            obs.check((d / rel / pname).read_text() == text, "the saved particle file differs from the particle file")
            got, _ = outputs(d / rel)
            obs.check(len(got["prof"]) == 2, "outputs are missing")
        else:
            obs.check(r.code != 0, "the program ended with status 0")
            obs.check(visible(r), "no message")
            if rel:
                got, _ = outputs(d / rel)
                if o != "same":
                    obs.check(not any(got.values()), "particle output was written although the run was refused")
        if c.get("again"):
            if c["again"] == "second settings":
                (d / "set/s2.yml").write_text(stext)
            if c["again"] == "second particles":
                (d / "set" / ("other." + fmt)).write_text(text)
                (d / "set/s2.yml").write_text(stext.replace(pname, "other." + fmt))
                shutil.copy(d / "set/s2.yml", d / "set/s.yml")
            if c["again"] == "changed":
                (d / "set/s.yml").write_text(stext + "# changed\n")
            give(d)
            before = tree(d)
            r = run([env["mps"], "-s", "set/s2.yml" if c["again"] == "second settings" else "set/s.yml", "-o", "out"], d)
            after = tree(d)
            obs.note("second run -> status %s" % r.code)
            obs.step()
            for k, v in before.items():
                obs.check(after.get(k) == v, "the second run changed %s" % k)
            obs.check(r.code != 0 and visible(r), "the second run into the same directory ended with status %s" % r.code)
        obs.state(json.dumps(c))
        obs.outcome(r.code, good)
        obs.nontrivial = True


class Twins:
    """C22: two programs started at once on one output directory, under every switch between them at file system calls."""
    need_cases = True

    def prepare(self, b):
        return {"mps": b.mps(), "twin": b.tool("twin")}

    PAIRS = {"same files": ("a/s.yml", "a/s.yml"), "same names": ("a/s.yml", "b/s.yml"), "same particles": ("a/s.yml", "b/t.yml"), "same settings name": ("a/s.yml", "c/s.yml")}

    def world(self, d):
        for k, (name, x) in {"a": ("in", 0.25), "b": ("in", -0.5), "c": ("other", 1.0)}.items():
            (d / k).mkdir()
            (d / k / (name + ".csv")).write_text(F.csv([[1, x, 1.0, 0.0, x, -0.5, 0.0]], 0.0))
            for y in ("s.yml", "t.yml"):
                (d / k / y).write_text("# %s/%s\n" % (k, y) + F.settings(endTime="0", particlesPath=name + ".csv", outputVtkInBinary="true"))
        (d / "out").mkdir()
        (d / "work").mkdir()
        give(d)

    def twin(self, d, env, pair, a, b):
        p, q = self.PAIRS[pair]
        r = run([env["twin"], d / "out", d / "log", a, b, d / "work", "--", env["mps"], "-s", p, "-o", "out", ":::", env["mps"], "-s", q, "-o", "out"], d, timeout=120)
        log = [x.split(" ") for x in (d / "log").read_text().splitlines()] if (d / "log").exists() else []
        ends = {int(x[1]): (int(x[3]) if x[2] == "exit" else -int(x[3]), int(x[4])) for x in log if x[0] == "end"}
        if r.timeout or r.code != 0 or len(ends) != 2:
            raise Violation("the two programs did not end: status %s, %s" % (r.code, ends)) if r.timeout else RuntimeError("twin ended with %s %s" % (r.code, r.err))
        return [ends[0][0], ends[1][0]], [ends[0][1], ends[1][1]]

    def cases(self, tier):
        import tempfile
        from explore import scratch_root
        out = []
        self.solo = {}
        for pair in self.PAIRS:
            lens = []
            for flip in (0, 1):
                root = scratch_root()
                try:
                    d = Path(tempfile.mkdtemp(dir=root))
                    os.chmod(d, 0o755)
                    self.world(d)
                    arg = self.PAIRS[pair][flip]
                    r = run([self.env["mps"], "-s", arg, "-o", "out"], d)
                    if r.code == 0:
                        self.solo[arg] = {k: (d / "out" / k).read_bytes() for k, v in tree(d / "out").items() if v[0] == "f"}
                    # number of calls of the first program before it starts its outputs, and in all
                    d2 = Path(tempfile.mkdtemp(dir=root))
                    os.chmod(d2, 0o755)
                    self.world(d2)
                    _, calls = self.twin(d2, self.env, pair, 0, 0)
                    lens.append(calls[0])
                finally:
                    shutil.rmtree(root, ignore_errors=True)
            m = min(max(lens), 24 if tier == "quick" else 400)
            out += [{"pair": pair, "a": a, "b": b} for a in range(1, m + 1) for b in range(0, m + 1 if tier == "quick" or m < 60 else 60)]
        return out

    def run(self, c, d, env, obs):
        self.world(d)
        before = {k: v for k, v in tree(d).items() if k[:2] in ("a/", "b/", "c/")}
        codes, calls = self.twin(d, env, c["pair"], c["a"], c["b"])
        args = self.PAIRS[c["pair"]]
        after = tree(d)
        obs.note("%s, first held before its call %d, second before its call %d -> statuses %s, calls %s" % (c["pair"], c["a"], c["b"], codes, calls))
        obs.step(2)
        for k, v in before.items():
            obs.check(after.get(k) == v, "the input %s was changed" % k)
        obs.check(codes.count(0) <= 1, "both programs reported success with the same output directory (%s)" % c["pair"])
        got = {k: (d / "out" / k).read_bytes() for k, v in after.items() for k in [os.path.relpath(d / k, d / "out")] if v[0] == "f" and not k.startswith("..")}
        for k in (0, 1):
            if codes[k] == 0:
                want = self.solo.get(args[k])
                if want is None:
                    continue
                for n, t in want.items():
                    obs.check(got.get(n) == t, "program %d reported success, but %s is not what it writes alone" % (k, n))
                obs.nontrivial = True
            else:
                obs.check((d / "work" / ("err.%d" % k)).stat().st_size > 0, "program %d failed without a message" % k)
        for n in got:
            if "/" not in n:
                obs.check(any(got[n] == w.get(n) for w in self.solo.values()), "the copy %s is that of neither program" % n)
        if 0 not in codes:
            obs.tag("both refused")
        obs.state(json.dumps(c["pair"]), codes, sorted(got))
        obs.outcome(codes, hashlib.sha256(repr(sorted(got.items())).encode()).hexdigest())


class Faults:
    """C23: every output system call of short runs fails, is cut short, or is the last before the program is killed."""
    need_cases = True
    KINDS = ["enospc", "eio", "partial", "full", "kill"]

    def prepare(self, b):
        return {"mps": b.mps(), "tracer": b.tool("tracer"), "load": b.program("loadone")}

    def setups(self, tier):
        s = [{"n": 2, "bin": 0, "fmt": "csv", "end": "0.125"}, {"n": 2, "bin": 1, "fmt": "prof", "end": "0.125"}, {"n": 0, "bin": 0, "fmt": "vtu", "end": "0.125"}, {"n": 90, "bin": 1, "fmt": "csv", "end": "0"}, {"n": 70, "bin": 0, "fmt": "csv", "end": "0"}]
        if tier == "thorough":
            s += [{"n": 5, "bin": 0, "fmt": "vtu", "end": "0.375"}, {"n": 5, "bin": 1, "fmt": "csv", "end": "0.375"}, {"n": 240, "bin": 0, "fmt": "csv", "end": "0"}, {"n": 171, "bin": 0, "fmt": "prof", "end": "0"}]
        return s

    def world(self, s, d):
        ps = [[1 + 2 * (i % 2), 3.0 * (i % 20) - 30, 3.0 * (i // 20) - 10, 0.0, 0.25 * (1 - i % 2), -0.5 * (1 - i % 2), 0.0] for i in range(s["n"])]
        (d / ("in." + s["fmt"])).write_text(F.WRITERS[s["fmt"]](ps, 0.0))
        (d / "s.yml").write_text(F.settings(endTime=s["end"], dt="0.125", outputPeriod="0.125", particlesPath="in." + s["fmt"], outputVtkInBinary="true" if s["bin"] else "false",
                                            pressureCalculationMethod="Explicit"))
        (d / "out").mkdir()
        give(d)

    def traced(self, s, d, env, kind, k):
        r = run([env["tracer"], d / "out", d / "log", kind, k, "--", env["mps"], "-s", "s.yml", "-o", "out"], d, timeout=120)
        log = (d / "log").read_text().splitlines() if (d / "log").exists() else []
        return r, log

    def cases(self, tier):
        # the undisturbed run of each setup gives the number of fault points; done here, in the parent
        import tempfile
        from explore import scratch_root
        out = []
        self.base = {}
        for i, s in enumerate(self.setups(tier)):
            root = scratch_root()
            try:
                d = Path(tempfile.mkdtemp(dir=root))
                os.chmod(d, 0o755)
                self.world(s, d)
                give(d)
                r, log = self.traced(s, d, self.env, "none", 0)
                if r.code != 0 or not log or not log[-1].startswith("end"):
                    # the program as it is does not complete: report through the first case
                    out.append({"setup": s, "kind": "none", "k": 0, "points": 0})
                    continue
                pts = [x.split(" ") for x in log if x[0].isdigit()]
                pts = [(p[1], os.path.relpath(p[2], d / "out"), int(p[3])) for p in pts]
                ref = {k: (d / "out" / k).read_bytes() for k, v in tree(d / "out").items() if v[0] == "f"}
                self.base[json.dumps(s)] = (pts, ref)
                out.append({"setup": s, "kind": "none", "k": 0, "points": len(pts)})
                for k in range(1, len(pts) + 1):
                    for kind in self.KINDS:
                        if kind == "full" and pts[k - 1][0] in ("close", "unlink"):
                            continue
                        if kind == "partial" and (pts[k - 1][0] not in ("write", "copy") or pts[k - 1][2] == 1):
                            continue
                        out.append({"setup": s, "kind": kind, "k": k})
            finally:
                shutil.rmtree(root, ignore_errors=True)
        return out

    def run(self, c, d, env, obs):
        s = c["setup"]
        key = json.dumps(s)
        self.world(s, d)
        give(d)
        r, log = self.traced(s, d, env, c["kind"], c["k"])
        if c["kind"] == "none" and key not in self.base:
            raise Violation("an undisturbed run ended with status %s: %s" % (r.code, r.err[-300:]))
        pts, ref = self.base[key]
        got = {k: (d / "out" / k).read_bytes() for k, v in tree(d / "out").items() if v[0] == "f"}
        here = [x.split(" ")[1:3] for x in log if x[0].isdigit()][:c["k"]]
        want = [[a, str(d / "out" / b) if b != "." else str(d / "out")] for a, b, _ in pts[:c["k"]]]
        if here[:c["k"]] != want:
            raise RuntimeError("the run does not repeat its system calls: %s / %s" % (here[-2:], want[-2:]))
        what = "call %d (%s)" % (c["k"], " ".join(map(str, pts[c["k"] - 1]))) if c["k"] else "no fault"
        obs.note("%s %s -> status %s, %s" % (c["kind"], what, r.code, r.err[-160:].decode("utf-8", "replace").strip()))
        obs.check(not r.timeout, "%s at %s: no end within the time limit" % (c["kind"], what))
        if c["kind"] == "kill":
            for k, v in got.items():
                if k.split("/")[0] not in ("prof", "csv", "vtu") or Path(k).suffix not in (".prof", ".csv", ".vtu") or v == ref.get(k):
                    continue
                a = run([env["load"], d / "out" / k], d)
                obs.tag("partial files loaded")
                if a.code != 0:
                    continue
                obs.check(k in ref, "killed before %s: %s would not exist in an undisturbed run but loads" % (what, k))
                (d / ("ref" + Path(k).suffix)).write_bytes(ref[k])
                b = run([env["load"], d / ("ref" + Path(k).suffix)], d)
                obs.check(b.code == 0 and a.out == b.out, "killed before %s: the incomplete file %s (%d of %d bytes) is accepted as a particle file" % (what, k, len(v), len(ref[k])))
        elif c["kind"] == "none":
            obs.check(r.code == 0 and got == ref, "two undisturbed runs differ")
        else:
            if r.code == 0:
                bad = [k for k in ref if got.get(k) != ref[k]]
                obs.check(not bad, "%s at %s: the program reported success, but %s is not what an undisturbed run writes" % (c["kind"], what, bad[:3]))
                obs.check(c["kind"] == "partial" or pts[c["k"] - 1][0] in ("mkdir", "unlink", "sync"), "%s at %s: the program reported success" % (c["kind"], what))
                obs.tag("recovered")
            else:
                obs.check(visible(r), "%s at %s: no message" % (c["kind"], what))
                obs.tag("failed visibly")
        obs.step()
        obs.state(key, c["k"], c["kind"])
        obs.outcome(r.code, sorted(got), r.err[-60:] if c["kind"] != "kill" else b"")
        obs.nontrivial = c["kind"] != "none"
