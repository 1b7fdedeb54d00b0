"""Properties of the generators and the scripts."""
import itertools
import json
import os
import shutil
import stat
from pathlib import Path

import build
import files as F
from cli import tree, visible
from explore import give, run

REPO = build.REPO


class Dialogue:
    """C24: every directory state, every answer sequence."""
    NAMES = ("dambreak", "hydrostatic")

    def prepare(self, b):
        return {"dambreak": b.generator("dambreak"), "hydrostatic": b.generator("hydrostatic"), "list": b.generator_tool("gendialogue")}

    def cases(self, tier):
        words = ["y", "Y", "n", "N", "x", "yes", "no", "1", "\u3042"]
        depth = 3 if tier == "quick" else 4
        seqs = [()]
        for k in range(1, depth + 1):
            seqs += list(itertools.product(words if k < 3 else words[:6] if k < 4 else words[:5], repeat=k))
        c = []
        for s in seqs:
            for end in ("\n", ""):
                if end == "" and not s:
                    continue
                for state in (("prof",), ("vtu",), ("prof", "vtu")) if len(s) < 3 else (("prof", "vtu"),):
                    c.append({"gen": self.NAMES[len(c) % 2], "state": list(state), "in": "\n".join(s) + end})
        for g in self.NAMES:
            for state in ([], ["csv"], ["dir"], ["none"], ["notes"], ["prof", "csv"], ["prof", "vtu", "csv", "notes"], ["link"], ["empty"], ["vtu", "empty"]):
                for i in ("", "n\n", "y\n", "x\ny\n", "x\nn\n", "\n\n  \ny\n", " N \n", "y", "yn", "n y\n", "x" * 5000 + "\ny\n", "\0\n", "no\nyes\nn\ny\n"):
                    c.append({"gen": g, "state": state, "in": i})
        exts = [[], [".prof"], [".vtu"], [".csv"], [".prof", ".vtu"], [".csv", ".prof", ".vtu"], [".csv", ".csv"], [".txt"], [".prof", ".txt"], [".txt", ".prof"], ["prof"], [""], [".PROF"], [".prof", "", ".csv"], [".vtu", ".csv"]]
        for e in exts:
            for state in (["none"], [], ["prof"], ["vtu"], ["csv"], ["prof", "vtu", "csv"], ["notes"], ["empty"]):
                for i in ("", "y\n", "n\n", "q\nY\n", "q\nN\n", "q\n"):
                    c.append({"gen": "list", "exts": e, "state": state, "in": i})
        return c

    def run(self, c, d, env, obs):
        gen = c["gen"]
        if gen == "list":
            where = Path("deep/input/here")
            exts = c["exts"]
            argv = [env["list"], str(where), *exts]
        else:
            where = Path("input") / gen
            exts = [".prof", ".vtu"]
            argv = [env[gen]]
        w = d / where
        st = c["state"]
        if "none" not in st:
            w.mkdir(parents=True)
        old = {}
        for s in st:
            if s in ("prof", "vtu", "csv"):
                old["input." + s] = b"my own %s\n" % s.encode()
            elif s == "empty":
                old["input.prof"] = b""
            elif s == "notes":
                old["notes.txt"] = b"notes\n"
            elif s == "dir":
                (w / "sub").mkdir()
        for k, v in old.items():
            (w / k).write_bytes(v)
        if "link" in st:
            (d / "target.prof").write_bytes(b"elsewhere\n")
            os.symlink(os.path.relpath(d / "target.prof", w), w / "input.prof")
            old["input.prof"] = b"elsewhere\n"
        give(d)
        before = tree(d)
        r = run(argv, d, stdin=c["in"].encode(), timeout=20)
        after = tree(d)
        obs.note(json.dumps(c)[:300] + " -> status %s" % r.code)
        obs.check(not r.timeout, "the generator does not terminate")
        obs.check(len(r.out) < 200000, "the generator asks without end")
        bad = not exts or any(e not in (".prof", ".vtu", ".csv") for e in exts)
        ask = not bad and any("input" + e in old for e in exts)
        write = not bad
        asked = 0
        if ask:
            write = False
            for t in c["in"].split():
                asked += 1
                if t in ("y", "Y"):
                    write = True
                    break
                if t in ("n", "N"):
                    break
        if not write:
            obs.check(before == after, "files were written or changed without a yes: %s" % sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))[:5])
        else:
            for e in set(exts):
                p = w / ("input" + e)
                obs.check(p.is_file(), "%s was not written (status %s: %s)" % (p.name, r.code, r.err[-200:]))
                obs.check(p.read_bytes() != old.get("input" + e), "%s was not overwritten after a yes" % p.name)
                t, ps = F.read_any(p)
                obs.check(t == 0 and len(ps) == (2 if gen == "list" else len(ps)) and ps, "%s holds %d particles at time %r" % (p.name, len(ps), t))
            touched = {str(where / ("input" + e)) for e in exts} | ({"target.prof"} if "link" in st else set())
            dirs = {str(p) for p in [where, *where.parents]}
            for k in set(before) | set(after):
                if before.get(k) != after.get(k):
                    obs.check(k in touched or (k in dirs and k not in before), "%s was written or changed; only %s were requested" % (k, exts))
            obs.check(r.code == 0, "status %s after writing" % r.code)
        if ask and not bad:
            obs.check(b"overwrite" in r.out.lower() or b"y/n" in r.out.lower(), "the question was not asked")
        elif not bad:
            obs.check(b"y/n" not in r.out.lower(), "a question was asked although no requested file exists")
        obs.step(1 + asked)
        obs.state(gen, sorted(st), exts, c["in"][:50])
        obs.outcome(write, ask, asked, r.code)
        obs.nontrivial = True


class Layout:
    """C25: every lattice site of and around each tank, against a description of its geometry."""
    # spacing, offset of the lattice, fluid box, empty box (inner tank), tank height; all in sites
    def prepare(self, b):
        return {"dambreak": b.generator("dambreak"), "hydrostatic": b.generator("hydrostatic"), "mps": b.mps(), "load": b.program("loadone")}

    def cases(self, tier):
        # each row and each column around the tank is a case; whole-file facts are one more case
        c = []
        for g, (x0, x1, y0, y1) in {"dambreak": (-10, 55, -10, 35), "hydrostatic": (-25, 24, -10, 60)}.items():
            for k in ("prof", "vtu"):
                c += [{"gen": g, "fmt": k, "row": y, "span": [x0, x1]} for y in range(y0, y1)]
                c.append({"gen": g, "fmt": k, "whole": [x0, x1, y0, y1]})
            c.append({"gen": g, "settings": 1})
        return c

    @staticmethod
    def want(g, i, j):
        """type at lattice site i, j, or None"""
        if g == "dambreak":  # site (i, j) is at (i l, j l), l = 0.025; inner width 0..40 sites, height 0..24
            if not (-4 <= i <= 44 and -4 <= j <= 24):
                return None
            if 0 <= i <= 40 and j >= 0:
                return 1 if i <= 10 and j <= 20 else None
            if j >= 22:
                return 2
            return 2 if -2 <= i <= 42 and j >= -2 else 3
        # site (i, j) is at ((i+1/2) l, (j+1/2) l), l = 0.012; inner width -15..14, height 0..49, water to 39
        if not (-19 <= i <= 18 and -4 <= j <= 49):
            return None
        if -15 <= i <= 14 and j >= 0:
            return 1 if j <= 39 else None
        return 2 if -17 <= i <= 16 and j >= -2 else 3

    SP = {"dambreak": (0.025, 0.0), "hydrostatic": (0.012, 0.5)}

    def run(self, c, d, env, obs):
        g = c["gen"]
        l0, off = self.SP[g]
        give(d)
        r = run([env[g]], d)
        obs.check(r.code == 0, "the generator failed: %s %s" % (r.code, r.err[-200:]))
        w = d / "input" / g
        for k in ("prof", "vtu"):
            obs.check((w / ("input." + k)).is_file(), "the generator wrote no input.%s" % k)
        fs = {k: F.read_any(w / ("input." + k)) for k in ("prof", "vtu")}
        obs.step()
        if "settings" in c:
            import yaml_lite
            s = yaml_lite.load((REPO / "input" / g / "settings.yml").read_text())
            obs.check(abs(float(s["particleDistance"]) - l0) < 1e-12, "the sample settings have the spacing %s, the generator %s" % (s["particleDistance"], l0))
            # run one step of the sample with each file: nobody may be outside the domain
            for k in ("prof", "vtu"):
                t = (REPO / "input" / g / "settings.yml").read_text()
                t = "\n".join(x for x in t.split("\n") if not x.startswith(("particlesPath", "endTime", "outputPeriod", "dt:", "outputVtkInBinary")))
                (d / (k + ".yml")).write_text(t + "\ndt: 1.0e-6\nendTime: 0.5e-6\noutputPeriod: 1.0e-9\nparticlesPath: input/%s/input.%s\n" % (g, k))
                (d / ("out" + k)).mkdir()
                give(d)
                r = run([env["mps"], "-s", k + ".yml", "-o", "out" + k], d)
                obs.check(r.code == 0, "the sample does not run: %s %s" % (r.code, r.err[-300:]))
                t, ps = F.read_any(d / ("out" + k) / "prof/output_0001.prof")
                obs.check([p[0] for p in ps] == [p[0] for p in fs[k][1]], "particles of the %s file are outside the domain of the sample settings and removed in the first step" % k)
            lo, hi = [[float(v) for v in s[n].strip("[]").split(",")] for n in ("domainMin", "domainMax")]
            for p in fs["prof"][1]:
                obs.check(all(lo[a] - 1e-9 <= p[1 + a] <= hi[a] + 1e-9 for a in range(3)), "particle %s is outside the domain %s to %s" % (p, lo, hi))
            obs.state(g, "settings")
            obs.nontrivial = True
            return
        t, ps = fs[c["fmt"]]
        site = {}
        for p in ps:
            i, j = p[1] / l0 - off, p[2] / l0 - off
            k = (round(i), round(j))
            obs.check(abs(i - k[0]) < 1e-4 and abs(j - k[1]) < 1e-4 and p[3] == 0, "particle %s is not on the lattice" % p)
            obs.check(k not in site, "two particles at site %s" % (k,))
            site[k] = p
            obs.check(p[4:] == [0, 0, 0], "particle %s is not at rest" % p)
        obs.check(t == 0, "the start time is %r" % t)
        if "whole" in c:
            obs.check(len(fs["prof"][1]) == len(fs["vtu"][1]) and all(a[0] == b[0] and all(F.near(u, v) for u, v in zip(a[1:], b[1:])) for a, b in zip(fs["prof"][1], fs["vtu"][1])), "the profile and the VTK file describe different particles")
            x0, x1, y0, y1 = c["whole"]
            obs.check(all(x0 <= i < x1 and y0 <= j < y1 for i, j in site), "particles far from the tank")
            n = sum(self.want(g, i, j) is not None for i in range(x0, x1) for j in range(y0, y1))
            obs.check(len(ps) == n, "%d particles, the tank has %d sites" % (len(ps), n))
            obs.state(g, c["fmt"], "whole")
        else:
            for i in range(*c["span"]):
                p = site.get((i, c["row"]))
                wnt = self.want(g, i, c["row"])
                obs.check((p[0] if p else None) == wnt, "site (%d, %d) of the %s tank holds %s, expected type %s (1 fluid, 2 wall, 3 dummy wall)" % (i, c["row"], g, p, wnt))
                obs.state(g, c["fmt"], i, c["row"])
                obs.step()
        obs.outcome(sorted((k[0], p[0]) for k, p in site.items() if k[1] == c.get("row")))
        obs.nontrivial = True


class ProfToCsv:
    """C26: every small profile file converted and both loaded."""

    def prepare(self, b):
        return {"script": REPO / "scripts" / "prof_to_csv.sh", "load": b.program("loadone")}

    def cases(self, tier):
        vals = ["0", "-0.5", "1e-05", "123456", "-2.5e+06", "0.025", "7", "-0.12345678901234567", "3E-07"]
        c = []
        endings = ["\n", "", "\n\n", "\n\n\n"]
        times = ["0", "0.5", "1.25e-05", "12"]
        for n in range(0, 5):
            for e, t, mid in itertools.product(endings, times, (0, 1, 2)):
                for salt in range(3 if tier == "quick" else 14):
                    rows = [[str((i + salt) % 4)] + [vals[(i * 5 + k * 2 + salt) % 9] for k in range(6)] for i in range(n)]
                    c.append({"rows": rows, "end": e, "time": t, "mid": mid, "name": "plain" if salt % 2 else "with blank"})
        for f, v, ty in itertools.product(range(6), vals, range(4)):  # each value in each field of each type
            for last in (0, 1):
                rows = [["1", "1", "2", "3", "4", "5", "6"], ["2", "0", "0", "0", "0", "0", "0"]]
                rows[last][0] = str(ty)
                rows[last][1 + f] = v
                c.append({"rows": rows, "end": "" if f % 2 else "\n", "time": "0.5", "mid": 0, "name": "plain"})
        for n, e in itertools.product((2, 3, 5), endings):  # the same line several times
            row = ["1", "0.5", "-0.25", "0", "0", "1e-05", "0"]
            c.append({"rows": [row] * n, "end": e, "time": "0.5", "mid": 0, "name": "plain"})
            c.append({"rows": [["2"] + row[1:], row, row, ["2"] + row[1:]][:n], "end": e, "time": "0", "mid": 0, "name": "plain"})
        c.append({"rows": [[str(i % 4), str(i), "0", "0", "-%d" % i, "0", "1e-%02d" % (i % 30)] for i in range(300)], "end": "\n", "time": "3", "mid": 0, "name": "plain"})
        for n in (9, 10, 11, 99, 100, 101, 1100):
            c.append({"rows": [[str((i * i) % 4), "%d.5" % (n - i), "-0.25", "0", "%d" % i, "1e-05", "-3"] for i in range(n)], "end": "", "time": "0.75", "mid": 0, "name": "with blank"})
        for fs in ([], ["in.prof"], ["in.prof", "out.csv", "x"], ["in.prof", "out.csv", "", ""]):
            c.append({"args": fs})
        for over in (0, 1):
            c.append({"rows": [["1", "1", "2", "3", "4", "5", "6"]], "end": "\n", "time": "0", "mid": 0, "name": "plain", "over": 1, "cwd": over})
        for k in ("dambreak", "hydrostatic"):
            c.append({"sample": k})
        return c

    def run(self, c, d, env, obs):
        if "args" in c:
            (d / "in.prof").write_text("0\n1\n1 0 0 0 0 0 0\n")
            give(d)
            before = tree(d)
            r = run(["bash", env["script"], *c["args"]], d)
            obs.check(r.code != 0, "status 0 with %d arguments" % len(c["args"]))
            obs.check(tree(d) == before, "something was written")
            obs.state(json.dumps(c))
            obs.nontrivial = True
            return
        if "sample" in c:
            name, text = "s", (REPO / "input" / c["sample"] / "input.prof").read_text()
            L = text.split("\n")
            time, rows = L[0], [x.split() for x in L[2:] if x.strip()]
        else:
            name, rows, time = c["name"], c["rows"], c["time"]
            text = "%s\n%d\n" % (time, len(rows)) + ("\n" if c["mid"] == 1 and rows else "") + ("\n\n" if c["mid"] == 2 else "\n").join(" ".join(r) for r in rows) + (c["end"] if rows else "")
        src, dst = d / (name + ".prof"), d / ("%s result.csv" % name)
        src.write_text(text)
        if c.get("over"):
            dst.write_text("old content\n" * 50)
        (d / "sub").mkdir()
        give(d)
        r = run(["bash", env["script"], src, dst] if not c.get("cwd") else ["bash", env["script"], "../" + src.name, "../" + dst.name], d / "sub" if c.get("cwd") else d)
        obs.note("%r -> %r" % (text[:200], dst.read_text()[:200] if dst.exists() else None))
        obs.check(r.code == 0, "status %s: %s" % (r.code, r.err[-200:]))
        obs.check(src.read_text() == text, "the profile file was changed")
        obs.check(dst.exists(), "no CSV file")
        L = dst.read_text().split("\n")
        obs.check(L[0].strip() == time, "start time %r, expected %r" % (L[0], time))
        obs.check(float(L[1]) == len(rows), "declares %r particles, expected %d" % (L[1], len(rows)))
        H = L[2].split(",")
        body = [x for x in L[3:] if x.strip()]
        obs.check(len(body) == len(rows), "%d particles in the CSV file, %d in the profile file" % (len(body), len(rows)))
        for i, (x, w) in enumerate(zip(body, rows)):
            f = dict(zip(H, x.split(",")))
            got = [f.get(k) for k in ("type", "x", "y", "z", "vx", "vy", "vz")]
            obs.check(None not in got and int(got[0]) == int(w[0]) and all(float(u) == float(v) for u, v in zip(got[1:], w[1:])), "particle %d became %s, it was %s" % (i, x, " ".join(w)))
        a, b = run([env["load"], src], d), run([env["load"], dst], d)
        obs.check(a.code == 0, "the profile file does not load: %s" % a.err[-200:])
        obs.check(b.code == 0, "the CSV file does not load: %s" % b.err[-200:])
        pa, pb = a.out.decode().split("\n"), b.out.decode().split("\n")
        same = len(pa) == len(pb) and all(len(u.split()) == len(v.split()) and all(F.near(float(p), float(q), 1e-13) for p, q in zip(u.split(), v.split())) for u, v in zip(pa, pb))
        obs.check(same, "the profile file and the CSV file load differently: %r / %r" % (a.out[:300], b.out[:300]))
        obs.step()
        obs.state(text)
        obs.outcome(b.out)
        obs.nontrivial = True


STUB_RM = """#!/bin/bash
# records what it was asked to remove; removes only inside the case's own directory
end=0
for a in "$@"; do
  if [ $end = 0 ] && [ "$a" = "--" ]; then end=1; continue; fi
  if [ $end = 0 ] && [[ "$a" == -* ]]; then continue; fi
  r=$(/usr/bin/realpath -ms -- "$a")
  printf '%s\\0%s\\0' "$(/usr/bin/basename "$0")" "$r" >> "$MC_LOG"
  case "$r" in "$MC_ROOT"/*) /bin/rm -rf -- "$r";; esac
done
exit 0
"""
STUB_MPS = """#!/bin/bash
printf 'mps\\0%s\\0' "$(/bin/pwd -P)" >> "$MC_LOG"
for a in "$@"; do printf 'arg\\0%s\\0' "$a" >> "$MC_LOG"; done
echo "console text"
echo "error text" >&2
"""
STUB_DATE = """#!/bin/bash
# every further reading within one run is a second later
n=$(/bin/cat "$MC_ROOT/dates" 2>/dev/null || echo 0)
echo $((n + 1)) > "$MC_ROOT/dates"
echo $((MC_DATE + n))
"""


class Runners:
    """C27: project paths, call forms, calling directories, earlier results."""

    def prepare(self, b):
        return {}

    def cases(self, tier):
        c = []
        projects = ["plain", "with blank", "a b c", "star*x", "-dash", "deep/er", "quote'd", "dollar$HOME", "tab\tx", "result", "(p)", "x;y"]
        forms = ["abs", "root", "scripts", "elsewhere", "link", "dirlink", "path", "bash", "bash rel", "linklink", "dot dot"]
        results = ["none", "empty", "old", "nasty", "resultfile"]
        env = ["", "CDPATH", "HOME"]
        for p, f, r, e in itertools.product(projects, forms, results, env):
            if tier == "quick" and e and (r != "old"):
                continue
            c.append({"script": "runner.sh", "project": p, "form": f, "results": r, "env": e})
        for p, f, r in itertools.product(projects, forms, ("none", "old", "nasty")):
            for a in ([], [""], ["dambreak"], ["dambreak", "--note", "first_try"], ["other"], ["dambreak", "--note"], ["dambreak", "x", "y"],
                      ["dambreak", "--note", "first try"], ["dambreak", "--note", " * -rf $HOME;x'"], ["my  case"], ["my  case", "--note", "a b"]):
                if tier == "quick" and f not in ("abs", "elsewhere", "link", "scripts") and a != ["dambreak"]:
                    continue
                c.append({"script": "safe_runner.sh", "project": p, "form": f, "results": r, "env": "", "args": a})
        for p in projects[:4]:  # called twice, and for two projects in turn
            c.append({"script": "runner.sh", "project": p, "form": "abs", "results": "old", "env": "", "twice": 1})
            c.append({"script": "safe_runner.sh", "project": p, "form": "abs", "results": "old", "env": "", "args": ["dambreak"], "twice": 1})
            for a in (["dambreak"], ["my  case"], ["dambreak", "--note", "a b"]):  # again within the same second
                c.append({"script": "safe_runner.sh", "project": p, "form": "abs", "results": "old", "env": "", "args": a, "twice": 2})
        return c

    def run(self, c, d, env, obs):
        uid = 30000 + os.getpid() % 20000 if os.geteuid() == 0 else None
        proj = d / "home" / c["project"]
        proj.mkdir(parents=True)
        shutil.copytree(REPO / "scripts", proj / "scripts")
        for f in (proj / "scripts").iterdir():
            f.chmod(0o755)
        for n in ("dambreak", "hydrostatic", "other", "my  case"):
            (proj / "input" / n).mkdir(parents=True)
            (proj / "input" / n / "settings.yml").write_text("settings of " + n)
            (proj / "input" / n / "input.prof").write_text("particles of " + n)
        (proj / "build").mkdir()
        (proj / "build/mps").write_text(STUB_MPS)
        (proj / "build/mps").chmod(0o755)
        (proj / "README").write_text("readme")
        (proj / "src").mkdir()
        (proj / "src/main.cpp").write_text("source")
        call = d / "call"
        call.mkdir()
        # decoys: wherever a wrong directory could lead
        for base in (call, d, d / "home", d / "home/with", d / "home/a", d / "home/b", proj / "scripts", d / "cd"):
            for n in ("result/dambreak/keep.txt", "result/hydrostatic/keep.txt", "input/dambreak/keep.txt", "build/keep"):
                q = base / n
                q.parent.mkdir(parents=True, exist_ok=True)
                q.write_text("keep")
        for base in (proj / "result/hydrostatic", proj / "result/2024-dambreak-"):
            base.mkdir(parents=True)
            (base / "keep.txt").write_text("keep")
        res = proj / "result/dambreak"
        old = []
        if c["results"] != "none":
            if c["results"] == "resultfile":
                (proj / "result/dambreak.txt").write_text("not a result of the run")
            res.mkdir(parents=True)
        if c["results"] in ("old", "nasty"):
            for n in ("settings.yml", "prof/output_0000.prof", "console.log"):
                (res / n).parent.mkdir(parents=True, exist_ok=True)
                (res / n).write_text("old result")
                old.append(n.split("/")[0])
        if c["results"] == "nasty":
            for n in ("with blank", "-rf", "star*", "sub dir/x"):
                (res / n).parent.mkdir(parents=True, exist_ok=True)
                (res / n).write_text("old result")
                old.append(n.split("/")[0])
            os.symlink(call / "result/dambreak", res / "link to elsewhere")
            old.append("link to elsewhere")
        bin_ = d / "bin"
        bin_.mkdir()
        for n in ("rm", "rmdir", "unlink", "shred"):
            (bin_ / n).write_text(STUB_RM)
            (bin_ / n).chmod(0o755)
        (bin_ / "date").write_text(STUB_DATE)
        (bin_ / "date").chmod(0o755)
        log = d / "log"
        log.write_bytes(b"")
        script = proj / "scripts" / c["script"]
        form = c["form"]
        cwd, argv = call, None
        rel = os.path.relpath(script, call)
        if form == "abs":
            argv = [str(script)]
        elif form == "root":
            cwd, argv = proj, ["scripts/" + c["script"]]
        elif form == "scripts":
            cwd, argv = proj / "scripts", ["./" + c["script"]]
        elif form == "elsewhere":
            argv = ["./" + rel]
        elif form == "link":
            os.symlink(script, call / "go")
            argv = ["./go"]
        elif form == "linklink":
            (d / "l2").mkdir()
            os.symlink(os.path.relpath(script, d / "l2"), d / "l2/one")
            os.symlink("../l2/one", call / "two")
            argv = ["./two"]
        elif form == "dirlink":
            os.symlink(proj, call / "pl")
            argv = ["pl/scripts/" + c["script"]]
        elif form == "path":
            argv = ["bash", "-c", 'PATH="%s:$PATH"; %s "$@"' % (str(proj / "scripts").replace("$", "\\$"), c["script"]), "x"]
        elif form == "bash":
            argv = ["bash", str(script)]
        elif form == "bash rel":
            cwd, argv = proj / "scripts", ["bash", c["script"]]
        elif form == "dot dot":
            cwd, argv = proj / "src", ["../scripts/" + c["script"]]
        argv += c.get("args", [])
        e = {"MC_LOG": str(log), "MC_ROOT": str(d), "MC_DATE": "20260101000000", "PATH": "%s:/usr/local/bin:/usr/bin:/bin" % bin_}
        if c["env"] == "CDPATH":
            e["CDPATH"] = "%s:%s" % (d / "cd", call)
        if c["env"] == "HOME":
            e["HOME"] = str(d / "cd")
        give(d, uid)
        safe = c["script"] == "safe_runner.sh"
        for turn in range(2 if c.get("twice") else 1):
            e["MC_DATE"] = "2026010100000%d" % (turn if c.get("twice") == 1 else 0)
            log.write_bytes(b"")
            (d / "dates").write_bytes(b"0\n")
            give(d / "dates", uid)
            before = tree(d)
            r = run(argv, cwd, env=e, timeout=60, user=uid)
            after = tree(d)
            rec = log.read_bytes().decode().split("\0")[:-1]
            rec = list(zip(rec[::2], rec[1::2]))
            obs.note("%s -> status %s, %s" % (json.dumps(c), r.code, rec[:6]))
            pr = os.path.relpath(res, d)
            removed = [t for k, t in rec if k not in ("mps", "arg")]
            calls = [i for i, (k, _) in enumerate(rec) if k == "mps"]
            gone = [k for k in before if k not in after]
            changed = [k for k in before if k in after and before[k] != after[k] and k not in ("log", "dates")]
            new = [k for k in after if k not in before]
            obs.step(len(rec) + 1)
            if safe:
                obs.check(not removed and not gone, "the safe runner removed %s" % (removed or gone)[:3])
                obs.check(not changed, "the safe runner changed %s" % changed[:3])
                if not c["args"] or not c["args"][0]:
                    obs.check(not rec and not new, "without a project name it did something: %s %s" % (rec[:3], new[:3]))
                    obs.check(r.code != 0, "without a project name it ended with status 0")
                    continue
                if turn and c["twice"] == 2:  # a directory of its own, or none
                    fresh = [k for k in new if "/result/" in k]
                    if not calls:
                        obs.check(r.code != 0 and not new, "a second run within one second was not made, but ended with status %d and created %s" % (r.code, new[:3]))
                        continue
                    top = os.path.commonpath(fresh) if fresh else ""
                    obs.check(os.path.dirname(top) == os.path.relpath(proj / "result", d), "a second run within one second has no result directory of its own: %s" % new[:3])
                    used = [v for k, v in rec[calls[0] + 1:] if k == "arg"]
                    obs.check(os.path.normpath(used[used.index("--output") + 1] if "--output" in used else used[used.index("-o") + 1]) == "result/" + os.path.basename(top), "the second run goes to %s" % used)
                    continue
                out = "result/%s-%s-%s" % (e["MC_DATE"], c["args"][0], c["args"][2] if len(c["args"]) == 3 and c["args"][1] == "--note" else "")
                setf = "input/%s/settings.yml" % c["args"][0]
            else:
                inside = [t for t in removed if t.startswith(str(res) + "/")]
                obs.check(removed == inside, "asked to remove %s, outside the project's result directory" % [t for t in removed if t not in inside][:3])
                obs.check(all(k.startswith(pr + "/") for k in gone), "removed %s" % [k for k in gone if not k.startswith(pr + "/")][:3])
                obs.check(all(k.startswith(pr + "/") for k in changed), "changed %s" % [k for k in changed if not k.startswith(pr + "/")][:3])
                if turn == 0:
                    left = [n for n in old if n != "console.log" and (pr + "/" + n) in after]
                    obs.check(not left, "old results were left: %s" % left[:3])
                out, setf = "result/dambreak", "input/dambreak/settings.yml"
            ro = os.path.relpath(proj / out, d)
            obs.check(all(k == ro or k.startswith(ro + "/") or k in (os.path.relpath(proj / "result", d),) for k in new), "created %s" % [k for k in new if not k.startswith(ro)][:3])
            obs.check(len(calls) == 1, "the program was started %d times" % len(calls))
            where = rec[calls[0]][1]
            obs.check(where == os.path.realpath(proj), "the program was started in %s" % where)
            args = [v for k, v in rec[calls[0] + 1:] if k == "arg"]
            opt = {}
            for a, b in zip(args[::2], args[1::2]):
                opt[{"-s": "--setting", "-o": "--output"}.get(a, a)] = os.path.normpath(os.path.join(where, b))
            obs.check(opt == {"--setting": os.path.join(where, setf), "--output": os.path.join(where, out)}, "the program was started with %s" % args)
        obs.state(json.dumps(c))
        obs.outcome(c["script"], len(removed), len(new), r.code)
        obs.nontrivial = True
