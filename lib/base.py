"""Building, running TLC, evidence and verdicts."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla"
CORES = os.cpu_count() or 4


class Violation(Exception):
    def __init__(self, what, data=None):
        super().__init__(what)
        self.what = what
        self.data = data


class ToolError(Exception):
    pass


class Enough(Exception):
    """Nothing more to find out once there is a violation."""


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "out", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.cover = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.errors = []
        self.level = "model_checking"
        self.hooks = None
        self.known_list = read_known(prop)
        self._built = None

    @property
    def quick(self):
        return self.tier == "quick"

    def left(self):
        """Seconds of the time this check allows itself."""
        return (100 if self.quick else 420) - (time.time() - self.t0)

    def count(self, **kw):
        for k, v in kw.items():
            self.cover[k] = self.cover.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    # ---- building -------------------------------------------------------
    def harness(self):
        if self._built:
            return self._built
        target = os.path.join(ROOT, "harness", "target")
        # cargo goes by modification times, which say nothing about content
        for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "cyphus-diffeq-*")):
            shutil.rmtree(d, ignore_errors=True)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true",
                   RUSTUP_TOOLCHAIN=os.environ.get("RUSTUP_TOOLCHAIN", "stable"))
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
        log = ""
        for flags, hooks in (("--cfg verif_hooks", True), ("", False)):
            env["RUSTFLAGS"] = flags
            p = subprocess.run(["cargo", "build", "--offline", "--quiet"], env=env,
                               cwd=os.path.join(ROOT, "harness"), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode == 0:
                self.hooks = hooks
                self._built = os.path.join(target, "debug", "vh")
                return self._built
            log += p.stdout
        raise ToolError("harness does not build:\n" + log[-4000:])

    def vh(self, name, timeout=300, **args):
        """Runs the harness into a file of JSON lines; goes on behind scenarios
        that do not come back."""
        exe = self.harness()
        if self.violations:
            raise Enough()
        path = os.path.join(self.work, name + ".json")
        args = dict(args, out=path, seed=args.get("seed", self.seed),
                    total=int(max(20, min(90, self.left() / 2))))
        start, hangs = args.pop("from_", 0), 0
        args["from"] = start
        while True:
            try:
                p = subprocess.run([exe] + ["%s=%s" % kv for kv in args.items()], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                self.errors.append("harness timed out (%s)" % name)
                break
            if p.returncode == 77:
                hangs += 1
                args["from"] = int(p.stdout.split()[-1]) + 1
                if hangs >= 3:
                    break
                continue
            if p.returncode != 0:
                self.errors.append("harness failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
            break
        if not os.path.exists(path):
            return []
        with open(path) as f:
            lines = [l for l in f if l.endswith("}\n")]
        os.unlink(path)
        return lines

    def classes(self):
        d = os.path.join(self.work, "classes")
        if not os.path.isdir(d):
            os.makedirs(d)
            p = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", d,
                                os.path.join(SPEC, "F64Overrides.java")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            if p.returncode != 0:
                raise ToolError("javac: " + p.stdout[-2000:])
        return d

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, name, workers=CORES, timeout=600, f64=False, opts=(), heap="3g"):
        """Runs TLC in a directory of its own; returns (status, generated,
        distinct, output)."""
        if self.violations:
            raise Enough()
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        cp = [TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4"]
        if f64:
            cp.append(self.classes())
            cmd.append("-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:F64Overrides")
        cmd += ["-Djava.io.tmpdir=" + d, "-cp", ":".join(cp), "tlc2.TLC", "-workers", str(workers),
                "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock"]
        cmd += list(opts) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s (%s)" % (module, name))
        out = p.stdout
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", out)
        gen, dist = [int(x.replace(",", "")) for x in m[-1]] if m else (0, 0)
        if p.returncode == 0 and "No error has been found" in out:
            st = "ok"
        elif "is violated" in out or "was violated" in out:
            st = "violated"
        elif p.returncode == 0 and "-simulate" in opts:
            st = "ok"
        else:
            st = "error"
        return st, gen, dist, out

    def model(self, module, consts, invariants=(), properties=(), constraint=None, timeout=600, name=None, f64=False):
        """Checks a model; the model is ours, so anything but success is an
        error of the check."""
        cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items())
        if invariants:
            cfg += "INVARIANTS " + " ".join(invariants) + "\n"
        if properties:
            cfg += "PROPERTIES " + " ".join(properties) + "\n"
        if constraint:
            cfg += "CONSTRAINT " + constraint + "\n"
        st, gen, dist, out = self.tlc(module, cfg, name or "mc-" + module, timeout=timeout, f64=f64)
        if st != "ok" or gen == 0:
            raise ToolError("model %s: %s\n%s" % (module, st, out[-3000:]))
        self.count(states=dist, transitions=gen)
        self.cover.setdefault("models", []).append(
            "%s %s: %d states, %s" % (module, consts, dist, " ".join(tuple(invariants) + tuple(properties))))
        return out

    def refute(self, module, consts, claims, f64=False):
        """Claims that must fail, lest the model be vacuous or its properties
        weak: (invariant or temporal property, changed constants)."""
        for name, change in claims:
            kind = "PROPERTIES" if name.startswith("P:") else "INVARIANTS"
            claim = name.split(":")[-1]
            cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in dict(consts, **change).items())
            st, gen, dist, out = self.tlc(module, cfg + "%s %s\n" % (kind, claim), "rf-%s-%s" % (module, claim), f64=f64)
            if st != "violated" or claim not in out:
                raise ToolError("model %s: %s with %s is not refuted\n%s" % (module, claim, change, out[-2000:]))
            self.cover.setdefault("refuted", []).append("%s %s %s" % (module, claim, change or ""))

    def traces(self, lines, module="TraceRun", expect=None, size=None):
        """Validates recorded behaviours against a trace specification. expect
        gives the number of states of one record."""
        if not lines:
            return
        self.classes()
        expect = expect or (lambda r: len(r.get("steps", [])) + 1)
        # Starting TLC costs more than a hundred records.
        par = 4
        k = min(len(lines), max(par, sum(map(len, lines)) // 100000000 + 1))
        if size:
            k = (len(lines) + size - 1) // size
        chunks = [lines[i::k] for i in range(k)]
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            for r in ex.map(lambda c: self._chunk(c[1], module, expect, "tr%s-%d" % (module, c[0])),
                            list(enumerate(chunks))):
                pass
        if self.violations:
            raise Enough()

    def _chunk(self, lines, module, expect, name):
        if self.violations or not lines:
            return
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "trace.json")
        with open(path, "w") as f:
            f.writelines(lines)
        cfg = 'INIT Init\nNEXT Next\nCONSTANTS\n  TraceFile = "%s"\n  Prop = "%s"\nINVARIANT Good\n' % (path, self.prop)
        st, gen, dist, out = self.tlc(module, cfg, name, workers=max(2, CORES // 4), f64=True)
        if st == "ok":
            want = sum(expect(json.loads(l)) for l in lines)
            if dist != want:
                raise ToolError("%s: %d states instead of %d" % (name, dist, want))
            self.count(states=dist, transitions=gen, traces_validated_against_impl=len(lines))
        elif st == "violated":
            s = int(re.findall(r"/\\ s = (\d+)", out)[-1])
            i = int(re.findall(r"/\\ i = (\d+)", out)[-1])
            tail = out[out.rindex("/\\ bad"):]
            why = [w for p, w in re.findall(r'<<"(C\d+)",\s*"([^"]*)">>', tail) if p == self.prop]
            rec = json.loads(lines[s - 1])
            self._found(module, rec, i, why, lines[s - 1])
            if not self.violations:  # a known finding: go on without this record
                self._chunk(lines[:s - 1] + lines[s:], module, expect, name + "k")
        elif "Parsing or semantic analysis failed" in out:
            raise ToolError("%s: %s" % (module, out[-2500:]))
        elif len(lines) > 1:
            h = len(lines) // 2
            self._chunk(lines[:h], module, expect, name + "a")
            self._chunk(lines[h:], module, expect, name + "b")
        else:
            self.errors.append("TLC cannot evaluate record %s: %s" % (lines[0][:300], out[-2500:]))
        shutil.rmtree(d, ignore_errors=True)

    def _found(self, module, rec, i, why, line):
        what = "; ".join(why) or "rejected by " + module
        for k in self.known_list:
            if k and k in what:
                self.known.append("%s (%s)" % (what, rec.get("id")))
                return
        self.violate(what, {"id": rec.get("id"), "record": i, "why": why, "module": module,
                            "case": rec["cases"][i - 1] if rec.get("cases") and i else None,
                            "what": rec.get("what"), "end": rec.get("end"), "msg": rec.get("msg"),
                            "trace": line if len(line) < 3000000 else line[:100000]})

    def violate(self, what, data=None):
        self.violations.append((what, data))

    # ---- verdict --------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        self.cover["samples"] = self.samples or ["none"]
        if self.hooks is False:
            self.assumptions.append("built without hooks: internal routines were not exercised")
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": self.cover,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            what, data = self.violations[0]
            rd = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.json" % (self.prop, self.seed))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "what": what,
                           "again": "VERIF_SEED=%d ./check.py %s %s" % (self.seed, self.prop, self.tier),
                           "data": data}, f, indent=1)
            print("%s: %s" % (self.prop, what))
            if isinstance(data, dict):
                for k in ("id", "record", "what", "case"):
                    if data.get(k) is not None:
                        print("  %s: %s" % (k, str(data[k])[:2000]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.errors:
            for e in self.errors[:3]:
                print("ERROR " + e)
            return 2
        print("%s held: %s (%.0f s)" % (self.prop, {k: v for k, v in self.cover.items() if isinstance(v, int)}, wall))
        return 0


def read_known(prop):
    out = []
    try:
        with open(os.path.join(ROOT, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"KNOWN-FINDING: property=(\S+) (.*\S)", l)
                if m and m[1] == prop:
                    out.append(m[2])
    except FileNotFoundError:
        pass
    return out
