"""Machinery shared by the checks: build a driver against /repo's working tree, run it to
record traces of the real code, and let TLC decide whether each trace is a behaviour of the
TLA+ specification; run TLC on the design models; keep count; report.

Outcomes of a check: exit 0 (held on everything explored), exit 1 with a VIOLATION line, or
exit 2 (the check itself could not be carried out)."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


def _cpu_flags():
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return set(line.split())
    except OSError:
        pass
    return set()


def march_flags():
    need = {"avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl", "avx512_vnni"}
    if need <= _cpu_flags():
        return ["-march=x86-64-v4", "-mavx512vnni"]
    return ["-march=x86-64-v3"]


BASE_FLAGS = [
    "-std=gnu++20", "-DSVS_VERSION_MAJOR=0", "-DSVS_VERSION_MINOR=0",
    "-DSVS_VERSION_PATCH=4", "-DSVS_HAVE_MKL=0", "-DSVS_ENABLE_NUMA=0",
    "-DSVS_INITIALIZE_LOGGER=1", "-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB",
    "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB", "-DSVS_CHECK_BOUNDS=1",
    "-DSVS_VERIF_HOOKS=1", "-w",
]
RECPAR = 2
# Seconds without a new event after which a driver is said to hang (an event takes far less
# than a second; tens of seconds on a machine that does much else).
STALL_QUICK, STALL = 150, 600
LIBS = ["-lspdlog", "-lfmt", "-lpthread", "-ldl"]


class CheckError(Exception):
    """The check could not be carried out (not a verdict on the code)."""


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.assumptions = []
        self.models = []
        self.extra = {}
        self.violations = []
        self.known = []
        self.quick = self.tier == "quick"
        self.hung = False
        self.workers = min(8, os.cpu_count() or 4)
        self.build_s = 0.0

    # ------------------------------------------------------------------ building
    def build(self, driver, flags=(), name=None, opt="-O1", hooks=True, march=None):
        """Compile drivers/<driver>.cpp against /repo's current headers."""
        src = os.path.join(DRIVERS, driver + ".cpp")
        base = [f for f in BASE_FLAGS if hooks or "HOOKS" not in f]
        cmd = ["g++"] + base + (march or march_flags()) + [opt, "-g1"] + list(flags) + [
            "-I", os.path.join(REPO, "include"), "-I", DRIVERS,
            "-isystem", "/opt/vp/deps/tomlplusplus/include"]
        out = os.path.join(self.work, name or driver)
        cache = self._cache_path(cmd, src)
        if cache and os.path.exists(cache):
            shutil.copy2(cache, out)
            return out
        t = time.time()
        p = subprocess.run(cmd + [src, "-o", out] + LIBS, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        self.build_s += time.time() - t
        if p.returncode != 0:
            raise CheckError("building %s failed:\n%s" % (driver, p.stdout[-6000:]))
        if cache:
            try:
                os.makedirs(os.path.dirname(cache), exist_ok=True)
                tmp = cache + ".%d" % os.getpid()
                shutil.copy2(out, tmp)
                os.replace(tmp, cache)
            except OSError:
                pass
        return out

    def build_all(self, specs):
        """specs: list of dicts of build() arguments; built in parallel."""
        with cf.ThreadPoolExecutor(self.workers) as ex:
            futs = [ex.submit(self.build, **s) for s in specs]
            return [f.result() for f in futs]

    def _cache_path(self, cmd, src):
        if os.environ.get("VERIF_CACHE", "0") != "1":
            return None
        h = hashlib.sha256()
        h.update("\0".join(cmd).encode())
        files = [src, os.path.join(DRIVERS, "common.h")]
        for d in (os.path.join(REPO, "include"), DRIVERS):
            for root, _, names in os.walk(d):
                files += [os.path.join(root, n) for n in names if n.endswith((".h", ".hpp"))]
        for f in sorted(set(files)):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
        return os.path.join(VERIF, "build", h.hexdigest()[:32])

    # ------------------------------------------------------------------ running
    def run_driver(self, exe, args, timeout=120, env=None, cwd=None, watch=None):
        """Run a driver; returns (status, output): status 'ok', 'crash', 'hang' or 'stop'.
        A driver writes (and flushes) one line per event to the file `watch`: one that has
        written nothing for a long time hangs."""
        e = dict(os.environ)
        e.setdefault("SVS_LOG_LEVEL", "off")
        if env:
            e.update(env)
        with tempfile.TemporaryFile(dir=self.work) as f:
            p = subprocess.Popen([exe] + [str(a) for a in args], stdout=f,
                                 stderr=subprocess.STDOUT, env=e, cwd=cwd or self.work,
                                 start_new_session=True)
            st = self._wait(p, timeout, watch)
            if st is not None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            f.seek(0)
            text = f.read().decode("utf8", "replace")
        if st is not None:
            return st, text
        if p.returncode == 0:
            return "ok", text
        if p.returncode == 3:
            raise CheckError("driver set-up failed: " + text[-2000:])
        return "crash", "exit status %s\n%s" % (p.returncode, text)

    def _wait(self, p, timeout, watch):
        """None when the process ended, else 'hang', or 'stop' when another one hung."""
        end = time.time() + timeout
        size, since = -1, time.time()
        while True:
            try:
                p.wait(timeout=1)
                return None
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if self.hung:
                return "stop"
            if now > end:
                return "hang"
            if watch is not None:
                try:
                    n = os.path.getsize(watch)
                except OSError:
                    n = 0
                if n != size:
                    size, since = n, now
                elif now - since > (STALL_QUICK if self.quick else STALL):
                    return "hang"

    def record(self, exe, jobs, timeout=120, par=RECPAR):
        return self.record_many([(exe, jobs)], timeout, par)

    def record_many(self, groups, timeout=120, par=RECPAR):
        """groups: list of (exe, [(label, args)]) -- '{out}' in args is replaced by the trace
        path. Returns list of trace paths. A driver that crashes or hangs is reported."""
        jobs = [(exe, label, args) for exe, js in groups for label, args in js]

        def one(job):
            exe, label, args = job
            path = os.path.join(self.work, label + ".ndjson")
            a = [path if x == "{out}" else x for x in args]
            st, out = self.run_driver(exe, a, timeout, watch=path)
            if st in ("crash", "hang"):
                shutil.copy(path, path + ".first") if os.path.exists(path) else None
                st2, out2 = self.run_driver(exe, a, timeout, watch=path)
                if st2 in ("crash", "hang"):
                    self.hung = self.hung or st2 == "hang"   # the others need not run
                    return (path, a, st2, out2)
                # Not reproduced with the same arguments (schedule dependent): what was
                # seen once was still seen.
                return (path, a, st if st == "crash" else st2, out)
            return (path, a, st, out)
        traces = []
        with cf.ThreadPoolExecutor(par) as ex:
            for (path, a, st, out), (exe, label, _) in zip(ex.map(one, jobs), jobs):
                if st == "stop":
                    continue
                if st != "ok":
                    self.violation("driver %s: the library %s; last event: %s; output: %s" % (
                        label, "hung" if st == "hang" else "crashed",
                        self._last_line(path), out[-600:]), files=[path], cmd=[exe] + a)
                else:
                    traces.append(path)
        return traces

    @staticmethod
    def _last_line(path):
        try:
            with open(path) as f:
                lines = f.read().splitlines()
            return lines[-1][:500] if lines else "(none)"
        except OSError:
            return "(none)"

    # ------------------------------------------------------------------ TLC
    def _tlc_cmd(self, module, cfg, meta, workers, heap, extra):
        return ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
                "-Xmx%s" % heap, "-Xss16m", "-DTLA-Library=" + SPEC,
                "-cp", TLA_JAR + ":" + self._cm_jar(), "tlc2.TLC",
                "-config", cfg, "-workers", str(workers), "-metadir", meta,
                "-noGenerateSpecTE", "-fpmem", "0.1"] + list(extra) + [module]

    @staticmethod
    def _cm_jar():
        d = os.path.dirname(TLA_JAR)
        jars = [os.path.join(d, n) for n in sorted(os.listdir(d))
                if n.endswith(".jar") and n != os.path.basename(TLA_JAR)]
        return ":".join(jars)

    def tlc(self, module, cfg=None, env=None, workers=1, heap="2g", timeout=600, extra=()):
        """Run TLC on spec/<module>.tla. Returns a dict with the outcome."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfgpath = os.path.join(SPEC, (cfg or module) + ".cfg")
        cmd = self._tlc_cmd(os.path.join(SPEC, module + ".tla"), cfgpath, meta, workers,
                            heap, extra)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        t = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                             cwd=meta, start_new_session=True)
        timed_out = False
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            timed_out = True
        out = out.decode("utf8", "replace")
        shutil.rmtree(meta, ignore_errors=True)
        r = {"rc": p.returncode, "out": out, "timeout": timed_out, "wall": time.time() - t,
             "generated": 0, "distinct": 0, "depth": 0}
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out)
        if m:
            r["generated"] = int(m[-1][0].replace(",", ""))
            r["distinct"] = int(m[-1][1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            r["depth"] = int(m[-1])
        # 0: fine; 10..14: assumption, deadlock, safety, liveness, postcondition/assert.
        if timed_out:
            r["verdict"] = "timeout"
        elif p.returncode == 0:
            r["verdict"] = "ok"
        elif p.returncode in (10, 11, 12, 13, 14):
            r["verdict"] = "violated"
        elif p.returncode in (75, 76) and r["distinct"] >= 1 and "JsonException" not in out:
            r["verdict"] = "stuck"      # an expression has no value in the state reached
        else:
            r["verdict"] = "error"
        return r

    def model(self, module, cfg=None, workers=None, heap="6g", timeout=800, extra=(),
              env=None, what=None):
        """Exhaustive (or simulated) check of a design model. These models do not depend on
        /repo, so a counterexample there is an error of the specification, not of the code."""
        r = self.tlc(module, cfg, env=env, workers=workers or self.workers, heap=heap,
                     timeout=timeout, extra=extra)
        if r["verdict"] != "ok":
            raise CheckError("design model %s/%s: %s\n%s" % (
                module, cfg, r["verdict"], r["out"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"module": module, "cfg": cfg or module, "what": what or "",
                            "distinct_states": r["distinct"], "generated": r["generated"],
                            "depth": r["depth"], "wall_s": round(r["wall"], 1)})
        return r

    def validate(self, module, traces, cfg=None, env=None, heap="2g", timeout=600,
                 describe=None):
        """Ask TLC whether every recorded trace is accepted by spec/<module>.tla. The trace
        specifications are deterministic: the length of the accepted prefix tells the
        first event that the specification does not allow."""
        def one(path):
            e = dict(env or {})
            e["TRACE"] = path
            r = self.tlc(module, cfg, env=e, workers=1, heap=heap, timeout=timeout)
            # An event the rules have no value for (say, an index outside what exists) is as
            # little allowed as one they reject.
            if r["verdict"] in ("violated", "stuck"):
                r2 = self.tlc(module, cfg, env=e, workers=1, heap=heap, timeout=timeout)
                r2["verdict"] = "violated" if r2["verdict"] == r["verdict"] else "error"
                return path, r2
            return path, r
        ok = True
        with cf.ThreadPoolExecutor(self.workers) as ex:
            for path, r in ex.map(one, traces):
                with open(path) as f:
                    lines = f.read().splitlines()
                if r["verdict"] == "ok":
                    if r["distinct"] < len(lines):
                        raise CheckError("%s: TLC accepted %s after %d of %d events" % (
                            module, path, r["distinct"], len(lines)))
                    self.traces += 1
                    self.events += len(lines)
                    self.states += r["distinct"]
                    self.transitions += r["generated"]
                    if len(self.samples) < 3 and lines:
                        self.samples.append({"trace": os.path.basename(path),
                                             "events": len(lines),
                                             "last_event": lines[-1][:400]})
                elif r["verdict"] == "violated":
                    ok = False
                    at = max(r["distinct"] - 1, 0)   # events accepted
                    bad = lines[at] if at < len(lines) else "(end)"
                    why = self._why(r["out"])
                    self.violation("%s rejects event %d of %s: %s%s" % (
                        module, at + 1, os.path.basename(path), bad[:1500],
                        ("\n  " + why) if why else ""), files=[path],
                        cmd=["TRACE=" + path] + ["%s=%s" % kv for kv in (env or {}).items()]
                        + ["tlc", "-config", (cfg or module) + ".cfg", module + ".tla"])
                else:
                    raise CheckError("TLC on %s with %s: %s\n%s" % (
                        module, path, r["verdict"], r["out"][-3000:]))
        return ok

    @staticmethod
    def _why(out):
        notes = [l for l in out.splitlines() if l.startswith(('"WHY', "<<\"WHY"))]
        if notes:
            return "; ".join(notes[-3:])[:1500]
        for l in out.splitlines():
            if "The first argument of Assert" in l or "In evaluation" in l:
                return l[:500]
        return ""

    @staticmethod
    def together(*fns):
        """Run independent steps at the same time; returns their results."""
        with cf.ThreadPoolExecutor(len(fns)) as ex:
            futs = [ex.submit(f) for f in fns]
            return [f.result() for f in futs]

    # ------------------------------------------------------------------ reporting
    def violation(self, text, files=(), cmd=()):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-seed%d-%d.txt" % (self.prop, self.tier, self.seed,
                                                       len(self.violations)))
        with open(path, "w") as f:
            f.write("property %s\n%s\n" % (self.prop, text))
            if cmd:
                f.write("command: %s\n" % " ".join(str(c) for c in cmd))
            for src in files:
                if src and os.path.exists(src):
                    f.write("\n---- %s\n" % src)
                    with open(src, errors="replace") as g:
                        body = g.read()
                    f.write(body[-400000:])
        self.violations.append((text, path))

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "design_models": self.models,
               "build_s": round(self.build_s, 1), "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if os.environ.get("VERIF_KEEP"):
            print("kept:", self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for text, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + text.replace("\n", "\n  ")[:3000])
        if not self.violations:
            print("OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d "
                  "wall=%.1fs" % (self.prop, self.tier, self.states, self.transitions,
                                  self.traces, self.events, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=None)
    ap.add_argument("--seed", type=int, default=None)
    a = ap.parse_args()
    if a.property not in checks:
        print("unknown property", a.property)
        return 2
    c = Check(a.property, a.tier, a.seed)
    try:
        checks[a.property](c)
    except CheckError as e:
        if c.violations:
            # What was found before the check got stuck stands.
            return c.finish()
        print("CHECK ERROR (%s): %s" % (a.property, e))
        shutil.rmtree(c.work, ignore_errors=True)
        return 2
    return c.finish()
