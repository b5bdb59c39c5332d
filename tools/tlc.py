"""Building the drivers, running TLC, and replaying a logged call."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLADIR = "/opt/veriftools/tla"
JARS = TLADIR + "/tla2tools.jar:" + TLADIR + "/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check could not decide; never a violation."""


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod",
               GOWORK="off", GOTELEMETRY="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), HOME="/root")
    return env


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Session:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.n = 0
        self.built = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- building ----------------------------------------------------------
    def classes(self):
        if "classes" not in self.built:
            out = self.dir + "/classes"
            os.mkdir(out)
            src = [VERIF + "/java/verif/" + f for f in sorted(os.listdir(VERIF + "/java/verif"))]
            r = run(["javac", "-d", out, "-cp", TLADIR + "/tla2tools.jar"] + src)
            if r.returncode != 0:
                raise CheckError("javac:\n" + r.stdout)
            self.built["classes"] = out
        return self.built["classes"]

    def driver(self, files, race=False):
        """Compile the driver from the named files as if it were a package of
        /repo (overlay), so that it can import internal packages."""
        key = ("driver", tuple(files), race)
        if key not in self.built:
            out = "%s/driver%d" % (self.dir, len(self.built))
            pkg = REPO + "/internal/zzverifdriver"
            rep = {pkg + "/" + f: VERIF + "/driver/" + f for f in ["core.go"] + list(files)}
            ov = out + ".json"
            with open(ov, "w") as f:
                json.dump({"Replace": rep}, f)
            cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./internal/zzverifdriver"]
            r = run(cmd, cwd=REPO, env=go_env())
            if r.returncode != 0:
                raise CheckError("driver build failed:\n" + r.stdout)
            self.built[key] = out
        return self.built[key]

    def binary(self):
        """The addchain command itself."""
        if "bin" not in self.built:
            out = self.dir + "/addchain"
            r = run(["go", "build", "-o", out, "./cmd/addchain"], cwd=REPO, env=go_env())
            if r.returncode != 0:
                raise CheckError("addchain build failed:\n" + r.stdout)
            self.built["bin"] = out
        return self.built["bin"]

    def release(self):
        """The release tool (trimmed, so that its default paths name nothing)."""
        if "rel" not in self.built:
            out = self.dir + "/release"
            r = run(["go", "build", "-trimpath", "-o", out, "./internal/tools/release"], cwd=REPO, env=go_env())
            if r.returncode != 0:
                raise CheckError("release build failed:\n" + r.stdout)
            self.built["rel"] = out
        return self.built["rel"]

    # ---- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg, driver=None, race=False, timeout=600, workers=None, replay=None, env=None,
            heap="6g", files=None, simulate=None, call_timeout=None, binary=False):
        """Run TLC on a module with the given cfg text; returns a result dict."""
        self.n += 1
        d = "%s/run%d" % (self.dir, self.n)
        os.mkdir(d)
        for f in os.listdir(VERIF + "/spec"):
            if f.endswith(".tla"):
                os.symlink(VERIF + "/spec/" + f, d + "/" + f)
        for name, text in (files or {}).items():
            with open(d + "/" + name, "w") as f:
                f.write(text)
        with open(d + "/run.cfg", "w") as f:
            f.write(cfg)
        e = dict(os.environ if env is None else env)
        if call_timeout:
            e["VERIF_CALL_TIMEOUT"] = call_timeout
        if binary == "release":
            e["VERIF_RELEASE"] = self.release()
        elif binary:
            e["VERIF_BIN"] = self.binary()
        e["VERIF_TMP"] = d
        if race:
            e["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
        props = ["-Dverif.out=" + d,
                 "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.Overrides"]
        if driver is not None:
            props.append("-Dverif.driver=" + self.driver(driver, race))
        if replay:
            props.append("-Dverif.replay=" + replay)
        w = str(workers or min(8, os.cpu_count() or 1))
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap] + props + \
              ["-cp", self.classes() + ":" + JARS, "tlc2.TLC", "-workers", w, "-deadlock", "-nowarning",
               "-metadir", d + "/meta", "-config", "run.cfg"] + (simulate or []) + [module + ".tla"]
        t0 = time.time()
        try:
            r = run(cmd, cwd=d, env=e, timeout=timeout)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), -1
        res = {"rc": rc, "out": out, "dir": d, "wall": time.time() - t0, "module": module, "violations": [],
               "counts": {}, "samples": {}, "states": 0, "distinct": 0}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            res["states"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
        try:
            s = json.load(open(d + "/stats.json"))
            res["counts"], res["samples"] = s["counts"], s["samples"]
        except (OSError, ValueError):
            pass
        try:
            with open(d + "/violations.ndjson") as f:
                res["violations"] = [json.loads(l) for l in f if l.strip()]
        except OSError:
            pass
        res["complete"] = rc == 0 and "Model checking completed. No error has been found." in out
        shutil.rmtree(d + "/meta", ignore_errors=True)
        return res


def cfg_text(spec, constants=None, invariants=(), properties=(), extra=""):
    t = "SPECIFICATION %s\n" % spec
    if constants:
        t += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in constants.items())
    for i in invariants:
        t += "INVARIANT %s\n" % i
    for p in properties:
        t += "PROPERTY %s\n" % p
    return t + extra
