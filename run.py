#!/usr/bin/env python3
"""Driver of the simulator.

  run.py check <property> [--tier quick|thorough]   decide one property
  run.py replay <file>                              execute a replay file again
  run.py setup                                      warm the build cache

Builds everything from /repo's working tree. Exit 0: the property held on all
runs; 1: violation (with a VIOLATION line); 2: trouble of the check itself.
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
SHARED_CACHE = "/opt/vp/go/cache"
CACHE = os.path.join(VERIF, ".build", "gocache")
NCPU = os.cpu_count() or 8
T0 = time.time()

sys.path.insert(0, VERIF)
from budget import BUDGET, COLD, THOROUGH, THOROUGH_ONLY  # noqa: E402

# name -> GOARCH, cgo, extra tags, instrumented, command prefix, what it is
VARIANTS = {
    "v1": dict(arch="amd64", cgo=True, what="amd64 with assembly and cgo"),
    "v2": dict(arch="amd64", cgo=True, inst=True, what="amd64 with assembly and cgo, statement-level yields in Go and basic-block yields in C"),
    "v3": dict(arch="arm64", pre=["qemu-aarch64", "-cpu", "max"], what="arm64 with assembly, no cgo (emulated CPU)"),
    "v4": dict(arch="arm64", inst=True, pre=["qemu-aarch64", "-cpu", "max"], what="arm64 with assembly, no cgo, statement-level yields and register junk (emulated CPU)"),
    "v5": dict(arch="amd64", tags=["noasm"], what="amd64 without assembly and cgo"),
    "v6": dict(arch="arm", pre=["qemu-arm", "-cpu", "max"], what="32-bit arm, portable code, no cgo (emulated CPU)"),
    "v7": dict(arch="arm64", cgo=True, cc="aarch64-linux-gnu-gcc", pre=["qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu"], what="arm64 with assembly and cgo (emulated CPU)"),
    "v8": dict(arch="386", pre=["qemu-i386", "-cpu", "max"], what="32-bit x86, portable code, no cgo (emulated CPU)"),
    "v10": dict(same="v1", arch="amd64", pre=["qemu-x86_64", "-cpu", "Nehalem"], what="the v1 program on a processor without SHA extensions (emulated CPU)"),
    "v11": dict(same="v1", arch="amd64", pre=["qemu-x86_64", "-cpu", "max,-avx,-avx2"], what="the v1 program on a processor with SHA extensions but without AVX (emulated CPU)"),
    "v12": dict(arch="amd64", tags=["noasm"], inst=True, what="amd64 without assembly and cgo, statement-level yields"),
    "v13": dict(arch="amd64", cgo=True, race=True, what="amd64 with assembly and cgo, every memory access of the library's Go and C code checked for data races"),
    "v9": dict(arch="s390x", pre=["qemu-s390x", "-cpu", "max"], what="big-endian s390x, portable code, no cgo (emulated CPU)"),
}
ALL = list(VARIANTS)
# the position fixes the seeds a variant gets: new names go to the end
INDEX = ["v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v10", "v11", "v12", "v9", "v1q", "v2q", "v13"]
COLDBASE = 10 ** 12


class Trouble(Exception):
    pass


def note(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def host_has_sha():
    try:
        f = open("/proc/cpuinfo").read()
        return "sha_ni" in f and " avx" in f
    except OSError:
        return False


def go_env(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO_")) and k not in ("CC", "CXX")}
    e.update(PATH="/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off",
             GOPATH="/opt/vp/go", GOMODCACHE="/opt/vp/go/pkg/mod", GOCACHE=CACHE, TMPDIR=scratch, HOME=scratch,
             CGO_ENABLED="0", CC="gcc", GOTELEMETRY="off")
    return e


def warm_cache():
    if os.path.isdir(CACHE):
        return
    os.makedirs(os.path.dirname(CACHE), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="gocache.", dir=os.path.dirname(CACHE))
    try:
        if os.path.isdir(SHARED_CACHE):
            subprocess.run(["cp", "-a", SHARED_CACHE + "/.", tmp], check=False, stderr=subprocess.DEVNULL)
        os.rename(tmp, CACHE)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


class Build:
    """Builds variants of the simulator around the code in REPO."""

    def __init__(self, scratch):
        self.dir = scratch
        self.env = go_env(scratch)
        self.done = {}
        warm_cache()
        r = self.go(["build", "-o", os.path.join(scratch, "instr"), "./cmd/instr"], {})
        if r:
            raise Trouble("building the instrumenter: " + r)
        # /repo must compile as it is, or nothing can be said about it
        r = self.go(["build", "-o", os.devnull, "./..."], {"CGO_ENABLED": "1"}, REPO)
        if r:
            raise Trouble("/repo does not build: " + r)

    def go(self, args, extra, cwd=SIM):
        e = dict(self.env)
        e.update(extra)
        if REPO != "/repo" and cwd == SIM and args[0] == "build":  # development only
            m = os.path.join(self.dir, "alt.mod")
            if not os.path.exists(m):
                with open(m, "w") as f:
                    f.write(open(os.path.join(SIM, "go.mod")).read().replace("=> /repo", "=> " + REPO))
            args = ["build", "-modfile", m] + args[1:]
        p = subprocess.run(["go"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return "" if p.returncode == 0 else (p.stdout[-3000:] or "go failed")

    def overlay(self, name, mode, camp, gamp, asm=False):
        out = os.path.join(self.dir, name)
        p = subprocess.run([os.path.join(self.dir, "instr"), "-repo", REPO, "-out", out, "-mode", mode,
                            "-camp=" + str(camp).lower(), "-gamp=" + str(gamp).lower(), "-asm=" + str(asm).lower(),
                            "-extra", os.path.join(SIM, "overlay"), "-sim", SIM],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            return None, p.stdout
        return os.path.join(out, "overlay.json"), ""

    def variant(self, v):
        d = VARIANTS[v]
        pre = d.get("pre", [])
        if d["arch"] == "386" and self.runs_386():
            pre = []
        if pre and not shutil.which(pre[0]):
            self.done[v] = dict(skip=pre[0] + " is not installed")
            return
        if d.get("cc") and not shutil.which(d["cc"]):
            self.done[v] = dict(skip=d["cc"] + " is not installed")
            return
        if d.get("same"):
            return  # made from the other one later
        cgo = d.get("cgo", False)
        inst = d.get("inst", False)
        tries = [(cgo, True), (cgo, False), (False, True), (False, False)] if cgo else [(False, True), (False, False)]
        err = ""
        tries = [(c, g, a) for c, g in tries for a in ((True, False) if inst else (False,))]
        race = d.get("race", False)
        if race:  # the third one is: recording in C
            tries = [(c, g, a) for a in (True, False) for c, g in ((True, True), (True, False), (False, True), (False, False))]
        for n, (camp, gamp, asm) in enumerate(tries):
            mode = "inst" if inst else "race" if race and asm else "plain"
            ov, e = self.overlay("%s.%d" % (v, n), mode, camp, gamp, asm)
            if not ov:
                err = e
                continue
            flags = []
            if race:
                flags = ["-race", "-gcflags=verifsim/cmd/sim=-race=false -l", "-gcflags=verifsim/ref=-race=false", "-gcflags=verifsim/simrt=-race=false"]
            tags = (["crace"] if race and asm else []) + d.get("tags", []) + (["camp"] if camp else []) + (["gamp"] if gamp else []) + (["inst"] if inst else [])
            extra = dict(GOARCH=d["arch"], CGO_ENABLED="1" if cgo else "0", VERIF_REPO=REPO)
            if cgo:
                extra["CC"] = d.get("cc") or (os.path.join(SIM, "cc.sh") if inst else os.path.join(SIM, "cc-race.sh") if race and asm else "gcc")
            exe = os.path.join(self.dir, "sim_" + v)
            e = self.go(["build"] + flags + ["-overlay", ov, "-tags", ",".join(tags), "-o", exe, "./cmd/sim"], extra)
            if not e:
                self.done[v] = dict(exe=exe, pre=pre, slow=bool(pre), inst=inst, downgraded=n > 0, tags=tags)
                return
            err = e
        self.done[v] = dict(error=err)

    def runs_386(self):
        return os.uname().machine == "x86_64" and os.path.exists("/proc/cpuinfo") and self._try_386()

    def _try_386(self):
        # a static 32-bit program runs if the kernel has the emulation
        src = os.path.join(self.dir, "p386")
        os.makedirs(src, exist_ok=True)
        with open(os.path.join(src, "p.go"), "w") as f:
            f.write("package main\nfunc main() {}\n")
        if self.go(["build", "-o", os.path.join(src, "p"), "p.go"], dict(GOARCH="386"), src):
            return False
        try:
            return subprocess.run([os.path.join(src, "p")], timeout=20).returncode == 0
        except (OSError, subprocess.TimeoutExpired):
            return False

    def build(self, vs):
        vs = list(dict.fromkeys([VARIANTS[v].get("same", v) for v in vs] + list(vs)))
        th = [threading.Thread(target=self.variant, args=(v,)) for v in vs]
        for t in th:
            t.start()
        for t in th:
            t.join()
        for v in vs:
            d = VARIANTS[v]
            if d.get("same") and v not in self.done:
                src = self.done[d["same"]]
                self.done[v] = dict(src, pre=d["pre"], slow=True) if "exe" in src else dict(skip="variant %s was not built" % d["same"])
        plain_ok = any("exe" in self.done[v] and not self.done[v]["inst"] for v in vs) or all(VARIANTS[v].get("inst") for v in vs)
        for v in vs:
            e = self.done[v].get("error")
            if e:
                note("variant", v, "does not build:", e.strip()[-1500:])
                if v == "v1" or not plain_ok:
                    raise Trouble("variant %s does not build" % v)
        # without the SHA extensions the assembly runs on an emulated CPU only
        if not host_has_sha() and shutil.which("qemu-x86_64"):
            for v in ("v1", "v2"):
                if "exe" in self.done.get(v, {}):
                    q = dict(self.done[v])
                    q.update(pre=["qemu-x86_64", "-cpu", "max"], slow=True)
                    self.done[v + "q"] = q


LIVE = set()
DIRS = []


def scratch_dir():
    DIRS.append(tempfile.mkdtemp(prefix="verifsim."))
    return DIRS[-1]


class Runner:
    def __init__(self, builds, scratch, prop, seed):
        self.b, self.dir, self.prop, self.seed = builds, scratch, prop, seed
        self.foreign = None
        self.learned = {}
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = False

    def cmd(self, v, *args):
        d = self.b.done[v]
        c = list(d["pre"]) + [d["exe"], args[0], "-variant", v] + list(args[1:])
        if d["slow"]:
            c.append("-slow")
        if self.foreign and args[0] in ("run", "one", "cold"):
            c += ["-foreign", self.foreign]
        return c

    def call(self, v, *args, timeout=900, nice=True):
        env = dict(self.b.env)
        env["GODEBUG"] = "asyncpreemptoff=1"
        if VARIANTS[v.rstrip("q")].get("race"):
            log = os.path.join(self.dir, "race")
            env["VERIFSIM_RACELOG"] = log
            env["GORACE"] = "log_path=%s halt_on_error=0 history_size=7 exitcode=0 atexit_sleep_ms=0" % log
        env["VERIFSIM_EXEC"] = " ".join(self.b.done[v]["pre"])
        p = subprocess.Popen(self.cmd(v, *args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                             cwd=self.dir, start_new_session=True)
        with self.lock:
            self.procs.add(p)
            LIVE.add(p)
        try:
            out, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            self.kill(p)
            out, err = p.communicate()
            rc = 124
        finally:
            with self.lock:
                self.procs.discard(p)
                LIVE.discard(p)
        return rc, out.decode(errors="replace"), err.decode(errors="replace")

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def kill_all(self):
        self.stop = True
        with self.lock:
            ps = list(self.procs)
        for p in ps:
            self.kill(p)


def is_crash(rc):
    return rc == 2 or rc >= 128 and rc not in (137, 143) or rc < 0 and -rc not in (signal.SIGKILL, signal.SIGTERM)


def gist(out, err):
    """What a process said before it died."""
    return (out[-150:] + " " + err.strip()[:250]).strip()


def emit_foreign(r, variants, scratch):
    blobs = []
    lock = threading.Lock()

    def one(v):
        rc, out, _ = r.call(v, "emit", "-seed", str(r.seed), "-count", "40", timeout=120)
        if rc == 0:
            try:
                got = json.loads(out)
            except ValueError:
                return
            with lock:
                blobs.append((v, got))
    th = [threading.Thread(target=one, args=(v,)) for v in variants]
    for t in th:
        t.start()
    for t in th:
        t.join()
    blobs.sort(key=lambda x: x[0])
    allb = [b for _, g in blobs for b in g]
    f = os.path.join(scratch, "foreign.json")
    with open(f, "w") as h:
        json.dump(allb, h)
    r.foreign = f
    return {v: len(g) for v, g in blobs}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.jobs_run = []
        self.agg = dict(runs=0, checks=0, steps=0, switches=0, mid_call_switches=0, bytes=0, nontrivial=0, clobbers=0, other=0)
        self.counters = {}
        self.by_variant = {}
        self.hits = [0] * 32
        self.maxes = dict(block_offsets_seen=0, vectors_masked=0, max_steps_in_call=0, max_steps_per_block=0)
        self.shapes, self.inters = set(), set()
        self.samples = []
        self.cpu = 0.0
        self.unreproduced = []
        self.not_ours = []
        self.bulk = []
        self.skipped = {}
        self.determinism = None

    # ---- aggregation
    def absorb(self, v, out):
        try:
            s = json.load(open(os.path.join(out, "summary.json")))
        except (OSError, ValueError):
            return None
        for k in ("runs", "checks", "steps", "switches", "mid_call_switches", "bytes", "nontrivial", "clobbers"):
            self.agg[k] += s[k]
        self.agg["other"] += s["other_property_broken"]
        b = self.by_variant.setdefault(v, dict(runs=0, seconds=0.0, steps=0, oracle_checks=0))
        b["runs"] += s["runs"]
        b["steps"] += s["steps"]
        b["oracle_checks"] += s["checks"]
        b["seconds"] = round(b["seconds"] + s["sec"], 2)
        self.cpu += s["sec"]
        for k, n in s["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + n
        for i, n in enumerate(s["hits_by_vector"]):
            self.hits[i] += n
        for k in self.maxes:
            self.maxes[k] = max(self.maxes[k], s[k])
        try:
            h = open(os.path.join(out, "hashes"), "rb").read()
            for i in range(0, len(h) - 23, 24):
                self.shapes.add(h[i:i + 8])
                if h[i + 8:i + 16] != b"\0" * 8:
                    self.inters.add(h[i + 8:i + 16])
        except OSError:
            pass
        if s.get("sample") and len(self.samples) < 3 and all(x["variant"] != v for x in self.samples):
            p = s["sample"]
            for ph in p["phases"]:
                tr = ph["sched"].get("trace") or []
                if len(tr) > 12:
                    ph["sched"]["trace"] = tr[:12]
                    ph["sched"]["trace_cut_from"] = len(tr)
            p.pop("foreign", None)
            self.samples.append(dict(variant=v, plan=p))
        return s

    # ---- the search
    def go(self):
        scratch = scratch_dir()
        self.scratch = scratch
        try:
            return self.inner(scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def inner(self, scratch):
        plan = BUDGET[self.prop]
        b = Build(scratch)
        b.build([v for v in ALL if plan.get(v) and (self.tier == "thorough" or v not in THOROUGH_ONLY[self.prop])])
        self.b = b
        note("built", " ".join(v + ("*" if d.get("downgraded") else "") for v, d in sorted(b.done.items()) if "exe" in d))
        for v, d in b.done.items():
            if "exe" not in d:
                self.skipped[v] = d.get("skip") or "does not compile"
        r = Runner(b, scratch, self.prop, self.seed)
        self.r = r
        usable = [v for v in b.done if "exe" in b.done[v]]
        if self.prop in ("C02", "C09"):
            self.counters_foreign = emit_foreign(r, [v for v in usable if v in ("v1", "v3", "v5", "v6", "v9")], scratch)
        self.learn(r, usable)
        factor = 1.0
        rounds = 1
        deadline = T0 + float(os.environ.get("VERIF_QUICK_CAP", "420"))
        if self.tier == "thorough":
            rounds = 10 ** 6
            factor = 4.0
            deadline = T0 + float(os.environ.get("VERIF_THOROUGH_SEC", THOROUGH))
        self.deadline = deadline
        self.hard = deadline + (330 if self.tier == "quick" else 900)
        rc = 0
        for rnd in range(rounds):
            jobs = self.jobs(plan, usable, factor, rnd)
            rc = self.round(r, jobs, deadline, with_bulk=rnd == 0)
            if rc or time.time() > deadline:
                break
        if rc == 0:
            self.recheck(r, usable)
        self.evidence()
        return rc

    def learn(self, r, usable):
        for v in usable:
            if COLD[self.prop].get(v):
                rc, out, _ = r.call(v, "learn", timeout=120)
                if rc == 0:
                    r.learned[v] = os.path.join(self.scratch, "learned." + v)
                    with open(r.learned[v], "w") as h:
                        h.write(out)

    def jobs(self, plan, usable, factor, rnd):
        per = []
        for v in sorted(r for r in usable if r in self.r.learned):
            n = int(COLD[self.prop][v] * factor)
            size = max(10, n // 8)
            base = COLDBASE + INDEX.index(v) * 10 ** 10 + rnd * 10 ** 7
            per.append([("cold:" + v, base + k, min(size, n - k)) for k in range(0, n, size)])
        for vi, v in enumerate(sorted(set(usable))):
            n = int(plan.get(v, 0) * factor)
            if v.endswith("q"):
                n = int(plan.get(v[:-1], 0) * factor * 0.12)
            if n <= 0:
                continue
            size = max(200, min(1500, n // 6))
            base = INDEX.index(v) * 10 ** 10 + rnd * 10 ** 7
            js = []
            k = 0
            while k < n:
                c = min(size, n - k)
                js.append((v, base + k, c))
                k += c
            per.append(js)
        # spread every variant evenly over the whole search
        out = []
        for js in per:
            for i, j in enumerate(js):
                out.append(((i + 0.5) / len(js), j))
        out.sort(key=lambda x: (x[0], x[1]))
        return [j for _, j in out]

    def round(self, r, jobs, deadline, with_bulk):
        lock = threading.Lock()
        found = []
        trouble = []
        queue = list(jobs)
        if with_bulk and self.prop in ("C01", "C07", "C10"):
            rc, out, _ = r.call("v1", "info", "-tier", self.tier, "-seed", str(self.seed))
            n = json.loads(out)["bulk"] if rc == 0 else 0
            if self.prop in ("C07", "C10") and self.tier == "quick":
                n = min(n, 4)
            queue = [("bulk", i, 0) for i in range(n)] + queue
        seq = [0]

        def worker():
            while True:
                with lock:
                    if not queue or found or trouble or r.stop or time.time() > deadline:
                        return
                    j = queue.pop(0)
                    seq[0] += 1
                    k = seq[0]
                try:
                    if self.job(r, j, k, lock, found, trouble) == "cut":
                        with lock:
                            queue.append(j)
                except Exception as e:  # noqa: BLE001
                    trouble.append("driver: %r" % e)
        while True:
            th = [threading.Thread(target=worker) for _ in range(NCPU)]
            self.cut = False
            for t in th:
                t.start()
            since = None
            while any(t.is_alive() for t in th):
                for t in th:
                    t.join(0.2)
                    if t.is_alive():
                        break
                if found and since is None:
                    since = time.time()
                if since and time.time() - since > 30 and not self.cut:
                    # there is a candidate to look into: put the slow jobs back
                    self.cut = True
                    with r.lock:
                        ps = list(r.procs)
                    for p in ps:
                        r.kill(p)
            if trouble:
                raise Trouble("; ".join(trouble))
            if not found:
                return 0
            # cheap variants first, then earliest first, so the outcome depends on timing as little as it can
            found.sort(key=lambda f: (bool(f.get("bulk")), r.b.done[f["v"]]["slow"], f["v"], f["run"]))
            rep = None
            for way in (self.alone, self.batch):
                again = []
                for f in found:
                    rep = self.confirm(r, f, way, again)
                    if rep:
                        break
                if rep:
                    print("VIOLATION property=%s replay=%s" % (self.prop, rep), flush=True)
                    return 1
                found[:] = again
            for f in found:
                self.unreproduced.append(f.get("viol"))
                note("could not reproduce:", f["v"], "run", f["run"])
            found.clear()
            if len(self.unreproduced) > 5:
                raise Trouble("violations that do not reproduce: %s" % self.unreproduced[:3])
            if len(self.not_ours) > 12 or time.time() > deadline:
                return 0

    def job(self, r, j, k, lock, found, trouble):
        v, start, count = j
        if v == "bulk":
            plan = os.path.join(self.scratch, "bulk%d.json" % start)
            rc, out, err = r.call("v1", "bulk", "-tier", self.tier, "-seed", str(self.seed), "-index", str(start), "-profile", self.prop, "-out", plan, timeout=300)
            if rc == -9 and self.cut:
                return "cut"
            if rc == 0:
                m = re.search(r"STATS (.*)", out)
                with lock:
                    if m:
                        self.bulk.append(json.loads(m.group(1)))
            elif rc == 1 or is_crash(rc):
                with lock:
                    found.append(dict(v="v1", run=start, bulk=plan, rc=rc))
            elif rc == 124 and not r.stop:
                with lock:
                    self.counters["other:bulk-too-slow"] = self.counters.get("other:bulk-too-slow", 0) + 1
                note("warning: bulk delivery %d took more than 300 s and was given up" % start)
            elif not r.stop:
                trouble.append("bulk delivery %d: exit %d %s" % (start, rc, err[-500:]))
            return
        tries = 0
        cold = v.startswith("cold:")
        if cold:
            v = v[5:]
        while count > 0:
            out = os.path.join(self.scratch, "o%d.%d" % (k, tries))
            rc, so, err = r.call(v, "cold" if cold else "run", "-profile", self.prop, "-seed", str(self.seed), "-start", str(start),
                                 "-count", str(count), "-out", out, "-maxsec", str(int(max(30, self.deadline + 30 - time.time()))),
                                 *(["-learned", r.learned[v]] if cold else []), timeout=max(60, self.hard - 60 - time.time()))
            if r.stop:
                return
            if rc == -9 and self.cut:
                return "cut"
            with lock:
                s = self.absorb(v, out) if rc in (0, 1) else None
            if rc == 0 and s:
                shutil.rmtree(out, ignore_errors=True)
                return
            try:
                at = int.from_bytes(open(os.path.join(out, "progress"), "rb").read(8), "little")
            except OSError:
                at = start
            shutil.rmtree(out, ignore_errors=True)
            if rc == 1 and s:
                with lock:
                    found.append(dict(v=v, run=s["bad_run"], start=start, rc=rc, viol=s["violation"], cold=cold))
                return
            if rc == 5 and self.prop != "C10":
                # a correct implementation may wait; this property cannot judge the rest of that run
                with lock:
                    self.counters["other:wait"] = self.counters.get("other:wait", 0) + 1
                    self.agg["other"] += 1
                tries += 1
                if tries > 3:
                    return
                count -= at + 1 - start
                start = at + 1
                continue
            if rc in (5, 6) or is_crash(rc):
                with lock:
                    found.append(dict(v=v, run=at, start=start, rc=rc, viol=dict(msg=gist(so, err))))
                return
            if rc == 124:
                with lock:
                    self.counters["other:worker-too-slow"] = self.counters.get("other:worker-too-slow", 0) + 1
                note("warning: worker %s %d+%d took too long and was given up" % (v, start, count))
                return
            trouble.append("worker %s %d+%d: exit %d %s" % (v, start, count, rc, (so + err)[-800:]))
            return

    # ---- turning a failure into a replay file
    def left(self):
        """Seconds that turning candidates into replay files may still take."""
        return max(5, self.hard - time.time())

    def confirm(self, r, f, way, again):
        v = f["v"]
        if time.time() > self.hard:
            again.append(f)
            return None
        note("violation candidate:", v, "run", f["run"], "exit", f["rc"], json.dumps(f.get("viol"))[:600])
        d = way(r, f)
        if not d:
            again.append(f)
            return None
        if d == "not ours":
            return None
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rep = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (self.prop, v, f["run"]))
        d.update(property=self.prop, variant=v, seed=self.seed, run=f["run"], tier=self.tier,
                 replay_with="python3 /verif/run.py replay " + rep)
        with open(rep, "w") as h:
            json.dump(d, h, indent=1)
            h.write("\n")
        note("violation:", json.dumps(d.get("violation")))
        self.violation = d.get("violation")
        return rep

    def alone(self, r, f):
        """The run fails in a process of its own: minimise it."""
        v = f["v"]
        plan = f.get("bulk") or os.path.join(self.scratch, "plan.json")
        if not f.get("bulk"):
            rc, out, err = r.call(v, "one", "-profile", self.prop, "-seed", str(self.seed), "-start", str(f["run"]), "-out", plan,
                                  *(["-learned", r.learned[v]] if f.get("cold") else []), timeout=self.left())
            if not (rc in (1, 6) or is_crash(rc) or rc == 5 and self.prop == "C10"):
                return None
        mn = os.path.join(self.scratch, "min.json")
        sec = int(min(90, self.left() / 2))
        rc, out, err = r.call(v, "min", "-plan", plan, "-out", mn, "-maxsec", str(sec), timeout=sec + 60)
        if rc == 1 and os.path.exists(mn):
            d = json.load(open(mn))
        else:
            rc, out, err = r.call(v, "exec", "-plan", plan, timeout=self.left())
            if not (rc in (1, 5, 6) or is_crash(rc)):
                return None
            d = dict(plan=json.load(open(plan)), violation=f.get("viol"))
        if self.prop == "C06" and not d["plan"].get("bulk") and instances(d["plan"]) < 2:
            note("the failing history involves a single hash: not this property")
            self.not_ours.append(d["violation"])
            return "not ours"
        d.update(kind="plan")
        return d

    def batch(self, r, f):
        """The failure needs what earlier runs of the same process left behind."""
        if f.get("cold") or f.get("bulk"):
            return None
        v, bad = f["v"], f["run"]

        def fails(start):
            dst = os.path.join(self.scratch, "batch%d" % start)
            rc, out, err = r.call(v, "run", "-profile", self.prop, "-seed", str(self.seed), "-start", str(start),
                                  "-count", str(bad - start + 1), "-out", dst, timeout=self.left())
            try:
                s = json.load(open(os.path.join(dst, "summary.json")))
            except (OSError, ValueError):
                s = {}
            shutil.rmtree(dst, ignore_errors=True)
            if rc == 1 and s.get("bad_run") == bad:
                return s["violation"]
            if (rc == 6 or is_crash(rc)) and f["rc"] == rc:
                return dict(msg=gist(out, err))
            return None
        starts = sorted({max(f["start"], bad - k) for k in (1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 1 << 30)})
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            got = list(ex.map(fails, starts))
        # the shortest batch that fails twice
        for s, x in sorted(zip(starts, got), key=lambda sx: -sx[0]):
            if x and time.time() < self.hard and fails(s):
                return dict(kind="batch", profile=self.prop, start=s, count=bad - s + 1, violation=x)
        return None

    def recheck(self, r, usable):
        """Same seeds again, in new processes with other batch boundaries: the logs must be equal."""
        n, bad = 0, 0
        cnt = 60 if self.tier == "quick" else 1500
        for v in usable:
            if BUDGET[self.prop].get(v.rstrip("q"), 0) <= 0 or time.time() > self.hard - 230:
                continue
            base = INDEX.index(v) * 10 ** 10
            logs = []
            for parts in ([(0, cnt)], [(0, cnt // 3), (cnt // 3, cnt - cnt // 3)]):
                got = []
                for off, c in parts:
                    rc, out, _ = r.call(v, "run", "-logs", "-profile", self.prop, "-seed", str(self.seed), "-start", str(base + off), "-count", str(c), timeout=100)
                    got += [l for l in out.splitlines() if l.startswith("RUN ")]
                logs.append(got)
            n += len(logs[0])
            bad += sum(a != b for a, b in zip(*logs)) + abs(len(logs[0]) - len(logs[1]))
        self.determinism = dict(runs_executed_twice=n, differing_logs=bad)
        if bad:
            note("warning: %d of %d runs did not repeat exactly" % (bad, n))

    # ---- evidence
    def evidence(self):
        wall = time.time() - T0
        a = self.agg
        faults = {k: n for k, n in sorted(self.counters.items()) if k.split(":")[0] in
                  ("fault", "disk", "reader", "pool", "mem", "hw", "bad", "restore", "write", "import", "foreign", "long", "herd") and k != "disk:write"}
        faults["sched:mid-call-switch"] = a["mid_call_switches"]
        if a["clobbers"]:
            faults["hw:clobbered-entry"] = a["clobbers"]
        other = {k: n for k, n in sorted(self.counters.items()) if k not in faults}
        names = {v: VARIANTS[v.rstrip("q")]["what"] + (" (emulated CPU)" if v.endswith("q") else "") for v in self.by_variant}
        cov = dict(
            evaluations=a["runs"] + len(self.bulk),
            distinct_nontrivial=min(len(self.shapes), a["nontrivial"]) + len(self.bulk),
            rule="A case is one simulated run: streams, clients, operations, faults and schedule drawn from one seed and executed against the real library. "
                 "Non-trivial: bytes were hashed, the oracle compared at least one answer, and at least one fault fired or control moved between clients; "
                 "distinct: different hash of operation sequence plus event log.",
            samples=self.samples or [dict(bulk=self.bulk[:1])],
            runs=a["runs"], seeds=a["runs"], runs_per_hour=int(a["runs"] / max(wall, 1e-3) * 3600),
            oracle_comparisons=a["checks"], simulated_time=dict(unit="scheduler steps (yields of library and client code)", steps=a["steps"]),
            bytes_hashed=a["bytes"] + int(sum(b["bytes"] for b in self.bulk)),
            switches=a["switches"], distinct_interleavings=len(self.inters),
            interleaving_measure="hash of the sequence of (task, yields run) decisions and of the code sites at which control was taken away, over runs with at least two switches",
            fault_kinds_fired=faults, events=other, bulk_deliveries=self.bulk,
            reach=dict(disturbance_vectors_hit=sum(1 for h in self.hits if h), hits_by_vector=self.hits, **self.maxes),
            by_variant={v: dict(b, what=names[v]) for v, b in sorted(self.by_variant.items())},
            variants_skipped=self.skipped,
            downgraded=[v for v, d in self.b.done.items() if d.get("downgraded")] if hasattr(self, "b") else [],
            abandoned_for_other_property=a["other"], not_this_property=self.not_ours[:5], unreproduced=self.unreproduced[:5],
            determinism=self.determinism,
            components=dict(
                real=["package sha1cd (Go, amd64 and arm64 assembly)", "package ubc", "package cgo with its C code", "no-cgo fallback", "io/bufio copy helpers", "virtual memory (guard pages)"],
                stub=["readers", "disk for saved states", "crash/restart (instances dropped, only saved bytes survive)", "instance pool", "goroutine scheduler (one token, seeded)", "package sync (instrumented builds)",
                      "message differences of the vector list during synthetic attacks (restored after each run)"]),
        )
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov, wall_s=round(wall, 2),
                  violations=1 if getattr(self, "violation", None) else 0,
                  assumptions=["sampling: a clean batch is evidence, not proof",
                               "the reference model in sim/ref (FIPS 180-4, published vectors and bit conditions) is right",
                               "qemu-user executes the emulated architectures faithfully"])
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as h:
            json.dump(ev, h, indent=1)
            h.write("\n")
        os.replace(tmp, os.path.join(d, self.prop + ".json"))


def instances(plan):
    n = 0
    for ph in plan.get("phases") or []:
        for t in ph.get("tasks") or []:
            for o in t.get("ops") or []:
                if o["k"] in ("new", "one", "rest", "imp", "for", "copyto", "mask", "list", "long"):
                    n += 1
                if o["k"] == "herd":
                    n += 2
    return n


def known_findings(prop):
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            if l.startswith("KNOWN-FINDING:") and "property=%s " % prop in l:
                print(l.strip(), flush=True)
    except OSError:
        pass


def replay(f):
    d = json.load(open(f))
    scratch = scratch_dir()
    try:
        b = Build(scratch)
        v = d["variant"]
        b.build([v.rstrip("q")])
        if v not in b.done or "exe" not in b.done[v]:
            raise Trouble("variant %s not available" % v)
        r = Runner(b, scratch, d["property"], d["seed"])
        if d["kind"] == "plan":
            rc, out, err = r.call(v, "exec", "-plan", os.path.abspath(f))
        else:
            if d["property"] in ("C02", "C09"):
                b.build(ALL)
                emit_foreign(r, [x for x in b.done if "exe" in b.done[x] and x in ("v1", "v3", "v5", "v6", "v9")], scratch)
            rc, out, err = r.call(v, "run", "-profile", d["profile"], "-seed", str(d["seed"]), "-start", str(d["start"]), "-count", str(d["count"]))
        print(out[-3000:], err[-1500:], sep="\n")
        if rc in (1, 5, 6) or is_crash(rc):
            print("VIOLATION property=%s replay=%s" % (d["property"], f), flush=True)
            return 1
        return 0 if rc == 0 else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def on_term(*_):
    for p in list(LIVE):
        Runner.kill(p)
    for d in DIRS:
        shutil.rmtree(d, ignore_errors=True)
    os._exit(2)


def main():
    signal.signal(signal.SIGTERM, on_term)
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    try:
        if cmd == "check":
            prop = sys.argv[2]
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in sys.argv:
                tier = sys.argv[sys.argv.index("--tier") + 1]
            seed = int(os.environ.get("VERIF_SEED", "1") or 1)
            known_findings(prop)
            c = Check(prop, tier, seed)
            rc = c.go()
            note("%s %s: %d runs, %d comparisons, %d abandoned for another property" % (prop, "VIOLATED" if rc else "held", c.agg["runs"], c.agg["checks"], c.agg["other"]))
            return rc
        if cmd == "replay":
            return replay(sys.argv[2])
        if cmd == "setup":
            scratch = scratch_dir()
            try:
                b = Build(scratch)
                b.build(ALL)
                note("built", " ".join(v for v in b.done if "exe" in b.done[v]))
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            return 0
    except Trouble as e:
        print("TROUBLE:", e, flush=True)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
