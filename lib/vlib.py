"""Shared machinery of the checks: build a harness against /repo's working tree,
run it, hand its recorded traces to TLC, report verdicts, write evidence."""
import concurrent.futures
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIBSRC = ["src/arabica.cpp", "src/XML/XMLCharacterClasses.cpp",
          "src/SAX/helpers/InputSourceResolver.cpp", "src/io/uri.cpp",
          "src/convert/base64codecvt.cpp", "src/convert/impl/iso88591_utf8.cpp",
          "src/convert/iso88591utf8codecvt.cpp", "src/convert/rot13codecvt.cpp",
          "src/convert/impl/ucs2_utf16.cpp", "src/convert/impl/ucs2_utf8.cpp",
          "src/convert/ucs2utf8codecvt.cpp", "src/convert/utf16beucs2codecvt.cpp",
          "src/convert/utf16leucs2codecvt.cpp", "src/convert/utf16utf8codecvt.cpp",
          "src/convert/utf8iso88591codecvt.cpp", "src/convert/utf8ucs2codecvt.cpp",
          "src/taggle/Schema.cpp"]
BACKENDS = {"expat": ("ARABICA_USE_EXPAT", [], ["-lexpat"]),
            "libxml2": ("ARABICA_USE_LIBXML2", ["-I/usr/include/libxml2"], ["-lxml2"]),
            "xerces": ("ARABICA_USE_XERCES", [], ["-lxerces-c"])}


class CheckError(Exception):
    pass


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(shutil.rmtree, self.dir, True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.known = load_known(pid)

    # ---- build -------------------------------------------------------
    def lib_sources(self):
        """The library's source list, from /repo's CMakeLists (falls back to the pinned list)."""
        try:
            txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
            got = [s for s in re.findall(r"^\s*(src/[\w/]+\.cpp)\s*$", txt, re.M)
                   if os.path.exists(os.path.join(REPO, s))]
            if got:
                return sorted(set(got))
        except OSError:
            pass
        return [s for s in LIBSRC if os.path.exists(os.path.join(REPO, s))]

    def build(self, harness, backend="expat", out=None, defines=(), flags=("-O0", "-g1"), lib=True, san=False):
        """Compile harness/<harness>.cpp with /repo's headers and library sources. Returns a handle to wait on."""
        out = out or os.path.join(self.dir, harness + "-" + backend)
        macro, incs, libs = BACKENDS[backend]
        cfgdir = out + ".cfg"
        os.makedirs(cfgdir + "/SAX", exist_ok=True)
        with open(cfgdir + "/SAX/ArabicaConfig.hpp", "w") as f:
            f.write("#define ARABICA_HAVE_BOOST\n#define %s\n" % macro)
        cxx = ["g++", "-std=c++14", "-w"] + list(flags)
        if san:
            cxx += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        cxx += ["-D" + d for d in defines]
        cxx += ["-I" + cfgdir, "-I" + REPO + "/include", "-I" + VERIF + "/harness"] + incs
        env = dict(os.environ, LC_ALL="C.UTF-8")
        jobs, objs = [], []

        def spawn(src, obj):
            log = open(obj + ".log", "w")
            jobs.append((src, obj, subprocess.Popen(cxx + ["-c", src, "-o", obj], stdout=log, stderr=log, env=env)))
            objs.append(obj)
        spawn(os.path.join(VERIF, "harness", harness + ".cpp"), out + ".o")
        if lib:
            for i, s in enumerate(self.lib_sources()):
                spawn(os.path.join(REPO, s), "%s.lib%d.o" % (out, i))
        return Build(jobs, objs, out, cxx, libs, env)

    # ---- run ---------------------------------------------------------
    def run(self, argv, timeout=300, stdin=None, env=None):
        e = dict(os.environ, LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0",
                 UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")
        if env:
            e.update(env)
        try:
            p = subprocess.run([str(a) for a in argv], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               input=stdin, env=e, cwd=self.dir)
            return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired as x:
            return -999, (x.stdout or b"").decode("utf8", "replace"), "TIMEOUT"

    def tlc(self, module, cfg, env=None, workers=4, timeout=600, heap="3g", extra=(), deque=False, simulate=None):
        """Run TLC on spec/<module>.tla with spec/<cfg>. Returns TlcResult."""
        meta = tempfile.mkdtemp(dir=self.dir)
        sd = os.path.join(VERIF, "spec")
        cmd = ["java", "-Xmx" + heap, "-Xss32m", "-XX:+UseParallelGC"]
        if deque:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JAR, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-config", cfg, "-noGenerateSpecTE",
                "-deadlock"]
        if simulate:
            cmd += ["-simulate", simulate, "-seed", str(self.seed)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ, **(env or {}))
        e.pop("JAVA_TOOL_OPTIONS", None)
        t = time.time()
        path = os.path.join(meta, "tlc.out")
        stopped = False
        with open(path, "w") as f:
            p = subprocess.Popen(cmd, cwd=sd, stdout=f, stderr=subprocess.STDOUT, env=e)
        while True:
            try:
                p.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                # enough mismatches to report, or out of time: what was printed so far still counts
                if time.time() - t > timeout or open(path, errors="replace").read().count("@@") >= 40:
                    stopped = True
                    p.kill()
                    p.wait()
                    break
        out = open(path, errors="replace").read()
        shutil.rmtree(meta, True)
        if stopped and "@@" not in out:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        return TlcResult(-1 if stopped else p.returncode, out, time.time() - t)

    # ---- verdicts ----------------------------------------------------
    def design(self, module, cfg, what, workers=8, timeout=400, heap="4g", must_cover=True):
        """Model-check the specification itself. A failure is an error of the check, not of the code."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap)
        if not r.ok:
            raise CheckError("design check %s/%s failed (rc %d):\n%s" % (module, cfg, r.rc, r.out[-3000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("design_runs", []).append(
            {"what": what, "module": module, "cfg": cfg, "distinct_states": r.distinct,
             "states_generated": r.generated, "wall_s": round(r.wall, 1)})
        return r

    def violation(self, what, replay_obj, key=None):
        """Record a violation; `key` identifies it for the known-findings file."""
        key = key or what
        for k in self.known:
            if k["key"] == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        if len(self.violations) >= 5:
            self.violations.append((what, None))
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "what": what, "key": key,
                       "replay": replay_obj}, f, indent=1, default=str)
        self.violations.append((what, path))

    def validate(self, module, path, what, workers=8, heap="6g", timeout=800, complete=True, is_start=lambda o: o.get("e") == "init", keyof=None, env=None, cfg=None):
        """Trace validation: every line of the ndjson file must be accepted by spec/<module>. Returns accepted line count."""
        lines = open(path).read().split("\n")
        lines = [x for x in lines if x]
        if not lines:
            return 0
        e = dict(env or {})
        e["TRACE"] = path
        r = self.tlc(module, cfg or module + ".cfg", env=e, workers=workers, timeout=timeout, heap=heap)
        seen = {}
        for m in r.mism():
            k, text = parse_mism(m)
            seen.setdefault(k, text)
        if not r.ok and not seen:
            raise CheckError("%s on %s: TLC rc %d\n%s" % (module, what, r.rc, r.out[-3000:]))
        if r.ok and not seen and complete and r.distinct != len(lines):
            raise CheckError("%s on %s: %d of %d lines accepted and no mismatch reported\n%s" % (module, what, r.distinct, len(lines), r.out[-1500:]))
        for k in sorted(seen):
            i = k - 1
            tr = [json.loads(lines[i])] if 0 <= i < len(lines) else []
            j = i
            while j > 0 and not is_start(json.loads(lines[j])):
                j -= 1
            first = json.loads(lines[j])
            if "n" not in first or not isinstance(first.get("n"), int):
                tr = [json.loads(x) for x in lines[j:i + 1]]
            else:
                tr = [first] + tr
            key = keyof(tr[-1] if tr else {}, seen[k]) if keyof else None
            self.violation("%s: %s" % (what, seen[k][:1500]), {"trace": tr[-200:], "specification says": seen[k]}, key)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        starts = sum(1 for x in lines if is_start(json.loads(x))) if len(lines) < 300000 else 0
        self.cov["traces_validated_against_impl"] += starts
        self.cov["trace_lines"] = self.cov.get("trace_lines", 0) + len(lines)
        if len(self.cov["samples"]) < 6:
            n = len(lines)
            for q in (n // 3, 2 * n // 3):
                self.cov["samples"].append(lines[q][:400])
        return len(lines)

    def drive_all(self, jobs, timeout=300, workers=8):
        """Several drives at the same time; jobs: [(argv, out, what)], yielded as they were given once each has ended."""
        def one(k):
            argv, out, what = jobs[k]
            return self.run(argv, timeout=timeout, env={"VF_OP": "op%d" % k})
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            for k, f in enumerate([ex.submit(one, k) for k in range(len(jobs))]):
                self.drive(*jobs[k], result=f.result(), op="op%d" % k)
                yield jobs[k]

    def drive(self, argv, out, what, timeout=300, env=None, key=None, result=None, op="current.op"):
        """Run a harness that writes a trace to `out`; a crash or a hang of the library is a violation. True if it ended well."""
        rc, so, se = result or self.run(argv, timeout=timeout, env=env)
        if rc == 0:
            return so
        if rc == 3:
            raise CheckError("harness usage: %s" % (argv,))
        cur = ""
        try:
            cur = open(os.path.join(self.dir, op)).read().strip()
        except OSError:
            pass
        s = crash_summary(rc, se)
        self.violation("%s: the library crashed, hung or corrupted memory: %s [in progress: %s]" % (what, s, cur[:300]),
                       {"argv": [str(a) for a in argv], "in_progress": cur, "summary": s, "stderr": se[-4000:]}, key)
        if out and os.path.exists(out):
            t = open(out).read()
            open(out, "w").write(t[:t.rfind("\n") + 1])
        return None

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for what, path in self.violations:
            if path:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  " + what[:600])
        if len(self.violations) > 5:
            print("  (and %d more)" % (len(self.violations) - 5))
        print("%s: %s tier=%s %.1fs" % (self.pid, "VIOLATED" if self.violations else "held", self.tier, time.time() - self.t0))
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


class Build:
    def __init__(self, jobs, objs, out, cxx, libs, env):
        self.jobs, self.objs, self.out, self.cxx, self.libs, self.env = jobs, objs, out, cxx, libs, env

    def wait(self):
        for src, obj, p in self.jobs:
            if p.wait() != 0:
                for _, _, q in self.jobs:
                    if q.poll() is None:
                        q.kill()
                raise CheckError("compile failed: %s\n%s" % (src, open(obj + ".log").read()[-4000:]))
        r = subprocess.run(self.cxx + self.objs + ["-o", self.out] + self.libs + ["-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env)
        if r.returncode != 0:
            raise CheckError("link failed: " + r.stdout.decode("utf8", "replace")[-3000:])
        return self.out


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            m = re.findall(r"number of states generated: ([\d,]+)", out)
            if m:
                self.generated = self.distinct = int(m[-1].replace(",", ""))
        self.ok = rc == 0
        self.prints = re.findall(r'^<<"(?:@@)(\w+)",? ?(.*)>>$', out, re.M)

    def mism(self):
        """Payloads of PrintT(<<"@@MISMATCH", ...>>)-style lines, TLC may wrap them over lines."""
        res, cur = [], None
        for line in self.out.splitlines():
            if line.startswith('<<"@@') or line.startswith('<< "@@'):
                cur = line
            elif cur is not None:
                cur += " " + line.strip()
            if cur is not None and cur.count("<<") <= cur.count(">>"):
                res.append(cur)
                cur = None
        return res


def crash_summary(rc, err):
    """One line on why a harness died."""
    if rc == -999 or rc == -14:
        return "the call did not return (time limit)"
    for pat in (r"SUMMARY: (.*)", r"(runtime error: .*)", r"(terminate called.*)", r"(ERROR: AddressSanitizer.*)"):
        m = re.search(pat, err)
        if m:
            return re.sub(r"/\S*/vf-[^/ ]*/", "", m.group(1))[:200]
    return "exit status %d" % rc


def parse_mism(text):
    """<<"@@MISMATCH", line, ...>> -> (line number, one-line text)"""
    text = re.sub(r"\s+", " ", text)
    m = re.match(r'<< ?"@@\w+", ?(\d+)', text)
    return (int(m.group(1)) if m else 0), text


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                o = json.loads(line)
                if o.get("property") == pid and o.get("status") == "known":
                    res.append(o)
    return res


def main(fn):
    """Run a check function; anything unexpected is an error exit (2), never a verdict."""
    try:
        fn()
    except CheckError as x:
        print("CHECK-ERROR: %s" % x)
        sys.stdout.flush()
        sys.exit(2)
