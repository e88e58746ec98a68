"""Shared machinery of the checks: build the tree under test, run grt, run TLC,
record evidence and verdicts.  Verdicts themselves are made by the TLA+ modules in
/verif/spec; this file only moves data between them and the real code."""
import os, sys, json, time, shutil, hashlib, subprocess, tempfile, fcntl, random, re, traceback, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CEXT = os.path.join(REPO, "pygrt", "C_extension")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
CACHE = os.path.join(VERIF, ".build")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class Infra(Exception):
    """the machinery itself failed: no verdict"""


# ----------------------------------------------------------------- build
def _tree_hash():
    h = hashlib.sha256()
    for top in ("src", "include", "Makefile", "version"):
        p = os.path.join(CEXT, top)
        if os.path.isfile(p):
            h.update(top.encode()); h.update(open(p, "rb").read()); continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(os.path.relpath(q, CEXT).encode()); h.update(open(q, "rb").read())
    return h.hexdigest()[:20]


def build():
    """compile /repo's working tree outside it; returns the directory holding bin/grt and lib/libgrt.so"""
    os.makedirs(CACHE, exist_ok=True)
    key = _tree_hash()
    out = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            os.utime(out)
            return out
        olds = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE)
                      if os.path.isdir(os.path.join(CACHE, d)))
        for m, d in olds[:-3]:
            if time.time() - m > 3600:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=CACHE, prefix="tmp.")
        try:
            for top in ("src", "include"):
                shutil.copytree(os.path.join(CEXT, top), os.path.join(tmp, top))
            for f in ("Makefile", "version"):
                shutil.copy(os.path.join(CEXT, f), tmp)
            r = subprocess.run(["make", f"-j{NPROC}", "CC=gcc", "all"], cwd=tmp,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0 or not os.path.exists(os.path.join(tmp, "bin", "grt")):
                raise Infra("build failed:\n" + r.stdout[-4000:])
            shutil.rmtree(os.path.join(tmp, "build"), ignore_errors=True)
            open(os.path.join(tmp, "ok"), "w").close()
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return out


# ----------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.states = 0; self.distinct = 0; self.out = ""; self.rc = None
        self.json = []; self.violated = None


def tlc(module, cfg=None, env=None, workers=NPROC, extra=(), timeout=800, xmx="6g", expect_ok=True):
    """run TLC on spec/<module>.tla; lines printed as  VPJ<json>  (or TLA strings holding that) are collected"""
    meta = tempfile.mkdtemp(prefix="vptlc.")
    e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cfg = cfg or module + ".cfg"
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", TLAJAR, "tlc2.TLC", "-config", cfg,
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock", *extra, module + ".tla"]
    res = TLCResult()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra(f"TLC timed out on {module}/{cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res.rc = r.returncode; res.out = r.stdout
    for line in r.stdout.splitlines():
        if line.startswith('"VPJ'):
            res.json.append(json.loads(json.loads(line)[3:]))
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
        if m:
            res.states = int(m.group(1).replace(",", "")); res.distinct = int(m.group(2).replace(",", ""))
        m = re.search(r"The number of states generated: ([\d,]+)", line)   # simulation mode
        if m:
            res.states = int(m.group(1).replace(",", ""))
    res.json.sort(key=lambda j: json.dumps(j, sort_keys=True))      # TLC's order depends on its workers
    if expect_ok and res.rc != 0:
        raise Infra(f"TLC failed on {module}/{cfg} rc={res.rc}\n" + res.out[-6000:])
    return res


# ----------------------------------------------------------------- check frame
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid; self.level = level
        self.tier = os.environ.get("VERIF_TIER_CMD") or (sys.argv[1] if len(sys.argv) > 1 else "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vp{pid}.")
        atexit.register(shutil.rmtree, self.scratch, True)
        self.violations = []
        self.samples = []; self.states = 0; self.transitions = 0; self.traces = 0
        self.notes = {}; self.assumptions = []
        self.known = self._load_known(); self.known_hit = set()
        self.pool = ThreadPoolExecutor(NPROC)
        self._n = 0

    def _load_known(self):
        out = []
        p = os.path.join(VERIF, "known-findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("{"):
                    r = json.loads(l)
                    if r.get("property") == self.pid and r.get("status") == "known":
                        out.append(r)
        return out

    def build(self):
        self.dir = build()
        self.grt_bin = os.path.join(self.dir, "bin", "grt")
        return self

    def dirnew(self, name=None):
        self._n += 1
        d = os.path.join(self.scratch, name or f"d{self._n:06d}")
        os.makedirs(d, exist_ok=True)
        return d

    def grt(self, args, cwd=None, timeout=120, env=None, omp="1"):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.scratch, "LANG": "C.UTF-8", "OMP_NUM_THREADS": omp,
             "MALLOC_PERTURB_": "165"}
        if env: e.update(env)
        try:
            r = subprocess.run([self.grt_bin, *map(str, args)], cwd=cwd or self.scratch, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            r.stdout = r.stdout.decode("utf8", "replace"); r.stderr = r.stderr.decode("utf8", "replace")
            return r
        except subprocess.TimeoutExpired:
            class R: pass
            x = R(); x.returncode = 124; x.stdout = ""; x.stderr = "timeout"; x.args = args
            return x

    def pmap(self, f, xs):
        return list(self.pool.map(f, xs))

    def tlc(self, module, cfg=None, env=None, **kw):
        r = tlc(module, cfg, env, **kw)
        self.states += r.distinct or r.states; self.transitions += r.states
        self.notes.setdefault("tlc", []).append({"module": module, "cfg": cfg or module + ".cfg",
                                                 "distinct": r.distinct, "generated": r.states})
        return r

    # records: list of dicts (ints/strings/bools only).  Returns list of rejected record indices.
    def tlc_trace(self, module, records, cfg=None, env=None, chunk=20000, **kw):
        bad = []
        for off in range(0, len(records), chunk):
            part = records[off:off + chunk]
            path = os.path.join(self.scratch, f"trace.{module}.{off}.ndjson")
            with open(path, "w") as f:
                for r in part:
                    _assert_int(r)
                    f.write(json.dumps(r) + "\n")
            ev = {"VP_TRACE": path}; ev.update(env or {})
            r = self.tlc(module, cfg, ev, **kw)
            seen = set()
            for j in r.json:
                if "reject" in j: bad.append((off + j["reject"] - 1, j)); 
                if "done" in j: seen.add(j["done"])
            if len(r.json) == 0 or sum(j.get("count", 0) for j in r.json if "done" in j) != len(part):
                raise Infra(f"trace module {module} did not consume all records: {r.out[-3000:]}")
            self.traces += len(part)
            os.remove(path)
        return bad

    def judge(self, module, cases, observe, describe, cfg=None, corrupt=None, key=None, env=None, **kw):
        """observe(case)->(record, raw); every record is judged by the TLA+ trace module; rejected ones are
        observed again and reported only if rejected again.  corrupt(record) must be rejected (live binding)."""
        def safe(case):
            try:
                return observe(case)
            except Infra:
                raise
            except Exception as e:
                return {"ok": False, "err": 1}, {"error": traceback.format_exc()}
        res = self.pmap(safe, cases)
        recs = [r[0] for r in res]
        bad = [i for i, _ in self.tlc_trace(module, recs, cfg, env, **kw)]
        if bad:
            again = bad[:12]
            res2 = self.pmap(safe, [cases[i] for i in again])
            bad2 = [i for i, _ in self.tlc_trace(module, [r[0] for r in res2], cfg, env, **kw)]
            for j in bad2:
                i = again[j]
                self.violate("recorded run rejected by %s: %s" % (module, describe(cases[i])),
                             {"record": res2[j][0], "raw": res2[j][1], "rejected_total": len(bad)}, key=key(cases[i]) if key else None)
            self.notes["rejected_" + module] = len(bad)
        for r in recs[:2]: self.sample(json.dumps(r)[:500])
        if corrupt is not None:
            good_ = [r for n, r in enumerate(recs) if n not in set(bad) and r.get("ok", True)]
            for r in good_:
                t = corrupt(json.loads(json.dumps(r)))
                if t is not None:
                    if not self.tlc_trace(module, [t], cfg, env, **kw): raise Infra("corrupted trace accepted by " + module)
                    self.notes["corrupted_rejected_" + module] = True
                    break
        return recs, res

    def sample(self, s, cap=40):
        if len(self.samples) < cap: self.samples.append(s)

    def violate(self, what, data=None, key=None):
        """key identifies the failing input for the known-findings file"""
        for k in self.known:
            if key is not None and k.get("key") == key:
                if key not in self.known_hit:
                    self.known_hit.add(key)
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
                return
        self.violations.append({"what": what, "data": data, "key": key})

    def finish(self):
        for k in self.known:
            self.notes.setdefault("known_findings_seen", []).append({"key": k["key"], "seen": k["key"] in self.known_hit})
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": self.level,
              "coverage": {"model_checking": {"states": self.states, "transitions": self.transitions,
                                              "traces_validated_against_impl": self.traces, "samples": self.samples or ["-"]},
                           "notes": self.notes},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            rp = os.path.join(EVID, "replay"); os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump(self.violations[:50], f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  " + str(v["what"])[:600])
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        print(f"OK property={self.pid} states={self.states} traces={self.traces} wall={time.time()-self.t0:.1f}s", flush=True)
        return 0


def _assert_int(x):
    if isinstance(x, bool) or isinstance(x, str): return
    if isinstance(x, int):
        if abs(x) > 2147483647: raise Infra(f"integer out of TLC range: {x}")
        return
    if isinstance(x, dict):
        for k, v in x.items(): _assert_int(v)
        return
    if isinstance(x, (list, tuple)):
        for v in x: _assert_int(v)
        return
    raise Infra(f"not a trace value: {x!r}")


def q(v, scale, lim=20000000):
    """quantise a float for a trace; non-finite and huge values saturate (and so never match)"""
    try:
        x = v * scale
        if x != x: return lim
        if x > lim: return lim
        if x < -lim: return -lim
        return int(round(x))
    except (OverflowError, TypeError):
        return lim


def main(fn, pid, level="model_checking"):
    c = Check(pid, level)
    try:
        c.build()
        try:
            fn(c)
        except (Infra, OSError, MemoryError):
            if not c.violations: raise
        except Exception as e:
            # output the harness cannot even read: repeat; the same failure twice is an answer of the code under test
            first = traceback.format_exc()
            c2 = Check(pid, level); c2.dir, c2.grt_bin = c.dir, c.grt_bin
            try: fn(c2); c = c2
            except (Infra, OSError, MemoryError): raise
            except Exception as e2:
                if type(e2) is not type(e): raise
                c.violate("the program's output cannot be interpreted: %r" % e2, {"first": first, "second": traceback.format_exc()})
        rc = c.finish()
    except Infra as e:
        print("INFRASTRUCTURE:", str(e)[-3000:]); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
