"""Shared runner for all checks: builds harnesses from /repo's working tree,
runs them, replays failures before reporting them, applies the known-findings
file, writes the evidence file and exits 0/1 (2 = error of the check)."""
import concurrent.futures as cf
import fnmatch, hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
JOBS = int(os.environ.get("VF_JOBS", str(os.cpu_count() or 8)))

# name: (compiler, flags, cpu flags needed)
TARGETS = {
    "SPR": ("g++", "-march=sapphirerapids", "avx512_fp16 avx512_bf16 avx512_vbmi2 gfni vaes amx_bf16"),
    "AVX3_DL": ("g++", "-march=icelake-server", "avx512_vbmi2 gfni vaes vpclmulqdq avx512_bitalg avx512_vpopcntdq avx512_vnni"),
    "AVX3": ("g++", "-march=skylake-avx512 -maes -mpclmul", "avx512bw avx512dq avx512cd avx512vl"),
    "AVX2": ("g++", "-march=haswell -maes -mpclmul", "avx2 bmi2 fma f16c"),
    "SSE4": ("g++", "-msse4.2 -mpclmul -maes", "sse4_2 aes pclmulqdq"),
    "SSSE3": ("g++", "-mssse3", "ssse3"),
    "SSE2": ("g++", "", ""),
    "SCALAR": ("g++", "-DHWY_COMPILE_ONLY_SCALAR", ""),
    "EMU128": ("clang++", "-DHWY_COMPILE_ONLY_EMU128", ""),
}
# WebAssembly, run by node (not part of the default list of targets).
WASM = {
    "WASM": ("bash " + os.path.join(V, "wasm/cxx.sh"), "", ""),
    "WASM_EMU256": ("bash " + os.path.join(V, "wasm/cxx.sh"), "-DHWY_WANT_WASM2", ""),
}
OPTIONAL = {"SPR", "AVX3_DL", "EMU128"}  # not compiled by the baseline build
BASELINE = ["AVX3", "AVX2", "SSE4", "SSSE3", "SSE2", "SCALAR"]
ALL = list(TARGETS)
TARGETS.update(WASM)


def cpu_flags():
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"):
            return set(l.split(":", 1)[1].split())
    return set()


def runnable(t):
    need = TARGETS[t][2].replace("amx_bf16", "").split()
    return all(f in CPU for f in need)


CPU = cpu_flags()


class Known:
    """known_findings.txt: 'finding: property=<id> key=<glob> :: description'."""
    def __init__(self, pid):
        self.items = []
        p = os.path.join(V, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s*::\s*(.*)", l)
                if m and m.group(1) == pid:
                    self.items.append([m.group(2), m.group(3).strip(), 0])

    def match(self, key):
        for it in self.items:
            if fnmatch.fnmatchcase(key, it[0]):
                it[2] += 1
                return it
        return None


class Check:
    def __init__(self, pid, level, technique_rule=""):
        self.pid, self.level, self.rule = pid, level, technique_rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        build = os.environ.get("VF_BUILD", os.path.join(V, "build"))
        self.dir = os.path.join(build, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rdir = os.path.join(build, "replays", pid)
        shutil.rmtree(self.rdir, ignore_errors=True)
        os.makedirs(self.rdir)
        self.known = Known(pid)
        self.viol, self.kf, self.errors, self.notes = [], [], [], []
        self.evals = self.distinct = self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.exhaustive = True
        self.extra = {}
        self.budget = 840.0 if not self.thorough else 6 * 3600.0

    def left(self):
        return self.budget - (time.time() - self.t0)

    def log(self, *a):
        print("[%s %.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- violations
    def violation(self, key, msg, replay):
        """key identifies the failing case; replay is a path or a dict."""
        k = self.known.match(key)
        if k:
            self.kf.append((key, k))
            return
        if isinstance(replay, dict):
            name = re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:120]
            path = os.path.join(self.rdir, name + ".json")
            replay = dict(replay, property=self.pid, key=key, message=msg)
            with open(path, "w") as f:
                json.dump(replay, f, indent=1)
            replay = path
        self.viol.append((key, msg, replay))

    # ---- sequential enumeration units
    def compile(self, name, src, target=None, flags="", link="", cxx=None, repo_srcs=()):
        """Compiles one unit; returns (ok, binary, log)."""
        out = os.path.join(self.dir, name)
        tf = ""
        if target:
            c, tf, _ = TARGETS[target]
            cxx = cxx or c
        cxx = cxx or "g++"
        src = os.path.join(V, "seq", src) if not src.startswith("/") else src
        srcs = [src] + [os.path.join(REPO, s) for s in repo_srcs]
        static = "-DHWY_COMPILE_ONLY_STATIC" if "HWY_COMPILE_ONLY" not in tf and "HWY_DYN" not in flags else ""
        cmd = (f"{cxx} -std=c++17 -O1 -DNDEBUG -w -fno-strict-aliasing -ffp-contract=off -I{REPO} -I{V}/seq {tf} {static} "
               f"{flags} {' '.join(srcs)} -o {out} {link} -lpthread")
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0, out, cmd, p.stdout

    def unit(self, name, src, target=None, args="", timeout=600, optional=None, **kw):
        """Declares one unit (compile + run)."""
        if optional is None:
            optional = target in OPTIONAL
        self.parts.append(dict(name=name, src=src, target=target, args=args, timeout=timeout, optional=optional, kw=kw))

    def simd_units(self, base, src, targets=None, parts=(None,), **kw):
        for t in targets or ALL:
            if not runnable(t):
                self.notes.append(f"target {t} skipped: CPU lacks it")
                continue
            for p in parts:
                k = dict(kw)
                fl = k.pop("flags", "")
                n = f"{base}.{t}"
                if p is not None:
                    n += f".{p}"
                    fl += f" -DPART={p}"
                self.unit(n, src, t, flags=fl, **k)

    def _run_unit(self, u):
        t0 = time.time()
        ok, binp, cmd, log = self.compile(u["name"], u["src"], u["target"], **u["kw"])
        u["cmd"], u["compile_s"] = cmd, time.time() - t0
        if not ok:
            u["status"] = "nocompile"
            er = [x for x in log.splitlines() if "error" in x or "undefined reference" in x]
            u["log"] = "\n".join(er[:6])[:2500] or log[-2000:]
            return u
        t1 = time.time()
        u["bin"] = binp
        u["limit"] = min(u["timeout"], self.left() - 150)  # leaves room for the replays
        if u["limit"] < 20:
            u.update(status="notrun", rc="not run", groups=[], fails=[], cur=None, done=False, err="")
            return u
        self._exec(u, u["args"], u["limit"])
        u["run_s"] = time.time() - t1
        if os.environ.get("VF_TIMES"):
            print(f"  {u['name']}: compile {u['compile_s']:.0f} s, run {u['run_s']:.0f} s")
        return u

    def _exec(self, u, args, timeout, tag=""):
        outp = u["bin"] + tag + ".out"
        env = dict(os.environ, VF_TIER=self.tier, LC_ALL="C")
        full = f"{u['bin']} --out {outp} --tier {self.tier} {args}"
        try:
            p = subprocess.Popen(full, shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env,
                                 start_new_session=True, cwd=self.dir)
            try:
                err = p.communicate(timeout=timeout)[1]
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                err = p.communicate()[1]
                rc = "timeout"
        except Exception as e:  # noqa
            rc, err = "error:" + str(e), b""
        groups, fails, cur, done = [], [], None, False
        if os.path.exists(outp):
            for l in open(outp, errors="replace"):
                f = l.rstrip("\n").split("\t")
                if f[0] == "B":
                    cur = f[1]
                elif f[0] == "S":
                    groups.append(dict(group=f[1], evals=int(f[2]), distinct=int(f[3]), sample=f[4] if len(f) > 4 else ""))
                    cur = None
                elif f[0] == "F":
                    fails.append((f[1], f[2] if len(f) > 2 else "", f[3] if len(f) > 3 else ""))
                elif f[0] == "D":
                    done = True
        r = dict(rc=rc, groups=groups, fails=fails, cur=cur, done=done, err=(err or b"")[-2000:].decode("utf8", "replace"))
        if not tag:
            u.update(r)
        return r

    def run_units(self, level_is_states=False):
        us = self.parts
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(self._run_unit, us))
        notrun = []
        for u in res:
            nm = u["name"]
            if u.get("status") == "nocompile":
                if u["optional"]:
                    self.notes.append(f"{nm}: not compiled by the baseline and did not compile; skipped")
                else:
                    self.errors.append(f"{nm}: does not compile:\n{u['log']}")
                continue
            if u.get("status") == "notrun":
                notrun.append(nm)
                continue
            for g in u["groups"]:
                self.evals += g["evals"]
                self.distinct += g["distinct"]
                if g["sample"]:
                    self.samples.append(f"{nm}: {g['group']}: {g['sample']}")
            bad = {}
            for g, c, m in u["fails"]:
                bad.setdefault(g, []).append((c, m))
            if not u["done"] and u["cur"] and u["cur"] not in bad:
                what = "did not terminate" if u["rc"] == "timeout" else f"ended abnormally (rc {u['rc']}) {u['err'][-300:]}"
                bad[u["cur"]] = [("-", what)]
            elif not u["done"] and not bad:
                self.errors.append(f"{nm}: no result (rc {u['rc']}) {u['err'][-500:]}")
            for g, cs in bad.items():
                if self.viol and self.left() < 120:
                    self.notes.append(f"{nm}: failure of group {g} not replayed for lack of time: {cs[:1]}")
                    continue
                # replay before report: the group alone
                a = f"{u['args']} --only '{g}'"
                r = self._exec(u, a, max(60, min(u["timeout"], self.left() - 20)), tag=".replay")
                rf = {c for gg, c, m in r["fails"] if gg == g}
                conf = bool(rf) or (not r["done"] and r["cur"] == g)
                if not conf and self.left() > 30:
                    # it may need what the preceding groups did: the whole unit
                    a = u["args"]
                    r = self._exec(u, a, min(u["timeout"], max(30, self.left() - 10)), tag=".replay")
                    rf = {c for gg, c, m in r["fails"] if gg == g} & {c for c, m in cs}
                    conf = bool(rf)
                if not conf:
                    self.errors.append(f"{nm}: failure of group {g} not reproduced: {cs[:2]}")
                    continue
                for c, m in cs:
                    if rf and c not in rf and len(cs) > 1:
                        continue
                    self.violation(f"{nm}/{g}/{c}".replace(" ", "_"), f"{nm} {g} [{c}]: {m}",
                                   dict(kind="seq", compile=u["cmd"], run=f"{u['bin']} --out /dev/stdout --tier {self.tier} {a}"))
        if notrun and not self.viol:
            self.errors.append(f"no time left to run {notrun}")
        # short per-unit summary for the evidence
        self.extra.setdefault("units", []).extend(
            dict(unit=u["name"], groups=len(u.get("groups", [])), evals=sum(g["evals"] for g in u.get("groups", [])),
                 compile_s=round(u.get("compile_s", 0), 1), run_s=round(u.get("run_s", 0), 1),
                 status=u.get("status", "done" if u.get("done") else "incomplete")) for u in res)
        self.parts = []
        return res

    # ---- mc engine
    def mc_build(self, name, harness, srcs="", flags=""):
        p = subprocess.run(["bash", os.path.join(V, "mc/build_mc.sh"), self.dir, name, os.path.join(V, "mc", harness), srcs, flags],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, REPO=REPO))
        if p.returncode:
            self.errors.append(f"{name}: build failed:\n{p.stdout[-3000:]}")
            return None
        return os.path.join(self.dir, name)

    def mc_run(self, binp, args="", timeout=800, jobs=JOBS):
        if not binp:
            return None
        out = binp + ".json"
        if os.path.exists(out):
            os.remove(out)
        vdir = os.path.join(self.rdir, os.path.basename(binp))
        os.makedirs(vdir, exist_ok=True)
        cmd = f"{binp} --out {out} --vdir {vdir} --jobs {jobs} -v {args}"
        p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            so, se = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            so, se = p.communicate()
            self.errors.append(f"{os.path.basename(binp)}: explorer timed out")
        for l in se.splitlines():
            if l.startswith("VIOL "):
                _, path, rest = l.split(" ", 2)
                # replay in a fresh process before reporting
                r = subprocess.run(f"timeout 300 {binp} {args} --replay {path}", shell=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
                if r.returncode != 1:
                    self.errors.append(f"replay of {path} did not fail: {r.stdout[-200:]}")
                    continue
                with open(path, "a") as f:
                    f.write("\n# reproduce: %s/mc/build_mc.sh ... ; %s %s --replay %s\n" % (V, binp, args, path))
                    f.write("".join("# " + x + "\n" for x in r.stdout.splitlines()[-80:]))
                self.traces += 1
                self.violation(f"{os.path.basename(binp)}/{rest.split(':')[0]}", rest, path)
            elif l.startswith("ERROR "):
                self.errors.append(l)
        if not os.path.exists(out):
            self.errors.append(f"{os.path.basename(binp)}: no output; {se[-500:]}")
            return None
        try:
            j = json.load(open(out))
        except Exception as e:  # noqa
            self.errors.append(f"bad json from {binp}: {e}")
            return None
        self.states += j["states"]
        self.transitions += j["transitions"]
        self.traces += j["complete_executions"]
        self.extra["executions"] = self.extra.get("executions", 0) + j["executions"]
        self.extra["distinct_outcomes"] = self.extra.get("distinct_outcomes", 0) + j["distinct_outcomes"]
        self.extra["scenarios_exhausted"] = self.extra.get("scenarios_exhausted", 0) + j["scenarios_exhausted"]
        self.extra["scenarios_capped"] = self.extra.get("scenarios_capped", 0) + j["scenarios_capped"]
        if j["scenarios_capped"]:
            self.exhaustive = False
            self.notes.append("capped: " + ", ".join(s["name"] for s in j["scenarios"] if s["status"] == "capped"))
        for s in j["scenarios"]:
            if s["status"] == "exhausted" and s["complete_executions"] == 0:
                self.errors.append(f"{s['name']}: vacuous, no execution ran to completion")
            self.samples.append("%s P=%d D=%d %s: %d states, %d transitions, %d executions, %d outcomes" % (
                s["name"], s["preemptions"], s["deviations"], s["status"], s["states"], s["transitions"], s["executions"], s["distinct_outcomes"]))
        return j

    # ---- end
    def finish(self):
        cov = {}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        else:
            cov.update(evaluations=self.evals, distinct_nontrivial=self.distinct, rule=self.rule)
        step = max(1, len(self.samples) // 60)
        cov["samples"] = [s[:300] for s in self.samples[::step]][:80] or ["(none)"]
        cov["exhaustive"] = bool(self.exhaustive and not self.errors)
        if self.level == "model_checking" and self.evals:
            cov["evaluations"] = self.evals
        cov["rule"] = self.rule
        for k, v in self.extra.items():
            cov[k] = v
        if self.notes:
            cov["notes"] = sorted(set(self.notes))[:40]
        ev = dict(property=self.pid, tier="thorough" if self.thorough else "quick", seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions or ["compiler, CPU and C library are correct"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            cov["units"] = cov.get("units", [])[:60]
            cov["samples"] = cov["samples"][:30]
            s = json.dumps(ev, indent=1)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            f.write(s + "\n")
        seen = {}
        for key, k in self.kf:
            seen.setdefault(k[0], (k[1], []))[1].append(key)
        for g, (d, keys) in seen.items():
            print(f"KNOWN-FINDING: property={self.pid} {d} ({len(keys)} case(s))")
        for e in self.errors[:20]:
            print("CHECK-ERROR:", e)
        for key, msg, path in self.viol[:40]:
            print("  " + msg[:600])
        for key, msg, path in self.viol[:10]:
            print(f"VIOLATION property={self.pid} replay={path}")
        self.log(f"done: violations={len(self.viol)} errors={len(self.errors)} evals={self.evals} states={self.states}")
        # large binaries are not kept; replays carry their compile command
        if not self.viol and not self.errors and not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        sys.stdout.flush()
        sys.exit(1 if self.viol else 2 if self.errors else 0)
