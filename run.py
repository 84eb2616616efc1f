#!/usr/bin/env python3
"""run.py PID [--tier quick|thorough]   |   run.py --setup

Decides one property: model-checks the TLA+ specification it rests on, records executions of
the code in /repo with the harness, and has TLC judge every recorded line against the
specification.  Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: tool error.
"""
import json, os, re, subprocess, sys, threading, time, shutil, tempfile
ROOT = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(ROOT, ".work")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, ROOT)
from checks import CHECKS

class ToolError(Exception):
    pass

def sh_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "target")
    e.pop("RUSTC_WRAPPER", None)
    return e

def build():
    os.makedirs(WORK, exist_ok=True)
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(ROOT, "harness"),
                       env=sh_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        raise ToolError("the harness does not build against /repo")
    return os.path.join(WORK, "target", "debug", "qlverif")

def java(mem="5g"):
    return ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", JARS, "tlc2.TLC"]

def run_tlc(module, cfg, rundir, name, env=None, workers=8, extra=(), timeout=800, mem="5g"):
    """Run TLC; returns (output text, dict of measured counts)."""
    meta = os.path.join(rundir, "meta-" + name)
    e = dict(os.environ)
    e.update(env or {})
    cmd = java(mem) + ["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                       "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    out = r.stdout
    with open(os.path.join(rundir, "tlc-%s.log" % name), "w") as f:
        f.write(out)
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    st = dict(module=module, cfg=os.path.basename(cfg), wall_s=round(time.time() - t0, 1),
              transitions=int(m.group(1).replace(",", "")) if m else 0,
              states=int(m.group(2).replace(",", "")) if m else 0)
    return r.returncode, out, st

def write_cfg(rundir, base, consts, name):
    """A model configuration = the committed .cfg plus the tier's constants."""
    text = open(os.path.join(SPEC, base)).read()
    if consts:
        text += "\nCONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items())
    p = os.path.join(rundir, name + ".cfg")
    open(p, "w").write(text)
    return p

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = os.path.join(WORK, "runs", "%s-%s-%d" % (pid, tier, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.models, self.confs, self.bad, self.errors = [], [], [], []
        self.samples, self.kinds = [], {}
        self.lock = threading.Lock()

    def model(self, k, spec):
        name = "model%d-%s" % (k, spec["module"])
        consts = dict(spec.get("consts", {}))
        consts.update(spec.get(self.tier, {}))
        cfg = write_cfg(self.dir, spec.get("cfg", spec["module"] + ".cfg"), consts, name)
        rc, out, st = run_tlc(spec["module"], cfg, self.dir, name, workers=spec.get("workers", 4),
                              extra=spec.get("extra", ()))
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("the specification itself fails its properties: %s\n%s" % (name, out[-3000:]))
        if st["states"] < spec.get("min_states", 2):
            raise ToolError("vacuous model run %s: %s" % (name, st))
        st["bounds"] = consts
        with self.lock:
            self.models.append(st)

    def conf(self, k, spec, exe):
        name = "conf%d-%s%s" % (k, spec["cmd"], ("-" + spec["input"]) if spec.get("input") else "")
        inp = spec.get("input")
        if spec.get("gen"):
            inp = self.generate(spec["gen"], name)
        trace = os.path.join(self.dir, name + ".ndjson")
        cmd = [exe, spec["cmd"], trace, "--seed", str(self.seed)]
        if self.tier == "thorough":
            cmd.append("--thorough")
        if inp:
            cmd += ["--input", inp]
        t0 = time.time()
        lim = 420 if self.tier == "quick" else 3000
        import resource
        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=lim,
                               preexec_fn=limits)
            rc = r.returncode
            msg = r.stdout[-2000:]
        except subprocess.TimeoutExpired:
            rc, msg = 42, "did not finish within %d s" % lim
        if rc == 2:
            raise ToolError("harness: " + msg)
        if rc != 0:
            hang = trace + ".hang"
            label = open(hang).read() if os.path.exists(hang) else msg
            with self.lock:
                self.bad.append(dict(stage=name, clause=["the code did not return normally (exit %d)" % rc],
                                     record=label, cmd=" ".join(cmd)))
            return
        gen_s = time.time() - t0
        lines = open(trace).read().splitlines()
        if len(lines) < spec.get("min_lines", 1):
            raise ToolError("vacuous trace %s: %d lines" % (name, len(lines)))
        cfg = os.path.join(SPEC, spec.get("cfg", "Records.cfg"))
        env = dict(TRACE=trace)
        rc, out, st = run_tlc(spec["module"], cfg, self.dir, name, env=env, workers=spec.get("workers", 8),
                              timeout=820 if self.tier == "quick" else 6000, mem=spec.get("mem", "8g"))
        bad = re.findall(r'^"BAD\|(\d+)\|(.*)"\s*$', out, re.M)
        for i, clauses in bad:
            names = re.findall(r'\\?"([^"\\]+)\\?"', clauses) or [clauses]
            self.add_bad(name, int(i), names, lines, cmd)
        if rc != 0:
            m = re.search(r"(?:The invariant of|Evaluating invariant|while evaluating|The error occurred when TLC was evaluating|Error: Attempted|Error: .*)", out)
            if "Parsing or semantic analysis failed" in out or "OutOfMemory" in out or "deserialize" in out.lower() and not bad:
                raise ToolError("TLC failed on %s:\n%s" % (name, out[-3000:]))
            mi = re.findall(r"^(?:/\\ )?i = (\d+)$", out, re.M)
            if mi:
                self.add_bad(name, int(mi[-1]), ["not a value the specification can explain"], lines, cmd)
            elif not bad:
                raise ToolError("TLC failed on %s:\n%s" % (name, out[-3000:]))
        elif "No error has been found" not in out:
            raise ToolError("TLC did not finish on %s:\n%s" % (name, out[-3000:]))
        elif spec.get("cfg", "Records.cfg") == "Records.cfg" and st["states"] != len(lines) + 1:
            raise ToolError("not every line was judged in %s: %s of %d" % (name, st["states"], len(lines)))
        kinds = {}
        for ln in lines:
            m = re.match(r'\{"k":"([^"]+)"', ln)
            kk = m.group(1) if m else spec["cmd"]
            kinds[kk] = kinds.get(kk, 0) + 1
        with self.lock:
            st.update(lines=len(lines), record_s=round(gen_s, 1), bytes=os.path.getsize(trace), kinds=kinds)
            self.confs.append(st)
            for k2, v in kinds.items():
                self.kinds[k2] = self.kinds.get(k2, 0) + v
            step = max(1, len(lines) // 2)
            for ln in lines[::step][:2]:
                self.samples.append(ln if len(ln) < 400 else ln[:400] + "...")
        if not bad and not os.environ.get("VERIF_KEEP"):
            os.remove(trace)

    def generate(self, g, name):
        """Let TLC print behaviours of the specification (lines REPLAY|...) for the harness to replay."""
        consts = dict(g.get("consts", {}))
        consts.update(g.get(self.tier, {}))
        cfg = write_cfg(self.dir, g["cfg"], consts, "gen-" + name)
        extra = list(g.get("extra", {}).get(self.tier, [])) if isinstance(g.get("extra"), dict) else list(g.get("extra", []))
        if "-simulate" in extra:
            extra += ["-seed", str(self.seed)]
        rc, out, st = run_tlc(g["module"], cfg, self.dir, "gen-" + name, workers=g.get("workers", 4), extra=extra)
        beh = [m for m in re.findall(r'^"REPLAY\|(.*)"\s*$', out, re.M)]
        if rc != 0 or len(beh) < g.get("min", 1):
            raise ToolError("no behaviours generated by %s:\n%s" % (g["module"], out[-2000:]))
        st["behaviours"] = len(beh)
        p = os.path.join(self.dir, name + ".behaviours")
        open(p, "w").write("\n".join(sorted(beh)) + "\n")
        with self.lock:
            self.models.append(st)
        return p

    def add_bad(self, stage, i, names, lines, cmd):
        with self.lock:
            self.bad.append(dict(stage=stage, line=i, clause=names, record=lines[i - 1] if 0 < i <= len(lines) else None,
                                 cmd=" ".join(cmd)))

def known_findings(pid):
    res = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", ln)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res

def main():
    pid = sys.argv[1]
    if pid == "--setup":
        try:
            print(build())
        except ToolError as ex:
            print(ex)
            sys.exit(2)
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = CHECKS[pid]
    run = Run(pid, tier, seed)
    try:
        threads, errs = [], []
        def guard(f, *a):
            try:
                f(*a)
            except Exception as ex:        # noqa
                import traceback
                errs.append(ex if isinstance(ex, ToolError) else ToolError(traceback.format_exc()))
        mt = []
        def models():
            for k, m in enumerate(spec.get("models", [])):
                guard(run.model, k, m)
        th = threading.Thread(target=models)
        th.start()
        exe = None
        try:
            exe = build()
        except ToolError as ex:
            errs.append(ex)
        if exe:
            for k, c in enumerate(spec["confs"]):
                guard(run.conf, k, c, exe)
        th.join()
    finally:
        pass
    bad, listed = [], {}
    for b in run.bad:
        hit = None
        for key, text in known_findings(pid):
            if b["record"] and ('"id":"%s"' % key) in b["record"]:
                hit = text
        if hit:
            listed.setdefault(hit, 0)
            listed[hit] += 1
        else:
            bad.append(b)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=sum(m["states"] for m in run.models) + sum(c["states"] for c in run.confs),
                  transitions=sum(m["transitions"] for m in run.models) + sum(c["transitions"] for c in run.confs),
                  traces_validated_against_impl=sum(c["lines"] for c in run.confs),
                  trace_lines_by_kind=run.kinds,
                  models=run.models, conformance=run.confs, samples=run.samples[:6]),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(bad))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for text, n in listed.items():
        print("KNOWN-FINDING: property=%s %s (%d records)" % (pid, text, n))
    if bad:
        rdir = os.path.join(WORK, "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, seed))
        with open(rp, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, count=len(bad), violations=bad[:400]), f, indent=1)
        shutil.rmtree(run.dir, ignore_errors=True)
        for b in bad[:5]:
            print("  line %s of %s violates %s: %s" % (b.get("line"), b["stage"], b["clause"], (b["record"] or "")[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if errs:
        for e in errs:
            print("TOOL ERROR:", e)
        sys.exit(2)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(run.dir, ignore_errors=True)
    c = ev["coverage"]
    print("OK property=%s tier=%s states=%d trace lines=%d wall=%.1fs" %
          (pid, tier, c["states"], c["traces_validated_against_impl"], ev["wall_s"]))

main()
