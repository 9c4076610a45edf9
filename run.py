#!/usr/bin/env python3
"""Driver: run.py <property> [--thorough] [--job NAME] [--src DIR]

Compiles /repo's current sources together with the harnesses of the property,
runs the symbolic engines over them, replays counterexamples against the real
code and writes evidence/<property>.json.
Exit: 0 held on everything explored, 1 violation (line VIOLATION ...), 2 no answer.
"""
import os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if not os.environ.get("VH_INNER"):
    os.environ["VH_INNER"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    py = VT if os.path.exists(VT) else "python3-vt"
    os.execvp(py, [py, os.path.abspath(__file__)] + sys.argv[1:])

import json, time, subprocess, shutil, tempfile, hashlib, re, signal
sys.path.insert(0, VERIF)
from gusym import explore as gx
from jobs import JOBS, LEVEL

SRC = "/repo/gridutils"
H = os.path.join(VERIF, "harness")
NCPU = 8
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:])
    return r.stdout


MAINS = {}


def sources():
    """(library sources, utilities) - by whether the translation unit defines main"""
    if not MAINS:
        libs, utils = [], []
        for f in sorted(os.listdir(SRC)):
            if not f.endswith(".c"):
                continue
            p = os.path.join(SRC, f)
            r = subprocess.run(["clang-18", "-O0", "-w", "-I", SRC, "-I", H + "/stubs", "-S", "-emit-llvm", "-o", "-", p],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                raise BuildError("cannot compile %s: %s" % (f, r.stderr.decode(errors="replace")[-2000:]))
            if re.search(rb"^define [^@]*@main\(", r.stdout, re.M):
                utils.append(f)
            else:
                libs.append(f)
        MAINS["libs"] = libs
        MAINS["utils"] = utils
    return MAINS["libs"], MAINS["utils"]


def units(job):
    """[(source path, extra flags)] for a job"""
    libs, utils = sources()
    r = [(os.path.join(H, job.harness), [])]
    for l in libs:
        r.append((os.path.join(SRC, l), job.libflags.get(l, [])))
    for u in job.utils:
        r.append((os.path.join(SRC, u + ".c"), ["-Dmain=%s_main" % u]))
    for x in job.extra:
        r.append((os.path.join(H, x), []))
    return r


def dflags(job):
    return ["-D%s=%s" % kv for kv in job.defs.items()]


def par(cmds):
    ps = []
    out = []
    for c in cmds:
        ps.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for c, p in ps:
        o, _ = p.communicate()
        if p.returncode:
            raise BuildError(" ".join(c) + "\n" + o.decode(errors="replace")[-3000:])


IRCACHE = {}
# what gcc 13, which the makefile uses, only warns about
LAX = ["-Wno-error=" + w for w in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-function-pointer-types", "return-type")]


def gnu(src):
    """the makefile does not define _GNU_SOURCE"""
    return ["-D_GNU_SOURCE"] if src.startswith(H) else []


def build_ir(job, work):
    """compile to IR; cached within the run by flags"""
    outs = []
    cmds = []
    for src, fl in units(job):
        allf = fl + (dflags(job) if src.startswith(H) else [])
        key = (src, tuple(allf))
        o = IRCACHE.get(key)
        if o is None:
            o = os.path.join(work, "ir%d.ll" % len(IRCACHE))
            IRCACHE[key] = o
            cmds.append(["clang-18", "-O0", "-w", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fno-builtin",
                         "-D__NO_CTYPE", "-S", "-emit-llvm", "-I", SRC, "-I", H, "-I", H + "/stubs", "-o", o, src] + LAX + gnu(src) + allf)
        outs.append(o)
    par(cmds)
    k = tuple(outs)
    if k not in PROGS:
        a = os.path.join(work, "all.ll")
        sh(["llvm-link-18", "-S", "-o", a] + outs)
        o = os.path.join(work, "opt.ll")
        sh(["opt-18", "-S", "-passes=mem2reg", a, "-o", o])
        PROGS[k] = gx.Program(open(o).read())
    return PROGS[k]


NATIVE = {}
OBJS = {}
PROGS = {}
SAN = {"asan": ["gcc", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
       "msan": ["clang-18", "-fsanitize=memory"]}


def build_native(job, work, kind="asan"):
    key = (job.harness, job.entry, tuple(sorted(job.defs.items())), kind)
    b = NATIVE.get(key)
    if b:
        return b
    base = SAN[kind] + ["-O1", "-g", "-w", "-ffp-contract=off", "-fno-builtin", "-fno-omit-frame-pointer", "-D__NO_CTYPE",
                        "-DVH_NATIVE=1", "-I", SRC, "-I", H, "-I", H + "/stubs"]
    objs = []
    cmds = []
    n = len(NATIVE)
    for i, (src, fl) in enumerate(units(job) + [(os.path.join(H, "vh_native.c"), ["-DVH_ENTRY=" + job.entry])]):
        own = src.startswith(H)
        fl = [f for f in fl if not f.startswith("-Dgu_alloc2d") and "=vhc_" not in f]
        fl = fl + (dflags(job) if own else []) + ([] if src.endswith("vh_native.c") else ["-Dexit=vh_exit"])
        k = (src, tuple(fl), kind)
        o = OBJS.get(k)
        if o is None:
            o = OBJS[k] = os.path.join(work, "n%d_%d.o" % (n, i))
            cmds.append(base + (LAX if "clang" in base[0] else []) + gnu(src) + fl + ["-c", src, "-o", o])
        objs.append(o)
    par(cmds)
    b = os.path.join(work, "native%d" % n)
    sh(SAN[kind] + ["-o", b] + objs + ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup", "-lm"])
    NATIVE[key] = b
    return b


def native_run(b, inputs, work, tolscale, timeout=30):
    """(rc, text)"""
    d = tempfile.mkdtemp(dir=work)
    rf = os.path.join(d, "replay.txt")
    with open(rf, "w") as f:
        for x in inputs:
            f.write("%s\n" % (float(x).hex() if x == x else "nan"))
    env = dict(os.environ, VH_TOLSCALE=str(tolscale), ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:max_allocation_size_mb=4000",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=99", MSAN_OPTIONS="exitcode=99")
    try:
        r = subprocess.run([b, rf], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           stdin=subprocess.DEVNULL)
        rc, o = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, o = "timeout", "no termination within %d s" % timeout
    shutil.rmtree(d, ignore_errors=True)
    return rc, o


def confirm(job, v, work):
    """replay a counterexample natively; returns (reproduced, text)"""
    kinds = ["msan", "asan"] if v["kind"] == "uninit" else ["asan"]
    txt = ""
    for k in kinds:
        b = build_native(job, work, k)
        for ts in (0.5,):
            rc, o = native_run(b, v["inputs"], work, ts)
            txt = "[%s build, exit %s]\n%s" % (k, rc, o[-2500:])
            if rc == 0 or rc == 77:
                continue
            return True, txt
        # the path rounds to single precision by an unknown amount: numbers that are not dyadic nearby
        for n in range(24 if v.get("noisy") else 0):
            xs = list(v["inputs"])
            for i in v["noisy"]:
                t = ((i * 37 + n * 101 + 11) % 97 + 0.3) / 97 * 0.7 ** n * 0.1
                xs[i] = xs[i] + t if (i + n) % 2 or n % 3 == 0 else xs[i] - t
            rc, o = native_run(b, xs, work, 0.5)
            if rc != 0 and rc != 77:
                v["inputs"] = xs
                return True, "[%s build, exit %s]\n%s" % (k, rc, o[-2500:])
    return False, txt


# --------------------------------------------------------------- engines
def run_sym(job, work, tier, budget):
    prog = build_ir(job, work)
    ex = gx.Explorer(prog, job.entry, {"nl_timeout": job.nl_timeout, "steps": job.steps, "fork": job.fork, "audit": os.environ.get("VERIF_AUDIT") != "0"})
    t0 = time.time()
    st, full = gx.explore(ex, budget, workers=NCPU, max_viol=job.max_viol)
    return st, full, time.time() - t0


CBMC_FLAGS = ["--no-malloc-may-fail", "--unwinding-assertions", "--drop-unused-functions", "--json-ui", "--trace", "--verbosity", "8"]


def run_cbmc(job, work, tier, budget):
    objs = []
    cmds = []
    for i, (src, fl) in enumerate(units(job) + [(os.path.join(H, "vh_cbmc.c"), [] if job.stub_alloc else ["-DREAL_ALLOC=1"])]):
        own = src.startswith(H)
        o = os.path.join(work, "c%d.gb" % i)
        if not own and os.path.basename(src) == "gucommon.c" and job.stub_alloc:
            fl = fl + ["-Dgu_alloc2d=gu_alloc2d_real", "-Dgu_free2d=gu_free2d_real"]
        cmds.append(["goto-cc", "-w", "-DVH_CBMC=1", "-D__NO_CTYPE", "-I", SRC, "-I", H, "-I", H + "/stubs", "-c", "-o", o, src] + gnu(src) + fl + (dflags(job) if own else []))
        objs.append(o)
    par(cmds)
    g = os.path.join(work, "all.gb")
    sh(["goto-cc", "-o", g] + objs + ["--function", job.entry])
    cmd = ["cbmc", g, "--function", job.entry, "--unwind", str(job.unwind)] + CBMC_FLAGS + job.cbmc
    for k, n in job.unwindset.items():
        cmd += ["--unwindset", "%s:%d" % (k, n)]
    r = cbmc_exec(job, cmd + ["--slice-formula"], budget)
    if r.get("failed"):
        # once more with everything in the formula, for complete counterexamples
        r2 = cbmc_exec(job, cmd, budget * 2)
        if r2["status"] == "fail":
            r2["wall"] += r["wall"]
            r = r2
    return r


def cbmc_exec(job, cmd, budget):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=budget)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return {"status": "timeout", "wall": time.time() - t0, "cmd": " ".join(cmd[2:])}
    wall = time.time() - t0
    try:
        js = json.loads(o.decode(errors="replace"))
    except ValueError:
        return {"status": "error", "detail": o.decode(errors="replace")[-1500:], "wall": wall, "cmd": " ".join(cmd[2:])}
    r = {"status": "error", "wall": wall, "cmd": " ".join(cmd[2:]), "props": 0, "failed": [], "solver_s": 0.0, "vccs": 0, "steps": 0, "vars": 0, "clauses": 0,
         "reach": 0, "reach_ok": 0}
    msgs = []
    for e in js:
        if "messageText" in e:
            m = e["messageText"]
            msgs.append(m)
            x = re.search(r"Runtime Solver: ([\d.e+-]+)s", m)
            if x:
                r["solver_s"] += float(x.group(1))
            x = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
            if x:
                r["vccs"] = int(x.group(1))
            x = re.search(r"size of program expression: (\d+) steps", m)
            if x:
                r["steps"] = int(x.group(1))
            x = re.search(r"(\d+) variables, (\d+) clauses", m)
            if x:
                r["vars"], r["clauses"] = int(x.group(1)), int(x.group(2))
        if "result" in e:
            for q in e["result"]:
                if q.get("description") == "REACHABLE":
                    r["reach"] += 1
                    r["reach_ok"] += q["status"] == "FAILURE"
                    continue
                r["props"] += 1
                if q["status"] == "FAILURE":
                    inputs = []
                    for s in q.get("trace", []):
                        if s.get("stepType") == "assignment" and s.get("lhs") in ("vh_in", "vh_ini") and not s.get("hidden") \
                                and s.get("sourceLocation", {}).get("function", "").startswith("vh_"):
                            inputs.append(cb_value(s["value"]))
                    desc = q.get("description", "")
                    kind = "check" if ".assertion." in q["property"] else q["property"]
                    r["failed"].append({"kind": kind, "msg": desc + " [" + q["property"] + "]", "inputs": inputs, "entry": job.entry})
        if "cProverStatus" in e:
            r["status"] = "ok" if not r["failed"] else "fail"
    if r["status"] == "error":
        r["detail"] = "\n".join(msgs)[-1500:]
    return r


def cb_value(v):
    import struct
    if v.get("name") == "float" or "binary" in v and len(v["binary"]) == 64 and v.get("type", "") in ("double", ""):
        if "binary" in v and len(v["binary"]) == 64 and v.get("name") == "float":
            return struct.unpack(">d", int(v["binary"], 2).to_bytes(8, "big"))[0]
    if "binary" in v:
        b = v["binary"]
        n = int(b, 2)
        if b[0] == "1":
            n -= 1 << len(b)
        return n
    return float(v.get("data", "0"))


# --------------------------------------------------------------- main
def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    global SRC
    args = sys.argv[1:]
    pid = args[0]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    only = args[args.index("--job") + 1] if "--job" in args else None
    if "--src" in args:
        SRC = args[args.index("--src") + 1]
    if not os.path.isdir(SRC):
        log("no such directory", SRC)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = [j for j in JOBS[pid] if (tier[0] in j.tier) and (only is None or j.name == only)]
    work = tempfile.mkdtemp(prefix="gu_%s_" % pid)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "coverage": {}, "assumptions": [], "wall_s": 0}
    rc = 0
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True,
           "solver_queries": 0, "solver_s": 0.0, "jobs": []}
    viols = []
    findings = []
    noans = []
    softs = []
    called = set()
    try:
        from concurrent.futures import ThreadPoolExecutor
        pool = ThreadPoolExecutor(6)
        futs = {}
        sources()
        for job in jobs:
            if job.engine == "cbmc":
                jw = os.path.join(work, job.name)
                os.makedirs(jw)
                futs[job.name] = pool.submit(run_cbmc, job, jw, tier, job.budget if tier == "quick" else job.tbudget)
        for job in jobs:
            jw = os.path.join(work, job.name)
            os.makedirs(jw, exist_ok=True)
            b = job.budget if tier == "quick" else job.tbudget
            log("[%s] job %s (%s)" % (pid, job.name, job.engine))
            try:
                if job.engine == "sym":
                    st, full, wall = run_sym(job, jw, tier, b)
                    rec = {"job": job.name, "engine": "gusym", "bounds": job.bounds, "paths": st.paths, "infeasible": st.infeasible,
                           "decisions": st.decisions, "queries": st.queries, "interval_decisions": st.oneline, "nonlinear_queries": st.nlqueries, "solver_unknown": st.unknown,
                           "uncertain_paths": st.uncertain_paths, "solver_s": round(st.solver_s, 2), "wall_s": round(wall, 2), "checks": st.checks,
                           "inconclusive": st.inconclusive, "exhausted": full, "max_steps": st.maxsteps, "pending": st.pending}
                    log("   ", {k: rec[k] for k in ("paths", "decisions", "queries", "solver_s", "wall_s", "exhausted", "inconclusive")})
                    called |= st.called
                    cov["states"] += st.paths + st.infeasible
                    cov["transitions"] += st.decisions
                    cov["solver_queries"] += st.queries
                    cov["solver_s"] += st.solver_s
                    if not full or st.inconclusive:
                        cov["exhaustive"] = False
                    if st.inconclusive:
                        rec["note"] = "inconclusive paths"
                        if not job.allow_inconclusive:
                            noans.append("%s: inconclusive paths: %s" % (job.name, json.dumps(st.inconclusive)[:1500]))
                    for c in job.expect:
                        if not st.violations and not any(c in k for k in st.checks):
                            noans.append("%s: check never reached: %s" % (job.name, c))
                    if not st.checks and not st.violations:
                        noans.append("%s: no check reached" % job.name)
                    vs = st.violations
                    # agreement of the encoding with the real code on sampled paths
                    nat = 0
                    if not vs and not job.noreplay:
                        nb = build_native(job, jw)
                        for s in st.samples[:job.nsamples]:
                            r, o = native_run(nb, s["inputs"], jw, 4.0)
                            if r == 0:
                                nat += 1
                            elif r != 77:
                                rec.setdefault("replay_mismatch", []).append({"inputs": s["inputs"], "exit": r, "text": o[-400:]})
                                log("    native replay of a passing path fails:", r, o[-600:])
                    rec["native_replays_agreeing"] = nat
                    cov["traces_validated_against_impl"] += nat
                    cov["samples"] += [{"job": job.name, "inputs": s["inputs"], "decisions": s["decisions"]} for s in st.samples[:2]]
                else:
                    r = futs[job.name].result()
                    log("   ", {k: r[k] for k in r if k not in ("failed", "cmd")})
                    rec = {"job": job.name, "engine": "cbmc", "bounds": job.bounds, "status": r["status"], "wall_s": round(r["wall"], 2), "cmd": r["cmd"],
                           "functions": job.functions}
                    vs = []
                    if r["status"] in ("ok", "fail"):
                        rec.update({"assertions": r["props"], "vccs": r["vccs"], "ssa_steps": r["steps"], "sat_vars": r["vars"], "sat_clauses": r["clauses"], "solver_s": r["solver_s"]})
                        cov["states"] += r["props"]
                        cov["transitions"] += r["steps"]
                        cov["solver_queries"] += r["vccs"]
                        cov["solver_s"] += r["solver_s"]
                        called |= set(job.functions)
                        unw = [f for f in r["failed"] if "unwind" in f["kind"]]
                        vs = [f for f in r["failed"] if "unwind" not in f["kind"]]
                        if unw:
                            # endless loop (confirmed natively), or a bound that is too small
                            hang = [f for f in unw[:2] if confirm(job, f, jw)[0]]
                            if hang:
                                for f in hang:
                                    f["kind"] = "nontermination"
                                vs = hang + vs
                            else:
                                (softs if job.soft else noans).append("%s: unwinding bound too small: %s" % (job.name, unw[0]["msg"]))
                        vs.sort(key=lambda f: f["kind"] != "check")
                        vs = vs[:job.max_viol + 3]
                        rec["reachability_witnesses"] = r["reach_ok"]
                        if not vs and not unw and not r["reach_ok"]:
                            noans.append(job.name + ": vacuous (no reachability witness)")
                        if r["props"] < 1:
                            noans.append(job.name + ": no assertion generated")
                    elif r["status"] == "timeout":
                        cov["exhaustive"] = False
                        rec["note"] = "solver budget exhausted: nothing claimed for this job"
                        if not job.may_timeout:
                            noans.append(job.name + ": solver budget exhausted")
                    else:
                        (softs if job.soft else noans).append("%s: cbmc error: %s" % (job.name, r.get("detail", "")))
            except BuildError as e:
                noans.append("%s: build: %s" % (job.name, e))
                continue
            unconf = []
            conf = 0
            for v in vs:
                if conf >= job.max_viol:
                    break
                try:
                    ok, txt = confirm(job, v, jw)
                except BuildError as e:
                    ok, txt = False, str(e)
                if not ok:
                    unconf.append((v, txt))
                    continue
                conf += 1
                k = [f for f in known() if f.get("status") == "known" and f["property"] == pid and f["job"] == job.name and f["match"] in (v["kind"] + ": " + v["msg"] + "\n" + txt)]
                if k:
                    findings.append((k[0], v))
                    continue
                viols.append((job, v, txt))
            if unconf and not conf and job.soft:
                cov["exhaustive"] = False
                rec["note"] = "counterexample not reproduced by the real code: nothing claimed for this job"
                rec["unconfirmed"] = {"kind": unconf[0][0]["kind"], "msg": unconf[0][0]["msg"]}
            elif unconf and not conf:
                v, txt = unconf[0]
                noans.append("%s: counterexample did not reproduce natively: %s: %s inputs=%s\n%s" % (job.name, v["kind"], v["msg"], v["inputs"], txt[-1500:]))
                rec["unconfirmed"] = {"kind": v["kind"], "msg": v["msg"], "inputs": v["inputs"]}
            cov["jobs"].append(rec)
            if viols and tier == "quick":
                break
        cov["functions_encoded"] = sorted(f for f in called if not f.startswith("h_") and not f.startswith("vh_"))
        if viols:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for job, v, txt in viols[:3]:
                key = hashlib.sha1((job.name + v["kind"] + v["msg"]).encode()).hexdigest()[:8]
                rp = os.path.join(rd, "%s_%s_%s.json" % (pid, job.name, key))
                json.dump({"property": pid, "job": job.name, "harness": job.harness, "entry": job.entry, "defs": job.defs, "kind": v["kind"], "message": v["msg"],
                           "inputs": [float(x).hex() if isinstance(x, float) else x for x in v["inputs"]], "inputs_decimal": [repr(x) for x in v["inputs"]],
                           "native": txt}, open(rp, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  %s: %s: %s; inputs %s" % (job.name, v["kind"], v["msg"], [float("%.6g" % x) for x in v["inputs"]][:40]))
                print("  " + txt.strip().replace("\n", "\n  ")[:1500])
            rc = 1
        seen = set()
        for k, v in findings:
            if k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        # without an answer for any job there is none for the property; otherwise it
        # held on everything explored, and the evidence says what was not
        decided = [j for j in cov["jobs"] if j.get("checks") and not j.get("inconclusive") or j.get("status") == "ok"]
        if rc == 0 and noans and (not decided or os.environ.get("VERIF_STRICT")):
            rc = 2
        for n in noans:
            print("NO-ANSWER %s %s" % (pid, n))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    cov["solver_s"] = round(cov["solver_s"], 2)
    cov["samples"] = cov["samples"][:10]
    cov["explanation"] = ("states = symbolic paths completed (gusym) plus assertions decided (cbmc); transitions = branch decisions put to the solver "
                          "(gusym) plus SSA steps (cbmc); every path covers all input values satisfying its path condition; "
                          "traces_validated_against_impl = sampled path witnesses re-run natively under sanitizers with the same verdict")
    if softs:
        cov["not_modelled"] = [n[:300] for n in softs]
    if noans:
        cov["no_answer"] = [n[:600] for n in noans]
    ev["coverage"] = cov
    ev["assumptions"] = sorted({a for j in jobs for a in j.assume})
    ev["violations"] = len(viols)
    ev["wall_s"] = round(time.time() - T0, 2)
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        s = json.dumps(ev, indent=1, default=str)
        if len(s) > 60000:
            cov["samples"] = cov["samples"][:3]
            for j in cov["jobs"]:
                for k in ("inconclusive", "replay_mismatch"):
                    if k in j:
                        j[k] = str(j[k])[:500]
            s = json.dumps(ev, indent=1, default=str)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
        open(tmp, "w").write(s)
        os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    log("[%s] %s exit %d in %.1f s" % (pid, tier, rc, time.time() - T0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
