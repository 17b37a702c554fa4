"""Discharges contract obligations on /repo's current source with CBMC and SMT solvers.

A Job is one harness compilation (a function or instruction under contract, one case
of a complete case split) whose generated verification conditions must all hold.
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CND_REPO", "/repo")
H = os.path.join(VERIF, "harness")
INCLUDES = [H, f"{REPO}/src/vm", f"{REPO}/include", f"{REPO}/src/compiler", f"{REPO}/src/cli", f"{REPO}/libs/cJSON", f"{REPO}/src"]
MEM_KB = 7 * 1024 * 1024
DEADLINE = time.time() + float(os.environ.get("CND_BUDGET", "780"))

PROVED, FAILED, UNDECIDED, ERROR = "proved", "failed", "undecided", "error"


class Job:
    def __init__(self, name, src, defs=None, backend="sat", checks=False, unwind=None, stubs=(), links=(),
                 bounded=None, timeout=240, reach=True, cbmc=(), function=None, contract=None, replay=True, native_links=None,
                 fallback=None, unwindset=None, prep=None, loops=(), inner=None, code=(), split=(), pre=()):
        self.name, self.src, self.defs = name, src, dict(defs or {})
        self.backend, self.checks, self.unwind, self.stubs, self.links = backend, checks, unwind, list(stubs), list(links)
        self.bounded, self.timeout, self.reach, self.cbmc = bounded, timeout, reach, list(cbmc)
        self.function, self.contract, self.replay = function, contract, replay
        self.native_links = links if native_links is None else native_links
        self.fallback, self.unwindset, self.prep = fallback, unwindset, prep
        self.split = list(split)
        self.pre = list(pre)  # stubs that must be in place before loop contracts are applied
        self.code = list(code)  # translation units with the code under contract, compiled apart from the harness
        self.loops, self.inner = list(loops), dict(inner or {})  # loop contracts to apply; unwinding of uncontracted inner loops


class Result:
    def __init__(self, job):
        self.job, self.status, self.failed, self.vccs, self.log, self.time, self.solver_time = job, ERROR, [], 0, "", 0.0, 0.0
        self.named, self.backend, self.bounded, self.reached = set(), job.backend, job.bounded, 0


_procs, _lock, _stop = set(), threading.Lock(), threading.Event()


def run(cmd, timeout, cwd=None, env=None, stdin=None, limit=True):
    """(rc, stdout, stderr); rc None on timeout or when the check is being stopped."""
    timeout = max(1.0, min(timeout, DEADLINE - time.time()))
    if _stop.is_set():
        return None, "", ""
    p = subprocess.Popen((["bash", "-c", f'ulimit -v {MEM_KB}; exec "$@"', "x"] if limit else []) + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=env, start_new_session=True, stdin=stdin or subprocess.DEVNULL)
    with _lock:
        _procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    finally:
        with _lock:
            _procs.discard(p)


def stop_all():
    _stop.set()
    with _lock:
        for p in _procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def flags(job, extra=()):
    f = ["-std=gnu11", "-w", "-DCND_CONTRACTS"] + [f"-I{d}" for d in INCLUDES]
    d = dict(job.defs)
    for x in extra:
        k, _, v = x.partition("=")
        d[k] = v or "1"
    return f + [f"-D{k}={v}" for k, v in d.items()]


def compile_goto(job, out, extra=()):
    """Harness and code under contract -> one goto program; loop contracts are applied to the code's units."""
    fl = ["-D__CPROVER__=1"] + flags(job, extra)
    for f in job.split:
        split_decls(f, os.path.dirname(out))
        fl = [f"-I{os.path.dirname(out)}"] + fl
    units = [(os.path.join(H, job.src), not job.code)] + [(os.path.join(H, c), True) for c in job.code]
    loops = any(x.startswith("LOOP_") for x in extra)
    objs = []
    for i, (u, annotated) in enumerate(units):
        ob = f"{out}.{i}"
        whole = len(units) == 1 and not job.links
        rc, o, e = run(["goto-cc"] + ([] if whole else ["-c"]) + fl + [u, "-o", ob], 120)
        if rc != 0:
            return "goto-cc failed:\n" + o + e
        if loops and annotated:
            err = apply_loops(job, ob)
            if err:
                return err
        objs.append(ob)
    if len(units) == 1 and not job.links:
        os.rename(objs[0], out)
        return None
    rc, o, e = run(["goto-cc"] + fl + objs + list(job.links) + ["-o", out], 120)
    return None if rc == 0 else "goto-cc failed:\n" + o + e


DECLS = re.compile(r"^([ \t]+)((?:double|float|u?int\d+_t|size_t|int|bool) )(\w+(?:, \w+)*);", re.M)


def split_decls(f, d):
    """A copy of the file with declarations of several uninitialised variables in a row separated by no-ops, on the
    same line: goto-instrument's write-set tracking overlooks every second of several adjacent declarations."""
    nop = " __CPROVER_assume(1); "
    text = DECLS.sub(lambda m: m.group(1) + nop.join(m.group(2) + v + ";" for v in m.group(3).split(", ")) + nop, open(f).read())
    open(os.path.join(d, os.path.basename(f)), "w").write(text)


def apply_loops(job, gb):
    if job.pre:
        rc, o, e = run(["goto-instrument", "--list-goto-functions", gb], 60)
        gone = [a for a, b in job.pre if not re.search(rf"^{a} /\*", o, re.M)]
        if gone:
            return "helper under contract not found in the code: " + " ".join(gone)
        rc, o, e = run(["goto-instrument"] + [x for a, b in job.pre for x in ("--replace-calls", f"{a}:{b}")] + [gb, gb + ".p"], 120)
        if rc != 0:
            return "goto-instrument failed:\n" + o + e
        os.replace(gb + ".p", gb)
    sets = [f"{f}.{n}:{job.inner[f]}" for f, n, path, ln in loops_of(gb) if f in job.inner and "CND_LOOP(" not in src_line(path, int(ln))]
    if sets:
        rc, o, e = run(["goto-instrument", "--unwindset", ",".join(sets), "--unwinding-assertions", gb, gb + ".u"], 120)
        if rc != 0:
            return "goto-instrument failed:\n" + o + e
        os.replace(gb + ".u", gb)
    rc, o, e = run(["goto-instrument", "--apply-loop-contracts", gb, gb + ".l"], 180)
    if rc != 0:
        return "goto-instrument --apply-loop-contracts failed:\n" + o[-1500:] + e[-1500:]
    os.replace(gb + ".l", gb)
    return None


PROP = re.compile(r"^\[(\S+)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", re.M)
VCC = re.compile(r"Generated (\d+) VCC\(s\), (\d+) remaining")


_src = {}


def src_line(path, n):
    if path not in _src:
        _src[path] = open(path, errors="replace").read().splitlines() if os.path.exists(path) else []
    return _src[path][n - 1] if 0 < n <= len(_src[path]) else ""


def loops_of(gb):
    rc, o, e = run(["goto-instrument", "--show-loops", gb], 60)
    return re.findall(r"^Loop (\S+)\.(\d+):\n\s+file (\S+) line (\d+)", o, re.M)


def instrument(job, d, extra):
    gb = f"{d}/a.gb"
    loops = job.loops if "BOUNDED_INPUTS=1" not in extra else []
    extra = list(extra) + [f"LOOP_{l}=1" for l in loops]
    err = compile_goto(job, gb, extra)
    if err:
        return None, err
    if job.stubs and "BOUNDED_INPUTS=1" not in extra:
        cmd = ["goto-instrument"]
        for a, b in job.stubs:
            cmd += ["--replace-calls", f"{a}:{b}"]
        rc, o, e = run(["goto-instrument", "--list-goto-functions", gb], 60)
        have = set(re.findall(r"^(\S+) /\* \S+ \*/", o, re.M))
        gone = [a for a, b in job.stubs if a not in have]
        if gone:
            return None, "helper under contract not found in the code: " + " ".join(gone)
        rc, o, e = run(cmd + [gb, gb + ".r"], 120)
        if rc != 0:
            return None, "goto-instrument failed:\n" + o + e
        gb += ".r"
    for step in (job.prep or []):
        rc, o, e = run(["goto-instrument"] + step + [gb, gb + ".i"], 120)
        if rc != 0:
            return None, "goto-instrument failed:\n" + o + e
        gb += ".i"
    return gb, None


def cbmc_cmd(job, gb):
    cmd = ["cbmc", gb, "--object-bits", "12", "--no-malloc-may-fail", "--verbosity", "8"]
    if not job.checks:
        cmd += ["--no-standard-checks"]
    if job.unwind:
        cmd += ["--unwind", str(job.unwind)]
    if job.unwindset:
        cmd += ["--unwindset", job.unwindset]
    return cmd + ["--slice-formula", "--unwinding-assertions"] + (job.cbmc or ["--sat-solver", "cadical"])


UF_DEF = re.compile(r"^\(define-fun (\S*float_bv\.floatbv_(mult|plus|minus|div|typecast|rem)\S*) \((.*?\))\) (\(_ BitVec \d+\)|Bool) ")
BVOPS = ("bvmul", "bvsdiv", "bvudiv", "bvurem", "bvsrem")


def abstract_arith(path, dst, floats=True):
    """Replace floating point arithmetic and 64-bit *, / and % by uninterpreted functions (commutative
    for * and +): the remaining VC is stronger, so 'unsat' still proves every obligation."""
    decls, out = set(), []
    for l in open(path, errors="replace"):
        l = l.rstrip("\n")
        m = UF_DEF.match(l) if floats else None
        if m:
            name, kind, args, ret = m.group(1), m.group(2), re.findall(r"\(\S+ (\(_ BitVec \d+\))\)", m.group(3) + ")"), m.group(4)
            if kind in ("mult", "plus"):
                out.append(f"(declare-fun {name}.uf ({' '.join(args)}) {ret})")
                out.append(f"(define-fun {name} ((a {args[0]}) (b {args[1]}) (r {args[2]})) {ret} (ite (bvule a b) ({name}.uf a b r) ({name}.uf b a r)))")
            else:
                out.append(f"(declare-fun {name} ({' '.join(args)}) {ret})")
            continue
        if l.startswith("(get-value") or l.startswith("(get-model"):
            continue
        out.append(l)
    text = "\n".join(out)
    pre = []
    for op in BVOPS:  # only the operations tagged by the harness width: rewrite those between 64-bit symbols
        pat = re.compile(r"\(" + op + r" (\|[^|]*\||[A-Za-z_][\w!#@:.$]*|\(\(_ (?:sign|zero)_extend \d+\) (?:\|[^|]*\||\(\(_ extract \d+ \d+\) \|[^|]*\|\))\)) (\|[^|]*\|)\)")
        text, n = pat.subn(lambda m: f"(uf.{op} {m.group(1)} {m.group(2)})", text)
        if n:
            pre.append(f"(declare-fun uf0.{op} ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))")
            if op == "bvmul":
                pre.append(f"(define-fun uf.{op} ((a (_ BitVec 64)) (b (_ BitVec 64))) (_ BitVec 64) (ite (bvule a b) (uf0.{op} a b) (uf0.{op} b a)))")
            else:
                pre.append(f"(define-fun uf.{op} ((a (_ BitVec 64)) (b (_ BitVec 64))) (_ BitVec 64) (uf0.{op} a b))")
    i = text.find("\n", text.find("(set-logic")) + 1 if "(set-logic" in text else 0
    text = text[:i] + "\n".join(pre) + "\n" + text[i:]
    open(dst, "w").write(text)


def solve_smt(path, timeout):
    """z3 and cvc5 side by side; the first definite answer wins."""
    res, done = {}, threading.Event()

    def go(name, cmd):
        rc, o, e = run(cmd, timeout)
        a = next((l.strip() for l in o.splitlines() if l.strip() in ("sat", "unsat")), None)
        res[name] = (a, o[-400:] + e[-400:])
        if a:
            done.set()
    # z3's run time varies a lot with its seed: further seeds join after a while
    lanes = [(0, "z3-new", ["z3-new", f"-T:{int(timeout)}", path]), (0, "cvc5", ["cvc5", "--lang=smt2", path])]
    lanes += [(t, f"z3-new seed {n}", ["z3-new", f"-T:{int(timeout)}", f"smt.random_seed={n}", f"sat.random_seed={n}", path]) for t, n in ((30, 3), (60, 17), (100, 29))]
    t0, end, ts = time.time(), time.time() + timeout + 5, []
    while time.time() < end and not done.is_set() and not _stop.is_set():
        while lanes and time.time() - t0 >= lanes[0][0]:
            _, name, cmd = lanes.pop(0)
            ts.append(threading.Thread(target=go, args=(name, cmd), daemon=True))
            ts[-1].start()
        if not any(t.is_alive() for t in ts) and (not lanes or len(res) == len(ts) and all("error" in v[1] for v in res.values())):
            break
        done.wait(0.2)
    for n, (a, log) in list(res.items()):
        if a:
            subprocess.run(["pkill", "-KILL", "-f", path], check=False)
            return a, n, log
    subprocess.run(["pkill", "-KILL", "-f", path], check=False)
    return None, "", " ".join(v[1] for v in res.values())


def run_job(job, extra=()):
    r = Result(job)
    t0 = time.time()
    d = tempfile.mkdtemp(dir="/tmp", prefix="cndv")
    try:
        gb, err = instrument(job, d, extra if job.backend == "sat" else tuple(extra) + ("NOREACH=1",))
        if err:
            r.log = err
            return r
        if job.backend in ("uf", "ufi", "smt"):
            rc, o, e = run(cbmc_cmd(job, gb) + ["--z3", "--outfile", f"{d}/a.smt2"], job.timeout)
            m = VCC.search(o)
            if rc is None or not m:
                r.status, r.log = (UNDECIDED if rc is None else ERROR), o[-2000:] + e[-2000:]
                return r
            r.vccs = int(m.group(1))
            if int(m.group(2)) == 0:
                r.status, r.backend = PROVED, "cbmc simplifier"
                return r
            if job.backend in ("uf", "ufi"):
                abstract_arith(f"{d}/a.smt2", f"{d}/b.smt2", job.backend == "uf")
            else:
                os.rename(f"{d}/a.smt2", f"{d}/b.smt2")
            t1 = time.time()
            a, who, log = solve_smt(f"{d}/b.smt2", job.timeout)
            r.solver_time = time.time() - t1
            r.backend = who + ({"uf": " (uninterpreted arithmetic)", "ufi": " (uninterpreted integer arithmetic)"}.get(job.backend, ""))
            r.log = log
            r.status = PROVED if a == "unsat" else FAILED if a == "sat" else UNDECIDED
            if a == "sat":
                r.failed = [("?", f"{job.contract or job.name}: an obligation of this contract (arithmetic uninterpreted)")]
            return r
        rc, o, e = run(cbmc_cmd(job, gb), job.timeout)
        r.log = o[-3000:] + e[-2000:]
        m = VCC.search(o)
        r.vccs = int(m.group(1)) if m else 0
        r.solver_time = sum(float(x) for x in re.findall(r"Runtime Solver: ([\d.]+)s", o))
        r.backend = "CaDiCaL (cbmc)"
        if rc not in (0, 10):
            r.status = UNDECIDED if rc is None else ERROR
            return r
        reach_ok, reach_n, other_unknown = 0, 0, 0
        for pid, desc, st in PROP.findall(o):
            if desc.startswith("reach: "):
                reach_n += 1
                reach_ok += st == "FAILURE"
                if st != "FAILURE":
                    r.named.add("UNREACHED " + desc)
                continue
            if desc.startswith("contract: "):
                r.named.add(desc[10:])
            if st == "FAILURE":
                r.failed.append((pid, desc))
            elif st in ("UNKNOWN", "ERROR"):
                other_unknown += 1
        r.reached = reach_ok
        r.vccs -= reach_ok
        if r.failed:
            r.status = FAILED
        elif other_unknown or (m is None):
            r.status = UNDECIDED
        elif job.reach and (reach_n == 0 or reach_ok == 0 or any(x.startswith("UNREACHED") for x in r.named)):
            r.status = FAILED
            r.failed = [("reach", x[10:] + " (the contract became vacuous)") for x in r.named if x.startswith("UNREACHED")] or [("reach", "no reachability obligation was generated")]
        else:
            r.status = PROVED
        return r
    finally:
        r.time = time.time() - t0
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- counterexample replay

def bounded_unwind(gb):
    """Bounded searches walk at most 12 instructions of an array body."""
    sets = [f"{f}.{n}:12" for f, n, _, _ in loops_of(gb) if f == "skip_loop_body"]
    return ["--unwindset", ",".join(sets)] if sets else []


def find_cex(job, timeout=120):
    """Bounded search for concrete inputs that violate the contract: list of values, or None."""
    d = tempfile.mkdtemp(dir="/tmp", prefix="cndv")
    try:
        gb, err = instrument(job, d, ("BOUNDED_INPUTS=1", "NOREACH=1"))
        if err:
            return None, err
        cmd = [c for c in cbmc_cmd(job, gb) if c not in ("--unwinding-assertions", "--slice-formula", "--sat-solver", "cadical")]
        cmd += ["--no-unwinding-assertions", "--trace", "--stop-on-fail", "--json-ui", "--verbosity", "4"]
        if not job.unwind:
            cmd += ["--unwind", "70"]
        cmd += bounded_unwind(gb)
        rc, o, e = run(cmd, timeout)
        if rc != 10:
            return None, (o + e)[-1500:]
        vals = []
        prop = None
        for item in json.loads(o):
            tr = None
            if isinstance(item, dict):
                tr = item.get("trace")
                for x in item.get("result", []) or []:
                    if x.get("status") == "FAILURE" and x.get("trace"):
                        tr = x["trace"]
                        prop = x.get("description")
                if item.get("property"):
                    prop = item.get("description")
            if tr:
                for s in tr:
                    if s.get("stepType") == "assignment" and s.get("lhs") == "nd_in" and s.get("sourceLocation", {}).get("function") == "ND":
                        b = s["value"].get("binary")
                        vals.append(int(b, 2) if b else 0)
                    if s.get("stepType") == "failure":
                        prop = s.get("reason") or prop
        return (vals, prop) if vals else (None, o[-1500:])
    except Exception as ex:  # malformed solver output is "no counterexample"
        return None, repr(ex)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_bounded(job, timeout=300):
    """Bounded stand-in: all obligations on bounded inputs, helpers and loops inlined. None: undecided."""
    d = tempfile.mkdtemp(dir="/tmp", prefix="cndv")
    try:
        gb, err = instrument(job, d, ("BOUNDED_INPUTS=1", "NOREACH=1"))
        if err:
            return None
        cmd = [c for c in cbmc_cmd(job, gb) if c not in ("--unwinding-assertions", "--sat-solver", "cadical")] + ["--no-unwinding-assertions"]
        if not job.unwind:
            cmd += ["--unwind", "70"]
        cmd += bounded_unwind(gb)
        rc, o, e = run(cmd, timeout)
        return True if rc == 0 else False if rc == 10 else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build_native(job, out):
    cmd = ["gcc"] + flags(job) + ["-g", "-O1", "-fno-builtin", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                                  os.path.join(H, job.src)] + [os.path.join(H, c) for c in job.code] + list(job.native_links) + ["-o", out, "-lm"]
    return run(cmd, 120), cmd


def run_native(binary, values_file):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98", UBSAN_OPTIONS="print_stacktrace=0")
    rc, o, e = run([binary, values_file], 30, env=env, limit=False)  # sanitizers reserve a large address range
    return rc, o + e


def fuzz(job, seconds=12, lanes=4):
    """Random inputs on the natively compiled code and contract. (failing values or None, cases run)"""
    d = tempfile.mkdtemp(dir="/tmp", prefix="cndv")
    try:
        (rc, o, e), cmd = build_native(job, f"{d}/n")
        if rc != 0:
            return None, 0

        def lane(n):
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98", UBSAN_OPTIONS="exitcode=98:print_stacktrace=0", ND_SECONDS=str(seconds), ND_SEED=str(n * 1000003 + int(os.environ.get("VERIF_SEED", "1") or 1)))
            return run([f"{d}/n", "--fuzz"], seconds + 15, env=env, limit=False)[1]
        with cf.ThreadPoolExecutor(lanes) as ex:
            outs = list(ex.map(lane, range(lanes)))
        ran = sum(int(m.group(1)) for o in outs for m in [re.search(r"FUZZ ran (\d+)", o)] if m)
        for o in outs:
            if "FUZZ failed" in o:
                return [int(x) for x in o.split("FUZZ failed\n")[1].split()], ran
        return None, ran
    except Exception:
        return None, 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(job, path):
    """Try to reproduce the job's failure with concrete inputs on the compiled code. True if reproduced."""
    vals, n = fuzz(job)
    why = "found by a random search on the compiled code"
    if vals is None:
        vals, why = find_cex(job)
    if vals is None:
        return False, f"# no concrete input found within the bounds of the search ({n} random cases tried)\n# {why}"
    d = tempfile.mkdtemp(dir="/tmp", prefix="cndv")
    try:
        (rc, o, e), cmd = build_native(job, f"{d}/n")
        if rc != 0:
            return False, "native build failed: " + e[-500:]
        with open(f"{d}/v", "w") as f:
            f.write("\n".join(map(str, vals)) + "\n")
        rc, out = run_native(f"{d}/n", f"{d}/v")
        ok = (rc == 1 and "FAILED contract:" in out) or rc == 98 or "runtime error:" in out
        head = ["# failed obligation: " + str(why), "# job: " + job.name,
                "# replay: " + " ".join(a if "=" not in a and "(" not in a else f"'{a}'" for a in cmd).replace(f"{d}/n", "/tmp/replay") + " && /tmp/replay " + path,
                "# native outcome (rc %s): %s" % (rc, out.strip().replace("\n", "\n# ")[:1500])]
        body = "\n".join(head) + "\n" + "\n".join(map(str, vals)) + "\n"
        return ok, body
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_all(jobs, on_result, workers=None):
    workers = workers or int(os.environ.get("CND_JOBS", "0")) or os.cpu_count() or 4
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = {ex.submit(run_job, j): j for j in jobs}
        for f in cf.as_completed(futs):
            if _stop.is_set():
                continue
            on_result(f.result())
