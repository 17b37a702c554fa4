#!/usr/bin/env python3
"""check.py <property id>: discharges every obligation of one property on /repo's current source.

exit 0: every obligation was discharged (or, where the code no longer has the shape a loop contract
needs, the bounded stand-in found nothing: reported as bounded in the evidence);
exit 1: a line "VIOLATION property=<id> replay=<path>[ no-failing-input-found]".
"""
import json, os, sys, threading, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine as E
import props

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def known_findings(pid):
    out = []
    path = os.path.join(E.VERIF, "known_findings.txt")
    for l in open(path) if os.path.exists(path) else []:
        l = l.strip()
        if l.startswith(f"finding: property={pid} "):
            out.append(l[len("finding: "):])
    return out


def main():
    pid = sys.argv[1]
    p = props.PROPS[pid]
    jobs = p["jobs"](TIER)
    only = os.environ.get("CND_ONLY")
    if only:
        jobs = [j for j in jobs if only in j.name]
    os.makedirs(os.path.join(E.VERIF, "evidence", "replays"), exist_ok=True)
    results, alarms, notes = [], [], []
    lock = threading.Lock()
    verbose = os.environ.get("CND_VERBOSE")

    def on(r):
        if verbose:
            print(f"# {r.job.name}: {r.status} {r.time:.1f}s solver {r.solver_time:.1f}s {r.vccs} VCs {r.backend} {r.failed[:4]} {r.log[-600:] if r.status == 'error' else ''}", flush=True)
        results.append(r)
        if r.status == E.PROVED:
            return
        with lock:
            if E._stop.is_set() or len(alarms) >= 2:
                return
            job = r.job
            structural = r.status == E.ERROR or (r.status == E.FAILED and (job.loops or job.stubs) and all("unwinding assertion" in d for _, d in r.failed))
            path = os.path.join(E.VERIF, "evidence", "replays", f"{pid}-{job.name.replace(' ', '_').replace('/', '_')}.txt")
            ok, body = E.replay(job, path) if job.replay else (False, "# this obligation has no replay harness")
            if not ok and structural:
                fb = E.run_bounded(job, 200)
                how = "bounded exploration of all inputs within the replay bounds"
                if fb is None:
                    _, n = E.fuzz(job, 30)
                    fb, how = (True, f"only a random search over {n} concrete inputs") if n >= 100 else (None, "")
                if fb is True:
                    r.status = "bounded"
                    r.bounded = "the code no longer has the shape of this contract's cut points (%s); %s found no violation" % ((r.log.strip().splitlines() or ["?"])[0][:200], how)
                    return
                if fb is False:
                    body = "# the bounded stand-in fails an obligation\n" + body
            head = [f"# property {pid}: {p['title']}", f"# job {job.name}: {r.status}, contract: {job.contract or job.name}"]
            head += [f"# obligation {i}: {d}" for i, d in r.failed[:20]]
            if r.status == E.UNDECIDED:
                head.append("# the verifier did not decide within %d s" % job.timeout)
            with open(path, "w") as f:
                f.write("\n".join(head) + "\n" + body + "\n# verifier output:\n# " + r.log[-2500:].replace("\n", "\n# ") + "\n")
            alarms.append((ok, path, r))
            if ok or len(alarms) >= 2:
                E.stop_all()

    E.run_all(jobs, on)
    for l in known_findings(pid):
        print("KNOWN-FINDING: " + l)
    alarms.sort(key=lambda a: not a[0])
    missing = len(jobs) - len(results)
    if missing and not alarms:
        path = os.path.join(E.VERIF, "evidence", "replays", f"{pid}-incomplete.txt")
        open(path, "w").write(f"# {missing} of {len(jobs)} contract cases were not reached\n")
        alarms.append((False, path, None))
    proved = [r for r in results if r.status == E.PROVED and not r.bounded]
    bounded = [r for r in results if (r.status == E.PROVED and r.bounded) or r.status == "bounded"]
    back = {}
    for r in proved:
        back[r.backend] = back.get(r.backend, 0) + r.vccs
    cov = {
        "obligations": sum(r.vccs for r in results),
        "discharged": sum(r.vccs for r in proved),
        "contract_cases": len(jobs), "contract_cases_proved": len(proved),
        "named_contract_clauses": sorted({n for r in proved for n in r.named if not n.startswith("UNREACHED")}),
        "functions_under_contract": sorted({f for j in jobs for f in ([j.function] if isinstance(j.function, str) else j.function or [])}),
        "checker_cmd": f"python3 /verif/check.py {pid}",
        "obligations_by_back_end": back,
        "solver_time_s": round(sum(r.solver_time for r in results), 1),
        "reachability_checks_confirmed": sum(r.reached for r in results),
        "bounded_not_proved": [{"case": r.job.name, "bound": r.bounded, "obligations_within_bound": r.vccs} for r in bounded],
        "trusted_base": props.TRUSTED + p.get("trusted", []),
        "cases": [{"case": r.job.name, "status": r.status if not (r.status == E.PROVED and r.bounded) else "bounded", "obligations": r.vccs, "back_end": r.backend, "time_s": round(r.time, 1)} for r in sorted(results, key=lambda r: r.job.name)],
        "samples": [f"{r.job.name}: {r.job.contract or ''} {r.job.defs}" for r in proved[:3]],
    }
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": p["level"], "coverage": cov,
          "assumptions": props.ASSUMPTIONS + p.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(alarms)}
    with open(os.path.join(E.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for ok, path, r in alarms[:1]:
        print(f"VIOLATION property={pid} replay={path}" + ("" if ok else " no-failing-input-found"), flush=True)
    if alarms:
        return 1
    print(f"{pid}: {len(proved)} contract cases proved ({cov['discharged']} obligations), {len(bounded)} bounded, {cov['solver_time_s']} s solver time, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 1
        pid = sys.argv[1] if len(sys.argv) > 1 else "?"
        path = os.path.join(E.VERIF, "evidence", "replays", f"{pid}-machinery.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w").write(traceback.format_exc())
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found", flush=True)
    sys.stdout.flush()
    E.stop_all()
    os._exit(rc)
