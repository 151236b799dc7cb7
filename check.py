#!/usr/bin/env python3
"""python3 check.py ID            decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)
   python3 check.py ID --replay FILE   re-run one recorded case

exit 0: held on everything observed;  exit 1 + VIOLATION line: broken;  exit 2: no verdict."""
import json, os, subprocess, sys, tempfile, time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE / "lib"))
import build  # noqa: E402

LIMIT = {"quick": 600, "thorough": 800}


def meta(pid):
    return json.loads((HERE / "lib" / "catalogue.json").read_text())[pid]


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rec = json.loads(Path(sys.argv[3]).read_text())
        r = subprocess.run([build.VENV_PY, "-W", "ignore", str(HERE / "lib/worker.py"), pid, "--replay", sys.argv[3]],
                           env=build.env_for(rec.get("variant", "plain")))
        if r.returncode:
            print(f"VIOLATION property={pid} replay={sys.argv[3]}")
        return 1 if r.returncode else 0
    t0 = time.time()
    info = meta(pid)
    ev_dir = HERE / "evidence"
    ev_dir.mkdir(exist_ok=True)
    evf = ev_dir / f"{pid}.json"
    deadline = t0 + LIMIT[tier] * 0.85
    ncpu = max(1, min(8, os.cpu_count() or 1))
    plan = info["variants"]            # {variant: share of the processes}
    jobs = []
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        envs = {v: build.env_for(v) for v in plan}
        for v in plan:
            n = max(1, ncpu // len(plan))
            for s in range(n):
                out = os.path.join(tmp, f"{v}-{s}.json")
                err = open(out + ".err", "w+")
                p = subprocess.Popen([build.VENV_PY, "-W", "ignore", str(HERE / "lib/worker.py"), pid, str(seed), tier,
                                      str(s), str(n), out, str(deadline)], env=envs[v], stdout=err, stderr=err,
                                     cwd=tmp)
                jobs.append((v, s, p, out, err))
        tot = {"evaluations": 0, "skipped": 0, "planned": 0}
        counts, nontriv, samples, known, viol, errors, timed = {}, set(), [], [], None, [], False
        for v, s, p, out, err in jobs:
            try:
                rc = p.wait(max(1, t0 + LIMIT[tier] - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                timed = True
                errors.append(f"{v}/{s}: watchdog")
                continue
            err.seek(0)
            log = err.read()
            if rc != 0 or not os.path.exists(out):
                cur = out + ".cur"
                died = rc < 0 or rc == 77 or "AddressSanitizer" in log or "runtime error:" in log
                if died and os.path.exists(cur) and rc not in (-9, -15):
                    d = json.loads(Path(cur).read_text())
                    if viol is None:
                        viol = dict(d, variant=v, message=f"process died (status {rc})", detail={"log": log[-6000:]})
                else:
                    errors.append(f"{v}/{s}: exit {rc}: {log[-2500:]}")
                continue
            r = json.loads(Path(out).read_text())
            for k in tot:
                tot[k] += r[k]
            for k, x in r["counts"].items():
                counts[k] = max(counts.get(k, 0), x) if k.endswith("_max") else counts.get(k, 0) + x
            nontriv.update(r["nontrivial"])
            samples += r["samples"]
            known += r["known"]
            timed |= r["timed_out"]
            if r["violation"] and viol is None:
                viol = dict(r["violation"], variant=v)
    kf = json.loads((HERE / "known_findings.json").read_text())
    listed = {e["key"]: e for e in kf["findings"] if e["property"] == pid}
    for k in sorted(set(known)):
        key = k.split(":", 1)[0]
        if key in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[key]['what']}")
        elif viol is None:
            viol = {"index": ["known", key], "case": None, "message": "unlisted finding " + k, "detail": {}, "variant": "plain"}
    need = info.get("required", {})
    short = {k: (counts.get(k, 0), n) for k, n in need.items() if counts.get(k, 0) < n}
    distinct = len(nontriv)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": distinct, "rule": info["rule"],
                       "samples": samples[:3], "observed_events": counts, "skipped_outside_domain": tot["skipped"],
                       "planned": tot["planned"], "variants": list(plan), "stopped_by_time": timed,
                       "known_findings_seen": sorted(set(known))},
          "assumptions": info.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if viol else 0}
    if viol:
        rp = ev_dir / f"{pid}.violation.json"
        viol["property"] = pid
        rp.write_text(json.dumps(viol, indent=1) + "\n")
        ev["coverage"]["violation"] = viol["message"]
        evf.write_text(json.dumps(ev, indent=1) + "\n")
        print(viol["message"])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    evf.write_text(json.dumps(ev, indent=1) + "\n")
    if errors:
        print("no verdict:", *errors, sep="\n")
        return 2
    if short or distinct < info.get("min_distinct", 2):
        print(f"no verdict: monitors observed too little: {short} distinct={distinct}")
        return 2
    print(f"{pid}: held on {tot['evaluations']} executions ({distinct} distinct non-trivial), "
          f"{counts.get('checks', 0)} oracle evaluations, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # a failing build or a broken harness is no verdict
        import traceback
        traceback.print_exc()
        print(f"no verdict: {e}")
        sys.exit(2)
