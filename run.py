#!/usr/bin/env python3
"""Build the drivers of one property from /repo's working tree, explore every case, decide.

   run.py <property> [--tier quick|thorough]      exit 0: held on everything explored
                                                  exit 1: VIOLATION property=<id> replay=<path>
   run.py --replay <file>                         rebuild and re-run one recorded case
"""
import argparse, array, concurrent.futures, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CPUS = os.cpu_count() or 4

import checks  # noqa: E402  (the registry)

ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_ess_singleton_isolated="1",
           OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm_rsh_agent="",
           PYTHONDONTWRITEBYTECODE="1")


def expand(text, work):
    return text.replace("{repo}", REPO).replace("{here}", HERE).replace("{work}", work)


def compile_unit(unit, work):
    exe = os.path.join(work, unit["name"])
    if unit.get("prepare"):
        for command in unit["prepare"]:
            r = subprocess.run(expand(command, work), shell=True, env=ENV, capture_output=True, text=True)
            if r.returncode:
                return exe, f"{unit['name']}: preparation failed: {r.stderr[-3000:]}"
    if unit.get("run"):
        return exe, None
    command = ["g++", "-std=c++17", unit.get("opt", "-O1"), "-w", "-ftrivial-auto-var-init=pattern",
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")]
    command += ["-D" + d for d in unit.get("defs", [])]
    command += [expand(f, work) for f in unit.get("flags", [])]
    command += [os.path.join(HERE, "harness", s) for s in unit["src"]] + ["-o", exe]
    command += unit.get("libs", ["-llapack", "-lblas"])
    r = subprocess.run(command, env=ENV, capture_output=True, text=True)
    if r.returncode:
        return exe, f"{unit['name']}: does not compile\n{' '.join(command)}\n{r.stderr[:4000]}"
    return exe, None


def base_command(unit, exe, work, thorough):
    c = [expand(a, work) for a in unit["run"]] if unit.get("run") else [exe]
    c = c + (["--thorough"] if thorough else [])
    ids = sorted(k["id"] for k in KNOWN)
    return c + (["--known", ",".join(ids)] if ids else [])


def read_trace(path):
    try:
        with open(path, "rb") as f:
            raw = f.read()
        n = struct.unpack_from("i", raw, 0)[0]
        return ",".join(str(x) for x in struct.unpack_from(f"{min(n, 4000)}i", raw, 4))
    except (OSError, struct.error):
        return ""


def run_shard(unit, exe, work, thorough, shard, shards, budget):
    tag = f"{unit['name']}.{shard}"
    out, shm, states = (os.path.join(work, tag + s) for s in (".json", ".shm", ".states"))
    command = base_command(unit, exe, work, thorough) + [
        "--shard", str(shard), "--shards", str(shards), "--out", out, "--shm", shm, "--states", states,
        "--budget", str(budget), "--alarm", str(unit.get("alarm", 60))]
    with open(os.path.join(work, tag + ".err"), "wb") as err:
        try:
            p = subprocess.run(command, env=ENV, stdout=subprocess.DEVNULL, stderr=err, cwd=work,
                               timeout=budget + 200)
            code = p.returncode
        except subprocess.TimeoutExpired:
            code = "timeout"
    result = {"unit": unit["name"], "shard": shard, "code": code}
    try:
        result.update(json.load(open(out)))
    except (OSError, ValueError):
        pass
    if code not in (0, 10):
        result["trace"] = read_trace(shm)
        result["failure"] = "process ended with %s" % (
            code if not isinstance(code, int) or code >= 0 else signal.Signals(-code).name)
        result["crash"] = True
        tail = open(os.path.join(work, tag + ".err"), "rb").read()[-600:].decode("utf8", "replace")
        result["stderr"] = tail
    return result


def replay_once(unit, exe, work, thorough, trace, limit=240):
    command = base_command(unit, exe, work, thorough) + ["--replay", trace]
    try:
        p = subprocess.run(command, env=ENV, capture_output=True, cwd=work, timeout=limit)
    except subprocess.TimeoutExpired:
        return True, {"message": f"does not end within {limit} s", "choices": [], "notes": []}
    text = p.stdout.decode("utf8", "replace")
    report = {}
    for line in text.splitlines():
        if line.startswith('{"failed"'):
            try:
                report = json.loads(line)
            except ValueError:
                pass
    if p.returncode == 0:
        return False, report
    if p.returncode == 10:
        return True, report
    if p.returncode == 97:
        return None, {"message": "driver error: " + p.stderr.decode("utf8", "replace")[-500:]}
    name = p.returncode if p.returncode > 0 else signal.Signals(-p.returncode).name
    return True, {"message": f"process ended with {name}: " + p.stderr.decode("utf8", "replace")[-500:],
                  "choices": [], "notes": []}


KNOWN = []


def read_known(pid):
    """Lines "known: property=<id> id=<identifier> <what fails>" of known_findings.txt."""
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == "known:" and parts[1] == "property=" + pid and parts[2].startswith("id="):
                KNOWN.append({"id": parts[2][3:], "text": parts[3]})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only")
    args = ap.parse_args()
    if args.replay:
        record = json.load(open(args.replay))
        args.property = record["property"]
        args.tier = record["tier"]
        args.only = record["unit"]
    pid = args.property
    spec = checks.CHECKS[pid]
    read_known(pid)
    thorough = args.tier == "thorough"
    start = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return decide(args, pid, spec, thorough, work, start)
    finally:
        if not args.keep:
            shutil.rmtree(work, ignore_errors=True)


def decide(args, pid, spec, thorough, work, start):
    units = [u for u in spec["units"] if (thorough or not u.get("thorough_only")) and (not args.only or u["name"] == args.only)]
    exes, errors = {}, []
    with concurrent.futures.ThreadPoolExecutor(CPUS) as pool:
        futures = {pool.submit(compile_unit, u, work): u for u in units}
        for f in concurrent.futures.as_completed(futures):
            exe, error = f.result()
            exes[futures[f]["name"]] = exe
            if error:
                errors.append(error)
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    built = time.time() - start
    by_name = {u["name"]: u for u in units}
    if args.replay:
        record = json.load(open(args.replay))
        u = by_name[record["unit"]]
        failed, report = replay_once(u, exes[u["name"]], work, thorough, record["trace"])
        print(json.dumps(report, indent=1))
        return 1 if failed else 0
    limit = spec.get("thorough_budget", 3000) if thorough else spec.get("quick_budget", 400)
    deadline = start + built + limit
    jobs = []
    for u in units:
        shards = u.get("shards", CPUS if thorough else 4)
        for s in range(shards):
            jobs.append((u, s, shards))
    jobs.sort(key=lambda j: -j[0].get("weight", 1))
    results, failures = [], []
    with concurrent.futures.ThreadPoolExecutor(CPUS) as pool:
        futures = []
        for u, s, n in jobs:
            futures.append(pool.submit(
                lambda u=u, s=s, n=n: None if failures else run_shard(
                    u, exes[u["name"]], work, thorough, s, n, max(5.0, deadline - time.time()))))
        for f in concurrent.futures.as_completed(futures):
            r = f.result()
            if r is None:
                continue
            results.append(r)
            if r.get("failure"):
                failures.append(r)
    violations, broken = [], []
    failures.sort(key=lambda r: len(r.get("trace", "")))
    for r in failures:
        u = by_name[r["unit"]]
        if r.get("code") == 97:
            broken.append(r)
            continue
        # a failure counts only if the same choices fail again, twice
        again = [replay_once(u, exes[u["name"]], work, thorough, r.get("trace", "")) for _ in range(2)]
        if all(a[0] for a in again):
            os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
            path = os.path.join(HERE, "evidence", "replay", f"{pid}-{r['unit']}.json")
            record = {"property": pid, "tier": "thorough" if thorough else "quick", "unit": r["unit"],
                      "defs": u.get("defs", []), "trace": r.get("trace", ""), "message": r["failure"],
                      "detail": again[0][1], "replay_with": f"python3 {HERE}/run.py --replay {path}"}
            json.dump(record, open(path, "w"), indent=1)
            violations.append((path, r["unit"], again[0][1].get("message") or r["failure"]))
            break
        broken.append(r)
    all_states = set()
    total = {"executions": 0, "transitions": 0, "comparisons": 0, "outcomes": 0}
    per_unit = {}
    capped = False
    for r in results:
        for k in total:
            total[k] += r.get(k, 0)
        per_unit[r["unit"]] = per_unit.get(r["unit"], 0) + r.get("executions", 0)
        capped |= bool(r.get("capped"))
        path = os.path.join(work, f"{r['unit']}.{r['shard']}.states")
        if os.path.exists(path):
            a = array.array("Q")
            with open(path, "rb") as f:
                a.frombytes(f.read())
            if len(all_states) < 6000000:
                all_states.update(a)
    samples, seen = [], set()
    for r in sorted(results, key=lambda r: -r.get("executions", 0)):
        if r["unit"] in seen or len(samples) >= 4 or not r.get("sample"):
            continue
        seen.add(r["unit"])
        failed, report = replay_once(by_name[r["unit"]], exes[r["unit"]], work, thorough, r["sample"])
        if failed is False and report:
            samples.append({"unit": r["unit"], "case": report.get("notes") or
                            ["%s=%d/%d" % (c["at"], c["choice"], c["of"]) for c in report.get("choices", [])]})
    evidence = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": len(all_states), "transitions": total["transitions"],
            "traces_validated_against_impl": total["executions"],
            "samples": samples,
            "exhaustive": not capped and not violations and not broken,
            "comparisons": total["comparisons"],
            "executions_per_unit": dict(sorted(per_unit.items())),
            "bounds": spec["bounds"]["thorough" if thorough else "quick"],
            "capped_by_time": capped,
            "how_bound_to_code": spec.get("binding", "every execution runs the code of /repo's working tree; the "
                                                     "model only supplies the expected answer"),
        },
        "assumptions": spec.get("assumptions", []),
        "violations": len(violations),
        "wall_s": round(time.time() - start, 1),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {spec['title']}: {total['executions']} executions, {len(all_states)} states, "
          f"{total['comparisons']} comparisons, build {built:.0f} s, total {time.time() - start:.0f} s"
          f"{', CAPPED' if capped else ''}")
    if args.keep:
        print("work", work, {r['unit'] + '.' + str(r['shard']): r.get('seconds') for r in results})
    met = {}
    for r in results:
        for k, n in r.get("known", {}).items():
            met[k] = met.get(k, 0) + n
    for k in KNOWN:
        if met.get(k["id"]):
            print(f"KNOWN-FINDING: property={pid} {k['text']} (id {k['id']}, {met[k['id']]} executions)")
    for path, unit, message in violations:
        print(f"  unit {unit}: {message}")
        print(f"VIOLATION property={pid} replay={path}")
    if violations:
        return 1
    if broken:
        print("error: a failure did not repeat or the driver is wrong: " + json.dumps(broken)[:3000], file=sys.stderr)
        return 3
    if total["executions"] == 0:
        print("error: nothing was explored", file=sys.stderr)
        return 4
    return 0


if __name__ == "__main__":
    sys.exit(main())
