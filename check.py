#!/usr/bin/env python3
"""check.py PROPERTY  -- decide one property on /repo's current working tree.

1. build the deductive verifier (engine/) and let it generate and discharge every obligation of the
   contracts that carry PROPERTY, from the sources in /repo;
2. build /repo with the harness overlaid (harness/) and look for a concrete failing input;
3. a failing input is reported with a replay file; a failed obligation without one is reported as
   "no-failing-input-found" with the obligation and the solver's output in the replay file.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
ENV = "/opt/vp/env.sh"
T0 = time.time()
ENGINE_BUDGET = 420 if TIER == "quick" else 3000
HARNESS_LIMIT = 240 if TIER == "quick" else 3000


def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ)
    e.update(env or {})
    pre = f". {ENV}; " if os.path.exists(ENV) else ""
    p = subprocess.Popen(["bash", "-c", pre + cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -1, out.decode("utf8", "replace") + "\n[time limit]"


def run_engine(tmp, res):
    rc, out = sh(f"GOWORK=off go build -mod=vendor -o {tmp}/vceng .", os.path.join(VERIF, "engine"), 600)
    if rc != 0:
        res["error"] = "the verifier does not build: " + out[-2000:]
        return
    rep = f"{tmp}/engine.json"
    cmd = f"{tmp}/vceng -repo {REPO} -specs {VERIF}/contracts -prop {PROP} -json {rep} -retry-unroll 3 -budget {ENGINE_BUDGET} -workers 4"
    res["cmd"] = cmd.replace(tmp, "$TMP")
    if REPO != "/repo":  # a scratch copy: same workspace, other place
        ws = open("/opt/vp/go.work").read().replace("/repo", REPO)
        open(f"{tmp}/go.work", "w").write(ws)
        if os.path.exists("/opt/vp/go.work.sum"):
            shutil.copy("/opt/vp/go.work.sum", tmp)
        cmd = f"GOWORK={tmp}/go.work " + cmd
    rc, out = sh(cmd, VERIF, ENGINE_BUDGET + 300)
    res["out"] = out
    if rc != 0 or not os.path.exists(rep):
        res["error"] = f"the verifier stopped with status {rc}: " + out[-3000:]
        return
    res["fns"] = json.load(open(rep)) or []


def run_harness(tmp, res):
    files = sorted(glob.glob(os.path.join(VERIF, "harness", "*_test.go")))
    shims = sorted(glob.glob(os.path.join(VERIF, "harness", "shim_*.go")))
    if not files:
        res["skipped"] = "no harness"
        return
    ov = {}
    for f in files:
        ov[f"{REPO}/zzverif/{os.path.basename(f)}"] = f
    for f in shims:  # shim_<package dir with _ for />.go
        d = os.path.basename(f)[len("shim_"):-3].replace("_", "/")
        ov[f"{REPO}/{d}/zz_verif_shim.go" if d != "flow" else f"{REPO}/zz_verif_shim.go"] = f
    json.dump({"Replace": ov}, open(f"{tmp}/ov.json", "w"))
    rc, out = sh(f"GOWORK=off go test -c -vet=off -overlay {tmp}/ov.json -o {tmp}/zz.test ./zzverif", REPO, 600)
    if rc != 0:
        res["skipped"] = "the harness does not build against this tree: " + out[-1500:]
        return
    work = f"{tmp}/work"
    os.makedirs(work)
    rep = f"{tmp}/harness.json"
    rc, out = sh(f"{tmp}/zz.test -test.timeout {HARNESS_LIMIT}s", work, HARNESS_LIMIT + 30,
                 {"VERIF_PROP": PROP, "VERIF_SEED": str(SEED), "VERIF_TIER": TIER, "VERIF_OUT": rep, "VERIF_REPO": REPO})
    res["rc"], res["tail"] = rc, out[-6000:]
    if os.path.exists(rep):
        res["report"] = json.load(open(rep))
    if rc != 0 and not (res.get("report") or {}).get("failure"):
        # the engine took the whole process down (fatal runtime error, hang)
        res["crash"] = True


def known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == PROP:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    tmp = tempfile.mkdtemp(prefix="vc-")
    try:
        eng, har = {}, {}
        th = threading.Thread(target=run_harness, args=(tmp, har))
        th.start()
        run_engine(tmp, eng)
        th.join()
        return decide(eng, har)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(eng, har):
    kn = dict(known())
    violations, notes = [], []
    fns = eng.get("fns", [])
    total = sum(f["total"] for f in fns if f["status"] != "bounded")
    proved = sum(f["proved"] for f in fns if f["status"] != "bounded")
    bounded = [f for f in fns if f["status"] == "bounded"]
    failed = []
    for f in fns:
        if f.get("missing") and f["name"].split(".")[-1][:1].islower():
            notes.append(f"{f['name']}: no longer in the code; its former callers are verified with the code they call now")
            total -= f["total"]
            continue
        if f["status"] in ("failed", "not reached"):
            for o in f["failed"] or [{"name": f.get("err") or f["status"], "kind": "function", "output": f.get("err", "")}]:
                key = (f["name"] + "#" + o["name"]).replace(" ", "_")
                if key in kn:
                    print(f"KNOWN-FINDING: property={PROP} {kn[key]}")
                    continue
                failed.append({"function": f["name"], "loc": f["loc"], "obligation": o["name"], "kind": o["kind"], "verifier_output": o.get("output", ""), "err": f.get("err", ""), "pos": o.get("pos", "")})
    if eng.get("error"):
        failed.append({"function": "(all)", "obligation": "verification conditions could not be generated", "verifier_output": eng["error"]})
    if not eng.get("error") and total == 0 and not bounded:
        failed.append({"function": "(none)", "obligation": "no obligations were generated", "verifier_output": ""})
    rep = har.get("report") or {}
    fail = rep.get("failure")
    for k in rep.get("known") or []:
        if k in kn:
            print(f"KNOWN-FINDING: property={PROP} {kn[k]}")
    replay = None
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    path = os.path.join(VERIF, "out", f"{PROP}.json")
    if os.path.exists(path):
        os.remove(path)
    line = None
    if fail or har.get("crash"):
        if not fail:
            fail = {"part": "run", "what": "the process running the flow engine died", "case": har.get("tail")}
        replay = {"property": PROP, "failing_input": fail, "failed_obligations": failed,
                  "rerun": f"cd {VERIF} && VERIF_SEED={SEED} VERIF_TIER={TIER} python3 check.py {PROP}"}
        line = f"VIOLATION property={PROP} replay={path}"
        print("failing input:", str(fail.get("what"))[:600])
    elif failed:
        replay = {"property": PROP, "failed_obligations": failed, "no_failing_input": True,
                  "harness": har.get("skipped") or f"{rep.get('evaluations', 0)} cases, none failed",
                  "rerun": f"cd {VERIF} && python3 check.py {PROP}"}
        line = f"VIOLATION property={PROP} replay={path} no-failing-input-found"
    for f in failed[:10]:
        print("failed obligation:", f["function"], "--", f["obligation"])
    if replay:
        json.dump(replay, open(path, "w"), indent=1, default=str)
    trusted, assumptions = [], []
    for f in fns:
        for a in f["assumptions"] or []:
            if a not in trusted:
                trusted.append(a)
    cov = {
        "obligations": total, "discharged": proved,
        "checker_cmd": eng.get("cmd", ""),
        "trusted_base": ["engine/ (the verification condition generator written for this task, over go/ast and go/types)", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2"] + trusted,
        "functions_under_contract": [{"function": f["name"], "where": f["loc"], "status": f["status"], "obligations": f["total"], "discharged": f["proved"],
                                      "seconds": round(f["secs"], 2), "loop_invariants": f["invariants"], "inlined": f["inlined"]} for f in fns],
        "bounded_functions": [{"function": f["name"], "bound": f.get("bound"), "why": f.get("bound_why")} for f in bounded],
        "solver_seconds": round(sum(o["secs"] for f in fns for o in f["obligations"]), 2),
        "backends": count(o["backend"] for f in fns for o in f["obligations"] if o["status"] == "unsat"),
        "vacuity_checks": sum(1 for f in fns for o in f["obligations"] if o["kind"] == "cover"),
    }
    if rep:
        cov.update({"evaluations": rep.get("evaluations", 0), "distinct_nontrivial": rep.get("distinct_nontrivial", 0), "rule": rep.get("rule") or "see parts",
                    "samples": rep.get("samples") or [], "parts": rep.get("parts")})
    if har.get("skipped"):
        notes.append("search for failing inputs: " + har["skipped"])
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov,
          "assumptions": trusted + ["integers are mathematical (no wrap-around)", "goroutine interleavings are not modelled: each function is verified as running alone between the contracts of the functions it calls",
                                    "nil dereference, out-of-range and type-assertion panics are obligations only where a contract says so", "termination is not proved"] + notes,
          "wall_s": round(time.time() - T0, 2), "violations": 1 if line else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{PROP}.json"), "w"), indent=1, default=str)
    print(f"{PROP}: {proved}/{total} obligations discharged in {len(fns)} functions ({len(bounded)} bounded), {rep.get('evaluations', 0)} concrete cases, {time.time() - T0:.0f}s")
    for n in notes:
        print("note:", n[:400])
    if line:
        print(line)
        return 1
    return 0


def count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


sys.exit(main())
