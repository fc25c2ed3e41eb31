"""Check of one property:  run.py PID [--tier quick|thorough] [--replay FILE]"""
import re, os, sys, time, json, importlib, argparse, traceback, hashlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MPLBACKEND="Agg", VF_CHILD="1")


def reexec():
    if os.environ.get("VF_CHILD") != "1":
        env = dict(os.environ, **ENV)
        env.pop("PYTHONPATH", None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)


def known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:") and f"property={pid} " in line:
                m = re.match(r"known: property=\S+ case=(.*?) key=(\S+) what=", line)
                if m:
                    out.append((m.group(1), m.group(2), line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--stage", default="all")
    a = ap.parse_args()
    t0 = time.time()
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from vf import env  # noqa: F401
    from vf import session as S, par
    mod = importlib.import_module("props." + a.pid)
    if a.replay:
        return replay(mod, a.replay, S)
    tier = "thorough" if a.tier == "thorough" else "quick"
    V = S.Verifier(a.pid, tier)
    if a.stage in ("all", "proof") and hasattr(mod, "deductive"):
        try:
            mod.deductive(V)
        except Exception as e:
            # contract set-up refers to something that no longer exists: undecided by proof
            r = S.VCRes("contract set-up")
            r.status, r.note = "unsupported", f"{type(e).__name__}: {e}"
            V.results.append(r)
            if os.environ.get("VF_VERBOSE"):
                traceback.print_exc()
    C = S.Concrete(a.pid, tier, seed, (75 if tier == "quick" else 1500))
    viol = []
    if a.stage in ("all", "concrete") and hasattr(mod, "concrete"):
        try:
            mod.concrete(C)
        except Exception as e:
            C.harness_errors.append(f"{type(e).__name__}: {e}")
            if os.environ.get("VF_VERBOSE"):
                traceback.print_exc()
    V.join()
    C.join()
    par.cleanup()
    # replay of verifier countermodels on the real code
    for name, label, rep, inp in V.candidates:
        f = S.run_check("replay of " + name, rep, inp)
        if isinstance(f, dict) and not f.get("harness"):
            f["obligation"] = f"{name}: {label}"
            f["replay_fn"] = f"{rep.__module__}.{rep.__qualname__}"
            f["case"] = "counterexample"
            f["vc"] = name
            viol.append(f)
            break
    viol += C.fails
    failed_vcs = [r for r in V.results if r.status == "refuted" and r.definite]
    kn = known(a.pid)
    new, seen_known = [], {}
    for f in viol:
        hit = next((l for c, k, l in kn if c in (f["case"], "*") and k in (f["key"], "*")), None)
        if hit:
            seen_known[hit] = f
        else:
            new.append(f)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    for l in seen_known:
        print(f"KNOWN-FINDING: property={a.pid} {l.split(' what=', 1)[-1] if ' what=' in l else l}")
    if new:
        f = new[0]
        failing = [f"{r.name}: {r.failed}" for r in V.results if r.failed]
        p = os.path.join(rdir, f"{a.pid}-{hashlib.sha1(json.dumps(f, default=str, sort_keys=True).encode()).hexdigest()[:10]}.json")
        json.dump(dict(property=a.pid, failing_obligations=failing, **f, others=new[1:6]), open(p, "w"), indent=1, default=str)
        for g in new[:5]:
            print(f"violated: {g['case']}: {g['message'][:400]}")
        print(f"VIOLATION property={a.pid} replay={p}")
        rc = 1
    elif failed_vcs:
        r = failed_vcs[0]
        p = os.path.join(rdir, f"{a.pid}-obligation.json")
        json.dump(dict(property=a.pid, obligation=f"{r.name}: {r.failed}", solver="refuted",
                       countermodel=str(r.model)[:20000], smt2=getattr(r, "smt", "")[:200000]), open(p, "w"), indent=1)
        print(f"obligation refuted: {r.name}: {r.failed}")
        print(f"VIOLATION property={a.pid} replay={p} no-failing-input-found")
        rc = 1
    for r in V.results:
        if r.status != "proved":
            print(f"NOT-PROVED ({r.status}): {r.name}: {r.failed or ''} {r.note}")
    for h in C.harness_errors[:5]:
        print("harness:", h)
    obl = sum(max(1, len(r.obl)) for r in V.results)
    dis = sum(1 for r in V.results for o in r.obl if o[1] == "proved")
    backends = {}
    for r in V.results:
        for o in r.obl:
            if o[1] == "proved":
                b = backends.setdefault(o[2], [0, 0.0])
                b[0] += 1
                b[1] += o[3]
    level = getattr(mod, "LEVEL", "proof")
    cov = dict(obligations=obl, discharged=dis,
               checker_cmd=f"python vf/run.py {a.pid} --tier {tier}",
               trusted_base=sorted(V.trusted | set(getattr(mod, "TRUSTED", [])) | {
                   "the VC generator in /verif/vf (AST interpreter of /repo's source, path merging, loop summaries)",
                   "z3 and cvc5", "float arithmetic treated as real arithmetic"}),
               functions_under_contract=sorted(V.functions),
               contracts=[dict(name=r.name, status=r.status, obligations=len(r.obl), paths=r.paths, secs=r.secs, note=r.note)
                          for r in V.results],
               backends={k: dict(obligations=v[0], solver_secs=round(v[1], 2)) for k, v in backends.items()},
               bounded=dict(note="run-time evaluation of the same contracts on the real code; bounded, never counted as proved",
                            evaluations=C.evals, distinct_nontrivial=len(C.distinct), skipped=C.skipped, rule=C.rules,
                            samples=C.samples, harness_errors=C.harness_errors),
               evaluations=C.evals, distinct_nontrivial=len(C.distinct),
               rule="; ".join(f"{k}: {v}" for k, v in C.rules.items())[:4000], samples=C.samples[:3])
    if level == "other":
        cov["explanation"] = getattr(mod, "EXPLANATION", "")
    ev = dict(property=a.pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + ["floats are treated as mathematical reals in the proofs"],
              wall_s=round(time.time() - t0, 2), violations=len(new) + (1 if failed_vcs and not new else 0))
    json.dump(ev, open(os.path.join(HERE, "evidence", a.pid + ".json"), "w"), indent=1, default=str)
    print(f"{a.pid}: {dis}/{obl} obligations discharged in {len(V.results)} contracts; bounded: {C.evals} evaluations, "
          f"{len(new)} new violations; {ev['wall_s']} s")
    return rc


def replay(mod, path, S):
    d = json.load(open(path))
    if "case" not in d:
        print(json.dumps(d)[:2000])
        return 1
    if d["case"] == "counterexample":
        m, q = d["replay_fn"].rsplit(".", 1)
        check = getattr(importlib.import_module(m), q)
    else:
        C = S.Concrete(mod.__name__, "quick", 1, 0.0)
        C.cases = lambda name, gen, check, n, rule="", share=0.5: C.cases_by_name.__setitem__(name, check)
        mod.concrete(C)
        C.join()
        check = C.cases_by_name[d["case"]]
    f = S.run_check(d["case"], check, d["input"])
    if isinstance(f, dict):
        print("reproduced:", f["message"])
        print(f["tb"])
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    reexec()
    code = 2
    try:
        code = main()
    finally:
        sys.stdout.flush()
    os._exit(code)
