"""Engine S: symbolic execution of the compiled generic code, obligations to the ring and SMT back ends,
counterexamples replayed on the real code."""
import json, os, time
from concurrent.futures import ThreadPoolExecutor
from common import *
import ring, smt


def zero_hyps(hyps):
    r = []
    for h in hyps:
        if h[0] == "s" and h[2] == 2:
            r.append(h[1])
        elif h[0] == "and":
            r += zero_hyps(h[1:])
    return r


def flat_goals(g):
    return [x for y in g[1:] for x in flat_goals(y)] if g[0] == "and" else [g]


def atom_ids(nodes, fs, cache={}):
    rt = set()
    for f in fs:
        smt.roots(f, rt)
    return {a for a in ring.atoms_of(nodes, rt) if nodes[a][0] not in "c+*"}


def discharge(nodes, hyps, goal, budget):
    """-> (status, backend, model or None, complete, secs)"""
    t0 = time.time()
    gs = flat_goals(goal)
    if all(g[0] == "t" for g in gs):
        return ("proved", "evaluation", None, True, 0.0)
    if any(h[0] == "f" for h in hyps):
        return ("proved", "evaluation", None, True, 0.0)
    strs = {json.dumps(x) for h in hyps for x in flat_goals(h)}
    if all(g[0] == "t" or json.dumps(g) in strs for g in gs):
        return ("proved", "hypothesis", None, True, 0.0)
    if all(g[0] == "t" or (g[0] == "s" and g[2] == 2) for g in gs):
        z = zero_hyps(hyps)
        if all(g[0] == "t" or ring.prove_eq(nodes, g[1], z, min(8, budget)) for g in gs):
            return ("proved", "ring", None, True, time.time() - t0)
    # SMT: first with the hypotheses that talk about the goal's atoms only, then with all
    ga = atom_ids(nodes, [goal])
    near = [h for h in hyps if atom_ids(nodes, [h]) <= ga]
    if len(near) < len(hyps):
        v = smt.solve(nodes, near, goal, min(5, budget / 3))
        if v[0] == "proved":
            return v[:4] + (time.time() - t0,)
    # roots and quotients as unknowns (their defining equations dropped): enough for many
    # inequalities, and only ever used to prove
    if any(nodes[a][0] in ("sqrt", "/") for f in hyps + [goal] for a in atom_ids(nodes, [f])):
        for hs in ([near, hyps] if len(near) < len(hyps) else [hyps]):
            v = smt.solve(nodes, hs, goal, min(4, budget / 4), abstract=True)
            if v[0] == "proved":
                return v[:4] + (time.time() - t0,)
    v = smt.solve(nodes, hyps, goal, budget)
    return v[:4] + (time.time() - t0,)


def run(rep, prop, bin_sym, bin_conc, budget=None, nsamples=None, env=None, of=None):
    """of: only the contracts of this function"""
    budget = budget or (120 if THOROUGH else 40)
    nsamples = nsamples or (60000 if THOROUGH else 4000)
    exe_s, exe_c = (os.path.join(TARGET, "debug", b) if b else None for b in (bin_sym, bin_conc))
    rc, o, e = sh([exe_c, "list"])
    cons = [l.split("\t") for l in o.splitlines() if l.startswith(prop + "\t") and (of is None or l.split("\t")[2] == of)]
    tmp = tempfile.mkdtemp(prefix="kv-")
    os.environ["KV_TMP"] = tmp
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            syms = list(ex.map(lambda c: sh([exe_s, "sym", c[1]], timeout=120) if exe_s else (None, "", "no symbolic engine"), cons))
            concs = list(ex.map(lambda c: sh([exe_c, "search", c[1], str(SEED), str(nsamples), "60" if THOROUGH else "8"], timeout=150), cons))
        data, jobs = {}, []
        for c, (rc, o, e) in zip(cons, syms):
            rep.functions.append({"contract": c[1], "functions": c[2]})
            try:
                d = json.loads(o) if rc == 0 else None
            except ValueError:
                d = None
            data[c[1]] = d
            if d is None or d["unsupported"]:
                why = d["unsupported"] if d else ["symbolic run gave no result (%s)" % (rc if rc is not None else "timeout")]
                ob = Ob(c[1], "symbolic execution of " + c[2])
                ob.detail = "; ".join(why)
                rep.obs.append(ob)
                rep.bounded.append({"what": "%s: not decided symbolically (%s)" % (c[1], ob.detail), "bound": "sampled inputs only"})
                continue
            rep.extra.setdefault("paths", {})[c[1]] = d["paths"]
            for a in d["axioms"]:
                rep.assumptions.append("axiom used by %s: %s" % (c[1], a))
            seen = set()
            for ob in d["obs"]:
                k = json.dumps([ob["name"], ob["hyps"], ob["goal"]])
                if k in seen:
                    continue
                seen.add(k)
                x = Ob(c[1], ob["name"], ob["path"])
                rep.obs.append(x)
                jobs.append((x, d, ob))
            if not d["obs"]:
                raise SystemExit("contract %s generated no obligation" % c[1])

        def go(j):
            x, d, ob = j
            budget = min(hard, max(1.0, stop - time.time()))
            x.status, x.backend, model, complete, x.secs = discharge(d["nodes"], ob["hyps"], ob["goal"], budget)
            return model, complete

        # when the compiled code already fails a contract, or time is short, no long proof attempts
        bad = any('"fail":{' in o for _, o, _ in concs)
        hard, stop = (4 if bad else budget), time.time() + (60 if bad else 2400 if THOROUGH else 330)
        with ThreadPoolExecutor(max(2, JOBS // 2)) as ex:
            res = list(ex.map(go, jobs))
        failed = [(j, m, cpl) for j, (m, cpl) in zip(jobs, res) if j[0].status != "proved"]

        # concrete side
        found = {}
        for c, (rc, o, e) in zip(cons, concs):
            try:
                d = json.loads(o)
            except ValueError:
                rep.notes.append("concrete run of %s gave no result (%s)" % (c[1], rc))
                continue
            rep.evals += d["accepted"]
            rep.distinct += d["distinct"]
            rep.samples.append({"contract": c[1], "input": d["sample"]})
            if d["accepted"] == 0:
                rep.notes.append("no sampled input satisfies the precondition of %s" % c[1])
            if d["fail"]:
                found[c[1]] = d["fail"]
        for (x, d, ob), model, complete in failed:
            if x.status == "refuted" and x.contract not in found:
                # replay the prover's counterexample on the compiled crate
                if model:
                    args = ["%s=%r" % (k, v) for k, v in model.items()]
                    for a in (args, ["%s=%r" % (k, float(round(v * 64)) / 64) for k, v in model.items()]):
                        rc, o, e = sh([exe_c, "replay", x.contract] + a, timeout=20)
                        try:
                            r = json.loads(o)
                        except ValueError:
                            continue
                        if r["outcome"] == "fail":
                            found[x.contract] = {"names": r["names"], "vals": r["vals"], "from": "prover's counterexample"}
                            break
        # contracts with open obligations and no input yet: search harder
        todo = sorted({x.contract for (x, _, _), _, _ in failed if x.contract not in found} | {b["what"].split(":")[0] for b in rep.bounded if b["what"].split(":")[0] not in found})
        if todo:
            with ThreadPoolExecutor(JOBS) as ex:
                more = list(ex.map(lambda n: sh([exe_c, "search", n, str(SEED + 7919), "2000000", "40"], timeout=120), todo))
            for n, (rc, o, e) in zip(todo, more):
                try:
                    d = json.loads(o)
                except ValueError:
                    continue
                rep.evals += d["accepted"]
                rep.distinct += d["distinct"]
                if d["fail"]:
                    found[n] = d["fail"]
        for n, f in found.items():
            mine = [x.js() for (x, _, _), _, _ in failed if x.contract == n]
            rep.violate("%s: %s" % (n, "; ".join(f["names"])), {"contract": n, "input": f["vals"], "failed_checks": f["names"], "failed_obligations": mine[:20], "replay_cmd": "%s replay %s %s" % (exe_c, n, " ".join("%s=%s" % kv for kv in f["vals"].items()))}, True)
        for (x, d, ob), model, complete in failed:
            if x.contract in found:
                continue
            if x.status == "refuted" and complete:
                nodes = d["nodes"]
                rep.violate("%s: %s" % (x.contract, x.name), {"contract": x.contract, "obligation": x.js(), "prover_model": model, "smt": smt.Enc(nodes).script(ob["hyps"], ob["goal"], "QF_NRA")[0]}, False)
            else:
                rep.bounded.append({"what": "%s: %s undecided by the provers (%s)" % (x.contract, x.name, x.status), "bound": "sampled inputs only"})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
