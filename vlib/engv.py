"""Engine V: functions extracted mechanically into Verus with contracts and invariants from overlay/*.ov,
every obligation discharged by Verus (z3); failures confirmed on the compiled crate by a concrete search."""
import json, os, re, time
from concurrent.futures import ThreadPoolExecutor
from common import *
import build

OVERLAY = {"M08": "blade", "G07": "utils"}
OVERLAY.update({"Y0%d" % i: "polygon" for i in range(1, 5)})
OVERLAY.update({"R0%d" % i: "graph" for i in range(1, 7)})
OVERLAY.update({"F01": "fold", "F02": "fold"})
# contracts whose proof needs trigonometry: a failure may be the solver's, so only a failing input is an alarm
SOFT = {"Polygon::regular"}
VCONC = os.path.join(TARGET, "debug", "vconc")
TRUSTED = [
    "the extractor kvx (syn): desugars loops over iterators, iterator chains and maps into while loops over the same operations, inlines functions that have no contract, drops printing, labels (String fields), attributes, trait impls and tests",
    "Verus and z3; vstd's specifications of Vec, Option, HashMap",
    "derived Clone implementations copy every field",
]
FOLD_TRUSTED = [
    "the compiler's expansion of #[derive(Serialize, Deserialize)] (the text verified is that expansion) and the extractor kvx: object keys (string literals) become numbers, equal exactly for equal strings; `while let` becomes loop + match and `?` a match; the generic parameters of serde's traits are the one type the contracts speak of",
    "dropped: reading a document from a JSON array, from numbered or byte keys (visit_seq, visit_u64, visit_bytes), which no JSON object uses; the conversion between error types; printing",
    "Verus and z3; vstd's specifications of Option, Seq, Map",
]
FOLD_ASSUMED = [
    "serde_json::from_str hands the members of a JSON object to visit_map one by one and in order, and its result is visit_map's (contracts of MapAccess::next_key, next_value, from_str)",
    "serde_json's struct serializer writes each field once under the key it is given (contracts of serialize_struct, serialize_field, end)",
    "ax_text, ax_i32, ax_texts, ax_f32s, ax_f32ss, ax_i32ss, ax_threes: serde's implementations for i32, String, Vec, f32 (finite), [i32; 3] read back what they write; ax_ignored: any value can be skipped",
    "File::open, read_to_string: succeed with the whole text exactly when the file exists, is readable and is UTF-8",
    "serde's missing_field is an error for every field type that is not an Option; Default::default is the empty value",
]
AXIOMS = {
    "kv_": "calls that the extraction renames (f32 literals and conversions, std/glm constants, glm::distance, usize::pow, slice and Vec methods, HashMap indexing) do what the verified bodies of overlay/common.ov do",
    "R": "the scalar R: + - * / neg abs min max sin cos and comparisons are those of the real numbers (f32 rounding, overflow, NaN are outside the proof); external bodies: == and partial_cmp of R, which compare the ghost reals",
    "ax_finite": "axiom ax_finite: a distance does not exceed the largest float",
    "ax_sqrt": "axiom ax_sqrt: the square root of a non-negative real is non-negative and squares to it",
    "ax_eps": "axiom ax_eps: 0 < epsilon < 1 < the largest float",
    "ax_vec_len": "axiom ax_vec_len: a Vec<Vec2> has at most isize::MAX elements (Rust allocations are no larger)",
    "ax_trig": "axiom ax_trig: sin^2 + cos^2 = 1",
}


def overlay(name, seen=None):
    """-> {function: {props, spec, loops, external}}"""
    seen = {} if seen is None else seen
    cur, sec = None, None
    for l in open(os.path.join(VERIF, "overlay", name)):
        l = l.rstrip("\n")
        if l.startswith("//@ "):
            w = l[4:].split()
            sec = None
            if w[0] == "include":
                overlay(w[1], seen)
            elif w[0] in ("fn", "extern"):
                cur = seen.setdefault(w[1], {"props": [], "spec": [], "external": w[0] == "extern"})
            elif w[0] == "lemma" and len(w) > 2:
                cur = seen.setdefault(w[1], {"props": w[2:], "spec": ["see the lemma of this name in overlay/" + name], "external": False})
            elif w[0] == "props":
                cur["props"] = w[1:]
            elif w[0] == "spec":
                sec = "spec"
        elif sec == "spec" and cur is not None:
            cur["spec"].append(l)
    return seen


def tag_of(line):
    """source line of the generated file -> (function, kind, property tags)"""
    m = re.search(r"//~ (.*)$", line)
    if not m:
        return (None, None, [])
    w = m.group(1).split()
    t = re.search(r"//\[([A-Z0-9 ]+)\]", line[:m.start()])
    if w[0] in ("prelude", "const", "type", "enum", "struct", "impl", "derived"):
        return (None, w[0], [])
    return (w[0], w[1] if len(w) > 1 else "", t.group(1).split() if t else [])


class Run:
    pass


def expand(out):
    """the crate after macro expansion, by the compiler that compiles it"""
    env = {"RUSTC_BOOTSTRAP": "1", "CARGO_TARGET_DIR": os.path.join(BUILD, "expand")}
    rc, o, e = sh(["cargo", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], timeout=300, cwd=REPO, env=env)
    if rc == 0 and "fn visit_map" not in o:
        # cargo prints nothing when it thinks nothing changed
        shutil.rmtree(os.path.join(BUILD, "expand"), ignore_errors=True)
        rc, o, e = sh(["cargo", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], timeout=300, cwd=REPO, env=env)
    if rc == 0:
        with open(out, "w") as f:
            f.write(o)
    return rc, "", e


def verus(name, tmp, rlimit, stubs=(), seed=None, timeout=240, opts=()):
    """opts: `variant:k:f` (the k-th of the annotations that fit f's loops), `iso:f` (loops of f see the code before them)"""
    r = Run()
    src = os.path.join(tmp, name + ".rs")
    if name == "fold":
        text = os.path.join(tmp, "expanded.rs")
        rc, o, e = expand(text) if not os.path.exists(text) else (0, "", "")
        if rc == 0:
            rc, o, e = sh([build.KVX, "fold", text, os.path.join(VERIF, "overlay", name + ".ov"), src] + list(stubs), timeout=60)
    else:
        rc, o, e = sh([build.KVX, "ver", REPO, os.path.join(VERIF, "overlay", name + ".ov"), src] + list(stubs) + list(opts), timeout=60)
    r.variants = {}
    r.notes, r.shape, r.errors, r.compile, r.fns, r.raw, r.dead = {}, {}, [], [], [], "", None
    if rc != 0:
        r.dead = "extraction failed: " + (o + e)[-800:]
        return r
    for l in o.splitlines():
        if l.startswith("@fn "):
            r.shape[l.split()[1]] = l[4:]
            r.variants[l.split()[1]] = next((int(w[9:]) for w in l.split() if w.startswith("variants=")), 1)
        elif l.startswith("@"):
            pass
        elif ": " in l:
            f, n = l.split(": ", 1)
            r.notes.setdefault(f, []).append(n)
    lines = open(src).read().split("\n")
    cmd = ["verus", "--crate-type=lib", os.path.basename(src), "--rlimit", str(rlimit), "--output-json", "--time-expanded", "--multiple-errors", "10", "--error-format=json"]
    if seed is not None:
        cmd += ["--smt-option", "smt.random_seed=%d" % seed]
    t0 = time.time()
    rc, o, e = sh(cmd, timeout=timeout, cwd=tmp)
    r.secs = time.time() - t0
    try:
        d = json.loads(o)
    except ValueError:
        d = None
    diags = []
    for l in e.splitlines():
        try:
            x = json.loads(l)
        except ValueError:
            continue
        if x.get("level", "").startswith("error") and not x["message"].startswith("aborting due to"):
            diags.append(x)
    if rc is None:
        r.dead = "verus did not finish in %d s" % timeout
        return r
    vr = (d or {}).get("verification-results", {})
    verified = d is not None and "verified" in vr and not vr.get("encountered-vir-error")
    # names and types that do not resolve: nothing was verified
    if any((x.get("code") or {}).get("code") for x in diags) or (vr.get("encountered-error") and not vr.get("verified") and not vr.get("errors")):
        verified = False
    for x in diags:
        spans = [(lines[s["line_start"] - 1] if 0 < s["line_start"] <= len(lines) else "", s) for s in x["spans"] if s["file_name"].endswith(name + ".rs")]
        prim = [tag_of(l) + (l,) for l, s in spans if s["is_primary"]]
        every = [tag_of(l) + (l,) for l, s in spans]
        fn = next((t[0] for t in prim if t[0]), None)
        msg = x["message"]
        # a failing precondition points at the callee's clause too: the caller is where the call is
        if "precondition" in msg:
            calls = [t for (l, s), t in zip(spans, every) if "failed precondition" not in (s.get("label") or "") and t[0]]
            fn = calls[0][0] if calls else fn
        elif fn is None:
            fn = next((t[0] for t in every if t[0]), None)
        # post: the failing clause is the span in a `spec` line
        clause = [t for t in every if t[1] in ("spec", "extern")]
        site = [t for (l, s), t in zip(spans, every) if "failed" not in (s.get("label") or "")]
        err = {
            "function": fn, "message": msg, "kind": kind_of(msg),
            "tags": clause[0][2] if "postcondition" in msg and clause else [],
            "ghost": bool(site) and all((t[1] or "") in ("ghost",) for t in site if t[0]) and any(t[0] for t in site),
            "clause": (clause[0][3] if clause else (every[0][3] if every else "")).split(" //~")[0].strip(),
            "rendered": x.get("rendered", "")[:3000],
        }
        (r.errors if verified else r.compile).append(err)
    if verified:
        for m in d["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m["function-breakdown"]:
                r.fns.append({"function": f["function"].split("::", 1)[-1], "mode": f["mode:"], "seconds": f["time-micros"] / 1e6, "rlimit": f["rlimit"], "ok": f["success"]})
        r.verified, r.nerr = vr["verified"], vr["errors"]
        if r.nerr and not r.errors:
            r.dead = "verus reports errors without a diagnostic"
    elif not r.compile:
        r.dead = "verus gave no result (%s): %s" % (rc, e[-600:])
    return r


def kind_of(m):
    for k, w in (("rlimit", "esource limit"), ("post", "postcondition"), ("pre", "precondition"), ("overflow", "arithmetic"), ("inv", "invariant"), ("decreases", "decreases"), ("assert", "assert")):
        if w in m:
            return k
    return "other"


def artifact(e):
    """the extraction writes a..=b as a..b+1, which overflows where the range itself does not"""
    return e["kind"] == "overflow" and re.match(r"let (mut )?(end|it)\d+ = .*\+ 1 ?;$", e["clause"]) is not None


def prove(name, tmp, rep):
    """Runs Verus; functions that do not compile are taken on trust of their contract (and reported as bounded)."""
    stubs, why, var = [], {}, {}
    for _ in range(12):
        opts = ["variant:%d:%s" % (k, f) for f, k in var.items()]
        r = verus(name, tmp, 20 if name == "fold" else 60, stubs, opts=opts)
        r.stubs, r.var = stubs, var
        for f, n in why.items():
            r.notes.setdefault(f, []).append(n)
        if r.dead or not r.compile:
            return r
        bad = sorted({e["function"] for e in r.compile if e["function"] and e["function"] not in stubs})
        if not bad:
            r.dead = "extracted text is rejected: " + "; ".join(e["message"] for e in r.compile[:4])
            return r
        more = [f for f in bad if var.get(f, 0) + 1 < r.variants.get(f, 1)]
        if more:
            for f in more:
                var[f] = var.get(f, 0) + 1
                why[f] = "the annotations do not fit the body: " + next(e["message"] for e in r.compile if e["function"] == f)
            continue
        for f in bad:
            var.pop(f, None)
            why[f] = ("not within the verifier's reach: " + next(e["message"] for e in r.compile if e["function"] == f))
        rep.extra.setdefault("outside_the_verifier", []).extend("%s: %s" % (f, next(e["message"] for e in r.compile if e["function"] == f)) for f in bad)
        stubs = stubs + bad
    r.dead = "extracted text is rejected"
    return r


def again(name, tmp, r, errs, rep):
    """What did not verify, once more: other solver seeds and more resources, loops that see the code before them, the
    other annotations that fit the loops. A function verified in any of the runs is verified."""
    failing = sorted({e["function"] for e in errs if e["function"]})
    base = ["variant:%d:%s" % (k, f) for f, k in r.var.items() if f not in failing]
    mine = ["variant:%d:%s" % (r.var.get(f, 0), f) for f in failing]
    iso = ["iso:" + f for f in failing]
    runs = [(7, mine), (23, mine), (None, mine + iso)]
    # with the solver's own nonlinear arithmetic
    if name != "fold":
        runs.append((None, mine + ["nl:" + f for f in failing]))
    # the proof at the end of a loop's body, at its `continue`s too
    cont = ["cont:" + f for f in failing if " conts=0 " not in r.shape.get(f, " conts=0 ")]
    if cont:
        runs += [(None, mine + cont), (None, mine + cont + iso)]
    for k in range(1, min(8, max([r.variants.get(f, 1) for f in failing] + [1]))):
        other = ["variant:%d:%s" % (r.var.get(f, 0) + k, f) for f in failing if r.variants.get(f, 1) > k]
        runs += [(None, other), (None, other + iso)]

    def one(i):
        d = os.path.join(tmp, "again%d" % i)
        os.makedirs(d, exist_ok=True)
        if name == "fold" and os.path.exists(os.path.join(tmp, "expanded.rs")):
            shutil.copy(os.path.join(tmp, "expanded.rs"), d)
        seed, opts = runs[i]
        return verus(name, d, 40 if name == "fold" else 180, r.stubs, seed=seed, opts=base + opts)
    with ThreadPoolExecutor(4) as ex:
        qs = list(ex.map(one, range(len(runs))))
    for i, q in enumerate(qs):
        if q.dead or q.compile:
            continue
        left = {e["function"] for e in q.errors}
        won = {e["function"] for e in errs if e["function"]} - left
        if won:
            rep.notes.append("verified at the second attempt (%s): %s" % (" ".join(runs[i][1] if i > 1 else ["seed %d" % runs[i][0]]), " ".join(sorted(won))))
        errs = [e for e in errs if e["function"] not in won]
        for f in {e["function"] for e in errs}:
            mine = [e for e in q.errors if e["function"] == f]
            if mine and all(artifact(e) for e in mine):
                errs = [e for e in errs if e["function"] != f] + mine
        # what only ran out of resources may have been decided now
        if i < 2:
            errs += [e for e in q.errors if e["function"] in {x["function"] for x in errs if x["kind"] == "rlimit"} and e["kind"] != "rlimit"]
    return errs


def search(prop, seed, secs, out):
    try:
        os.unlink(out)
    except OSError:
        pass
    sh([VCONC, "search", prop, str(seed), str(secs), out], timeout=secs + 60)
    try:
        return json.load(open(out))
    except (OSError, ValueError):
        return None


def run(rep, prop):
    ok, err = cargo_build("engine", ["--bin", "vconc"])
    if not ok:
        print(err[-3000:])
        return False
    ok, err = build.kvx()
    if not ok:
        print(err[-3000:])
        return False
    name = OVERLAY[prop]
    ov = overlay(name + ".ov")
    rep.trusted += FOLD_TRUSTED if name == "fold" else TRUSTED
    text = "\n".join(open(os.path.join(VERIF, "overlay", f)).read() for f in ("common.ov", name + ".ov"))
    if name == "fold":
        rep.assumptions += FOLD_ASSUMED
    else:
        rep.assumptions += [v for k, v in AXIOMS.items() if k in ("kv_", "R") or k in text] if name != "blade" else [AXIOMS["kv_"]]
    rep.assumptions += ["engine V takes %s as an uninterpreted function of its four arguments; engine S discharges what it returns (G03's contracts, here again)" % f for f, o in ov.items() if o["external"]]
    tmp = tempfile.mkdtemp(prefix="kv-")
    try:
        n0, secs0 = (8, 150) if THOROUGH else (3, 12)
        with ThreadPoolExecutor(n0 + 1) as ex:
            fr = ex.submit(prove, name, tmp, rep)
            cs = [ex.submit(search, prop, SEED + i, secs0, os.path.join(tmp, "c%d.json" % i)) for i in range(n0)]
            r, cs = fr.result(), [c.result() for c in cs]
        decide(rep, prop, name, ov, r, cs, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return True


def absorb(rep, cs):
    fail = None
    for c in cs:
        if c is None:
            rep.notes.append("a concrete run gave no result")
            continue
        rep.evals += c["accepted"]
        rep.distinct += c["distinct"]
        if c["sample"] and len(rep.samples) < 4:
            rep.samples.append(c["sample"])
        if c["note"]:
            rep.notes.append("concrete search: " + c["note"])
        fail = fail or c["fail"]
    return fail


def decide(rep, prop, name, ov, r, cs, tmp):
    mine = [f for f, o in ov.items() if prop in o["props"] and not o["external"]]
    for f in mine:
        rep.functions.append({"function": f, "contract": [l.split(" //[")[0].strip() for l in ov[f]["spec"]]})
    fail = absorb(rep, cs)
    open_, alarms = [], []
    if r.dead:
        rep.notes.append(r.dead)
        for f in mine:
            ob = Ob(f, "contract of " + f)
            ob.detail = r.dead
            rep.obs.append(ob)
        open_.append(r.dead)
    else:
        errs = [e for e in r.errors]
        if errs and not fail:
            errs = again(name, tmp, r, errs, rep)
        by = {}
        for e in errs:
            by.setdefault(e["function"], []).append(e)
        times = {f["function"]: f for f in r.fns}
        for f in mine:
            ob = Ob(f, "; ".join(l.split(" //[")[0].strip() for l in ov[f]["spec"])[:600], "contract, loop invariants, absence of panics")
            ob.backend, ob.secs = "verus (z3)", times.get(f, {}).get("seconds", 0.0)
            rep.obs.append(ob)
            lost = list(r.notes.get(f, []))
            if f in by and all(artifact(e) for e in by[f]):
                lost.append("the bound of an inclusive range is written as a sum, which may overflow")
            if any(n == "function not found" for n in lost):
                ob.detail = "not in the source any more"
                # nothing to prove; its callers are proved against what they call now
                rep.obs.pop()
                rep.notes.append(f + ": not in the source any more")
                continue
            if f in r.stubs:
                ob.detail = "; ".join(lost) or "does not compile under the verifier"
                open_.append("%s: %s" % (f, ob.detail))
                continue
            if f not in by:
                ob.status = "proved"
                continue
            ob.status = "failed"
            ob.detail = "; ".join("%s: %s" % (e["message"], e["clause"]) for e in by[f])[:1500]
            primary = next(p for p in ov[f]["props"] if p != "R01") == prop if any(p != "R01" for p in ov[f]["props"]) else True
            hit = []
            for e in by[f]:
                if e["kind"] == "rlimit":
                    continue
                if e["tags"]:
                    if prop in e["tags"]:
                        hit.append(e)
                elif e["kind"] in ("pre", "overflow") and not e["ghost"] and prop == "R01":
                    hit.append(e)
                elif primary:
                    hit.append(e)
            if hit and not lost and f not in SOFT:
                alarms += [(f, e) for e in hit]
            else:
                open_.append("%s: not proved (%s)%s" % (f, ob.detail[:300], "; " + "; ".join(lost) if lost else ""))
        # lemmas over the contracts
        lem = [f for f in r.fns if f["mode"] == "proof"]
        for f in lem:
            if f["function"].split("::")[-1] in mine:
                continue
            ob = Ob(f["function"], "lemma " + f["function"])
            ob.backend, ob.secs = "verus (z3)", f["seconds"]
            ob.status = "proved" if f["ok"] else "failed"
            rep.obs.append(ob)
        rep.extra["verus"] = {"verified": r.verified, "errors": r.nerr, "wall_s": round(r.secs, 1), "functions_in_file": len(r.fns), "resource_units": sum(f["rlimit"] for f in r.fns)}
        rep.extra["loops"] = [r.shape[f] for f in mine if f in r.shape]
        if any(n for f, n in r.notes.items()):
            rep.extra["extraction_notes"] = ["%s: %s" % (f, x) for f, n in r.notes.items() for x in n]
    if fail is None and (open_ or alarms):
        k = 8
        with ThreadPoolExecutor(k) as ex:
            fail = absorb(rep, list(ex.map(lambda i: search(prop, SEED + 1000 + 17 * i, 300 if THOROUGH else 60, os.path.join(tmp, "d%d.json" % i)), range(k))))
    obl = [{"function": f, "obligation": e["clause"], "failure": e["message"], "verifier_output": e["rendered"]} for f, e in alarms]
    if fail:
        rep.violate(fail["why"], {"input": fail["case"], "why": fail["why"], "failed_obligations": obl[:10], "replay_cmd": "%s replay %s '%s' /dev/stdout" % (VCONC, prop, fail["case"])}, True)
    elif alarms:
        f, e = alarms[0]
        rep.violate("%s: %s: %s" % (f, e["message"], e["clause"]), {"function": f, "obligation": e["clause"], "failed_obligations": obl[:20]}, False)
    for w in open_:
        rep.bounded.append({"what": w, "bound": "concrete search on the compiled crate: %d histories/inputs" % rep.evals})
