"""SMT back ends: obligations over the reals as SMT-LIB text, decided by a portfolio of z3 (two
releases) and cvc5.  `unsat` of hypotheses and negated goal = proved; `sat` = refuted, with a model."""
import os, re, subprocess, tempfile, time, signal
from ring import atoms_of

NEG, ZERO, POS = 1, 2, 4


def frac(s):
    n, d = s.split("/")
    n, d = int(n), int(d)
    t = "%d.0" % abs(n) if d == 1 else "(/ %d.0 %d.0)" % (abs(n), d)
    return "(- %s)" % t if n < 0 else t


def roots(f, acc):
    t = f[0]
    if t == "s":
        acc.add(f[1])
    elif t == "p":
        acc.update(x for x in f[2] if x >= 0)
    elif t in ("and", "or", "not"):
        for x in f[1:]:
            roots(x, acc)
    return acc


def names(v):
    return "|" + v.replace("|", "!") + "|"


class Enc:
    def __init__(self, nodes):
        self.nodes = nodes

    def fm(self, f):
        t = f[0]
        if t == "t":
            return "true"
        if t == "f":
            return "false"
        if t == "s":
            x = "n%d" % f[1]
            return {0: "false", 1: "(< %s 0.0)", 2: "(= %s 0.0)", 3: "(<= %s 0.0)", 4: "(> %s 0.0)", 5: "(not (= %s 0.0))", 6: "(>= %s 0.0)", 7: "true"}[f[2]].replace("%s", x)
        if t == "p":
            return names("P!" + f[1] + "!" + ",".join(map(str, f[2])))
        if t in ("and", "or"):
            if len(f) == 1:
                return "true" if t == "and" else "false"
            return "(%s %s)" % (t, " ".join(self.fm(x) for x in f[1:]))
        return "(not %s)" % self.fm(f[1])

    def preds(self, f, acc):
        if f[0] == "p":
            acc.add(self.fm(f))
        elif f[0] in ("and", "or", "not"):
            for x in f[1:]:
                self.preds(x, acc)
        return acc

    def script(self, hyps, goal, logic, models=True, produce="z3", abstract=False):
        nd = self.nodes
        rt = set()
        for h in hyps:
            roots(h, rt)
        roots(goal, rt)
        use = sorted(atoms_of(nd, rt, abstract))
        o = []
        if models:
            o.append("(set-option :produce-models true)")
        o.append("(set-logic %s)" % logic)
        if produce == "z3":
            o.append("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)")
        ax, vs, complete = [], [], True
        pi = None
        sc = {}
        for i in use:
            n = nd[i]
            t = n[0]
            if t == "c":
                o.append("(define-fun n%d () Real %s)" % (i, frac(n[1])))
            elif t in "+*":
                o.append("(define-fun n%d () Real (%s n%d n%d))" % (i, t, n[1], n[2]))
            else:
                o.append("(declare-const n%d Real)" % i)
                if t == "v":
                    vs.append((i, n[1]))
                elif abstract:
                    if t == "sqrt":
                        ax.append("(>= n%d 0.0)" % i)
                    complete = False
                elif t == "/":
                    ax.append("(= (* n%d n%d) n%d)" % (i, n[2], n[1]))
                elif t == "sqrt":
                    ax.append("(and (>= n%d 0.0) (= (* n%d n%d) n%d))" % (i, i, i, n[1]))
                elif t == "fn":
                    complete = False
                    if n[1] == "pi":
                        pi = i
                        ax.append("(and (> n%d 3.14159) (< n%d 3.1416))" % (i, i))
                    elif n[1] in ("sin", "cos"):
                        sc.setdefault(n[2][0], {})[n[1]] = i
                        ax.append("(and (<= n%d 1.0) (>= n%d (- 1.0)))" % (i, i))
                        a = nd[n[2][0]]
                        if n[1] == "cos" and a[0] == "fn" and a[1] == "acos":
                            o.append("(declare-const x%d Real)" % i)
                            ax.append("(= n%d n%d)" % (i, a[2][0]))
                    elif n[1] == "acos":
                        ax.append("(>= n%d 0.0)" % i)
        for i in use:
            n = nd[i]
            if n[0] == "fn" and n[1] == "acos":
                if pi is None:
                    o.append("(declare-const pi! Real)")
                    ax.append("(and (> pi! 3.14159) (< pi! 3.1416))")
                    pi = "pi!"
                ax.append("(<= n%d %s)" % (i, pi if isinstance(pi, str) else "n%d" % pi))
        for d in sc.values():
            if len(d) == 2:
                ax.append("(= (+ (* n%d n%d) (* n%d n%d)) 1.0)" % (d["sin"], d["sin"], d["cos"], d["cos"]))
        ps = set()
        for f in hyps + [goal]:
            self.preds(f, ps)
        for p in sorted(ps):
            o.append("(declare-const %s Bool)" % p)
        for a in ax:
            o.append("(assert %s)" % a)
        for h in hyps:
            o.append("(assert %s)" % self.fm(h))
        o.append("(assert (not %s))" % self.fm(goal))
        o.append("(check-sat)")
        if models and vs:
            o.append("(get-value (%s))" % " ".join("n%d" % i for i, _ in vs))
        return "\n".join(o) + "\n", vs, complete


def parse_values(out, vs):
    byid = {"n%d" % i: n for i, n in vs}
    r = {}
    for m in re.finditer(r"\((n\d+) (\(- [^()]*(?:\([^()]*\))?\)|\(/ [^()]*\)|-?[\d.]+\??|\(- \(/ [^()]*\)\))\)", out):
        if m.group(1) in byid:
            t = m.group(2).replace("?", "")
            neg = t.startswith("(- ")
            if neg:
                t = t[3:-1]
            if t.startswith("(/"):
                a, b = t[2:-1].split()
                v = float(a) / float(b)
            else:
                try:
                    v = float(t)
                except ValueError:
                    continue
            r[byid[m.group(1)]] = -v if neg else v
    return r


SOLVERS = [
    ("z3", ["z3", "-smt2"], "z3"),
    ("z3-new", ["z3-new", "-smt2"], "z3"),
    ("cvc5", ["cvc5", "--lang=smt2", "--nl-cov"], "cvc5"),
]


def solve(nodes, hyps, goal, seconds, which=None, abstract=False):
    """-> (verdict, backend, model, complete, seconds)"""
    enc = Enc(nodes)
    t0 = time.time()
    procs = []
    try:
        for name, cmd, kind in SOLVERS:
            if which and name not in which:
                continue
            text, vs, complete = enc.script(hyps, goal, "QF_NRA", True, kind, abstract)
            if kind == "z3" and name == "z3":
                pass
            f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False, dir=os.environ.get("KV_TMP"))
            f.write(text)
            f.close()
            out = open(f.name + ".out", "w+")
            p = subprocess.Popen(["timeout", str(int(seconds) + 1)] + cmd + [f.name], stdout=out, stderr=subprocess.DEVNULL, start_new_session=True)
            procs.append((name, p, f.name, out, vs, complete))
        pending = list(procs)
        while pending and time.time() - t0 < seconds:
            for q in list(pending):
                if q[1].poll() is not None:
                    pending.remove(q)
                    q[3].seek(0)
                    txt = q[3].read()
                    first = txt.strip().split("\n")[0] if txt.strip() else ""
                    if first == "unsat":
                        return ("proved", q[0], None, True, time.time() - t0)
                    if first == "sat":
                        return ("refuted", q[0], parse_values(txt, q[4]), q[5], time.time() - t0)
            time.sleep(0.005)
        return ("unknown", "-", None, False, time.time() - t0)
    finally:
        for q in procs:
            if q[1].poll() is None:
                try:
                    os.killpg(q[1].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                q[1].wait()
            q[3].close()
            for f in (q[2], q[2] + ".out"):
                try:
                    os.unlink(f)
                except OSError:
                    pass
