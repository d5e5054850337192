"""Ring back end: decides an equation between rational functions over term atoms by normalising the
numerator modulo the relations sqrt(x)^2 = x, sin^2 + cos^2 = 1 and equational hypotheses (completed
by a bounded Buchberger procedure).  Only ever answers 'proved' or 'unknown'."""
from fractions import Fraction
import time

LIMIT = 60000


class Big(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    if len(a) * len(b) > 4000000:
        raise Big()
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise Big()
    return r


def pconst(c):
    return {(): Fraction(c)} if c else {}


def key(p):
    return tuple(sorted(p.items()))


def mdiv(a, b):
    """a / b or None"""
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) - e
        if v < 0:
            return None
        if v:
            d[x] = v
        else:
            d.pop(x)
    return tuple(sorted(d.items()))


def mlcm(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = max(d.get(x, 0), e)
    return tuple(sorted(d.items()))


def order(m):
    """graded, then by atom: a fixed monomial order (elimination of higher atoms first)"""
    return (sum(e for _, e in m), tuple(sorted(((x, e) for x, e in m), reverse=True)))


class Order:
    """weighted degree (defined atoms weigh more, so they are eliminated), ties lexicographic"""

    def __init__(self, weight):
        self.w = weight

    def __call__(self, m):
        return (sum(e * self.w.get(x, 1) for x, e in m), tuple(sorted(m, reverse=True)))


class Ring:
    def __init__(self, nodes, deadline):
        self.nodes = nodes
        self.memo = {}
        self.rules = []
        self.deadline = deadline
        self.weight = {}
        self.ord = Order(self.weight)

    def tick(self):
        if time.time() > self.deadline:
            raise Big()

    # values are (num, den) with den a dict {key(poly): (poly, exp)}
    def val(self, i):
        stack = [i]
        while stack:
            j = stack[-1]
            if j in self.memo:
                stack.pop()
                continue
            n = self.nodes[j]
            kids = n[1:] if n[0] in "+*/" else []
            todo = [k for k in kids if k not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.tick()
            self.memo[j] = self.compute(j, n)
            stack.pop()
        return self.memo[i]

    def expand(self, den):
        r = pconst(1)
        for p, e in den.values():
            for _ in range(e):
                r = pmul(r, p)
        return r

    def compute(self, j, n):
        t = n[0]
        if t == "c":
            return (pconst(Fraction(n[1])), {})
        if t == "+":
            (a, da), (b, db) = self.memo[n[1]], self.memo[n[2]]
            if not da and not db:
                return (padd(a, b), {})
            l = {}
            for k in set(da) | set(db):
                pa, pb = da.get(k), db.get(k)
                l[k] = ((pa or pb)[0], max(pa[1] if pa else 0, pb[1] if pb else 0))
            fa = {k: (p, e - (da[k][1] if k in da else 0)) for k, (p, e) in l.items()}
            fb = {k: (p, e - (db[k][1] if k in db else 0)) for k, (p, e) in l.items()}
            return (padd(pmul(a, self.expand(fa)), pmul(b, self.expand(fb))), l)
        if t == "*":
            (a, da), (b, db) = self.memo[n[1]], self.memo[n[2]]
            d = {}
            for k in set(da) | set(db):
                d[k] = ((da.get(k) or db.get(k))[0], (da[k][1] if k in da else 0) + (db[k][1] if k in db else 0))
            return (pmul(a, b), d)
        if t == "/":
            (a, da), (b, db) = self.memo[n[1]], self.memo[n[2]]
            num = pmul(a, self.expand(db))
            d = {k: v for k, v in da.items()}
            if len(b) == 1 and () in b:
                return ({m: c / b[()] for m, c in num.items()}, d)
            lead = max(b, key=self.ord)
            lc = b[lead]
            p = {m: c / lc for m, c in b.items()}
            num = {m: c / lc for m, c in num.items()}
            k = key(p)
            d[k] = (p, (d[k][1] if k in d else 0) + 1)
            return (num, d)
        return ({((j, 1),): Fraction(1)}, {})

    def add_rule(self, p):
        if not p:
            return
        m = max(p, key=self.ord)
        c = p[m]
        rest = {k: -v / c for k, v in p.items() if k != m}
        self.rules.append((m, rest))

    def reduce(self, p):
        p = dict(p)
        out = {}
        while p:
            self.tick()
            m = max(p, key=self.ord)
            c = p.pop(m)
            for lm, rest in self.rules:
                q = mdiv(m, lm)
                if q is not None:
                    for k, v in rest.items():
                        kk = mmul(q, k)
                        x = p.get(kk, 0) + c * v
                        if x:
                            p[kk] = x
                        else:
                            p.pop(kk, None)
                    if len(p) > LIMIT:
                        raise Big()
                    break
            else:
                out[m] = c
        return out

    def relations(self, atoms, hyps):
        """atoms: node ids in use; hyps: node ids known to be zero"""
        nd = self.nodes
        fn = {}
        for a in atoms:
            n = nd[a]
            if n[0] == "fn":
                self.weight[a] = 3
            if n[0] == "sqrt":
                self.weight[a] = 2
        for a in atoms:
            n = nd[a]
            if n[0] == "sqrt":
                v, d = self.val(n[1])
                if not d:
                    self.add_rule(padd({((a, 2),): Fraction(1)}, v, -1))
            elif n[0] == "fn" and n[1] in ("sin", "cos"):
                fn.setdefault(tuple(n[2]), {})[n[1]] = a
        for d in fn.values():
            if len(d) == 2:
                self.add_rule(padd({((d["sin"], 2),): Fraction(1)}, {((d["cos"], 2),): Fraction(1), (): Fraction(-1)}))
        for h in hyps:
            v, _ = self.val(h)
            v = self.reduce(v)
            if v and len(v) < 200:
                self.add_rule(v)

    def complete(self, maxrules=60):
        """bounded Buchberger"""
        pairs = [(i, j) for i in range(len(self.rules)) for j in range(i)]
        while pairs:
            self.tick()
            pairs.sort(key=lambda ij: self.ord(mlcm(self.rules[ij[0]][0], self.rules[ij[1]][0])), reverse=True)
            i, j = pairs.pop()
            (a, ra), (b, rb) = self.rules[i], self.rules[j]
            l = mlcm(a, b)
            if l == mmul(a, b):
                continue
            qa, qb = mdiv(l, a), mdiv(l, b)
            s = padd({mmul(qa, m): c for m, c in ra.items()}, {mmul(qb, m): c for m, c in rb.items()}, -1)
            s = self.reduce(s)
            if s:
                if len(self.rules) >= maxrules or len(s) > 300:
                    return False
                self.add_rule(s)
                pairs += [(len(self.rules) - 1, k) for k in range(len(self.rules) - 1)]
        return True

    def is_zero(self, i):
        v, _ = self.val(i)
        return not self.reduce(v)


def atoms_of(nodes, roots, shallow=False):
    seen, st = set(), list(roots)
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        n = nodes[i]
        if shallow and n[0] in ("/", "sqrt"):
            continue
        if n[0] in "+*/":
            st += n[1:]
        elif n[0] == "sqrt":
            st.append(n[1])
        elif n[0] == "fn":
            st += n[2]
    return seen


def prove_eq(nodes, goal, zero_hyps, seconds=10):
    """goal: node id to be shown zero. zero_hyps: node ids that are zero."""
    deadline = time.time() + seconds
    try:
        r = Ring(nodes, deadline)
        if r.is_zero(goal):
            return True
        ats = [a for a in atoms_of(nodes, [goal] + zero_hyps) if nodes[a][0] not in "c+*/"]
        r = Ring(nodes, deadline)
        r.relations(ats, [])
        if r.is_zero(goal):
            return True
        if not zero_hyps:
            return False
        r.relations([], zero_hyps)
        if r.is_zero(goal):
            return True
        r.complete()
        return r.is_zero(goal)
    except (Big, RecursionError):
        return False
