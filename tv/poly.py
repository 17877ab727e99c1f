"""Symbolic sizes: integer polynomials over named symbols, and a small
polyhedral fact base used to decide comparisons between sizes.

A size such as ``n_taps + n_delay + 1`` is a Poly.  ``Facts`` holds linear
inequalities (p >= 0); ``prove_ge0`` decides entailment by Fourier-Motzkin
elimination over monomials; ``refute`` looks for a small assignment satisfying
the facts under which a given relation fails (so that "definitely wrong for
some sizes" can be told apart from "not proved").
"""
from fractions import Fraction
import itertools
import random


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms=None):
        self.t = terms or {}
        self._h = None

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, (int, Fraction)):
            return Poly({(): x} if x != 0 else {})
        raise TypeError("not a size: %r" % (x,))

    @staticmethod
    def sym(name):
        return Poly({((name, 1),): 1})

    # -- algebra
    def __add__(self, o):
        o = Poly.of(o)
        d = dict(self.t)
        for k, v in o.t.items():
            s = d.get(k, 0) + v
            if s == 0:
                d.pop(k, None)
            else:
                d[k] = s
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        d = {}
        for k1, v1 in self.t.items():
            for k2, v2 in o.t.items():
                m = {}
                for s, e in k1 + k2:
                    m[s] = m.get(s, 0) + e
                k = tuple(sorted(m.items(), key=lambda x: repr(x[0])))
                s = d.get(k, 0) + v1 * v2
                if s == 0:
                    d.pop(k, None)
                else:
                    d[k] = s
        return Poly(d)

    __rmul__ = __mul__

    # -- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def as_int(self):
        """python int when constant, otherwise self"""
        if self.is_const():
            c = self.const()
            return int(c) if c == int(c) else self
        return self

    def symbols(self):
        out = set()
        for k in self.t:
            for s, _ in k:
                out.add(s)
        return out

    def key(self):
        return tuple(sorted(self.t.items(), key=repr))

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)) and not isinstance(o, bool):
            o = Poly.of(o)
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def subst(self, name, val):
        val = Poly.of(val)
        out = Poly()
        for k, v in self.t.items():
            term = Poly.of(v)
            for s, e in k:
                f = val if s == name else Poly({((s, 1),): 1})
                for _ in range(e):
                    term = term * f
            out = out + term
        return out

    def __repr__(self):
        if not self.t:
            return "0"
        parts = []
        for k, v in sorted(self.t.items(), key=lambda kv: repr(kv[0])):
            m = "*".join(symname(s) + ("^%d" % e if e > 1 else "") for s, e in k)
            if not m:
                parts.append(str(v))
            elif v == 1:
                parts.append(m)
            elif v == -1:
                parts.append("-" + m)
            else:
                parts.append("%s*%s" % (v, m))
        return " + ".join(parts).replace("+ -", "- ")


def symname(s):
    if isinstance(s, str):
        return s
    if isinstance(s, tuple):
        return "%s(%s)" % (s[0], ", ".join(repr(x) if isinstance(x, Poly) else str(x) for x in s[1:]))
    return str(s)


def P(x):
    return Poly.of(x)


def lower(x):
    """canonical python value for a size: int if constant"""
    return x.as_int() if isinstance(x, Poly) else x


class Facts:
    """conjunction of p >= 0, plus symbol lower bounds"""

    def __init__(self):
        self.ge = []          # list of Poly, each >= 0
        self.defs = {}        # opaque symbol -> evaluator(env) (for refute)
        self._seen = set()
        self._cache = {}
        self.known_syms = {}  # name -> lower bound

    def copy(self):
        f = Facts()
        f.ge = list(self.ge)
        f.defs = dict(self.defs)
        f._seen = set(self._seen)
        f.known_syms = dict(self.known_syms)
        return f

    def new_sym(self, name, lo=1, hi=None):
        p = Poly.sym(name)
        if name not in self.known_syms:
            self.known_syms[name] = lo
            self.add(p - lo)
        if hi is not None:
            self.add(P(hi) - p)
        return p

    def defined(self, s, f, *bounds):
        """a symbol that is a known function of others; bounds(ps) are facts about it"""
        ps = Poly.sym(s)
        if s not in self.defs:
            self.defs[s] = f
            for b in bounds:
                self.add(b(ps))
        return ps

    def bit_length(self, a):
        a = P(a)
        return self.defined(("bits", a), lambda env: int(eval_poly(a, env, self)).bit_length(), lambda s: s)

    def power(self, a, b):
        a, b = P(a), P(b)
        if not self.prove_ge0(b):
            return None
        bd = [lambda s: s - 1] if self.prove_ge0(a - 1) else [lambda s: s]
        if a.is_const() and a.const() == 2 and len(b.t) == 1:
            (k, v), = b.t.items()
            if v == 1 and len(k) == 1 and k[0][1] == 1 and isinstance(k[0][0], tuple) and k[0][0][0] == "bits":
                z = k[0][0][1]
                bd += [lambda s: s - z - 1]
        return self.defined(("pow", a, b), lambda env: eval_poly(a, env, self) ** eval_poly(b, env, self), *bd)

    def add(self, p):
        p = P(p)
        if p.is_const():
            return
        if p in self._seen:
            return
        self._seen.add(p)
        self.ge.append(p)
        self._cache = {}

    def add_eq(self, a, b):
        d = P(a) - P(b)
        self.add(d)
        self.add(-d)

    # -- opaque functions ------------------------------------------------
    def floordiv(self, a, b):
        a, b = P(a), P(b)
        if b.is_const():
            d = b.const()
            if d == 0:
                return None
            if a.is_const():
                return P(a.const() // d)
            q, r = Poly(), Poly()
            for k, v in a.t.items():
                if v % d == 0:
                    q = q + Poly({k: v // d})
                else:
                    w = v // d
                    if w and k != ():
                        pass
                    if k == ():
                        q = q + Poly({k: w} if w else {})
                        r = r + Poly({k: v - w * d})
                    else:
                        r = r + Poly({k: v})
            if not r.t:
                return q
            if r.is_const() and 0 <= r.const() < d:
                return q
            s = ("floordiv", r, b)
            ps = Poly.sym(s)
            if s not in self.defs:
                self.defs[s] = lambda env, r=r, b=b: eval_poly(r, env, self) // eval_poly(b, env, self)
                self.add(r - ps * d)
                self.add(ps * d + (d - 1) - r)
            return q + ps
        if a == b and self.prove_ge0(b - 1):
            return P(1)
        # exact symbolic division
        ex = exact_div(a, b)
        if ex is not None:
            return ex
        s = ("floordiv", a, b)
        ps = Poly.sym(s)
        if s not in self.defs:
            self.defs[s] = lambda env: eval_poly(a, env, self) // eval_poly(b, env, self)
            self.add(a - ps * b)
            self.add(ps * b + b - 1 - a)
            if self.prove_ge0(a) and self.prove_ge0(b - 1):
                self.add(ps)
                self.add(a - ps)
        return ps

    def mod(self, a, b):
        q = self.floordiv(a, b)
        if q is None:
            return None
        return P(a) - q * P(b)

    def maximum(self, a, b):
        a, b = P(a), P(b)
        if self.prove_ge0(a - b):
            return a
        if self.prove_ge0(b - a):
            return b
        x, y = sorted((a, b), key=repr)
        s = ("max", x, y)
        ps = Poly.sym(s)
        if s not in self.defs:
            self.defs[s] = lambda env: max(eval_poly(x, env, self), eval_poly(y, env, self))
            self.add(ps - x)
            self.add(ps - y)
            # max(x,y) <= x + y when both nonneg
            if self.prove_ge0(x) and self.prove_ge0(y):
                self.add(x + y - ps)
        return ps

    def minimum(self, a, b):
        a, b = P(a), P(b)
        if self.prove_ge0(a - b):
            return b
        if self.prove_ge0(b - a):
            return a
        return a + b - self.maximum(a, b)

    # -- entailment ------------------------------------------------------
    def infeasible(self, extra):
        """True if facts and extra (list of polys >=0) are contradictory"""
        cons = []
        # relevance closure on monomials
        mons = set()
        for p in extra:
            mons |= {k for k in p.t if k != ()}
        syms = set()
        for m in mons:
            for s, _ in m:
                syms.add(s)
        pool = list(self.ge)
        used = [False] * len(pool)
        changed = True
        while changed:
            changed = False
            for i, p in enumerate(pool):
                if used[i]:
                    continue
                if any(k in mons for k in p.t if k != ()):
                    used[i] = True
                    changed = True
                    cons.append(p)
                    for k in p.t:
                        if k != ():
                            mons.add(k)
        cons = cons + list(extra)
        # nonneg facts for nonlinear monomials made of nonneg symbols
        for m in list(mons):
            if len(m) > 1 or (m and m[0][1] > 1):
                if all(self.known_syms.get(s, 0) >= 0 or isinstance(s, tuple) for s, _ in m):
                    if all(s in self.known_syms for s, _ in m):
                        lo = 1
                        for s, e in m:
                            lo *= max(self.known_syms[s], 0) ** e
                        cons.append(Poly({m: 1}) - lo)
                        # monomial >= each factor when the others are >= 1
                        for s, e in m:
                            if all(self.known_syms[s2] >= 1 for s2, _ in m if s2 != s):
                                cons.append(Poly({m: 1}) - Poly.sym(s))
        rows = [{k: Fraction(v) for k, v in p.t.items()} for p in cons]
        return fm_infeasible(rows)

    def prove_ge0(self, p):
        p = P(p)
        if p.is_const():
            return p.const() >= 0
        r = self._cache.get(p)
        if r is None:
            r = self.infeasible([-p - 1])
            self._cache[p] = r
        return r

    def prove_eq(self, a, b):
        d = P(a) - P(b)
        if not d.t:
            return True
        if d.is_const():
            return False
        return self.prove_ge0(d) and self.prove_ge0(-d)

    def cmp(self, op, a, b):
        """True/False/None"""
        a, b = P(a), P(b)
        d = a - b
        if op == "==":
            if self.prove_eq(a, b):
                return True
            if self.prove_ge0(d - 1) or self.prove_ge0(-d - 1):
                return False
            return None
        if op == "!=":
            r = self.cmp("==", a, b)
            return None if r is None else not r
        if op == "<":
            if self.prove_ge0(-d - 1):
                return True
            if self.prove_ge0(d):
                return False
            return None
        if op == "<=":
            r = self.cmp("<", b, a)
            return None if r is None else not r
        if op == ">":
            return self.cmp("<", b, a)
        if op == ">=":
            r = self.cmp("<", a, b)
            return None if r is None else not r
        raise ValueError(op)

    def assume(self, op, a, b):
        """add a relation; returns False if contradictory"""
        a, b = P(a), P(b)
        if op == "==":
            self.add_eq(a, b)
        elif op == "!=":
            if self.prove_ge0(a - b):
                self.add(a - b - 1)
            elif self.prove_ge0(b - a):
                self.add(b - a - 1)
        elif op == "<":
            self.add(b - a - 1)
        elif op == "<=":
            self.add(b - a)
        elif op == ">":
            self.add(a - b - 1)
        elif op == ">=":
            self.add(a - b)
        return True

    # -- counterexamples -------------------------------------------------
    def samples(self, syms=(), n=60, tries=4000, seed=0, span=5):
        """small assignments satisfying the facts"""
        base = set(self.known_syms) | set()
        for p in self.ge:
            base |= {s for s in p.symbols() if not isinstance(s, tuple)}
        for s in syms:
            if not isinstance(s, tuple):
                base.add(s)
        base = sorted(base, key=repr)
        rnd = random.Random(seed)
        out = []
        seen = set()
        # equalities that fix a symbol: s = poly
        sub = {}
        fset = set(self.ge)
        for p in self.ge:
            if -p in fset:
                for k, v in p.t.items():
                    if len(k) == 1 and k[0][1] == 1 and abs(v) == 1 and isinstance(k[0][0], str):
                        s = k[0][0]
                        if s in sub:
                            continue
                        rest = Poly({kk: vv for kk, vv in p.t.items() if kk != k})
                        rhs = -rest if v == 1 else rest
                        if s not in rhs.symbols():
                            rhs2 = rhs
                            for s2, q in sub.items():
                                rhs2 = rhs2.subst(s2, q)
                            if s in rhs2.symbols():
                                continue
                            sub = {a: b.subst(s, rhs2) for a, b in sub.items()}
                            sub[s] = rhs2
                            break
        for t in range(tries):
            env = {}
            sp = 3 if t < tries // 2 else span
            if t % 8 == 7:
                sp = 800
            for s in base:
                if s in sub:
                    continue
                lo = self.known_syms.get(s, 0)
                env[s] = lo + rnd.randint(0, sp)
            ok = True
            try:
                for s, q in sub.items():
                    env[s] = eval_poly(q, env, self)
                for p in self.ge:
                    if eval_poly(p, env, self) < 0:
                        ok = False
                        break
            except Exception:
                ok = False
            if not ok:
                continue
            key = tuple(sorted(env.items(), key=repr))
            if key in seen:
                continue
            seen.add(key)
            out.append(env)
            if len(out) >= n:
                break
        return out

    def refute(self, pred, polys=(), n=60):
        """an assignment (within the facts) for which pred(env) is False"""
        syms = set()
        for p in polys:
            syms |= P(p).symbols()
        if any(is_opaque(x) for x in syms):
            return None
        for env in self.samples(syms, n=n):
            try:
                if not pred(env):
                    return env
            except Exception:
                continue
        return None

    def refute_eq(self, a, b):
        a, b = P(a), P(b)
        return self.refute(lambda e: eval_poly(a, e, self) == eval_poly(b, e, self), (a, b))

    def refute_ge0(self, p):
        p = P(p)
        return self.refute(lambda e: eval_poly(p, e, self) >= 0, (p,))


def is_opaque(s):
    """a symbol for a quantity the analysis knows nothing about: no assignment of it is a witness"""
    if isinstance(s, tuple):
        return any(is_opaque(y) for x in s[1:] for y in P(x).symbols())
    return "#" in s or s.startswith("len:")


def eval_poly(p, env, facts=None):
    tot = 0
    for k, v in P(p).t.items():
        x = v
        for s, e in k:
            if s in env:
                val = env[s]
            elif facts is not None and s in facts.defs:
                val = facts.defs[s](env)
            else:
                raise KeyError(s)
            x = x * val ** e
        tot += x
    return tot


def exact_div(a, b):
    """a/b as a polynomial when it divides exactly, else None"""
    a, b = P(a), P(b)
    if not b.t:
        return None
    if not a.t:
        return Poly()
    if a == b:
        return P(1)
    if len(b.t) == 1:
        (kb, vb), = b.t.items()
        out = {}
        for k, v in a.t.items():
            if v % vb:
                return None
            m = dict(k)
            for s, e in kb:
                if m.get(s, 0) < e:
                    return None
                m[s] -= e
                if m[s] == 0:
                    del m[s]
            out[tuple(sorted(m.items(), key=lambda x: repr(x[0])))] = v // vb
        return Poly(out)
    # multivariate long division by leading term
    def lead(p):
        return max(p.t.items(), key=lambda kv: (sum(e for _, e in kv[0]), repr(kv[0])))
    q = Poly()
    r = a
    for _ in range(64):
        if not r.t:
            return q
        kr, vr = lead(r)
        kb, vb = lead(b)
        t = exact_div(Poly({kr: vr}), Poly({kb: vb}))
        if t is None:
            return None
        q = q + t
        r = r - t * b
    return None


def fm_infeasible(rows, limit=400):
    """Fourier-Motzkin: rows are {monomial: coef} meaning sum >= 0."""
    rows = [r for r in rows]
    while True:
        # constant rows
        nxt = []
        for r in rows:
            ks = [k for k in r if k != () and r[k] != 0]
            if not ks:
                if r.get((), 0) < 0:
                    return True
            else:
                nxt.append(r)
        rows = nxt
        if not rows:
            return False
        # choose variable with the fewest products
        cnt = {}
        for r in rows:
            for k, v in r.items():
                if k == () or v == 0:
                    continue
                c = cnt.setdefault(k, [0, 0])
                c[0 if v > 0 else 1] += 1
        var = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1], repr(k)))
        pos = [r for r in rows if r.get(var, 0) > 0]
        neg = [r for r in rows if r.get(var, 0) < 0]
        rest = [r for r in rows if r.get(var, 0) == 0]
        new = {}
        for a in pos:
            for b in neg:
                ca, cb = a[var], -b[var]
                m = {}
                for k, v in a.items():
                    m[k] = m.get(k, 0) + v * cb
                for k, v in b.items():
                    m[k] = m.get(k, 0) + v * ca
                m.pop(var, None)
                m = {k: v for k, v in m.items() if v != 0}
                nk = [k for k in m if k != ()]
                if not nk:
                    if m.get((), 0) < 0:
                        return True
                    continue
                # normalise and tighten (integer)
                import math
                den = 1
                for k in nk:
                    den = den * m[k].denominator // math.gcd(den, m[k].denominator)
                g = 0
                for k in nk:
                    g = math.gcd(g, int(m[k] * den))
                m2 = {k: m[k] * den / g for k in nk}
                c = m.get((), Fraction(0)) * den / g
                m2[()] = Fraction(math.floor(c))
                sig = tuple(sorted(((k, v) for k, v in m2.items() if k != ()), key=repr))
                if sig not in new or new[sig][()] > m2[()]:
                    new[sig] = m2
        # reduce the remaining rows too
        rows = rest + list(new.values())
        if len(rows) > limit:
            return False
