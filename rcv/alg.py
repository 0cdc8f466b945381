"""Decision procedure for constraint systems over the scalar field: which values of the committed variables admit a witness.

A system is a list of polynomials (each = 0).  `solve` decides satisfiability by propagation, elimination and complete case
splits over the roots of univariate equations and over factors; it is exact (every split is exhaustive) except where it has to
guess a free variable, which it only does to exhibit a solution (never to claim there is none)."""
import random
from terms import *

PRIME = MODP


class Unknown(Exception):
    pass


def pvars(p):
    s = set()
    for mo in p.m:
        for a, _ in mo:
            s.add(a)
    return s


def degree_in(p, a):
    d = 0
    for mo in p.m:
        for x, e in mo:
            if x == a:
                d = max(d, e.c)
    return d


def split_linear(p, a):
    """p = c*a + r with a not in r and c a non-zero constant -> (c, r) else None"""
    c = None
    r = {}
    for mo, k in p.m.items():
        hit = False
        for x, e in mo:
            if x == a:
                hit = True
        if hit:
            if len(mo) == 1 and mo[0][1] == Lin(1):
                c = k
            else:
                return None
        else:
            r[mo] = k
    if c is None:
        return None
    return c, Poly(r)


# ------------------------------------------------------------------ univariate roots over F_p
def _trim(f):
    while f and f[-1] == 0:
        f.pop()
    return f


def _mod(a, m):
    a = a[:]
    inv = pow(m[-1], -1, PRIME)
    while len(a) >= len(m):
        c = a[-1] * inv % PRIME
        if c:
            s = len(a) - len(m)
            for i, x in enumerate(m):
                a[s + i] = (a[s + i] - c * x) % PRIME
        a.pop()
    return _trim(a)


def _mul(a, b):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = (r[i + j] + x * y) % PRIME
    return _trim(r)


def _gcd(a, b):
    while b:
        a, b = b, _mod(a, b)
    if a:
        i = pow(a[-1], -1, PRIME)
        a = [x * i % PRIME for x in a]
    return a


def _powmod(b, e, m):
    r = [1]
    b = _mod(b, m)
    while e:
        if e & 1:
            r = _mod(_mul(r, b), m)
        b = _mod(_mul(b, b), m)
        e >>= 1
    return r


def _div(a, m):
    a = a[:]
    inv = pow(m[-1], -1, PRIME)
    q = [0] * max(len(a) - len(m) + 1, 0)
    while len(a) >= len(m):
        c = a[-1] * inv % PRIME
        s = len(a) - len(m)
        q[s] = c
        for i, x in enumerate(m):
            a[s + i] = (a[s + i] - c * x) % PRIME
        a.pop()
    return _trim(q)


def roots(f):
    """distinct roots in F_p of the coefficient list f (low to high)"""
    f = _trim([x % PRIME for x in f])
    if len(f) <= 1:
        return []
    out = []
    if f[0] == 0:
        out.append(0)
        while f[0] == 0:
            f = f[1:]
        if len(f) <= 1:
            return out
    # product of distinct linear factors
    xp = _powmod([0, 1], PRIME, f)
    d = xp + [0] * (2 - len(xp))
    d[1] = (d[1] - 1) % PRIME
    g = _gcd(f, _trim(d)) if _trim(d[:]) else _gcd(f, [])
    if not _trim(d[:]):
        g = f
        i = pow(g[-1], -1, PRIME)
        g = [x * i % PRIME for x in g]
    rng = random.Random(7)
    work = [g]
    while work:
        h = work.pop()
        if len(h) <= 1:
            continue
        if len(h) == 2:
            out.append(-h[0] * pow(h[1], -1, PRIME) % PRIME)
            continue
        while True:
            a = rng.randrange(PRIME)
            t = _powmod([a, 1], (PRIME - 1) // 2, h)
            t = t + [0] * (1 - len(t))
            t[0] = (t[0] - 1) % PRIME
            t = _trim(t)
            q = _gcd(h, t) if t else []
            if t and 1 < len(q) < len(h):
                work.append(q)
                work.append(_div(h, q))
                break
    return sorted(out)


def univ(p, a):
    f = [0] * (degree_in(p, a) + 1)
    for mo, c in p.m.items():
        if not mo:
            f[0] = c
        elif len(mo) == 1 and mo[0][0] == a:
            f[mo[0][1].c] = c
        else:
            return None
    return [ci(x) for x in f]


def ci(c):
    if isinstance(c, int):
        return c % PRIME
    return c.numerator * pow(c.denominator, -1, PRIME) % PRIME


class Result:
    def __init__(self, sat, sol=None, why=None):
        self.sat = sat      # True / False / None
        self.sol = sol
        self.why = why


class System:
    def __init__(self, eqs):
        self.eqs = [e for e in eqs if not e.is_zero()]
        self.steps = 0
        self.limit = 20000
        self.guess = True
        self.rng = random.Random(11)

    def solve(self, fixed=None, prefer=None):
        """satisfiable? fixed: atom -> Poly substitution.  returns Result with a solution {atom: Poly const} when sat"""
        eqs = self.eqs
        if fixed:
            eqs = [subst(e, fixed) for e in eqs]
        self.steps = 0
        self.unk = False
        try:
            s = self._go(eqs, [], prefer or (lambda a: 0))
        except Unknown as u:
            return Result(None, None, str(u))
        if s is None:
            if self.unk:
                return Result(None, None, 'guessing failed')
            return Result(False)
        return Result(True, s)

    def _go(self, eqs, trail, prefer):
        eqs = list(eqs)
        trail = list(trail)
        while True:
            self.steps += 1
            if self.steps > self.limit:
                raise Unknown('step limit')
            nxt = []
            seen = set()
            for e in eqs:
                if e.is_zero() or e in seen:
                    continue
                if e.is_const():
                    return None
                seen.add(e)
                nxt.append(e)
            eqs = nxt
            if not eqs:
                return self._finish(trail)
            # elimination of a linear variable, smallest equation first
            best = None
            for e in sorted(eqs, key=lambda e: len(e.m)):
                vs = sorted(pvars(e), key=lambda a: (-prefer(a), key(a)))
                for a in vs:
                    sp = split_linear(e, a)
                    if sp is not None:
                        best = (e, a, sp)
                        break
                if best:
                    break
            if best and len(best[0].m) > 8 and max(sum(x.c for _, x in mo) for mo in best[0].m) > 1 and any(len(pvars(e)) == 1 for e in eqs):
                best = None     # split on a univariate equation before substituting large terms
            if best:
                e, a, (c, r) = best
                val = (-r).scale(pow(ci(c), -1, PRIME))
                trail.append((a, val))
                eqs = [subst(x, {a: val}) if a in pvars(x) else x for x in eqs if x is not e]
                continue
            # univariate: branch on roots
            uni = None
            for e in eqs:
                vs = pvars(e)
                if len(vs) == 1:
                    a = next(iter(vs))
                    f = univ(e, a)
                    if uni is None or len(f) < len(uni[2]):
                        uni = (e, a, f)
            if uni:
                e, a, f = uni
                rest = [x for x in eqs if x is not e]
                for rt in roots(f):
                    v = Poly.const(rt)
                    s = self._go([subst(x, {a: v}) if a in pvars(x) else x for x in rest], trail + [(a, v)], prefer)
                    if s is not None:
                        return s
                return None
            # factor: common variable in all monomials
            fac = None
            for e in eqs:
                com = None
                for mo in e.m:
                    s = {a for a, x in mo}
                    com = s if com is None else com & s
                    if not com:
                        break
                if com:
                    fac = (e, sorted(com, key=key)[0])
                    break
            if fac:
                e, a = fac
                z = {a: ZERO}
                s = self._go([subst(x, z) for x in eqs], trail + [(a, ZERO)], prefer)
                if s is not None:
                    return s
                q = {}
                for mo, c in e.m.items():
                    q2 = tuple((x, k) if x != a else (x, k - 1) for x, k in mo)
                    q[tuple((x, k) for x, k in q2 if not (k.is_const() and k.c == 0))] = c
                q = Poly(q)
                eqs = [q if x is e else x for x in eqs]
                continue
            # a variable occurring linearly with a polynomial coefficient: x*A + B = 0
            lin = None
            for e in sorted(eqs, key=lambda e: len(e.m)):
                for a in sorted(pvars(e), key=lambda a: (-prefer(a), key(a))):
                    if degree_in(e, a) == 1:
                        A = {}
                        B = {}
                        for mo, c in e.m.items():
                            if any(x == a for x, _ in mo):
                                A[tuple((x, k) for x, k in mo if x != a)] = c
                            else:
                                B[mo] = c
                        lin = (e, a, Poly(A), Poly(B))
                        break
                if lin:
                    break
            if lin and not any(a2 == lin[1] for x in eqs if x is not lin[0] for a2 in pvars(x)):
                # the variable occurs nowhere else: either A != 0 (then solvable) or A = B = 0
                e, a, A, B = lin
                rest = [x for x in eqs if x is not e]
                # try: drop the equation provided A can be non-zero
                s = self._go(rest, trail + [(a, ('quot', B, A))], prefer)
                if s is not None:
                    return s
                # A == 0 and B == 0
                return self._go(rest + [A, B], trail + [(a, ZERO)], prefer)
            if not self.guess:
                raise Unknown('residual system')
            # guess a variable (only to exhibit solutions)
            vs = set()
            for e in eqs:
                vs |= pvars(e)
            a = sorted(vs, key=key)[0]
            self.unk = True
            for v in (0, 1, self.rng.randrange(PRIME)):
                v = Poly.const(v)
                s = self._go([subst(x, {a: v}) for x in eqs], trail + [(a, v)], prefer)
                if s is not None:
                    return s
            return None

    def _finish(self, trail):
        sol = {}
        for a, v in reversed(trail):
            if isinstance(v, tuple):
                B, A = v[1], v[2]
                An = self._num(A, sol)
                Bn = self._num(B, sol)
                if An == 0:
                    if Bn != 0:
                        self.unk = True
                        return None
                    sol[a] = 0
                else:
                    sol[a] = -Bn * pow(An, -1, PRIME) % PRIME
            else:
                sol[a] = self._num(v, sol)
        return sol

    def _num(self, p, sol):
        r = 0
        for mo, c in p.m.items():
            t = ci(c)
            for a, e in mo:
                if a not in sol:
                    sol[a] = self.rng.randrange(PRIME)
                t = t * pow(sol[a], e.c, PRIME) % PRIME
            r = (r + t) % PRIME
        return r

    def check(self, sol):
        return all(self._num(e, dict(sol)) == 0 for e in self.eqs)
