"""Term language of the verifier: integer linear terms, field/group polynomials, booleans.

* Lin   - integer-linear combination of integer atoms (canonical, immutable)
* Poly  - polynomial over Z (Q where powers of constants need it) in field/group atoms with *symbolic* (Lin) exponents.
          Group elements live in the same algebra: a point is an atom, scalar*point a product,
          a multi-scalar multiplication a sum.  (The free-module embedding: an identity of these polynomials
          holds in every module over every field of characteristic not dividing the denominators.)
* booleans - python bool or canonical tuples.

Finite sums with symbolic bounds are kept as prefix sums  P_f(h) = sum_{i<h} f(i)  (formal, telescoping), one atom per
monomial f, so that linearity, splitting of ranges, index shifts and reversal are decided by normalisation.
"""
from fractions import Fraction
from functools import lru_cache
import itertools

_fresh = itertools.count(1)


def fresh_id():
    return next(_fresh)


_keys = {}


def key(a):
    k = _keys.get(a)
    if k is None:
        k = _key(a)
        _keys[a] = k
    return k


def _key(a):
    if isinstance(a, tuple):
        return '(' + ','.join(key(x) for x in a) + ')'
    if isinstance(a, (Lin, Poly)):
        return a.key()
    return repr(a)


class Lin:
    __slots__ = ('c', 't', '_h', '_k')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None
        self._k = None

    @staticmethod
    def make(c, d):
        t = tuple(sorted(((a, x) for a, x in d.items() if x != 0), key=lambda p: key(p[0])))
        return Lin(c, t)

    @staticmethod
    def atom(a):
        return Lin(0, ((a, 1),))

    def key(self):
        if self._k is None:
            self._k = 'L%d%s' % (self.c, ''.join('+%d*%s' % (x, key(a)) for a, x in self.t))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def __add__(self, o):
        o = L(o)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        d = dict(self.t)
        for a, x in o.t:
            d[a] = d.get(a, 0) + x
        return Lin.make(self.c + o.c, d)
    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((a, -x) for a, x in self.t))

    def __sub__(self, o):
        return self + (-L(o))

    def __rsub__(self, o):
        return L(o) - self

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    def mul(self, o):
        o = L(o)
        if o.is_const():
            return self.scale(o.c)
        if self.is_const():
            return o.scale(self.c)
        # nonlinear: distribute over atoms
        r = Lin(self.c * o.c)
        r = r + Lin(0, self.t).scale(o.c) + Lin(0, o.t).scale(self.c)
        d = {}
        for a, x in self.t:
            for b, y in o.t:
                p = ('mul',) + tuple(sorted(_flat(a) + _flat(b), key=key))
                d[p] = d.get(p, 0) + x * y
        return r + Lin.make(0, d)

    def __repr__(self):
        return lin_str(self)


def _flat(a):
    return list(a[1:]) if a[0] == 'mul' else [a]


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        return Lin(int(x))
    if isinstance(x, int):
        return Lin(x)
    raise TypeError('not an int term: %r' % (x,))


def isym(name, *ix):
    return Lin.atom(('i', name) + ix)


def iapp(f, *args):
    """integer application with light simplification"""
    if f in ('div', 'mod'):
        a, b = args
        if a.is_const() and b.is_const() and b.c > 0:
            return Lin(a.c // b.c if f == 'div' else a.c % b.c)
        if b.is_const() and b.c == 1:
            return a if f == 'div' else Lin(0)
        if b.is_const() and b.c > 0:
            m = b.c
            # pull out multiples of m
            q = {}
            r = {}
            for at, x in a.t:
                if x % m == 0:
                    q[at] = x // m
                else:
                    r[at] = x
            qc, rc = divmod(a.c, m)
            if not r:
                if f == 'div':
                    return Lin.make(qc, q)
                return Lin(rc)
            rest = Lin.make(rc, r)
            # c*div(t,m)*m + mod(t,m) recombination is left to z3; nested mod of mod
            if len(rest.t) == 1 and rest.c == 0 and rest.t[0][1] == 1 and rest.t[0][0][0] == 'ia' and rest.t[0][0][1] == 'mod' \
                    and rest.t[0][0][3] == b:
                return Lin.make(qc, q) if f == 'div' else rest
            at = Lin.atom(('ia', f, rest, b))
            if f == 'div':
                return Lin.make(qc, q) + at
            return at
    if f == 'bits':
        # bits(q, lo, w) = floor(q / 2^lo) mod 2^w  (w = -1: unbounded); q natural
        q, lo, w = args
        if w.is_const() and w.c == 0:
            return Lin(0)
        if q.is_const() and lo.is_const() and w.is_const():
            r = q.c >> lo.c
            return Lin(r if w.c < 0 else r & ((1 << w.c) - 1))
        if len(q.t) == 1 and q.c == 0 and q.t[0][1] == 1 and q.t[0][0][:2] == ('ia', 'bits'):
            _, _, q2, lo2, w2 = q.t[0][0]
            if w2.is_const() and w2.c < 0:
                return iapp('bits', q2, lo + lo2, w)
            room = w2 - lo
            if w.is_const() and w.c < 0:
                if room.is_const():
                    return iapp('bits', q2, lo + lo2, Lin(max(room.c, 0)))
            elif room.is_const() and w.is_const():
                return iapp('bits', q2, lo + lo2, Lin(max(min(room.c, w.c), 0)))
        if lo.is_const() and lo.c == 0 and w.is_const() and w.c < 0:
            return q
    if f == 'nat':
        # the canonical natural representative of a field element
        p = args[0]
        if p.is_const() and not isinstance(p.constval(), Fraction):
            return Lin(p.constval() % MODP)
        if len(p.m) == 1:
            (mo, c), = p.m.items()
            if c == 1 and len(mo) == 1 and mo[0][0][0] == 'emb' and mo[0][1] == Lin(1):
                return Lin.atom(mo[0][0][1])
    if f == 'npow2' and args[0].is_const():
        v = max(args[0].c, 1)
        return Lin(1 << (v - 1).bit_length())
    if f == 'pow2' and args[0].is_const() and args[0].c >= 0:
        return Lin(1 << args[0].c)
    if f == 'lz32' and args[0].is_const():
        return Lin(32 - args[0].c.bit_length())
    if f == 'lz64' and args[0].is_const():
        return Lin(64 - args[0].c.bit_length())
    if f == 'tz' and args[0].is_const() and args[0].c > 0:
        v = args[0].c
        return Lin((v & -v).bit_length() - 1)
    if f == 'tz' and len(args[0].t) == 1 and args[0].c == 0 and args[0].t[0][1] == 1 and args[0].t[0][0][:2] == ('ia', 'pow2'):
        return args[0].t[0][0][2]
    if f in ('min', 'max'):
        a, b = args
        if a == b:
            return a
        d = a - b
        if d.is_const():
            return (b if d.c > 0 else a) if f == 'min' else (a if d.c > 0 else b)
        if key(a) > key(b):
            a, b = b, a
        return Lin.atom(('ia', f, a, b))
    if f == 'ite':
        c, a, b = args
        if c is True:
            return a
        if c is False:
            return b
        if a == b:
            return a
    return Lin.atom(('ia', f) + tuple(args))


# recombination  m*div(t,m) + mod(t,m) -> t
def lin_recombine(l):
    d = dict(l.t)
    changed = False
    for a, x in l.t:
        if a[0] == 'ia' and a[1] == 'mod' and a in d:
            dv = ('ia', 'div') + a[2:]
            m = a[3]
            if m.is_const() and d.get(dv) == d[a] * m.c:
                co = d.pop(a)
                d.pop(dv)
                r = Lin.make(l.c, d) + a[2].scale(co)
                return lin_recombine(r)
    return l


# ------------------------------------------------------------------ polynomials

ONE_MONO = ()


class Poly:
    __slots__ = ('m', '_h', '_k', '_fs')

    def __init__(self, m):
        self.m = m
        self._h = None
        self._k = None
        self._fs = None

    @staticmethod
    def const(c):
        c = norm_c(c)
        return Poly({(): c}) if c != 0 else ZERO

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, L(e)),): 1})

    def key(self):
        if self._k is None:
            self._k = 'P{' + ';'.join(sorted('%s*%s' % (c, key(mo)) for mo, c in self.m.items())) + '}'
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def is_zero(self):
        return not self.m

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def constval(self):
        return self.m.get((), 0)

    def __add__(self, o):
        o = P(o)
        if not o.m:
            return self
        if not self.m:
            return o
        a, b = (self.m, o.m) if len(self.m) >= len(o.m) else (o.m, self.m)
        d = dict(a)
        for k, c in b.items():
            v = norm_c(d.get(k, 0) + c)
            if v == 0:
                d.pop(k, None)
            else:
                d[k] = v
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.m or not o.m:
            return ZERO
        if len(self.m) * len(o.m) > 400000:
            raise TermTooBig()
        d = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                r = mono_mul(k1, k2)
                if r is None:
                    continue
                cf, k = r
                v = norm_c(d.get(k, 0) + c1 * c2 * cf)
                if v == 0:
                    d.pop(k, None)
                else:
                    d[k] = v
        return Poly(d)
    __rmul__ = __mul__

    def scale(self, c):
        if c == 0:
            return ZERO
        return Poly({k: y for k, y in ((k, norm_c(x * c)) for k, x in self.m.items()) if y != 0})

    def pow(self, e):
        e = L(e)
        if e.is_const() and e.c >= 0 and (e.c <= 12 or len(self.m) <= 1):
            r = ONE
            for _ in range(e.c):
                r = r * self
            return r
        if len(self.m) == 1:
            (mo, c), = self.m.items()
            r = const_pow(c, e)
            if r is not None:
                d = []
                ok = True
                for a, x in mo:
                    if a[0] == 'iv':
                        ok = False
                        break
                    d.append((a, x.mul(e)))
                if ok:
                    return r * mk_mono(d)
        return Poly.atom(('fpow', self, e))

    def inverse(self, nonzero=False):
        if len(self.m) == 1:
            (mo, c), = self.m.items()
            if all(a[0] not in ('iv',) for a, _ in mo) and (nonzero or not mo):
                return mk_mono([(a, -x) for a, x in mo]).scale(norm_c(Fraction(1) / c))
        if self.is_zero():
            return ZERO
        if nonzero:
            # canonical up to sign
            return Poly.atom(('finv', self))
        return Poly.atom(('inv0', self))

    def __repr__(self):
        return poly_str(self)


class TermTooBig(Exception):
    pass


# order of the scalar field of the curve the crate is compiled for (feature bls381, set by prog.check_curve)
MODP = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
HALFP = MODP >> 1


def norm_c(v):
    """coefficients: small rationals as they are, integers as symmetric residues modulo the group order"""
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = int(v)
        elif abs(v.numerator) < (1 << 40) and v.denominator < (1 << 40):
            return v
        else:
            v = v.numerator * pow(v.denominator, -1, MODP)
    if -HALFP <= v <= HALFP:
        return v
    v %= MODP
    return v - MODP if v > HALFP else v


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, Lin):
        return embed(x)
    raise TypeError('not a field term: %r' % (x,))


def fsym(name, *ix):
    return Poly.atom(('f', name) + tuple(L(i) for i in ix))


def const_pow(c, e):
    if c == 1:
        return ONE
    if c == -1:
        # (-1)^e
        if e.is_const():
            return Poly.const(-1 if e.c % 2 else 1)
        return mk_mono([(('cst', -1), e)])
    f = Fraction(c)
    res = ONE
    for base, sgn in ((f.numerator, 1), (f.denominator, -1)):
        n = abs(base)
        if sgn == 1 and base < 0:
            res = res * const_pow(-1, e)
        p = 2
        while n > 1:
            if p * p > n:
                p = n
            if p > 100000:
                return None
            k = 0
            while n % p == 0:
                n //= p
                k += 1
            if k:
                res = res * mk_mono([(('cst', p), e.scale(sgn * k))])
            p += 1
    return res


def mk_mono(factors, c=1):
    """factors: list of (atom, Lin exponent)"""
    d = {}
    for a, e in factors:
        if a in d:
            d[a] = d[a] + e
        else:
            d[a] = e
    r = mono_norm(d)
    if r is None:
        return ZERO
    cf, mo = r
    return Poly({mo: norm_c(cf * c)})


def mono_norm(d):
    c = 1
    out = []
    for a, e in d.items():
        if e.is_const() and e.c == 0:
            continue
        h = a[0]
        if h == 'iv':
            out.append((a, L1))
            continue
        if h == 'cst':
            p = a[1]
            if p == -1:
                # reduce exponent mod 2
                e = Lin.make(e.c % 2, {x: k % 2 for x, k in e.t})
                if e.c == 1:
                    c = -c
                    e = e - 1
                if e.is_const() and e.c == 0:
                    continue
                out.append((a, e))
                continue
            if e.c != 0:
                c = c * (Fraction(p) ** e.c)
                e = Lin(0, e.t)
            if e.is_const():
                continue
            out.append((a, e))
            continue
        out.append((a, e))
    if len(out) > 1:
        out.sort(key=lambda p: (key(p[0])))
    # trivially contradictory iversons
    ivs = [a[1] for a, _ in out if a[0] == 'iv']
    if len(ivs) > 1:
        eqs = {}
        for b in ivs:
            if isinstance(b, tuple) and b[0] == 'eq' and len(b[1].t) >= 1:
                k = b[1].t
                if k in eqs and eqs[k] != b[1].c:
                    return None
                eqs[k] = b[1].c
    return norm_c(c), tuple(out)


L1 = Lin(1)


def mono_mul(a, b):
    if not a:
        return 1, b
    if not b:
        return 1, a
    d = dict(a)
    simple = True
    for at, e in b:
        if at in d:
            d[at] = d[at] + e
        else:
            d[at] = e
    return mono_norm(d)


@lru_cache(maxsize=200000)
def embed(l):
    """ring homomorphism Z -> F on integer terms"""
    r = Poly.const(l.c)
    for a, x in l.t:
        r = r + embed_atom(a).scale(x)
    return r


def embed_atom(a):
    if a[0] == 'mul':
        r = ONE
        for x in a[1:]:
            r = r * embed_atom(x)
        return r
    if a[0] == 'ia' and a[1] == 'iv':
        return iv(a[2])
    if a[0] == 'ia' and a[1] == 'ite':
        c = iv(a[2])
        return c * embed(a[3]) + (ONE - c) * embed(a[4])
    if a[0] == 'ia' and a[1] == 'nat':
        return a[2]
    if a[0] == 'ia' and a[1] == 'pow2':
        return Poly.const(2).pow(a[2])
    return Poly.atom(('emb', a))


# ------------------------------------------------------------------ booleans

def b_ge0(l):
    l = lin_recombine(l)
    if l.is_const():
        return l.c >= 0
    # gcd tighten
    from math import gcd
    g = 0
    for _, x in l.t:
        g = gcd(g, abs(x))
    if g > 1:
        l = Lin(l.c // g, tuple((a, x // g) for a, x in l.t))
    return ('ge', l)


def b_eq0(l):
    l = lin_recombine(l)
    if l.is_const():
        return l.c == 0
    from math import gcd
    g = 0
    for _, x in l.t:
        g = gcd(g, abs(x))
    if g > 1:
        if l.c % g:
            return False
        l = Lin(l.c // g, tuple((a, x // g) for a, x in l.t))
    if l.t[0][1] < 0:
        l = -l
    return ('eq', l)


def b_feq0(p):
    p = P(p)
    if p.is_const():
        return p.constval() == 0
    # sign canonical
    k = min(p.m, key=key)
    if p.m[k] < 0:
        p = -p
    return ('feq', p)


def b_not(b):
    if isinstance(b, bool):
        return not b
    if b[0] == 'not':
        return b[1]
    if b[0] == 'ge':
        return b_ge0(-b[1] - 1)
    if b[0] == 'and':
        return b_or(*[b_not(x) for x in b[1]])
    if b[0] == 'or':
        return b_and(*[b_not(x) for x in b[1]])
    return ('not', b)


def b_and(*bs):
    out = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        if isinstance(b, tuple) and b[0] == 'and':
            out.extend(b[1])
        else:
            out.append(b)
    u = []
    for x in out:
        if x not in u:
            u.append(x)
    if not u:
        return True
    if len(u) == 1:
        return u[0]
    for x in u:
        if b_not(x) in u:
            return False
    return ('and', tuple(sorted(u, key=key)))


def b_or(*bs):
    out = []
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        if isinstance(b, tuple) and b[0] == 'or':
            out.extend(b[1])
        else:
            out.append(b)
    u = []
    for x in out:
        if x not in u:
            u.append(x)
    if not u:
        return False
    if len(u) == 1:
        return u[0]
    for x in u:
        if b_not(x) in u:
            return True
    return ('or', tuple(sorted(u, key=key)))


def b_lt(a, b):
    return b_ge0(L(b) - L(a) - 1)


def b_le(a, b):
    return b_ge0(L(b) - L(a))


def b_eq(a, b):
    return b_eq0(L(a) - L(b))


def iv(b):
    """Iverson bracket as a polynomial"""
    if b is True:
        return ONE
    if b is False:
        return ZERO
    if b[0] == 'not':
        return ONE - iv(b[1])
    if b[0] == 'and':
        r = ONE
        for x in b[1]:
            r = r * iv(x)
        return r
    if b[0] == 'or':
        r = ONE
        for x in b[1]:
            r = r * (ONE - iv(x))
        return ONE - r
    if b[0] == 'ge':
        # canonical orientation: keep the one with smaller key
        n = b_not(b)
        if key(n) < key(b):
            return ONE - Poly.atom(('iv', n))
    return Poly.atom(('iv', b))


# ------------------------------------------------------------------ free atoms / substitution

def height(x):
    """max bound-variable level occurring in x"""
    return _height(x)


_hcache = {}


def _height(x):
    if isinstance(x, (int, str, float, Fraction, bool)) or x is None:
        return 0
    r = _hcache.get(x)
    if r is not None:
        return r
    h = 0
    if isinstance(x, Lin):
        for a, _ in x.t:
            h = max(h, _height(a))
    elif isinstance(x, Poly):
        for mo in x.m:
            for a, e in mo:
                h = max(h, _height(a), _height(e))
    elif isinstance(x, tuple):
        if x and x[0] == 'bv':
            h = x[1]
        else:
            for y in x:
                h = max(h, _height(y))
    _hcache[x] = h
    return h


_fcache = {}


def atoms_of(x):
    """set of all atoms (nested) occurring in x"""
    r = _fcache.get(x)
    if r is not None:
        return r
    s = set()
    if isinstance(x, Lin):
        for a, _ in x.t:
            s.add(a)
            s |= atoms_of(a)
    elif isinstance(x, Poly):
        for mo in x.m:
            for a, e in mo:
                s.add(a)
                s |= atoms_of(a)
                s |= atoms_of(e)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (Lin, Poly, tuple)):
                s |= atoms_of(y)
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    s.add(y)
    s = frozenset(s)
    _fcache[x] = s
    return s


def subst_lin(l, m):
    """m: dict int atom -> Lin ; also rewrites nested arguments"""
    if not l.t:
        return l
    r = Lin(l.c)
    for a, x in l.t:
        r = r + subst_iatom(a, m).scale(x)
    return r


def subst_iatom(a, m):
    if a in m:
        return L(m[a])
    h = a[0]
    if h in ('i', 'ia'):
        if len(a) == 2:
            return Lin.atom(a)
        args = tuple(subst_any(x, m) for x in a[2:])
        if args == a[2:]:
            return Lin.atom(a)
        na = ('i', a[1]) + args
        if h == 'i':
            if na in m:
                return L(m[na])
            return Lin.atom(na)
        return iapp(a[1], *args)
    if h == 'mul':
        r = Lin(1)
        for x in a[1:]:
            r = r.mul(subst_iatom(x, m))
        return r
    return Lin.atom(a)


def subst_any(x, m):
    if isinstance(x, Lin):
        return subst_lin(x, m)
    if isinstance(x, Poly):
        return subst(x, m)
    if isinstance(x, tuple):
        if x and x[0] in ('ge', 'eq', 'feq', 'not', 'and', 'or', 'bs') and isinstance(x[0], str):
            return subst_bool(x, m)
        return tuple(subst_any(y, m) for y in x)
    return x


def subst_bool(b, m):
    if isinstance(b, bool):
        return b
    h = b[0]
    if h == 'ge':
        return b_ge0(subst_lin(b[1], m))
    if h == 'eq':
        return b_eq0(subst_lin(b[1], m))
    if h == 'feq':
        return b_feq0(subst(b[1], m))
    if h == 'not':
        return b_not(subst_bool(b[1], m))
    if h == 'and':
        return b_and(*[subst_bool(x, m) for x in b[1]])
    if h == 'or':
        return b_or(*[subst_bool(x, m) for x in b[1]])
    if h == 'bs':
        if b in m:
            return m[b]
        return ('bs', b[1]) + tuple(subst_any(x, m) for x in b[2:])
    raise TypeError(b)


_subst_hits = {}


def subst(p, m):
    """substitute in a Poly.  m maps int atoms -> Lin and field atoms -> Poly; key ('fam', name) -> (params, Poly)
    rewrites whole families ('f', name, idx...)."""
    if not m:
        return p
    memo = {}
    return _subst(p, m, memo)


def _subst(p, m, memo):
    r = ZERO
    acc = {}
    for mo, c in p.m.items():
        q = None
        for a, e in mo:
            k = a
            f = memo.get(k)
            if f is None:
                f = subst_fatom(a, m, memo)
                memo[k] = f
            e2 = subst_lin(e, m) if e.t else e
            if e2.is_const() and e2.c == 1:
                pw = f
            elif len(f.m) == 1 and next(iter(f.m)) == ((a, L1),) and f.m[((a, L1),)] == 1:
                pw = mk_mono([(a, e2)])
            else:
                pw = f.pow(e2) if not (e2.is_const() and e2.c < 0) else f.inverse(True).pow(-e2)
            q = pw if q is None else q * pw
        if q is None:
            acc[()] = norm_c(acc.get((), 0) + c)
        else:
            for k2, c2 in q.m.items():
                acc[k2] = norm_c(acc.get(k2, 0) + c * c2)
    return Poly({k: v for k, v in acc.items() if v != 0})


def subst_fatom(a, m, memo=None):
    if a in m:
        return P(m[a])
    h = a[0]
    if h == 'f':
        if len(a) == 2:
            fm = m.get(('fam', a[1]))
            if fm is not None:
                return _apply_fam(fm, ())
            return Poly.atom(a)
        args = tuple(subst_any(x, m) for x in a[2:])
        fm = m.get(('fam', a[1]))
        if fm is not None:
            return _apply_fam(fm, args)
        na = ('f', a[1]) + args
        if na != a and na in m:
            return P(m[na])
        return Poly.atom(na)
    if h == 'emb':
        return embed(subst_iatom(a[1], m))
    if h == 'iv':
        return iv(subst_bool(a[1], m))
    if h == 'cst':
        return Poly.atom(a)
    if h in ('sum', 'prod'):
        _, lv, body, hi = a
        bv = ('bv', lv)
        k = ('i', '$s%d' % fresh_id())
        nb = subst(subst(body, {bv: Lin.atom(k)}), m)
        nh = subst_lin(hi, m)
        return mk_sum(k, nb, Lin(0), nh) if h == 'sum' else mk_prod(k, nb, Lin(0), nh)
    if h == 'fa':
        args = tuple(subst_any(x, m) for x in a[2:])
        return fapp(a[1], *args)
    if h == 'inv0':
        return subst(a[1], m).inverse()
    if h == 'finv':
        return subst(a[1], m).inverse(True)
    if h == 'fpow':
        return subst(a[1], m).pow(subst_lin(a[2], m))
    raise TypeError('subst_fatom %r' % (a,))


def _apply_fam(fm, args):
    params, body = fm
    return subst(body, dict(zip(params, args))) if params else body


FAPP_SIMP = {}


def fapp(name, *args):
    s = FAPP_SIMP.get(name)
    if s:
        r = s(*args)
        if r is not None:
            return r
    return Poly.atom(('fa', name) + args)


# ------------------------------------------------------------------ sums and products

EXPAND = 8


def depends(x, atom):
    return atom in atoms_of(x) or x == atom


def mk_sum(k, body, lo, hi):
    """sum_{k=lo}^{hi-1} body, k an int atom"""
    lo = L(lo)
    hi = L(hi)
    d = hi - lo
    if d.is_const():
        if d.c == 0:
            return ZERO
        if 0 < d.c <= EXPAND:
            r = ZERO
            for j in range(d.c):
                r = r + subst(body, {k: lo + j})
            return r
    r = ZERO
    for mo, c in body.m.items():
        dep = []
        ind = []
        for a, e in mo:
            if depends(a, k) or depends(e, k):
                # split symbolic exponents: x^(e1 + c*k): pull k-independent part out
                if not depends(a, k) and a[0] != 'iv':
                    ek = Lin(0, tuple((x, co) for x, co in e.t if x == k or depends(x, k)))
                    ei = e - ek
                    if not (ei.is_const() and ei.c == 0):
                        ind.append((a, ei))
                    dep.append((a, ek))
                else:
                    dep.append((a, e))
            else:
                ind.append((a, e))
        ip = mk_mono(ind).scale(c)
        if not dep:
            r = r + ip * embed(d)
            continue
        r = r + ip * _sum_mono(k, dep, lo, hi)
    return r


def _index_uses(a, k):
    """index Lins in atom a that mention k linearly"""
    out = []
    if a[0] == 'f':
        for x in a[2:]:
            if isinstance(x, Lin) and depends(x, k):
                out.append(x)
    return out


def _sum_mono(k, dep, lo, hi):
    # delta elimination: [k = e] with e independent of k
    for n, (a, e) in enumerate(dep):
        if a[0] == 'iv' and isinstance(a[1], tuple) and a[1][0] == 'eq':
            l = a[1][1]
            co = dict(l.t).get(k, 0)
            if co in (1, -1):
                rest = l - Lin.atom(k).scale(co)
                if not depends(rest, k):
                    val = rest.scale(-co)
                    rem = dep[:n] + dep[n+1:]
                    q = subst(mk_mono(rem), {k: val}) if rem else ONE
                    return q * iv(b_and(b_ge0(val - lo), b_ge0(hi - val - 1)))
    # anchor: canonical shift
    anchor = None
    cands = []
    for a, e in dep:
        for x in _index_uses(a, k):
            co = dict(x.t).get(k, 0)
            rest = x - Lin.atom(k).scale(co)
            if co in (1, -1) and not depends(rest, k):
                cands.append(((a[1],), x, co, rest))
    if cands:
        cands.sort(key=lambda t: (t[0], 0 if t[2] == 1 else 1, t[1].key()))
        _, x, co, rest = cands[0]
        if co == 1:
            off = rest
            if not (off.is_const() and off.c == 0):
                j = ('i', '$s%d' % fresh_id())
                dep2 = mk_mono(dep)
                dep2 = subst(dep2, {k: Lin.atom(j) - off})
                return mk_sum(j, dep2, lo + off, hi + off)
        else:
            # x = rest - k ; new index j = rest - k ; k = rest - j ; k in [lo,hi) -> j in (rest-hi, rest-lo]
            j = ('i', '$s%d' % fresh_id())
            dep2 = subst(mk_mono(dep), {k: rest - Lin.atom(j)})
            return mk_sum(j, dep2, rest - hi + 1, rest - lo + 1)
    body = mk_mono(dep)
    (mo, c), = body.m.items() if len(body.m) == 1 else ((None, None),)
    if mo is None:
        return mk_sum(k, body, lo, hi)
    body = Poly({mo: 1})
    return (_prefix(k, body, hi) - _prefix(k, body, lo)).scale(c)


def _prefix(k, body, h):
    """P_body(h) = sum_{k<h} body   (formal prefix sum, P(0)=0)"""
    if h.is_const():
        if h.c == 0:
            return ZERO
        if 0 < h.c <= 64:
            r = ZERO
            for j in range(h.c):
                r = r + subst(body, {k: Lin(j)})
            return r
        if -8 <= h.c < 0:
            r = ZERO
            for j in range(h.c, 0):
                r = r - subst(body, {k: Lin(j)})
            return r
    if h.c != 0 and abs(h.c) <= 6 and h.t:
        base = Lin(0, h.t)
        r = _prefix(k, body, base)
        if h.c > 0:
            for j in range(h.c):
                r = r + subst(body, {k: base + j})
        else:
            for j in range(1, -h.c + 1):
                r = r - subst(body, {k: base - j})
        return r
    lv = height(body) + 1
    cb = subst(body, {k: Lin.atom(('bv', lv))})
    return Poly.atom(('sum', lv, cb, h))


def mk_prod(k, body, lo, hi):
    lo = L(lo)
    hi = L(hi)
    d = hi - lo
    if d.is_const() and 0 <= d.c <= EXPAND:
        r = ONE
        for j in range(d.c):
            r = r * subst(body, {k: lo + j})
        return r
    if not depends(body, k):
        return body.pow(d)
    if not (lo.is_const() and lo.c == 0):
        body = subst(body, {k: Lin.atom(k) + lo})
        hi = hi - lo
    # content / sign normalisation
    mk = min(body.m, key=key)
    pre = ONE
    if body.m[mk] < 0:
        body = -body
        pre = const_pow(-1, hi)
    if len(body.m) == 1:
        # multiplicative over factors
        (mo, c), = body.m.items()
        if len(mo) > 1 or c != 1:
            r = pre * (const_pow(c, hi) if c != 1 else ONE)
            for a, e in mo:
                r = r * mk_prod(k, mk_mono([(a, e)]), Lin(0), hi)
            return r
    if hi.c > 0 and hi.t and hi.c <= 4:
        base = Lin(0, hi.t)
        r = mk_prod(k, body, Lin(0), base)
        for j in range(hi.c):
            r = r * subst(body, {k: base + j})
        return pre * r
    lv = height(body) + 1
    cb = subst(body, {k: Lin.atom(('bv', lv))})
    return pre * Poly.atom(('prod', lv, cb, hi))


# ------------------------------------------------------------------ printing

def lin_str(l):
    s = []
    for a, x in l.t:
        n = iatom_str(a)
        s.append(('%s' % n) if x == 1 else ('-%s' % n if x == -1 else '%d*%s' % (x, n)))
    if l.c or not s:
        s.append(str(l.c))
    return '+'.join(s).replace('+-', '-')


def any_str(x):
    if isinstance(x, Lin):
        return lin_str(x)
    if isinstance(x, Poly):
        return poly_str(x)
    if isinstance(x, tuple) and x and x[0] in ('ge', 'eq', 'feq', 'not', 'and', 'or', 'bs'):
        return bool_str(x)
    if isinstance(x, tuple):
        return '(' + ','.join(any_str(y) for y in x) + ')'
    return str(x)


def iatom_str(a):
    if a[0] == 'bv':
        return 'i%d' % a[1]
    if a[0] == 'i':
        return a[1] + ('[%s]' % ','.join(any_str(x) for x in a[2:]) if len(a) > 2 else '')
    if a[0] == 'ia':
        return '%s(%s)' % (a[1], ','.join(any_str(x) for x in a[2:]))
    if a[0] == 'mul':
        return '(' + '*'.join(iatom_str(x) for x in a[1:]) + ')'
    return str(a)


def fatom_str(a):
    h = a[0]
    if h == 'f':
        return a[1] + ('[%s]' % ','.join(any_str(x) for x in a[2:]) if len(a) > 2 else '')
    if h == 'emb':
        return iatom_str(a[1])
    if h == 'iv':
        return '[%s]' % bool_str(a[1])
    if h == 'cst':
        return str(a[1])
    if h in ('sum', 'prod'):
        return '%s{i%d<%s}(%s)' % (h, a[1], lin_str(a[3]), poly_str(a[2]))
    if h == 'fa':
        return '%s(%s)' % (a[1], ','.join(any_str(x) for x in a[2:]))
    if h in ('inv0', 'finv'):
        return 'inv(%s)' % poly_str(a[1])
    return any_str(a)


def poly_str(p):
    if not p.m:
        return '0'
    out = []
    for mo, c in sorted(p.m.items(), key=lambda t: key(t[0])):
        f = []
        for a, e in mo:
            s = fatom_str(a)
            f.append(s if (e.is_const() and e.c == 1) else '%s^(%s)' % (s, lin_str(e)))
        if c != 1 or not f:
            f.insert(0, str(c))
        out.append('*'.join(f))
    r = ' + '.join(out)
    return r if len(r) < 4000 else r[:4000] + '...'


def bool_str(b):
    if isinstance(b, bool):
        return str(b)
    h = b[0]
    if h == 'ge':
        return '%s>=0' % lin_str(b[1])
    if h == 'eq':
        return '%s==0' % lin_str(b[1])
    if h == 'feq':
        return '%s=F=0' % poly_str(b[1])
    if h == 'not':
        return '!(%s)' % bool_str(b[1])
    if h in ('and', 'or'):
        return '(' + (' && ' if h == 'and' else ' || ').join(bool_str(x) for x in b[1]) + ')'
    return '%s(%s)' % (b[1], ','.join(any_str(x) for x in b[2:]))
