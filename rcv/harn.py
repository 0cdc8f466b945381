"""Contract library: builds symbolic states of the crate's types, runs the crate's functions on them and states what they
must establish.  Used by the contract files of the properties."""
import os, random
import rparse
import prog as progmod
from terms import *
from values import *
from exec import Env, PanicE, Infeasible, MutRef, RetE
from eval import Eval
import models
from oblig import Undecided

NODE = rparse.N('x', 0)
_prog = None


def get_prog(root=os.environ.get('RCV_ROOT', '/repo')):
    global _prog
    if _prog is None or _prog.root != root:
        _prog = progmod.Prog(root)
    return _prog


def new_eval():
    import loops
    ex = Eval(get_prog())
    ex.loop_handler = loops.Handler()
    return ex


class H:
    """one symbolic session"""

    def __init__(self, ex=None):
        self.ex = ex or new_eval()
        self.pr = self.ex.prog
        import oblig
        oblig.SESSIONS.append(self)

    # --- access to the crate
    def meth(self, recv, name, *a):
        return self.ex.deref_top(self.ex.call_method(recv, name, list(a), Env(), NODE)) if hasattr(self.ex, 'deref_top') \
            else self.ex.call_method(recv, name, list(a), Env(), NODE)

    def fn(self, name, file=None):
        f = self.pr.fn(name, file)
        if f is None:
            raise Unsupported('function %s not found' % name)
        return f

    def call(self, name, *a, file=None):
        return self.ex.call_fn(self.fn(name, file), list(a))

    def static(self, ty, name, *a):
        f = self.pr.method(ty, name)
        if f is None:
            raise Unsupported('%s::%s not found' % (ty, name))
        return self.ex.call_fn(f, list(a))

    def cell(self, v):
        return MutRef(self.ex.st.new(v))

    def get(self, r):
        return self.ex.deref(r)

    def transcript(self, label='t'):
        return self.cell(St('Transcript', {'tr': Seq.of([Tup((Bytes(['new']), Bytes([label])))])}))

    def tr(self, T):
        return self.ex.deref(T).f['tr']

    def prover(self, T, g=None, h=None):
        return self.cell(self.static('Prover', 'new', g if g is not None else fsym('g'), h if h is not None else fsym('h'), T))

    def verifier(self, T):
        return self.cell(self.static('Verifier', 'new', T))

    def lc(self, v):
        return self.ex.as_lc(v)

    def lc_terms(self, lc):
        lc = self.ex.as_lc(self.ex.deref(lc))
        return [self.ex.deref(t).xs for t in lc.f['terms'].items()]

    def lc_eval(self, lc, val):
        """value of an LC under val: SymVar -> Poly"""
        r = ZERO
        for v, c in self.lc_terms(lc):
            r = r + self.ex.P(c) * val(self.ex.deref(v))
        return r

    def prover_val(self, pv):
        s = self.ex.deref(pv)

        def val(v):
            t, i = v.tag.c, v.idx
            if t == 4:
                return ONE
            src = s.f[{0: 'v', 1: 'a_L', 2: 'a_R', 3: 'a_O'}[t]]
            return self.ex.P(self.ex.seq_get(src, i))
        return val

    def constraints(self, cs):
        return [c for c in self.ex.deref(cs).f['constraints'].items()]

    def num_vars(self, cs):
        s = self.ex.deref(cs)
        if 'num_vars' in s.f:
            return s.f['num_vars']
        return self.ex.seq_len(s.f['a_L'])

    def zero(self, p):
        """is the polynomial identically zero (after unfolding definitions)?"""
        return zero_poly(self.ex, p)


def atom_val(v):
    """generic assignment: variable -> atom"""
    t, i = v.tag.c, v.idx
    if t == 4:
        return ONE
    return fsym({0: 'V', 1: 'AL', 2: 'AR', 3: 'AO'}[t], i)


def rand_assign(seed):
    rng = random.Random(seed)
    d = {}

    def f(a):
        if a not in d:
            d[a] = rng.randrange(1, MODP)
        return d[a]
    return f


class NotNumeric(Exception):
    pass


def num_eval(ex, p, asg, memo=None):
    """evaluate polynomial modulo the group order with atom assignment"""
    memo = {} if memo is None else memo
    r = 0
    for mo, c in p.m.items():
        if not isinstance(c, int):
            c = c.numerator * pow(c.denominator, -1, MODP)
        t = c % MODP
        for a, e in mo:
            t = t * num_atom(ex, a, e, asg, memo) % MODP
        r = (r + t) % MODP
    return r


def num_atom(ex, a, e, asg, memo):
    k = (a, e)
    if k in memo:
        return memo[k]
    if not e.is_const():
        raise NotNumeric('symbolic exponent')
    if a in ex.defs:
        v = num_eval(ex, ex.defs[a], asg, memo)
    elif a[0] == 'inv0':
        b = num_eval(ex, a[1], asg, memo)
        v = pow(b, -1, MODP) if b else 0
    elif a[0] == 'finv':
        b = num_eval(ex, a[1], asg, memo)
        if b == 0:
            raise NotNumeric('inverse of zero')
        v = pow(b, -1, MODP)
    elif a[0] in ('f', 'emb', 'i'):
        v = asg(a)
    elif a[0] == 'iv':
        b = a[1]
        if isinstance(b, tuple) and b[0] == 'feq':
            v = int(num_eval(ex, P(b[1]), asg, memo) == 0)
        else:
            v = asg(a) % 2
    else:
        v = asg(a)
    r = pow(v, e.c, MODP) if e.c >= 0 else pow(pow(v, -1, MODP), -e.c, MODP)
    memo[k] = r
    return r


STAT = {'ident': 0, 'pit': 0}


def clear_inverses(p):
    """multiply p by the bases of its inverse atoms (known non-zero) until none is left"""
    for _ in range(12):
        a = next((a for a in sorted({x for mo in p.m for x, _ in mo if x[0] == 'finv'}, key=lambda x: -height(x))), None)
        if a is None:
            return p
        d = 0
        for mo in p.m:
            for x, e in mo:
                if x == a:
                    if not e.is_const() or e.c < 0:
                        return None
                    d = max(d, e.c)
        q = P(a[1])
        r = ZERO
        for mo, c in p.m.items():
            k = 0
            rest = []
            for x, e in mo:
                if x == a:
                    k = e.c
                else:
                    rest.append((x, e))
            t = Poly({tuple(rest): c})
            for _ in range(d - k):
                t = t * q
            r = r + t
        p = r
    return None


def zero_poly(ex, p):
    """is p zero for all values of its atoms?  Iverson atoms are split into cases."""
    p = P(p)
    STAT['ident'] += 1
    if p.is_zero():
        return True
    q = p
    if any(a[0] == 'iv' or a in ex.defs for mo in p.m for a, _ in mo):
        try:
            q = ex.unfold(p)
        except TermTooBig:
            pass
    if any(a[0] == 'iv' for mo in q.m for a, _ in mo):
        return zero_cases(ex, q, [], 0)
    return zero_plain(ex, p)


def zero_cases(ex, p, conds, depth, strict=False):
    ivs = [a for mo in p.m for a, _ in mo if a[0] == 'iv']
    if not ivs:
        return p.is_zero() or zero_under(ex, p, conds, strict)
    if depth > 10:
        raise Undecided('too many cases')
    a = ivs[0]
    for val in (1, 0):
        c = a[1] if val else b_not(a[1])
        if isinstance(c, bool):
            if not c:
                continue
            cs = conds
        else:
            cs = conds + [c]
        if ex.sol.sat(list(ex.st.pc) + cs) == 'unsat':
            continue
        m = {}
        for mo, k in p.m.items():
            if any(x == a for x, _ in mo):
                if not val:
                    continue
                mo = tuple((x, e) for x, e in mo if x != a)
            m[mo] = m.get(mo, 0) + k
        if not zero_cases(ex, Poly({x: k for x, k in m.items() if k != 0}), cs, depth + 1, strict):
            return False
    return True


def fr(c):
    return c % MODP if isinstance(c, int) else c.numerator * pow(c.denominator, -1, MODP) % MODP


def zero_under(ex, p, conds, strict=False):
    """is p zero whenever the conditions hold?  Exact when the field equations can be solved for an atom; raises Undecided when
    neither a proof nor a counterexample is found (strict: also when integer conditions remain)."""
    import alg
    p = P(p)
    if zero_plain(ex, p):
        return True
    if not conds:
        return False
    eqs, neg, other = [], [], []
    m = {}
    work = list(conds)
    while work:
        c = work.pop(0)
        if isinstance(c, bool):
            if not c:
                return True
        elif c[0] == 'and':
            work += list(c[1])
        elif c[0] == 'feq':
            eqs.append(ex.unfold(P(c[1])))
        elif c[0] == 'not' and isinstance(c[1], tuple) and c[1][0] == 'feq':
            neg.append(ex.unfold(P(c[1][1])))
        elif c[0] == 'eq':
            a = next((a for a, x in c[1].t if x in (1, -1) and a[0] == 'i' and not any(contains(b, a) for b, _ in c[1].t if b != a)), None)
            if a is None:
                other.append(c)
                continue
            x = dict(c[1].t)[a]
            m1 = {a: (Lin.atom(a) - c[1].scale(x))}
            p = subst(p, m1)
            eqs, neg, other, work = [[y for y in (subst(y, m1) if isinstance(y, Poly) else subst_bool(y, m1) for y in z)] for z in (eqs, neg, other, work)]
        else:
            other.append(c)
    p = ex.unfold(p)
    if any(a[0] == 'iv' for mo in p.m for a, _ in mo):
        raise Undecided('case distinction under a substitution')
    if not (strict and other) and counterexample(ex, p, eqs, neg):
        return False
    while eqs:
        e = eqs.pop()
        if e.is_zero():
            continue
        for a in sorted(alg.pvars(e), key=repr):
            r = alg.split_linear(e, a)
            if a[0] == 'f' and r is not None and not any(x == a or contains(x, a) for x in alg.pvars(r[1])):
                break
        else:
            raise Undecided('path condition %s' % poly_str(e)[:100])
        m = {a: r[1].scale(fr(-1) * pow(fr(r[0]), -1, MODP) % MODP)}
        p, eqs, neg = subst(p, m), [subst(x, m) for x in eqs], [subst(x, m) for x in neg]
    if zero_plain(ex, p):
        return True
    if any(zero_plain(ex, x) for x in neg):
        return True                               # the path is infeasible
    if strict and other:
        raise Undecided('not shown zero when %s' % ' & '.join(map(bool_str, other))[:200])
    return False


def counterexample(ex, p, eqs, neg):
    """a concrete assignment satisfying eqs = 0 and neg != 0 with p != 0, by solving each equation for an atom of degree one"""
    import alg
    for seed in range(6):
        asg = {}
        base = rand_assign(100 + seed)
        get = lambda a: asg[a] if a in asg else base(a)
        try:
            good = True
            pinned = set()
            for e in eqs:
                cand = [a for a in sorted(alg.pvars(e), key=repr) if a[0] == 'f' and a not in pinned and alg.degree_in(e, a) == 1
                        and all(x == a or not contains(x, a) for x in alg.pvars(e))]
                if not cand:
                    good = e.is_zero()
                    if not good:
                        break
                    continue
                a = cand[seed % len(cand)]
                asg[a] = 0
                c0 = num_eval(ex, e, get)
                asg[a] = 1
                c1 = (num_eval(ex, e, get) - c0) % MODP
                if c1 == 0:
                    good = False
                    break
                asg[a] = -c0 * pow(c1, -1, MODP) % MODP
                pinned |= alg.pvars(e)
            if good and all(num_eval(ex, e, get) == 0 for e in eqs) and all(num_eval(ex, e, get) != 0 for e in neg) \
                    and num_eval(ex, p, get) != 0:
                return True
        except NotNumeric:
            continue
    return False


def contains(x, a):
    """does atom x mention atom a in its arguments?"""
    st = list(x[1:])
    while st:
        y = st.pop()
        if y == a:
            return True
        if isinstance(y, Poly):
            st.extend(atoms_of(y))
        elif isinstance(y, Lin):
            st.extend(b for b, _ in y.t)
        elif isinstance(y, tuple):
            st.extend(y)
    return False


def zero_plain(ex, p):
    p = P(p)
    if p.is_zero():
        return True
    # cheap refutation
    numeric = True
    for seed in range(2):
        try:
            if num_eval(ex, p, rand_assign(seed)) != 0:
                return False
        except NotNumeric:
            numeric = False
            break
    try:
        q = ex.unfold(p)
        if q.is_zero():
            return True
        q = clear_inverses(q)
        if q is not None and ex.unfold(q).is_zero():
            return True
    except TermTooBig:
        pass
    if not numeric:
        return False
    if any(a[0] == 'iv' for mo in p.m for a, _ in mo):
        raise Undecided('case distinction in a large term')
    # Schwartz-Zippel with 3 independent points (error < 2^-600): recorded
    STAT['pit'] += 1
    for seed in range(10, 13):
        if num_eval(ex, p, rand_assign(seed)) != 0:
            return False
    return True
