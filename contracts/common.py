"""Shared specification library."""
import sys
sys.path.insert(0, '/verif/rcv')
from harn import *
from oblig import Ob, Res, Refuted, Undecided
from values import *
from terms import *
import alg


def val1(outs, what, want='ret'):
    """exactly one outcome, no panic"""
    for o in outs:
        if o.kind == 'panic':
            raise Refuted('%s: panic reachable: %s (line %s) when %s' % (what, o.v[0], o.v[1], pc_str(o.st)))
        if o.st.panics:
            p = o.st.panics[0]
            raise Refuted('%s: panic reachable: %s (line %s) when %s' % (what, p[0], p[1], bool_str(p[2])))
    return outs


def pc_str(st):
    return ' & '.join(bool_str(c) for c in st.pc[-6:]) or 'always'


def single(h, fn, what):
    outs = val1(h.ex.explore(fn), what)
    if len(outs) != 1:
        raise Undecided('%s: %d paths' % (what, len(outs)))
    h.ex.st = outs[0].st
    return outs[0].v


def paths(h, fn, what):
    """every path of fn (none may panic), with the session's state set to the path's"""
    for o in val1(h.ex.explore(fn), what):
        h.ex.st = o.st
        yield o.v


def zero_here(h, p):
    """is p zero under the path condition?  Raises Undecided when neither a proof nor a counterexample is found."""
    return zero_poly(h.ex, p) or zero_cases(h.ex, h.ex.unfold(P(p)), [c for c in h.ex.st.pc if not isinstance(c, bool)], 0, True)


def ok(v, what):
    if not (isinstance(v, En) and v.name == 'Result'):
        raise Undecided('%s: not a Result: %r' % (what, v))
    if v.var != 'Ok':
        raise Refuted('%s: returned %r' % (what, v))
    return v.args[0]


def is_err(v):
    return isinstance(v, En) and v.name == 'Result' and v.var == 'Err'


def gens(name, n):
    return Seq.of([fsym(name, i) for i in range(n)])


def V_(t, i):
    return SymVar(t, i)


def lc_val(h, terms):
    """LinearCombination value from python terms"""
    return h.ex.as_lc(Seq.of([Tup((v, c)) for v, c in terms]))


class Circuit:
    """A generic satisfied circuit: symbolic multipliers, commitments and constraint coefficients; the constant term of each
    constraint is what makes it hold.  `sat=False` leaves the constants free."""

    def __init__(self, n1, n2, m, q1, q2, two=None, sparse=None):
        self.n1, self.n2, self.m, self.q1, self.q2 = n1, n2, m, q1, q2
        self.two = two if two is not None else (n2 > 0 or q2 > 0)
        self.free_const = False
        self.sparse = sparse
        self.dup = True
        self.mix = False

    def values(self):
        return {('l', i): fsym('a', i) for i in range(self.n1 + self.n2)}, None

    def variables(self, phase):
        n = self.n1 if phase == 1 else self.n1 + self.n2
        out = []
        for i in range(self.m):
            out.append((SymVar(0, i), fsym('v', i)))
        for i in range(n):
            a, b = fsym('a', i), fsym('b', i)
            out += [(SymVar(1, i), a), (SymVar(2, i), b), (SymVar(3, i), a * b)]
        return out

    def row(self, k, phase, chal=None):
        """terms of constraint k (without its constant): [(variable, coefficient, value)]"""
        vs = self.variables(phase)
        shape = k % 6 if self.mix else 0

        def co(*j):
            c = fsym('c', k, *j)
            return c if chal is None else c * chal + fsym('d', k, *j)
        one = (SymVar(4, 0), ONE)
        if shape == 0 or not vs:
            r = [(v, co(j), x) for j, (v, x) in enumerate(vs) if not (self.sparse and (j * 7 + k * 3) % self.sparse)]
            if self.dup and r:
                v, x = vs[-1]
                r += [(v, fsym('e', k), x), (one[0], fsym('e1', k), ONE)]
            return r
        v, x = vs[(k * 5) % len(vs)]
        w, y = vs[(k * 3 + 1) % len(vs)]
        if shape == 1:
            return [(v, co(0), x)]
        if shape == 2:
            return []
        if shape == 3:
            return [(v, co(0), x), (v, co(1), x)]
        if shape == 4:
            return [(one[0], co(0), ONE), (w, -ONE, y)]
        return [(v, ONE, x), (w, co(0), y), (v, co(2), x)]

    def const(self, k, tot):
        """constant term of constraint k as a list of terms"""
        if self.free_const:
            if self.mix and k % 6 in (1, 2):
                return []                       # constraints of one term or none
            return [fsym('k', k)]
        if self.mix and tot.is_zero():
            return []
        return [-tot]

    def add_constraints(self, h, cs, q0, q, phase, chal=None):
        for k in range(q0, q0 + q):
            r = self.row(k, phase, chal)
            tot = ZERO
            for v, c, x in r:
                tot = tot + c * x
            terms = [(v, c) for v, c, x in r] + [(SymVar(4, 0), c) for c in self.const(k, tot)]
            h.meth(cs, 'constrain', lc_val(h, terms))

    def allocate(self, h, cs, lo, n, prover):
        for i in range(lo, lo + n):
            arg = Some(Tup((fsym('a', i), fsym('b', i)))) if prover else NONE
            ok(h.meth(cs, 'allocate_multiplier', arg), 'allocate_multiplier')

    def phase2(self, h, prover):
        def cb(ex, rcs):
            self.allocate(h, rcs, self.n1, self.n2, prover)
            ch = ex.P(h.meth(rcs, 'challenge_scalar', Bytes(['chal'])))
            self.add_constraints(h, rcs, self.q1, self.q2, 2, ch)
            return Ok(UNIT)
        return Clo(None, None, None, cb)

    def build(self, h, cs, prover):
        self.allocate(h, cs, 0, self.n1, prover)
        self.add_constraints(h, cs, 0, self.q1, 1)
        if self.two:
            ok(h.meth(cs, 'specify_randomized_constraints', self.phase2(h, prover)), 'specify_randomized_constraints')


def run_prover(h, c, G, H):
    T = h.transcript('lab')
    pv = h.prover(T)
    coms = []
    for i in range(c.m):
        r = h.meth(pv, 'commit', fsym('v', i), fsym('vb', i))
        coms.append(r.xs[0])
    c.build(h, pv, True)
    proof = h.meth(h.get(pv), 'prove', G, H)
    return T, coms, proof


def run_verifier(h, c, coms, proof, G, H, g=None, hh=None):
    T = h.transcript('lab')
    vf = h.verifier(T)
    for x in coms:
        h.meth(vf, 'commit', x)
    c.build(h, vf, False)
    r = h.meth(h.get(vf), 'verify', proof, g if g is not None else fsym('g'), hh if hh is not None else fsym('h'), G, H)
    return T, r


PROOF_PTS = 'A_I1 A_O1 S1 A_I2 A_O2 S2 T_1 T_3 T_4 T_5 T_6'.split()
PROOF_SC = 't_x t_x_blinding e_blinding'.split()


def symbolic_proof(h, lg, lgr=None):
    """a proof value with every element an independent symbol (what an adversary may send)"""
    st = h.pr.struct('R1CSProof') if hasattr(h.pr, 'struct') else None
    f = {k: fsym('p_' + k) for k in PROOF_PTS + PROOF_SC}
    f['ipp_proof'] = St('InnerProductArgumentProof', {
        'L': Seq.of([fsym('p_L', i) for i in range(lg)]),
        'R': Seq.of([fsym('p_R', i) for i in range(lg if lgr is None else lgr)]),
        'a': fsym('p_a'), 'b': fsym('p_b')})
    return St('R1CSProof', f)


def pow2ceil(n):
    k = 1
    while k < n:
        k *= 2
    return k


def log2(n):
    return n.bit_length() - 1


def events(h, T):
    """the transcript as a list of (kind, label, payload)"""
    out = []
    for e in h.tr(T).items():
        lab, pay = e.xs
        if lab.parts and lab.parts[0] == 'challenge':
            out.append(('chal', lab.parts[1][2], pay))
        else:
            out.append(('msg', lab, pay))
    return out


def challenges(h, T):
    """the challenge atoms of a transcript, in order of drawing"""
    import models
    xs = h.tr(T).items()
    out = []
    for i, e in enumerate(xs):
        lab, pay = e.xs
        if lab.parts and lab.parts[0] == 'challenge':
            k = pay.parts[0][2]
            out.append(fsym('chal', Lin(models.intern(h.ex, 'tr', (tuple(xs[:i + 1]), k)))))
    return out


def accepted(outs):
    """(accepting paths, rejecting paths)"""
    a, r = [], []
    for o in outs:
        if isinstance(o.v[0] if isinstance(o.v, tuple) else o.v, En):
            v = o.v[0] if isinstance(o.v, tuple) else o.v
            (a if v.var == 'Ok' else r).append(o)
        else:
            raise Undecided('result is not concrete: %r' % (o.v,))
    return a, r


def feqs(st):
    """field equations on the path, and whether anything else is on it"""
    eqs, other = [], []
    for c in st.pc:
        if isinstance(c, tuple) and c[0] == 'feq':
            eqs.append(P(c[1]))
        else:
            other.append(c)
    return eqs, other


def coeffs_in(p, pred):
    """split a polynomial by its monomial part in atoms satisfying pred"""
    out = {}
    for mo, c in p.m.items():
        k = tuple((a, e) for a, e in mo if pred(a))
        r = tuple((a, e) for a, e in mo if not pred(a))
        out.setdefault(k, {})[r] = c
    return {k: Poly(m) for k, m in out.items()}


def rand_atoms(p):
    return {a for a in atoms_of(p) if a[0] == 'f' and a[1] == 'rnd'}


def same_up_to_unit(h, p, q):
    """p = c*q for a non-zero constant c"""
    if p.is_zero() or q.is_zero():
        return p.is_zero() and q.is_zero()
    mo = next(iter(q.m))
    if mo not in p.m:
        return False
    import fractions
    c = fr(p.m[mo]) * pow(fr(q.m[mo]), -1, MODP) % MODP
    d = p - q.scale(c)
    return h.zero(d)


def rs(h, src, **binds):
    """evaluate a Rust expression over the crate's own items with the given bindings"""
    import rparse
    env = Env()
    for k, v in binds.items():
        env.vars[k] = h.ex.st.new(v)
    return h.ex.deref(h.ex.ev(rparse.Parser(src, '<contract>').expr(), env))


def lc_value(h, lc, val):
    """value of a linear combination under val: SymVar -> Poly; the term list may be of symbolic length"""
    lc = h.ex.as_lc(h.ex.deref(lc))
    s = lc.f['terms']
    r = ZERO

    def one(t):
        t = h.ex.deref(t)
        return h.ex.P(t.xs[1]) * val(h.ex.deref(t.xs[0]))
    for g in s.segs:
        if g.k == 'e':
            r = r + one(g.v)
        elif g.k == 'f':
            r = r + mk_sum(g.ix, one(g.v), Lin(0), g.n)
        else:
            r = r + mk_sum(g.ix, sum((one(x) for x in g.v), ZERO), Lin(0), g.n)
    return r


def uval(v):
    """an arbitrary assignment: uninterpreted function of the variable, 1 for the constant variable"""
    if v.tag.is_const():
        if v.tag.c == 4:
            return ONE
        return fsym('U%d' % v.tag.c, v.idx)
    return fsym('U', v.tag, v.idx)


CORE_FILES = ('prover.rs', 'verifier.rs', 'ipp.rs', 'vector_poly.rs', 'linear_combination.rs', 'transcript.rs', 'proof.rs', 'constraint_system.rs', 'utils/mod.rs')


def literals(lo, hi, files=None, limit=4):
    """Sizes worth an obligation of their own: the integer literals between lo and hi in the crate's current (non-test) code,
    where the code may behave differently. At most `limit`, the rarest first; none on code without such literals."""
    import rparse
    prog = get_prog()
    cnt = {}
    for rel, items in prog.files.items():
        if 'poseidon_constants' in rel or (files and not rel.endswith(tuple(files))):
            continue
        stack = list(items)
        seen = set()
        while stack:
            x = stack.pop()
            if isinstance(x, rparse.N):
                if id(x) in seen:
                    continue
                seen.add(id(x))
                if x.k == 'int':
                    cnt[x.v] = cnt.get(x.v, 0) + 1
                elif x.k == 'bin' and isinstance(x.d.get('l'), rparse.N) and isinstance(x.d.get('r'), rparse.N) and x.l.k == 'int' and x.r.k == 'int':
                    try:
                        v = {'<<': lambda: x.l.v << min(x.r.v, 40), '*': lambda: x.l.v * x.r.v, '-': lambda: x.l.v - x.r.v, '+': lambda: x.l.v + x.r.v}[x.op]()
                        cnt[v] = cnt.get(v, 0) + 1
                    except Exception:
                        pass
                stack.extend(v for k, v in x.d.items() if not k.startswith('_'))
            elif isinstance(x, (list, tuple)):
                stack.extend(x)
    good = [v for v in cnt if isinstance(v, int) and lo <= v <= hi]
    good.sort(key=lambda v: (cnt[v], v))
    return sorted(good[:limit])


def core_sizes(have, nmax=130, qmax=130, mmax=300, k=3):
    """circuit shapes (n1, n2, m, q1, q2) around every integer literal of the core files"""
    out = []
    for L in literals(3, max(nmax, qmax, mmax), CORE_FILES, k):
        for x in (L, L + 1):
            if x <= nmax:
                out += [(x, 0, 1, 1, 0), (1, x, 1, 1, 1), (x - 1, 1, 1, 1, 1)]
            if x <= qmax:
                out += [(1, 0, 1, x, 0), (1, 1, 1, 1, x)]
            if x <= mmax:
                out += [(1, 0, x, 1, 0)]
    return [s for s in dict.fromkeys(out) if s not in have]
