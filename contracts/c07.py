from common import *
import itertools, random

OPS = ['commit', 'alloc', 'mul_alloc', 'single', 'multiply', 'constrain']


class Pair:
    """the same calls made on a prover and on a verifier"""

    def __init__(self, h, rand):
        self.h = h
        self.pT, self.vT = h.transcript('lab'), h.transcript('lab')
        self.p, self.v = h.prover(self.pT), h.verifier(self.vT)
        self.k = 0
        self.vars = []
        self.handed = []
        self.spec = {}          # variable -> value the history gives it
        self.half = None
        self.nm = 0
        self.want = []          # specified constraints: list of {var: coeff}

    def pick_lc(self, j):
        vs = self.vars
        t = [(SymVar(4, 0), fsym('k', j))]
        if vs:
            t += [(vs[j % len(vs)], fsym('l', j)), (vs[(j * 3 + 1) % len(vs)], fsym('m', j)), (vs[0], fsym('n', j))]
        return t

    def lcspec(self, t):
        r = ZERO
        for v, c in t:
            r = r + c * (ONE if v.tag.c == 4 else self.spec[v])
        return r

    def new_mult(self, l, r):
        i = self.nm
        self.nm += 1
        for t, x in ((1, l), (2, r), (3, l * r)):
            self.spec[SymVar(t, i)] = x
        return i

    def same(self, a, b, what):
        if a != b:
            raise Refuted('%s: prover returned %r, verifier returned %r' % (what, a, b))

    def expect(self, got, want, what):
        if got != want:
            raise Refuted('%s: returned %r, specified %r' % (what, got, want))

    def step(self, op, P=None, V=None):
        h = self.h
        P = P or self.p
        V = V or self.v
        j = self.k
        self.k += 1
        x, y = fsym('x', j), fsym('y', j)
        D = h.ex.deref
        new = []
        if op == 'commit':
            com, pv = D(h.meth(P, 'commit', x, y)).xs
            vv = D(h.meth(V, 'commit', com))
            self.same(pv, vv, 'commit')
            m = sum(1 for v in self.spec if v.tag.c == 0)
            self.expect(pv, SymVar(0, m), 'commit')
            if not h.zero(h.ex.P(com) - (x * fsym('g') + y * fsym('h'))):
                raise Refuted('commit returns %s' % poly_str(h.ex.P(com)))
            self.spec[SymVar(0, m)] = x
            new = [pv]
        elif op == 'mul_alloc':
            a = D(ok(h.meth(P, 'allocate_multiplier', Some(Tup((x, y)))), 'allocate_multiplier'))
            b = D(ok(h.meth(V, 'allocate_multiplier', NONE), 'allocate_multiplier'))
            self.same(a, b, 'allocate_multiplier')
            i = self.new_mult(x, y)
            self.expect(a, Tup((SymVar(1, i), SymVar(2, i), SymVar(3, i))), 'allocate_multiplier')
            new = list(a.xs)
        elif op in ('alloc', 'single'):
            nm = {'alloc': 'allocate', 'single': 'allocate_single'}[op]
            a = D(ok(h.meth(P, nm, Some(x)), nm))
            b = D(ok(h.meth(V, nm, NONE), nm))
            self.same(a, b, nm)
            if self.half is None:
                i = self.new_mult(x, ZERO)
                self.half = i
                w = SymVar(1, i)
                new = [w]
                w = w if op == 'alloc' else Tup((w, NONE))
            else:
                i = self.half
                self.half = None
                l = self.spec[SymVar(1, i)]
                self.spec[SymVar(2, i)] = x
                self.spec[SymVar(3, i)] = l * x
                w = SymVar(2, i)
                new = [w] + ([SymVar(3, i)] if op == 'single' else [])
                w = w if op == 'alloc' else Tup((w, Some(SymVar(3, i))))
            self.expect(a, w, nm)
        elif op == 'multiply':
            t1, t2 = self.pick_lc(j), self.pick_lc(j + 5)[::-1]
            a = D(h.meth(P, 'multiply', lc_val(h, t1), lc_val(h, t2)))
            b = D(h.meth(V, 'multiply', lc_val(h, t1), lc_val(h, t2)))
            self.same(a, b, 'multiply')
            i = self.new_mult(self.lcspec(t1), self.lcspec(t2))
            self.expect(a, Tup((SymVar(1, i), SymVar(2, i), SymVar(3, i))), 'multiply')
            self.want.append(t1 + [(SymVar(1, i), -ONE)])
            self.want.append(t2 + [(SymVar(2, i), -ONE)])
            new = list(a.xs)
        elif op == 'constrain':
            t = self.pick_lc(j)
            h.meth(P, 'constrain', lc_val(h, t))
            h.meth(V, 'constrain', lc_val(h, t))
            self.want.append(t)
        for v in new:
            if v in self.handed:
                raise Refuted('%s hands out %r again' % (op, v))
        self.handed += new
        self.vars += new

    def books(self, p, v, what):
        h = self.h
        s = h.ex.deref(p)
        q = h.ex.deref(v)
        pc, vc = h.constraints(p), h.constraints(v)
        if len(pc) != len(self.want) or len(vc) != len(self.want):
            raise Refuted('%s: %d constraints specified, the prover has %d, the verifier %d' % (what, len(self.want), len(pc), len(vc)))
        for i, t in enumerate(self.want):
            w = ZERO
            for x, c in t:
                w = w + c * uval(x)
            for side, lc in (('prover', pc[i]), ('verifier', vc[i])):
                if not h.zero(lc_value(h, lc, uval) - w):
                    raise Refuted('%s: constraint %d of the %s is not the one given' % (what, i, side))
        n = self.nm
        if h.num_vars(v) != Lin(n):
            raise Refuted('%s: verifier counts %s multipliers instead of %d' % (what, h.num_vars(v), n))
        for f, t in (('a_L', 1), ('a_R', 2), ('a_O', 3)):
            xs = [h.ex.P(x) for x in h.ex.deref(s.f[f]).items()]
            if len(xs) != n:
                raise Refuted('%s: %d entries in %s for %d multipliers' % (what, len(xs), f, n))
            for i, x in enumerate(xs):
                if not h.zero(x - self.spec[SymVar(t, i)]):
                    raise Refuted('%s: %s[%d] = %s, specified %s' % (what, f, i, poly_str(x), poly_str(self.spec[SymVar(t, i)])))
        # evaluation of a linear combination
        t = [(SymVar(4, 0), fsym('e0'))] + [(w, fsym('e', i)) for i, w in enumerate(self.spec)]
        e = h.ex.deref(h.meth(p, 'evaluate_lc', lc_val(h, t + t)))
        if not (isinstance(e, En) and e.var == 'Some') or not h.zero(h.ex.P(e.args[0]) - (self.lcspec(t) + self.lcspec(t))):
            raise Refuted('%s: evaluate_lc does not give the value under the recorded assignment' % what)
        if h.ex.deref(h.meth(v, 'evaluate_lc', lc_val(h, t))) != NONE:
            raise Refuted('%s: the verifier evaluates a linear combination' % what)


def sequences(seqs):
    def run():
        for seq in seqs:
            h = H()

            def go():
                pr = Pair(h, 0)
                for op in seq:
                    pr.step(op)
                pr.books(pr.p, pr.v, 'after %s' % (seq,))
                for f, want in (('num_constraints', len(pr.want)), ('num_multipliers', pr.nm)):
                    g = h.meth(pr.p, f)
                    if g != Lin(want):
                        raise Refuted('after %s: %s() = %s instead of %d' % (seq, f, g, want), {'seq': list(seq)})
                return UNIT
            try:
                single(h, go, 'calls %s' % (seq,))
            except Refuted as e:
                e.cex = {'seq': list(seq)}
                raise
    return run


def randomized(seqs):
    """the same books through the second-phase wrappers; phase 1 may end with a half-filled multiplier"""
    def run():
        for s1, s2 in seqs:
            h = H()

            def go():
                pr = Pair(h, 0)
                for op in s1:
                    pr.step(op)
                pr.half = None      # the half-filled multiplier is complete now (right = output = 0)
                st = {}

                def cb(tag):
                    def f(ex, rcs):
                        st[tag] = rcs
                        return Ok(UNIT)
                    return Clo(None, None, None, f)
                ok(h.meth(pr.p, 'specify_randomized_constraints', cb('p')), 'specify')
                ok(h.meth(pr.v, 'specify_randomized_constraints', cb('v')), 'specify')
                # run the deferred callbacks through the crate's own function
                p2 = h.meth(h.get(pr.p), 'create_randomized_constraints')
                v2 = h.meth(h.get(pr.v), 'create_randomized_constraints')
                rp = h.cell(St('RandomizingProver', {'prover': ok(p2, 'create_randomized_constraints')}))
                rv = h.cell(St('RandomizingVerifier', {'verifier': ok(v2, 'create_randomized_constraints')}))
                for op in s2:
                    pr.step(op, rp, rv)
                pr.books(h.cell(h.get(rp).f['prover']), h.cell(h.get(rv).f['verifier']), 'phase 2 after %s | %s' % (s1, s2))
                return UNIT
            single(h, go, 'calls %s | %s' % (s1, s2))
    return run


def lc_patterns(k, spec):
    """term lists of all the shapes a constraint may have, for constraint number k over the variables spec"""
    one = SymVar(4, 0)
    c = lambda *i: fsym('c', k, *i)
    pats = [[], [(one, c(0))], [(one, c(0)), (one, c(1))], [(one, ONE)], [(one, ZERO)]]
    by = {}
    for v in spec:
        by.setdefault(v.tag.c, []).append(v)
    for t, vs in sorted(by.items()):
        a, b = vs[0], vs[-1]
        pats += [[(a, c(0))], [(b, ONE)], [(a, c(0)), (a, c(1))], [(a, c(0)), (b, c(1)), (one, c(2))], [(one, c(0)), (b, c(1))], [(a, ZERO), (b, -ONE)]]
    if spec:
        pats += [[(v, c(i)) for i, v in enumerate(spec)], [(v, c(i)) for i, v in enumerate(reversed(spec))] + [(one, c(-1)), (spec[0], c(-2))]]
    return pats


def patterns(m, n, lo, hi):
    """every ordered pair of constraint shapes occurs in a row"""
    def order(K):
        out = [0]
        for i in range(K):
            for j in range(K):
                out += [i, j]
        return out
    return flattened(m, n, None, (lo, hi, order))


def flattened(m, n, q, pat=None):
    """flattened weights = z-power weighted sums; second occurrence of the same variable included"""
    def run():
        h = H()

        def go():
            pr = Pair(h, 0)
            for _ in range(m):
                pr.step('commit')
            for _ in range(n):
                pr.step('mul_alloc')
            if pat is not None:
                lo, hi, order = pat
                seq = order(len(lc_patterns(0, list(pr.spec))))
                for k in seq[int(len(seq) * lo):int(len(seq) * hi)]:
                    t = lc_patterns(pr.k, list(pr.spec))[k]
                    pr.k += 1
                    h.meth(pr.p, 'constrain', lc_val(h, t))
                    h.meth(pr.v, 'constrain', lc_val(h, t))
                    pr.want.append(t)
            for _ in range(q or 0):
                t = [(v, fsym('c', pr.k, i)) for i, v in enumerate(pr.spec)] + [(SymVar(4, 0), fsym('k', pr.k))]
                t = t + [(v, fsym('d', pr.k, i)) for i, (v, c) in enumerate(t) if i % 2 == 0]
                pr.k += 1
                h.meth(pr.p, 'constrain', lc_val(h, t))
                h.meth(pr.v, 'constrain', lc_val(h, t))
                pr.want.append(t)
            z = fsym('z')
            D = h.ex.deref
            a = D(h.meth(pr.p, 'flattened_constraints', z))
            b = D(h.meth(pr.v, 'flattened_constraints', z))
            want = {}
            zz = ONE
            for t in pr.want:
                zz = zz * z
                for v, c in t:
                    want[v] = want.get(v, ZERO) + c * zz
            for side, r in (('prover', a), ('verifier', b)):
                for (tag, sgn), w in zip(((1, 1), (2, 1), (3, 1), (0, -1)), r.xs):
                    k = m if tag == 0 else n
                    xs = D(w).items()
                    if len(xs) != k:
                        raise Refuted('%s: %d weights instead of %d' % (side, len(xs), k))
                    for i, x in enumerate(xs):
                        if not h.zero(h.ex.P(x) - want.get(SymVar(tag, i), ZERO).scale(sgn)):
                            raise Refuted('%s: weight %d of kind %d is %s' % (side, i, tag, poly_str(h.ex.P(x))[:200]))
            if not h.zero(h.ex.P(b.xs[4]) + want.get(SymVar(4, 0), ZERO)):
                raise Refuted('verifier: constant weight is %s' % poly_str(h.ex.P(b.xs[4]))[:200])
            return UNIT
        single(h, go, 'flattened_constraints')
    return run


# ---------------------------------------------------------------- arbitrary histories: the inductive step

def fam_state(h, pend, wrap):
    """prover and verifier in an arbitrary pair of states satisfying the coupling invariant"""
    n, m, q = isym('n'), isym('m'), isym('q')
    ex = h.ex
    for a in (n, m, q):
        ex.st.assume(b_ge0(a))
    AL = lambda i: fsym('AL', i)
    AR = lambda i: fsym('AR', i)
    if pend:
        # ... a multiplier k is half filled, others follow it
        k, r = isym('k'), isym('r')
        ex.st.assume(b_ge0(k))
        ex.st.assume(b_ge0(r))
        n = k + r + 1

        def seq(f, at):
            return Seq.fam(k, f).push(at).cat(Seq.fam(r, lambda i: f(i + k + 1)))
        aL = seq(AL, AL(k))
        aR = seq(AR, ZERO)
        aO = seq(lambda i: AL(i) * AR(i), ZERO)
        pnd = Some(k)
    else:
        k = None
        aL, aR, aO = Seq.fam(n, AL), Seq.fam(n, AR), Seq.fam(n, lambda i: AL(i) * AR(i))
        pnd = NONE
    cons = Seq.fam(q, lambda i: Opq('lc', i))
    pT, vT = h.transcript('lab'), h.transcript('lab')
    p, v = h.prover(pT), h.verifier(vT)

    def setf(ref, d):
        s = ex.deref(ref)
        f = dict(s.f)
        for kk, x in d.items():
            if kk not in f:
                raise Unsupported('no field %s' % kk)
            f[kk] = x
        return h.cell(St(s.name, f))
    p = setf(p, {'a_L': aL, 'a_R': aR, 'a_O': aO, 'v': Seq.fam(m, lambda i: fsym('v', i)), 'v_blinding': Seq.fam(m, lambda i: fsym('vb', i)),
                 'constraints': cons, 'pending_multiplier': pnd})
    v = setf(v, {'num_vars': n, 'V': Seq.fam(m, lambda i: fsym('V', i)), 'constraints': cons, 'pending_multiplier': pnd})
    if wrap:
        p = h.cell(St('RandomizingProver', {'prover': ex.deref(p)}))
        v = h.cell(St('RandomizingVerifier', {'verifier': ex.deref(v)}))
    return p, v, n, m, q, k, AL, AR, cons, aL, aR, aO, pnd


def step_inv(op, pend, wrap):
    def run():
        h = H()
        ex = h.ex
        D = ex.deref

        def go():
            p, v, n, m, q, k, AL, AR, cons, aL, aR, aO, pnd = fam_state(h, pend, wrap)
            x, y = fsym('x'), fsym('y')
            mm = m
            nn = n
            t1 = [(SymVar(4, 0), fsym('k1')), (SymVar(0, isym('j1')), fsym('l1')), (SymVar(1, isym('j2')), fsym('l2')),
                  (SymVar(2, isym('j3')), fsym('l3')), (SymVar(3, isym('j4')), fsym('l4'))]
            newc = []
            if op == 'commit':
                com, a = D(h.meth(p, 'commit', x, y)).xs
                b = D(h.meth(v, 'commit', com))
                want = SymVar(0, m)
                mm = m + 1
            elif op == 'mul_alloc':
                a = D(ok(h.meth(p, 'allocate_multiplier', Some(Tup((x, y)))), op))
                b = D(ok(h.meth(v, 'allocate_multiplier', NONE), op))
                want = Tup((SymVar(1, n), SymVar(2, n), SymVar(3, n)))
                aL, aR, aO = aL.push(x), aR.push(y), aO.push(x * y)
                nn = n + 1
            elif op == 'multiply':
                for j in ('j1',):
                    ex.st.assume(b_ge0(isym(j)))
                    ex.st.assume(b_lt(isym(j), m))
                L1 = lc_val(h, [(SymVar(4, 0), fsym('k1')), (SymVar(0, isym('j1')), fsym('l1'))])
                R1 = lc_val(h, [(SymVar(4, 0), fsym('k2')), (SymVar(0, isym('j1')), fsym('l2'))])
                a = D(h.meth(p, 'multiply', L1, R1))
                b = D(h.meth(v, 'multiply', L1, R1))
                want = Tup((SymVar(1, n), SymVar(2, n), SymVar(3, n)))
                l = fsym('k1') + fsym('l1') * fsym('v', isym('j1'))
                r = fsym('k2') + fsym('l2') * fsym('v', isym('j1'))
                aL, aR, aO = aL.push(l), aR.push(r), aO.push(l * r)
                newc = [(L1, SymVar(1, n)), (R1, SymVar(2, n))]
                nn = n + 1
            elif op in ('alloc', 'single'):
                nm = {'alloc': 'allocate', 'single': 'allocate_single'}[op]
                a = D(ok(h.meth(p, nm, Some(x)), nm))
                b = D(ok(h.meth(v, nm, NONE), nm))
                if pend:
                    want = SymVar(2, k)
                    if op == 'single':
                        want = Tup((want, Some(SymVar(3, k))))
                    rr = n - k - 1
                    aR = Seq.fam(k, AR).push(x).cat(Seq.fam(rr, lambda i: AR(i + k + 1)))
                    f = lambda i: AL(i) * AR(i)
                    aO = Seq.fam(k, f).push(AL(k) * x).cat(Seq.fam(rr, lambda i: f(i + k + 1)))
                    pnd = NONE
                else:
                    want = SymVar(1, n)
                    if op == 'single':
                        want = Tup((want, NONE))
                    aL, aR, aO = aL.push(x), aR.push(ZERO), aO.push(ZERO)
                    pnd = Some(n)
                    nn = n + 1
            else:
                lc = lc_val(h, t1)
                a = h.meth(p, 'constrain', lc)
                b = h.meth(v, 'constrain', lc)
                want = a
                newc = [(lc, None)]
            if a != b or a != want:
                raise Refuted('%s returns %r to the prover, %r to the verifier, specified %r' % (op, a, b, want))
            ps, vs = D(p), D(v)
            if wrap:
                ps, vs = D(ps.f['prover']), D(vs.f['verifier'])
            for nm, w in (('a_L', aL), ('a_R', aR), ('a_O', aO)):
                got = D(ps.f[nm])
                if not seq_same(h, got, w):
                    raise Undecided('%s: %s is %r, expected %r' % (op, nm, got, w))
            for nm, got, w in (('pending', D(ps.f['pending_multiplier']), pnd), ('pending (verifier)', D(vs.f['pending_multiplier']), pnd),
                               ('num_vars', D(vs.f['num_vars']), nn), ('len v', ex.seq_len(D(ps.f['v'])), mm),
                               ('len v_blinding', ex.seq_len(D(ps.f['v_blinding'])), mm), ('len V', ex.seq_len(D(vs.f['V'])), mm)):
                if got != w:
                    raise Undecided('%s: %s is %r, expected %r' % (op, nm, got, w))
            for side, s in (('prover', ps), ('verifier', vs)):
                c = D(s.f['constraints'])
                c0 = Seq(c.segs[:len(cons.segs)])
                rest = c.segs[len(cons.segs):]
                if c0 != cons or len(rest) != len(newc):
                    raise Undecided('%s: constraints of the %s' % (op, side))
                for g, (lc, var) in zip(rest, newc):
                    w = lc_value(h, lc, uval) - (uval(var) if var is not None else ZERO)
                    if not h.zero(lc_value(h, g.v, uval) - w):
                        raise Undecided('%s: new constraint of the %s' % (op, side))
            return UNIT
        outs = val1(ex.explore(go), op)
        if not outs:
            raise Undecided('no path')
    return run


def seq_same(h, a, b):
    if a == b:
        return True
    if len(a.segs) != len(b.segs):
        return False
    for x, y in zip(a.segs, b.segs):
        if x.k != y.k:
            return False
        if x.k == 'e':
            if not h.zero(h.ex.P(x.v) - h.ex.P(y.v)):
                return False
        elif Seq([x]) != Seq([y]):
            return False
    return True


def obligations(tier):
    fns = ['Prover::commit', 'Prover::allocate', 'Prover::allocate_multiplier', 'Prover::allocate_single', 'Prover::multiply',
           'Prover::constrain', 'Prover::evaluate_lc', 'Verifier::commit', 'Verifier::allocate', 'Verifier::allocate_multiplier',
           'Verifier::allocate_single', 'Verifier::multiply', 'Verifier::constrain']
    for wrap in (False, True):
        for op in OPS:
            if wrap and op == 'commit':
                continue
            for pend in (False, True):
                yield Ob('C07.step.%s%s%s' % ('phase2.' if wrap else '', op, '.half-filled' if pend else ''),
                         [f for f in fns if {'alloc': 'allocate', 'mul_alloc': 'allocate_multiplier', 'single': 'allocate_single'}.get(op, op) == f.split('::')[1]],
                         'from any pair of states satisfying the coupling invariant the call returns the same variable on both sides and re-establishes it',
                         step_inv(op, pend, wrap))
    al = [s for n in range(1, 4) for s in itertools.product(OPS, repeat=n)]
    for i in range(8):
        yield Ob('C07.histories.%d' % i, fns, 'every call sequence of length up to 3', sequences(al[i::8]), scope='call sequences of length <= 3; all values')
    rng = random.Random(5)
    lg = [tuple(rng.choice(OPS) for _ in range(14)) for _ in range(24 if tier == 'quick' else 200)]
    for i in range(4):
        yield Ob('C07.long.%d' % i, fns, 'longer call sequences', sequences(lg[i::4]), scope='sampled call sequences of length 14; all values')
    two = [(('commit', 'alloc'), ('alloc', 'single', 'multiply')), (('commit', 'multiply'), ('mul_alloc', 'alloc', 'constrain', 'alloc')),
           (('alloc', 'mul_alloc'), ('single', 'single', 'constrain')), ((), ('alloc', 'alloc', 'multiply'))]
    yield Ob('C07.phase2', fns + ['RandomizingProver::*', 'RandomizingVerifier::*', 'create_randomized_constraints'],
             'the wrappers of the second phase keep the same books; a half-filled multiplier is not continued', randomized(two), scope='4 histories')
    for m, n in ((0, 1), (2, 0), (2, 3)):
        for i in range(4):
            yield Ob('C07.flattened.pairs.m=%d.n=%d.part=%d' % (m, n, i), ['Prover::flattened_constraints', 'Verifier::flattened_constraints'],
                     'weights are the z-power weighted sums, constraints of every shape in every order of two', patterns(m, n, i / 4, (i + 1) / 4), scope='m=%d n=%d, every ordered pair of constraint shapes' % (m, n))
    for m, n, q in dict.fromkeys(((0, 0, 0), (1, 0, 1), (0, 1, 1), (2, 2, 3), (1, 4, 2), (3, 1, 5), (40, 0, 2), (1, 70, 1), (1, 1, 140)) + tuple(dict.fromkeys(t for L in literals(3, 400, CORE_FILES) for x in (L, L + 1) for t in ((x, 0, 2), (1, x, 1), (1, 1, x))))):
        yield Ob('C07.flattened.m=%d.n=%d.q=%d' % (m, n, q), ['Prover::flattened_constraints', 'Verifier::flattened_constraints'],
                 'weights are the z-power weighted sums of the constraints', flattened(m, n, q), scope='m=%d n=%d q=%d' % (m, n, q))
