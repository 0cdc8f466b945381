from common import *
from c03 import enc_value, same


class Scn:
    """phase-1: n1 multipliers, then `half` left halves allocated one by one; callbacks: list of scripts.
    a script is a list of steps: 'a' allocate, 'm' allocate_multiplier, 'x' multiply, 'c' challenge, ('n', script) nested, 'e' error"""

    def __init__(self, n1, half, cbs, m=1):
        self.n1, self.half, self.cbs, self.m = n1, half, cbs, m

    def tag(self):
        def s(x):
            return ''.join(y if isinstance(y, str) else '(' + s(y[1]) + ')' for y in x)
        return 'n1=%d.half=%d.cbs=%s' % (self.n1, self.half, '_'.join(s(c) for c in self.cbs) or 'none')


def vidx(h, v):
    v = h.ex.deref(v)
    return v.tag.c, v.idx.c


class Run:
    def __init__(self, h, sc, prover, T):
        self.h, self.sc, self.prover, self.T = h, sc, prover, T
        self.log, self.vars1, self.vars2, self.chals = [], [], [], []
        self.k = 0

    def fresh(self):
        self.k += 1
        return fsym('w', self.k)

    def vars_of(self, r):
        r = self.h.ex.deref(r)
        return [vidx(self.h, x) for x in (r.xs if isinstance(r, Tup) else [r])]

    def step(self, cs, s, name):
        h = self.h
        if s == 'a':
            r = ok(h.ex.deref(h.meth(cs, 'allocate', Some(self.fresh()) if self.prover else NONE)), 'allocate')
            return self.vars_of(r)
        if s == 'm':
            r = ok(h.ex.deref(h.meth(cs, 'allocate_multiplier', Some(Tup((self.fresh(), self.fresh()))) if self.prover else NONE)), 'allocate_multiplier')
            return self.vars_of(r)
        if s == 'x':
            r = h.ex.deref(h.meth(cs, 'multiply', lc_val(h, [(SymVar(0, 0), fsym('q'))]), lc_val(h, [(SymVar(4, 0), ONE)])))
            return self.vars_of(r)
        raise AssertionError(s)

    def cb(self, name, script):
        h = self.h

        def f(ex, rcs):
            self.log.append(('start', name, [e for e in events(h, self.T)]))
            for j, s in enumerate(script):
                if s == 'c':
                    ch = ex.P(h.meth(rcs, 'challenge_scalar', Bytes(['chal%s.%d' % (name, j)])))
                    self.chals.append(ch)
                    evs = events(h, self.T)
                    if not any(k == 'chal' and 'chal%s.%d' % (name, j) in repr(l) for k, l, p in evs):
                        raise Refuted('%s: the label given to challenge_scalar is not bound to the challenge' % ('prover' if self.prover else 'verifier'), CEX(self.sc))
                    self.log.append(('chal', name, len(events(h, self.T))))
                elif s == 'e':
                    self.log.append(('error', name))
                    return Err(Opq('callback failure'))
                elif isinstance(s, tuple):
                    nm = name + '.%d' % j
                    r = h.ex.deref(h.meth(rcs, 'specify_randomized_constraints', self.cb(nm, s[1])))
                    self.log.append(('nested returned', nm))
                    if is_err(r):
                        return r
                else:
                    self.vars2 += self.step(rcs, s, name)
            self.log.append(('end', name))
            return Ok(UNIT)
        return Clo(None, None, None, f)

    def build(self, cs):
        for _ in range(self.sc.n1):
            self.vars1 += self.step(cs, 'm', '')
        for _ in range(self.sc.half):
            self.vars1 += self.step(cs, 'a', '')
        for i, s in enumerate(self.sc.cbs):
            ok(self.h.ex.deref(self.h.meth(cs, 'specify_randomized_constraints', self.cb('%d' % i, s))), 'specify_randomized_constraints')
        if self.log:
            raise Refuted('a deferred callback runs while constraints are still being specified', CEX(self.sc))


def CEX(sc):
    return {'kind': 'twophase', 'n1': sc.n1, 'half': sc.half, 'cbs': sc.tag()}


def expected_log(sc):
    out = []
    fail = [False]

    def go(name, script):
        out.append(('start', name))
        for j, s in enumerate(script):
            if s == 'e':
                out.append(('error', name))
                return True
            if s == 'c':
                out.append(('chal', name))
            elif isinstance(s, tuple):
                f = go(name + '.%d' % j, s[1])
                out.append(('nested returned', name + '.%d' % j))
                if f:
                    return True
        out.append(('end', name))
        return False
    for i, s in enumerate(sc.cbs):
        if go(str(i), s):
            fail[0] = True
            break
    return out, fail[0]


def mults(sc):
    """number of multipliers in total"""
    def flat(s):
        for x in s:
            if isinstance(x, tuple):
                yield from flat(x[1])
            else:
                yield x
    n = sc.n1 + (sc.half + 1) // 2
    pend = False
    for c in sc.cbs:
        for x in flat(c):
            if x in 'mx':
                n += 1
            elif x == 'a':
                if not pend:
                    n += 1
                pend = not pend
    return n


def side(h, sc, prover, coms, proof, who):
    T = h.transcript('lab')
    r = Run(h, sc, prover, T)
    N = pow2ceil(mults(sc))
    G, Hh = gens('G', N), gens('H', N)
    if prover:
        cs = h.prover(T)
        coms = []
        for i in range(sc.m):
            coms.append(h.meth(cs, 'commit', fsym('v', i), fsym('vb', i)).xs[0])
        r.build(cs)
        res = h.ex.deref(h.meth(h.get(cs), 'prove', G, Hh))
    else:
        cs = h.verifier(T)
        for x in coms:
            h.meth(cs, 'commit', x)
        r.build(cs)
        res = h.ex.deref(h.meth(h.get(cs), 'verify', proof, fsym('g'), fsym('h'), G, Hh))
    return r, res, coms, events(h, T), challenges(h, T)


def check_side(h, sc, r, res, ev, chs, proof, who, nc):
    cex = CEX(sc)
    want, fail = expected_log(sc)
    got = [tuple(x[:2]) for x in r.log]
    if got != want:
        raise Refuted('%s: the deferred callbacks run as %s; prescribed %s' % (who, got, want), cex)
    if fail:
        if not is_err(res):
            raise Refuted('%s: a callback failed and the result is %r' % (who, res), cex)
        if res.args[0] != Opq('callback failure'):
            raise Refuted('%s: the error of the callback is replaced by %r' % (who, res.args[0]), cex)
    n1 = sc.n1 + (sc.half + 1) // 2
    u1 = {i for t, i in r.vars1 if t in (1, 2, 3)}
    for t, i in r.vars2:
        if t in (1, 2, 3) and (i in u1 or i < n1):
            raise Refuted('%s: a second-phase variable shares multiplier %d with the first phase' % (who, i), cex)
    first = None
    for x in r.log:
        if x[0] != 'start':
            continue
        e = x[2]
        msgs = [enc_value(p) for k, l, p in e if k == 'msg']
        elems = [p for k, p in msgs if k == 'elem']
        if len(elems) < nc + 3:
            raise Refuted('%s: callback %s runs before the first-phase commitments are in the transcript' % (who, x[1]), cex)
        if proof is not None:
            for nm, p in zip(('A_I1', 'A_O1', 'S1'), elems[nc:nc + 3]):
                if not h.zero(h.ex.P(p) - h.ex.P(proof.f[nm])):
                    raise Refuted('%s: callback %s runs when the transcript does not hold %s' % (who, x[1], nm), cex)
    # challenges handed to callbacks are the transcript's own, all different
    k = 0
    for c in r.chals:
        while k < len(chs) and not h.zero(h.ex.P(c) - chs[k]):
            k += 1
        if k == len(chs):
            raise Refuted('%s: a callback challenge is not the next challenge of the transcript' % who, cex)
        k += 1


def scenario(sc):
    def run():
        h = H()

        def go():
            r, res, coms, ev, chs = side(h, sc, True, None, None, 'prover')
            want, fail = expected_log(sc)
            if not fail and is_err(res):
                raise Refuted('prove fails: %r' % res, CEX(sc))
            proof = None if fail else res.args[0]
            check_side(h, sc, r, res, ev, chs, proof, 'prover', sc.m)
            vp = proof if proof is not None else symbolic_proof(h, log2(pow2ceil(mults(sc))))
            r2, res2, _, ev2, chs2 = side(h, sc, False, coms, vp, 'verifier')
            check_side(h, sc, r2, res2, ev2, chs2, vp, 'verifier', sc.m)
            if not fail:
                if r.vars2 != r2.vars2 or r.vars1 != r2.vars1:
                    raise Refuted('the callbacks get variables %s from the prover and %s from the verifier' % (r.vars2, r2.vars2), CEX(sc))
                if len(r.chals) != len(r2.chals) or any(not h.zero(a - b) for a, b in zip(r.chals, r2.chals)):
                    raise Refuted('the callbacks get different challenges on the two sides', CEX(sc))
                if is_err(res2):
                    raise Refuted('honest two-phase proof rejected', CEX(sc))
                same(h, ev, ev2)
            return UNIT
        if not val1(h.ex.explore(go), 'two-phase'):
            raise Undecided('no path')
    return run


def separators(prover):
    def run():
        h = H()

        def go():
            evs = []
            for cbs in ([], [['c']], [['c'], ['c']]):
                sc = Scn(1, 0, cbs)
                pr = None if prover else symbolic_proof(h, 0)
                r, res, coms, ev, chs = side(h, sc, prover, [fsym('Vc')], pr, '')
                k = next(i for i, e in enumerate(ev) if e[0] == 'chal')
                # everything after S1 and before the first challenge, as text
                evs.append([(e[1], e[2]) for e in ev[:k] if e[0] == 'msg' and enc_value(e[2])[0] == 'text'])
            if evs[0] == evs[1]:
                raise Refuted('a system with callbacks and one without use the same domain separation', CEX(Scn(1, 0, [])))
            if evs[1] != evs[2]:
                raise Undecided('separation depends on the number of callbacks')
            return UNIT
        if not val1(h.ex.explore(go), 'separators'):
            raise Undecided('no path')
    return run


SCN = [Scn(1, 0, []), Scn(1, 0, [['m', 'c']]), Scn(0, 0, [['c', 'm']]), Scn(0, 1, [['a', 'c']]), Scn(1, 1, [['a', 'a', 'c']]), Scn(2, 1, [['c', 'm', 'a']]),
       Scn(1, 3, [['x', 'a'], ['c', 'a', 'x']]), Scn(2, 0, [['c'], ['m'], ['c', 'a']]), Scn(1, 1, [['c', ('n', ['c', 'a']), 'm'], ['a', 'c']]),
       Scn(1, 2, [['a', ('n', ['m', ('n', ['c'])]), ('n', ['c']), 'c']]), Scn(1, 0, [['e']]), Scn(1, 1, [['m', 'c'], ['e'], ['c']]),
       Scn(0, 1, [['a', 'e'], ['m']]), Scn(1, 0, [['c', ('n', ['m', 'e']), 'm'], ['c']]), Scn(1, 0, [['c'], ['c'], ['e']]),
       Scn(1, 0, [['c', 'c', 'c']]), Scn(3, 1, [['c', 'a'], ['a', 'c'], ['a'], ['c', 'm']]), Scn(0, 1, []), Scn(2, 1, [[]])]


def more():
    for L in literals(3, 24, CORE_FILES):
        yield Scn(1, 0, [['c']] * (L + 1))
        yield Scn(1, 0, [['m'] * (L + 1) + ['c']])
        yield Scn(L + 1, 1, [['a', 'c']])
        yield Scn(1, 0, [['c'] * (L + 1)])


def obligations(tier):
    for s in SCN + list(more()):
        yield Ob('C18.' + s.tag(), ['Prover::prove', 'Verifier::verify', 'create_randomized_constraints', 'specify_randomized_constraints', 'challenge_scalar'],
                 'callbacks once, in order, after the phase-1 commitments; own transcript challenges; fresh multipliers; errors returned; both sides alike',
                 scenario(s), scope='this shape of callbacks; all values')
    for p in (True, False):
        yield Ob('C18.separators.' + ('prover' if p else 'verifier'), ['create_randomized_constraints'], 'different domain separation with and without callbacks', separators(p), scope='all values')
