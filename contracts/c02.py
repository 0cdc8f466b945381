from common import *

SHAPES = [(0, 0, 0, 0, 0), (0, 0, 1, 0, 0), (2, 0, 0, 0, 0), (0, 0, 1, 1, 0), (1, 0, 1, 1, 0), (2, 0, 2, 2, 0), (3, 0, 1, 2, 0), (4, 0, 3, 1, 0), (5, 0, 0, 2, 0), (0, 2, 1, 0, 2),
          (1, 1, 1, 1, 1), (2, 1, 2, 1, 1), (1, 2, 1, 1, 1), (3, 2, 1, 1, 2), (3, 0, 1, 1, 1), (6, 3, 2, 2, 1)]
MIX = [(2, 0, 2, 14, 0), (1, 2, 1, 7, 7), (0, 1, 3, 0, 13), (0, 0, 2, 8, 0), (3, 0, 0, 70, 0), (2, 2, 2, 40, 30)]
BIG = [(8, 0, 1, 3, 0), (4, 7, 2, 2, 2), (2, 0, 1, 102, 0), (1, 1, 1, 51, 52), (1, 0, 300, 1, 0), (33, 0, 1, 1, 0), (20, 21, 1, 1, 1), (102, 30, 1, 1, 1), (15, 2, 1, 1, 1)]


def spec(c, ch, r, proof, coms, G, Hh):
    """the two halves of the Bulletproofs R1CS verification equation, from the paper, for the circuit c"""
    chal, (y, z, u, x, w), us = ch
    f = proof.f
    ip = proof.f['ipp_proof'].f
    n1, n = c.n1, c.n1 + c.n2
    N = pow2ceil(n)
    lg = log2(N)
    wL = [ZERO] * N
    wR = [ZERO] * N
    wO = [ZERO] * N
    wV = [ZERO] * c.m
    wc = ZERO
    zk = ONE
    for k in range(c.q1 + c.q2):
        zk = zk * z
        ph = 1 if k < c.q1 else 2
        row = [(v, co) for v, co, _ in c.row(k, ph, chal if ph == 2 else None)] + [(SymVar(4, 0), co) for co in c.const(k, ZERO)]
        for v, co in row:
            t, i = v.tag.c, v.idx.c
            if t == 1:
                wL[i] = wL[i] + zk * co
            elif t == 2:
                wR[i] = wR[i] + zk * co
            elif t == 3:
                wO[i] = wO[i] + zk * co
            elif t == 0:
                wV[i] = wV[i] - zk * co
            else:
                wc = wc - zk * co
    yi = y.inverse(True)
    delta = ZERO
    yp = ONE
    ypow = []
    for i in range(N):
        ypow.append(yp)
        delta = delta + yp * wR[i] * wL[i]
        yp = yp * yi
    s = []
    for i in range(N):
        t = ONE
        for j in range(lg):          # challenge j is drawn in round j; it decides bit lg-1-j
            t = t * (us[j] if (i >> (lg - 1 - j)) & 1 else us[j].inverse(True))
        s.append(t)
    a, b = ip['a'], ip['b']
    g, hh = fsym('g'), fsym('h')
    # x*A_I + x^2*A_O + x^3*S + ... - e_blinding*h + w(t_x - ab) g + <.,G> + <.,H> + <u^2,L> + <u^-2,R> = 0
    Pc = x * f['A_I1'] + x * x * f['A_O1'] + x * x * x * f['S1'] + u * (x * f['A_I2'] + x * x * f['A_O2'] + x * x * x * f['S2'])
    Pc = Pc - f['e_blinding'] * hh + w * (f['t_x'] - a * b) * g
    for i in range(N):
        uf = ONE if i < n1 else u
        Pc = Pc + uf * (x * ypow[i] * wR[i] - a * s[i]) * fsym('G', i)
        si = s[N - 1 - i]
        Pc = Pc + uf * (ypow[i] * (x * wL[i] + wO[i] - b * si) - ONE) * fsym('H', i)
    for j in range(lg):
        Pc = Pc + us[j] * us[j] * ip['L'].items()[j] + (us[j] * us[j]).inverse(True) * ip['R'].items()[j]
    # x^2 <wV, V> + x T_1 + x^3 T_3 + ... + (x^2 (wc + delta) - t_x) g - t_x_blinding h = 0
    Tc = ZERO
    for i in range(c.m):
        Tc = Tc + x * x * wV[i] * coms[i]
    for k in (1, 3, 4, 5, 6):
        Tc = Tc + x.pow(Lin(k)) * f['T_%d' % k]
    Tc = Tc + (x * x * (wc + delta) - f['t_x']) * g - f['t_x_blinding'] * hh
    return Pc, Tc


def exact(shape, mix=False):
    def run():
        n1, n2, m, q1, q2 = shape
        h = H()
        c = Circuit(n1, n2, m, q1, q2)
        c.free_const = True
        c.mix = mix
        N = pow2ceil(n1 + n2)
        lg = log2(N)
        proof = symbolic_proof(h, lg)
        coms = [fsym('Vc', i) for i in range(m)]
        G, Hh = gens('G', N + 1), gens('H', N + 1)

        def go():
            T, r = run_verifier(h, c, coms, proof, G, Hh)
            return r, challenges(h, T)
        outs = val1(h.ex.explore(go), 'Verifier::verify')
        acc, rej = accepted(outs)
        if not acc:
            raise Refuted('no proof is accepted: %r' % [o.v[0] for o in outs][:3])
        for o in acc:
            chs = o.v[1]
            k = 1 if c.two else 0
            if len(chs) != k + 5 + lg:
                raise Undecided('unexpected number of challenges: %d' % len(chs))
            ch = (chs[0] if k else None, chs[k:k + 5], chs[k + 5:])
            Pc, Tc = spec(c, ch, None, proof, coms, G, Hh)
            eqs, other = feqs(o.st)
            eqs = [h.ex.unfold(e) for e in eqs]
            comps = []
            for e in eqs:
                rs = rand_atoms(e)
                parts = coeffs_in(e, lambda a: a in rs)
                comps += [parts[k2] for k2 in parts]
            if not eqs:
                raise Refuted('accepts with no equation checked, path: ' + pc_str(o.st))
            for nm, want in (('inner-product half', Pc), ('t(x) half', Tc)):
                if not any(same_up_to_unit(h, p, want) for p in comps):
                    best = min((p - want for p in comps), key=lambda d: len(d.m))
                    raise Refuted('the %s of the verification equation is not what the protocol prescribes; it differs by %s' % (
                        nm, poly_str(best)[:600]))
            if len(comps) != 2:
                raise Undecided('additional equations are checked')
            if other:
                raise Undecided('further conditions: %s' % other[:2])
        # rejection only when the equation fails: every rejecting path carries the negation of one checked equation
        for o in rej:
            if not any(isinstance(x, tuple) and x[0] == 'not' and x[1][0] == 'feq' for x in o.st.pc):
                raise Refuted('a proof is rejected without the equation failing: %r when %s' % (o.v[0], pc_str(o.st)))
    return run


def obligations(tier):
    for s in SHAPES + BIG + core_sizes(SHAPES + BIG):
        yield Ob('C02.equation.n1=%d.n2=%d.m=%d.q=%d+%d' % s, ['Verifier::verify', 'Verifier::flattened_constraints',
                                                              'IPP::verification_scalars'],
                 'for every proof, commitment, generator and constraint: accepted iff both halves of the R1CS equation hold',
                 exact(s), scope='circuit size %s; all field and group values' % (s,), timeout=100)
    for s in MIX:
        yield Ob('C02.shapes.n1=%d.n2=%d.m=%d.q=%d+%d' % s, ['Verifier::verify', 'Verifier::flattened_constraints'],
                 'the same with constraints of none, one and repeated terms', exact(s, True), scope='circuit size %s; all field and group values' % (s,), timeout=100)
