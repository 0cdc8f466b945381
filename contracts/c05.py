from common import *
import gad


def no_panic_err(h, fn, what):
    outs = h.ex.explore(fn)
    val1(outs, what)
    if not outs:
        raise Undecided('no outcome')
    for o in outs:
        if not is_err(o.v):
            raise Refuted('%s: accepted / not an error: %r when %s' % (what, o.v, pc_str(o.st)))


def ipp_sizes(n1, n2):
    """verify with every wrong (len L, len R), incl. beyond the supported number"""
    def run():
        N = pow2ceil(n1 + n2)
        lg = log2(N)
        cases = [(a, b) for a in range(0, lg + 3) for b in range(0, lg + 3) if (a, b) != (lg, lg)]
        cases += [(31, 31), (32, 32), (33, 33), (64, 64), (lg, 40), (40, lg), (65, 65)]
        for la, lb in cases:
            h = H()
            c = Circuit(n1, n2, 1, 1, 0, two=n2 > 0)
            proof = symbolic_proof(h, la, lb)
            no_panic_err(h, lambda: run_verifier(h, c, [fsym('V0')], proof, gens('G', N), gens('H', N))[1],
                         'verify of a proof with %d L and %d R points for %d multipliers' % (la, lb, n1 + n2))
    return run


def scalars_sizes():
    for lg in (0, 1, 2, 3, 31, 32, 33, 63, 64, 65):
        for lr in sorted({0, 1, lg, lg + 1, max(lg - 1, 0)}):
            for n in (0, 1, 2, 3, 4, 5, 8, 9):
                if lg == lr and n == (1 << lg):
                    continue
                h = H()
                Lv = Seq.of([fsym('L', i) for i in range(lg)])
                Rv = Seq.of([fsym('R', i) for i in range(lr)])
                no_panic_err(h, lambda: h.static('IPP', 'verification_scalars', Lv, Rv, Lin(n), h.transcript('t')),
                             'verification_scalars with n=%d, %d L, %d R' % (n, lg, lr))
                if lg < 6 and n:
                    h = H()
                    f = lambda k, m: Seq.of([fsym(k, i) for i in range(m)])
                    no_panic_err(h, lambda: h.static('IPP', 'verify_ipp', Lin(n), h.transcript('t'), f('Gf', n), f('Hf', n), fsym('P'),
                                                     fsym('Q'), f('G', n), f('H', n), fsym('a'), fsym('b'), Lv, Rv),
                                 'verify_ipp with n=%d, %d L, %d R' % (n, lg, lr))


def generators(n1, n2):
    def run():
        n = n1 + n2
        N = pow2ceil(n)
        for side in ('prove', 'verify'):
            for lg_, lh in [(a, b) for a in range(0, N + 2) for b in range(0, N + 2)]:
                if lg_ >= N and lh >= N:
                    continue
                if n > 4 and not (lg_ in (0, n1, n, N - 1, N, N + 1) and lh in (0, n1, n, N - 1, N, N + 1)):
                    continue
                h = H()
                c = Circuit(n1, n2, 1, 1, 0, two=n2 > 0)
                G, Hh = gens('G', lg_), gens('H', lh)
                if side == 'prove':
                    fn = lambda: run_prover(h, c, G, Hh)[2]
                else:
                    proof = symbolic_proof(h, log2(N))
                    fn = lambda: run_verifier(h, c, [fsym('V0')], proof, G, Hh)[1]
                no_panic_err(h, fn, '%s with %d multipliers, %d G and %d H generators' % (side, n, lg_, lh))
    return run


def gadget_counts(name):
    """a gadget verifier given a wrong number of commitments returns an error"""
    def run():
        d = gad.GADGETS[name]
        for size in d.sizes[:2]:
            want = d.ncoms(size)
            for k in sorted({0, 1, max(0, want - 1), want + 1, want + 2}):
                if k == want:
                    continue
                h = H()
                coms = Seq.of([fsym('Vc', i) for i in range(k)])

                def go():
                    vf = h.verifier(h.transcript('t'))
                    return d.verify(h, vf, size, coms)
                no_panic_err(h, go, '%s given %d commitments instead of %d' % (d.verify_name, k, want))
    return run


def gadget_inputs(name):
    def run():
        d = gad.GADGETS[name]
        for what, fn in d.bad_inputs():
            h = H()
            no_panic_err(h, lambda: fn(h, h.prover(h.transcript('t'))), '%s: %s' % (d.prove_name, what))
    return run


def obligations(tier):
    for n1, n2 in [(0, 0), (1, 0), (2, 0), (3, 0), (2, 2), (5, 0), (0, 3), (9, 0), (4, 9), (33, 0), (65, 0), (64, 66)] + [(x, 0) for l in literals(4, 260, CORE_FILES, 3) for x in (l, l + 1)]:
        yield Ob('C05.rounds.n1=%d.n2=%d' % (n1, n2), ['Verifier::verify', 'IPP::verification_scalars'],
                 'wrong numbers of L/R points give an error', ipp_sizes(n1, n2), scope='%d+%d multipliers, L/R counts listed' % (n1, n2), timeout=100)
    yield Ob('C05.scalars', ['IPP::verification_scalars', 'IPP::verify_ipp'], 'wrong sizes give an error', scalars_sizes,
             scope='L/R counts up to 65, n up to 9', timeout=100)
    for n1, n2 in [(0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (0, 3), (5, 0), (3, 2), (16, 1), (33, 0), (20, 50)] + [(x, 0) for l in literals(4, 130, CORE_FILES, 3) for x in (l, l + 1)]:
        yield Ob('C05.generators.n1=%d.n2=%d' % (n1, n2), ['Prover::prove', 'Verifier::verify'],
                 'too few G or H generators give an error', generators(n1, n2), scope='%d+%d multipliers, all counts up to padded+1' % (n1, n2),
                 timeout=100)
    for g in gad.GADGETS:
        yield Ob('C05.commitments.' + g, [gad.GADGETS[g].verify_name], 'a wrong number of commitments gives an error', gadget_counts(g),
                 scope='two sizes', timeout=100)
        if gad.GADGETS[g].has_bad:
            yield Ob('C05.inputs.' + g, [gad.GADGETS[g].prove_name], 'inconsistent input lengths give an error', gadget_inputs(g),
                     scope='listed cases', timeout=100)
