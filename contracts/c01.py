from common import *

SHAPES = [  # n1, n2, m, q1, q2, extra generators
    (0, 0, 1, 1, 0, 0), (0, 0, 0, 0, 0, 1), (1, 0, 1, 1, 0, 0), (2, 0, 2, 2, 0, 0), (3, 0, 1, 2, 0, 0), (4, 0, 1, 2, 0, 3),
    (5, 0, 2, 3, 0, 0), (7, 0, 1, 1, 0, 2), (8, 0, 1, 1, 0, 0), (9, 0, 0, 2, 0, 0),
    (0, 1, 1, 1, 1, 0), (0, 3, 1, 1, 2, 1), (1, 1, 1, 1, 1, 0), (2, 1, 2, 1, 2, 0), (3, 2, 2, 2, 2, 0), (1, 4, 1, 1, 1, 2),
    (2, 2, 1, 0, 0, 0), (3, 0, 1, 1, 1, 0), (4, 4, 1, 1, 1, 1), (2, 0, 0, 0, 0, 0), (6, 2, 3, 1, 1, 0),
]
MIX = [(2, 0, 2, 14, 0, 0), (1, 2, 1, 7, 7, 0), (0, 1, 3, 0, 13, 1), (0, 0, 2, 8, 0, 0), (3, 0, 0, 70, 0, 0), (2, 2, 2, 40, 30, 0)]
BIG = [(16, 0, 2, 2, 0, 0), (11, 6, 2, 2, 2, 1), (2, 0, 1, 102, 0, 0), (33, 0, 1, 1, 0, 0), (1, 0, 300, 1, 0, 0), (17, 3, 1, 1, 1, 0), (4, 13, 3, 3, 3, 5), (31, 2, 1, 1, 1, 1)]


def complete(shape, mix=False):
    def run():
        n1, n2, m, q1, q2, extra = shape
        h = H()
        c = Circuit(n1, n2, m, q1, q2)
        c.mix = mix
        n = 1
        while n < n1 + n2:
            n *= 2
        G, Hh = gens('G', n + extra), gens('H', n + extra)

        def go():
            T, coms, proof = run_prover(h, c, G, Hh)
            proof = ok(proof, 'Prover::prove on a satisfied circuit')
            T2, r = run_verifier(h, c, coms, proof, G, Hh)
            return r
        outs = val1(h.ex.explore(go), 'prove/verify')
        acc = 0
        for o in outs:
            if isinstance(o.v, En) and o.v.var == 'Ok':
                acc += 1
            else:
                raise Refuted('a satisfied circuit with %s is rejected: %r when %s' % (shape, o.v, pc_str(o.st)))
        if not acc:
            raise Undecided('no path')
    return run


def obligations(tier):
    for s in SHAPES + (BIG if tier == 'thorough' else BIG[:5]) + [s + (0,) for s in core_sizes([x[:5] for x in SHAPES + BIG], 40, 105)]:
        yield Ob('C01.complete.n1=%d.n2=%d.m=%d.q=%d+%d.extra=%d' % s,
                 ['Prover::prove', 'Verifier::verify', 'IPP::create_ipp', 'IPP::verification_scalars'],
                 'every satisfying assignment, all coefficients, blindings and challenges: verify(prove()) = Ok',
                 complete(s), scope='circuit size %s; all field values' % (s,), timeout=100)
    for s in MIX:
        yield Ob('C01.shapes.n1=%d.n2=%d.m=%d.q=%d+%d.extra=%d' % s, ['Prover::prove', 'Verifier::verify'],
                 'the same with constraints of none, one and repeated terms', complete(s, True), scope='circuit size %s; all field values' % (s,), timeout=100)
