from common import *
import gad
from gad import GADGETS
from c17 import randomizer_parts

SHAPES = [(0, 0, 1, 1, 0), (1, 0, 1, 1, 0), (2, 0, 2, 1, 0), (3, 0, 1, 1, 0), (5, 0, 1, 1, 0), (8, 0, 1, 1, 0), (0, 2, 1, 0, 1), (1, 1, 1, 1, 1),
          (2, 3, 1, 1, 1), (3, 1, 2, 1, 1), (4, 0, 1, 1, 1), (5, 4, 1, 1, 1)]


def is_rand(a):
    return a[0] == 'f' and a[1] in ('rnd', 'ur')


def linrow(h, p, what):
    """p as a linear form in the random atoms (the part free of them is dropped): {atom: coefficient mod p}"""
    p = h.ex.unfold(P(p))
    row = {}
    for mo, c in p.m.items():
        r = [(a, e) for a, e in mo if is_rand(a)]
        if not r:
            continue
        if len(mo) != 1 or len(r) != 1 or r[0][1] != Lin(1):
            raise Undecided('%s: the blinding is not a linear form of drawn scalars: %s' % (what, p))
        row[r[0][0]] = fr(c)
    return row


def coeff(h, p, sym):
    """coefficient of a generator symbol in a group element"""
    at = next(iter(next(iter(fsymp(sym).m))))[0]
    q = coeffs_in(h.ex.unfold(P(p)), lambda a: a == at)
    for k in q:
        if k and (len(k) != 1 or k[0][1] != Lin(1)):
            raise Undecided('not linear in a generator')
    return q.get(((at, Lin(1)),), ZERO)


def fsymp(s):
    return s if isinstance(s, Poly) else fsym(*s)


def independent(rows):
    """rows: [(name, {atom: c})] -> name of the first row in the span of the earlier ones, or None"""
    basis = []
    for nm, r in rows:
        r = dict(r)
        for piv, b in basis:
            c = r.get(piv)
            if c:
                for a, x in b.items():
                    y = (r.get(a, 0) - c * x) % MODP
                    if y:
                        r[a] = y
                    else:
                        r.pop(a, None)
        if not r:
            return nm
        piv = next(iter(r))
        iv = pow(r[piv], -1, MODP)
        r = {a: x * iv % MODP for a, x in r.items()}
        for k, (q, b) in enumerate(basis):
            c = b.get(piv)
            if c:
                nb = dict(b)
                for a, x in r.items():
                    y = (nb.get(a, 0) - c * x) % MODP
                    if y:
                        nb[a] = y
                    else:
                        nb.pop(a, None)
                basis[k] = (q, nb)
        basis.append((piv, r))
    return None


def core(shape):
    def run():
        n1, n2, m, q1, q2 = shape
        h = H()
        c = Circuit(n1, n2, m, q1, q2)
        N = pow2ceil(n1 + n2)
        G, Hh = gens('G', N), gens('H', N)

        def go():
            return run_prover(h, c, G, Hh)
        outs = val1(h.ex.explore(go), 'prove')
        if not outs:
            raise Undecided('no path')
        for o in outs:
            h.ex.st = o.st
            T, coms, proof = o.v
            f = ok(proof, 'prove').f
            cex = {'kind': 'blind', 'shape': list(shape)}
            rows = []
            names = ['A_I1', 'A_O1', 'S1'] + (['A_I2', 'A_O2', 'S2'] if n2 else []) + ['T_1', 'T_3', 'T_4', 'T_5', 'T_6']
            for k in names:
                r = linrow(h, coeff(h, f[k], ('h',)), k)
                if not r:
                    raise Refuted('the commitment %s carries no random blinding' % k, cex)
                rows.append(('the blinding of ' + k, r))
            for k, lo, hi in (('S1', 0, n1), ('S2', n1, n1 + n2)):
                for i in range(lo, hi):
                    for gn in ('G', 'H'):
                        r = linrow(h, coeff(h, f[k], (gn, i)), k)
                        if not r:
                            raise Refuted('blinding vector entry %d (%s) in %s is not random' % (i, gn, k), cex)
                        rows.append(('the blinding vector entry %d (%s) in %s' % (i, gn, k), r))
            bad = independent(rows)
            if bad:
                raise Refuted('%s is determined by the other blindings (not fresh)' % bad, cex)
    return run


def weight(shape):
    """the verifier's combination of the two equations uses a scalar it draws itself"""
    def run():
        n1, n2, m, q1, q2 = shape
        h = H()
        c = Circuit(n1, n2, m, q1, q2)
        N = pow2ceil(n1 + n2)
        proof = symbolic_proof(h, log2(N))
        coms = [fsym('Vc', i) for i in range(m)]

        def go():
            return run_verifier(h, c, coms, proof, gens('G', N), gens('H', N))[1]
        outs = val1(h.ex.explore(go), 'verify')
        acc = [o for o in outs if isinstance(o.v, En) and o.v.var == 'Ok']
        if not acc:
            raise Undecided('no accepting path')
        for o in acc:
            h.ex.st = o.st
            eqs, other = feqs(o.st)
            eqs = [e for e in map(h.ex.unfold, eqs) if any(a[0] == 'f' and a[1] == 'p_T_1' for a in atoms_of(e)) or any(a[0] == 'f' and a[1] == 'p_S1' for a in atoms_of(e))]
            if len(eqs) >= 2:
                continue
            if not eqs:
                raise Undecided('no verification equation')
            rnd = rand_atoms(eqs[0])
            if len(rnd) != 1:
                raise Refuted('the two verification equations are added with a weight that is not drawn by the verifier', {'kind': 'weight', 'shape': list(shape)})
            parts = coeffs_in(eqs[0], is_rand)
            if not any(k for k in parts):
                raise Refuted('no random weight', {'kind': 'weight', 'shape': list(shape)})
    return run


def gadget(g, size, rand):
    def run():
        h = H()
        cex = {'gadget': g.name, 'kind': 'blindings', 'size': [str(x) for x in (size if isinstance(size, tuple) else (size,))], 'rand': rand is True}

        def go():
            T = h.transcript('t')
            pv = h.prover(T)
            coms = ok(h.ex.deref(g.prove(h, pv, size, rand)), g.prove_name)
            coms = h.ex.deref(coms)
            return [h.ex.P(x) for x in (coms.items() if isinstance(coms, Seq) else h.ex.deref(coms.xs[0]).items())]
        outs = val1(h.ex.explore(go), g.prove_name)
        if not outs:
            raise Undecided('no path')
        for o in outs:
            h.ex.st = o.st
            check_coms(h, o.v, g.prove_name, cex, rand is True)
    return run


def check_coms(h, coms, what, cex, given=False):
    rows = []
    for i, p in enumerate(coms):
        r = linrow(h, coeff(h, p, ('h',)), 'commitment %d' % i)
        if not r:
            raise Refuted('%s: commitment %d carries no random blinding' % (what, i), cex)
        rows.append(('the blinding of commitment %d' % i, r))
    bad = independent(rows)
    if bad:
        raise Refuted('%s: %s is determined by the other blindings' % (what, bad), cex)
    if given:
        seen = set()
        for nm, r in rows:
            for a in r:
                if a[1] == 'ur':
                    if len(r) != 1 or list(r.values()) != [1]:
                        raise Refuted('%s: the caller-supplied randomness is not used as given' % what, cex)
                    seen.add(a)
        return seen


def rnd_gadget(d, idx):
    def run():
        h = H()
        box, coms, cex = randomizer_parts(h, d, idx)
        check_coms(h, coms, 'gen_proof_for_randomizer', dict(cex, kind='blindings'))
    return run


def obligations(tier):
    big = tier == 'thorough'
    for s in SHAPES + ([(11, 6, 2, 1, 1), (17, 0, 1, 1, 0), (16, 16, 1, 1, 1)] if big else []) + core_sizes(SHAPES, 40, 10, 40):
        t = 'n1=%d.n2=%d.m=%d.q=%d+%d' % s
        yield Ob('C15.core.' + t, ['Prover::prove', 'commit_to_field_element', 'commit_to_field_element_vectors'],
                 'the blindings of all commitments and all blinding-vector entries are linearly independent forms of scalars drawn in this call',
                 core(s), scope='circuit size %s; all values' % (s,))
        yield Ob('C15.weight.' + t, ['Verifier::verify'], 'the verification equations are combined with a scalar drawn in this call', weight(s), scope='circuit size %s; all values' % (s,))
    for nm, g in GADGETS.items():
        for size in g.sizes:
            for rand in (True, NONE):
                t = '%s.%s.%s' % (nm, '-'.join(map(str, size)) if isinstance(size, tuple) else size, 'given' if rand is True else 'rng')
                yield Ob('C15.gadget.' + t, [g.prove_name], 'each returned commitment has a blinding independent of all others', gadget(g, size, rand), scope='size %s' % (size,))
    for d, idx in ((1, [2]), (2, [6, 9]), (2, [4, 5, 0])):
        yield Ob('C15.randomizer.depth=%d.at=%s' % (d, '-'.join(map(str, idx))), ['gen_proof_for_randomizer'], 'independent blindings', rnd_gadget(d, idx), scope='depth %d' % d)
