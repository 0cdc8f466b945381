from circ import *
from c11 import PP, M, fixed_commitments, check_honest
import itertools, random

R = random.Random(1201)


def hashk(ar):
    return {4: 4, 8: 8}[ar]


def hash_spec(ar, pp, xs, kind):
    return pp.spec([0] + list(xs), kind)[1].v


def digits(idx, ar, d):
    """least significant first"""
    return [(idx // ar ** i) % ar for i in range(d)]


def root_spec(ar, d, leaf, idx, sibs, H):
    """sibs: d lists of ar-1 nodes, root level first.  H: list -> node"""
    cur = leaf
    for l, dig in enumerate(digits(idx, ar, d)):
        row = list(sibs[d - 1 - l])
        row.insert(dig, cur)
        cur = H(row)
    return cur


def verify_fn(h, ar, d, root, pp, kind):
    n = 2 + (ar - 1) * d
    return lambda vf, vs: h.call('verify_leaf_inclusion_%d_ary_merkle_tree' % ar, root, Lin(d), pp.value(), SB(kind),
                                 Seq.of([fsym('Vc', i) for i in range(n)]), fsym('g'), fsym('h'), vf)


class HashContract:
    """callee contract of Poseidon_hash_{4,8}_constraints (established by C11): the returned linear combination has the value of the
    hash of the values of the inputs, provided the padding variable holds zero"""

    def __init__(self, h, ar, pp, kind, prover, d):
        self.h, self.ar, self.pp, self.kind, self.prover, self.d = h, ar, pp.value(), SB(kind), prover, d
        self.calls = []
        h.ex.contracts['Poseidon_hash_%d_constraints' % ar] = self.stub

    def stub(self, ex, args, fn):
        cs, inputs, st, pp, sb = args
        if ex.deref(pp) != self.pp or ex.deref(sb) != self.kind:
            raise Undecided('the hash is called with other parameters')
        st = ex.deref(st)
        pad = list(st.items()) if isinstance(st, Seq) else [st]
        if len(pad) != 1:
            raise Undecided('%d padding inputs' % len(pad))
        k = len(self.calls)
        ins = [ex.as_lc(ex.deref(x)) for x in ex.deref(inputs).items()]
        if len(ins) != self.ar:
            raise Undecided('hash of %d inputs' % len(ins))
        node = fsym('node', k)
        if self.prover:
            var = ex.deref(ex.deref(self.h.meth(cs, 'commit', node, ZERO)).xs[1])
        else:
            var = ex.deref(self.h.meth(cs, 'commit', fsym('Nc', k)))
        self.calls.append((ins, ex.as_lc(pad[0]), var))
        return Ok(ex.as_lc(var))


def expected_rows(ar, d, l, V0, S, node):
    """children at level l (leaf level is 0) for each digit"""
    prev = V0 if l == 0 else node(l - 1)
    for dig in range(ar):
        row = [S(d - 1 - l, i) for i in range(ar - 1)]
        row.insert(dig, prev)
        yield dig, row


def exact(ar, d):
    """the constraints are exactly: bits are bits, the index is the number of its digits, children are arranged by the digit, the last hash is the root"""
    def run():
        try:
            core()
        except Undecided as e:
            # not the recognised form: look for a concrete wrong answer, with the real hash
            top = ar ** d
            cand = [[(i, i)] for i in samples(ar, d)[:70 if d < 3 else 6]] + [[(0, top)], [(1, MODP - 1)], [(top - 1, 2 * top - 1)], [(0, top // 2 * 5)]]
            if d == 0:
                cand = [[(0, 0)], [(0, 1)]]
            if d:
                cand.insert(0, [(sum(min(i % ar, ar - 1) * ar ** i for i in range(d)),) * 2])
            for c in cand:
                try:
                    numeric(ar, d, 'Cube', c)()
                except Undecided:
                    pass
            raise e

    def core():
        h = H()
        kind = 'Quint'
        pp = PP(ar + 1, 1, 0, 1)
        hc = HashContract(h, ar, pp, kind, False, d)
        st = Stmt(h, verify_fn(h, ar, d, fsym('root'), pp, kind), 0, 'inclusion circuit')
        if len(hc.calls) != d:
            raise Undecided('%d hash calls for depth %d' % (len(hc.calls), d))
        fx, n = fixed_commitments(h, st)
        sub = {fatom('V', i): fc(x) for i, x in fx.items()}
        hv = {}
        for k, (_, _, var) in enumerate(hc.calls):
            sub[fatom('V', var.idx)] = fsym('node', k)
            hv[k] = var.idx
        # every commitment the statement reads is accounted for
        ncom = 2 + (ar - 1) * d
        known = set(range(ncom)) | {int(str(i)) for i in fx} | {int(str(v)) for v in hv.values()}
        if known != set(range(n)):
            raise Undecided('unexplained commitments %s' % sorted(set(range(n)) ^ known))
        order = [poly_str(h.ex.P(x)) for x in h.ex.deref(st.vf).f['V'].items()[:ncom]]
        if order != [poly_str(fsym('Vc', i)) for i in range(ncom)]:
            raise Undecided('commitment order')
        idx = fatom('V', 1)
        eqs = [subst(e, sub) for e in st.eqs()]
        keep = lambda a: (a[0] == 'f' and a[1] in ('V', 'node', 'root') and a != idx) or a[0] != 'f'
        res, trail = eliminate(eqs, keep, lambda a: 9 if a == idx else prefer(a))
        nb = {4: 2, 8: 3}[ar] * d
        bits = [is_bit_eq(e) for e in res]
        roots = [e for e, b in zip(res, bits) if b is None]
        bits = {b for b in bits if b is not None}
        last = fsym('node', d - 1) if d else fsym('V', 0)
        if len(bits) != nb or len(res) != nb + 1 or not same_up_to_unit(h, roots[0], last - fsym('root')):
            raise Undecided('residual equations: %d bits of %d, others %s' % (len(bits), nb, [poly_str(e)[:100] for e in roots[:3]]))

        def final(p):
            p = subst(p, sub)
            for a, v in trail:
                if a in alg.pvars(p):
                    p = subst(p, {a: v})
            return p
        li = linear(final(Poly.atom(idx)))
        if li is None or set(li[0]) - bits:
            raise Undecided('index is %s' % poly_str(final(Poly.atom(idx)))[:100])
        # a negative weight: the variable is the complement of the bit
        byw, neg, off = {}, set(), 0
        for b, w in li[0].items():
            if w > MODP // 2:
                w = MODP - w
                neg.add(b)
                off += w
            byw[w] = b
        if li[1] != off % MODP:
            raise Undecided('index is %s' % poly_str(final(Poly.atom(idx)))[:100])
        if sorted(byw) != [2 ** i for i in range(nb)] and nb:
            raise Undecided('index weights %s' % sorted(byw)[:6])
        lg = {4: 2, 8: 3}[ar]
        for l, (ins, pad, _) in enumerate(hc.calls):
            if not h.zero(final(h.lc_eval(pad, atom_val))):
                raise Undecided('the padding input is not zero')
            ps = [final(h.lc_eval(x, atom_val)) for x in ins]
            for dig, row in expected_rows(ar, d, l, fsym('V', 0), lambda r, i: fsym('V', 2 + (ar - 1) * r + i), lambda k: fsym('node', k)):
                bs = {byw[2 ** (lg * l + j)]: fc(((dig >> j) & 1) ^ (byw[2 ** (lg * l + j)] in neg)) for j in range(lg)}
                for j, (p, w) in enumerate(zip(ps, row)):
                    if not h.zero(subst(p, bs) - w):
                        raise Undecided('level %d digit %d child %d is %s' % (l, dig, j, poly_str(subst(p, bs))[:150]))
    return run


def honest(ar, d, idxs):
    """honest witness for all leaves and siblings"""
    def run():
        for idx in idxs:
            try:
                one(idx)
            except Undecided as e:
                try:
                    numeric(ar, d, 'Cube', [(idx, idx)])()
                except Undecided:
                    pass
                raise e

    def one(idx):
        if 1:
            h = H()
            kind = 'Quint'
            pp = PP(ar + 1, 1, 0, 1)
            sib = [[fsym('s', r, i) for i in range(ar - 1)] for r in range(d)]
            root = fsym('node', d - 1) if d else fsym('leaf')
            box = {}

            def go():
                hc = box['hc'] = HashContract(h, ar, pp, kind, True, d)
                pv = h.prover(h.transcript('t'))
                ok(h.call('prove_leaf_inclusion_%d_ary_merkle_tree' % ar, fsym('leaf'), fc(idx), Some(Seq.of([fsym('r1'), fsym('r2')])),
                          Seq.of([Seq.of(r) for r in sib]), root, Lin(d), pp.value(), SB(kind), NONE, pv), 'prove')
                return pv
            g = {'gadget': 'merkle', 'kind': 'honest', 'arity': ar, 'depth': d, 'index': str(idx)}
            outs = val1(h.ex.explore(go), 'inclusion prover')
            if len(outs) != 1:
                raise Undecided('%d paths' % len(outs))
            h.ex.st = outs[0].st
            pv = outs[0].v
            val = h.prover_val(pv)
            hc = box['hc']
            if len(hc.calls) != d:
                raise Undecided('hash calls')
            for l, (ins, pad, _) in enumerate(hc.calls):
                row = list(sib[d - 1 - l])
                row.insert(digits(idx, ar, d)[l], fsym('leaf') if l == 0 else fsym('node', l - 1))
                for j in range(ar):
                    if not h.zero(h.lc_eval(ins[j], val) - row[j]):
                        raise Undecided('index %d level %d child %d' % (idx, l, j))
            for i, c in enumerate(h.constraints(pv)):
                if not h.zero(h.lc_eval(c, val)):
                    raise Refuted('honest inclusion proof at index %d, depth %d: constraint %d does not hold' % (idx, d, i), g)
    return run


def numeric(ar, d, kind, cases):
    """with the real hash: the true root is accepted, every other root is rejected, the index must be the right one"""
    def run():
        pp = PP(ar + 1, 1, 0, 1, off=7)
        for idx, sidx in cases:
            leaf = CONSTS[(3 + idx) % 100]
            sib = [[CONSTS[400 + 10 * r + i] for i in range(ar - 1)] for r in range(d)]
            Hh = lambda xs: hash_spec(ar, pp, xs, kind)
            want = root_spec(ar, d, leaf, idx % ar ** d, sib, Hh)
            g = dict(pp.cex(), gadget='merkle', arity=ar, depth=d, sbox=kind, leaf=str(leaf), index=str(sidx % MODP), siblings=[[str(x) for x in r] for r in sib])
            V = [leaf, sidx % MODP] + [x for r in sib for x in r]
            h = H()
            st = Stmt(h, verify_fn(h, ar, d, fsym('root'), pp, kind), 0, 'inclusion circuit')
            fx, n = fixed_commitments(h, st)
            sub = {fatom('V', i): fc(x) for i, x in list(fx.items()) + list(enumerate(V))}
            eqs = [subst(e, sub) for e in st.eqs()]
            if idx == sidx:
                r = solve_sys([subst(e, {fatom('root'): fc(want)}) for e in eqs])
                if r.sat is False:
                    raise Refuted('inclusion of index %d at depth %d: true statement is unsatisfiable' % (idx, d), dict(g, kind='honest', img=str(want)))
                if r.sat is None:
                    raise Undecided(r.why)
                extra = [(fsym('root') - fc(want)) * fsym('zz') - ONE]
            else:
                extra = []      # an index outside the tree: no root at all
            r = solve_sys(eqs + extra)
            if r.sat:
                full = V + [int(str(fx.get(i, 0))) for i in range(len(V), n)]
                wr = r.sol.get(fatom('root'), 0)
                raise Refuted('inclusion circuit accepts root %d for index %d at depth %d, the root is %d' % (wr, sidx, d, want),
                              dict(g, kind='evil', img=str(wr), **st.witness(r.sol, full)))
            if r.sat is None:
                raise Undecided(r.why)
            h = H()

            def go():
                pv = h.prover(h.transcript('t'))
                ok(h.call('prove_leaf_inclusion_%d_ary_merkle_tree' % ar, fc(leaf), fc(idx), Some(Seq.of([fsym('r1'), fsym('r2')])),
                          Seq.of([fl(r) for r in sib]), fc(want), Lin(d), pp.value(), SB(kind), NONE, pv), 'prove')
                return pv
            if idx == sidx:
                check_honest(h, go, 'inclusion of index %d at depth %d' % (idx, d), dict(g, kind='honest', img=str(want)))
    return run


def solve_sys(eqs, limit=20000):
    s = alg.System(eqs)
    s.limit = limit
    return s.solve({}, prefer)


def lengths(ar):
    """sibling lists of another length than the depth requires are an error for both sides"""
    def run():
        pp = PP(ar + 1, 1, 0, 1)
        for d in range(0, 5):
            for n in range(0, 5 * (ar - 1)):
                if n == d * (ar - 1):
                    continue
                h = H()
                outs = val1(h.ex.explore(lambda: h.call('verify_leaf_inclusion_%d_ary_merkle_tree' % ar, fsym('root'), Lin(d), pp.value(), SB('Cube'),
                                                         Seq.of([fsym('Vc', i) for i in range(2 + n)]), fsym('g'), fsym('h'), h.verifier(h.transcript('t')))), 'lengths')
                for o in outs:
                    if not is_err(o.v):
                        raise Refuted('verifier accepts %d sibling commitments for depth %d' % (n, d), {'gadget': 'merkle', 'kind': 'lengths', 'arity': ar, 'depth': d, 'n': n})
            for n in range(0, 5):
                if n == d:
                    continue
                h = H()
                outs = val1(h.ex.explore(lambda: h.call('prove_leaf_inclusion_%d_ary_merkle_tree' % ar, fc(3), fc(0), Some(fl([1, 2])), Seq.of([fl(range(ar - 1))] * n), fsym('root'), Lin(d),
                                                         pp.value(), SB('Cube'), NONE, h.prover(h.transcript('t')))), 'lengths')
                for o in outs:
                    if not is_err(o.v):
                        raise Refuted('prover accepts %d proof nodes for depth %d' % (n, d), {'gadget': 'merkle', 'kind': 'lengths', 'arity': ar, 'depth': d, 'n': n})
    return run


def samples(ar, d):
    top = ar ** d
    if top <= 64:
        return list(range(top))
    s = {0, 1, top - 1, top // 2, sum(((i * 3 + 1) % ar) * ar ** i for i in range(d)), sum(((i * 5 + 2) % ar) * ar ** i for i in range(d))}
    return sorted(s)


def obligations(tier):
    big = tier == 'thorough'
    for ar in (4, 8):
        fns = ['verify_leaf_inclusion_%d_ary_merkle_tree' % ar, 'vanilla_merkle_merkle_tree_%d_verif_gadget' % ar]
        maxd = 127 if ar == 4 else 84
        ds = list(range(0, 18)) + [24, 32] if not big else list(range(0, maxd + 1))
        for d in ds:
            yield Ob('C12.exact.%d-ary.depth=%d' % (ar, d), fns, 'the circuit is exactly: digits are digits, index is the number they encode, children arranged by the digit, last hash is the root; all leaves, siblings, roots, params (hash by contract)',
                     exact(ar, d), scope='depth %d' % d, timeout=120 if not big else 600)
        for d in list(range(0, 10)) + ([12, 16, 17, 32, 33] if big else [12, 17]):
            yield Ob('C12.honest.%d-ary.depth=%d' % (ar, d), ['prove_leaf_inclusion_%d_ary_merkle_tree' % ar, fns[1]], 'honest witness, all leaves, siblings and params (hash by contract)',
                     honest(ar, d, samples(ar, d)), scope='depth %d, %d indices' % (d, len(samples(ar, d))), timeout=120)
        for d in (1, 2) if ar == 4 else (1,):
            for kind in ('Cube', 'Quint', 'Inverse'):
                idxs = [i for i in range(ar ** d)] if d == 1 else [0, 6, 9, 15]
                yield Ob('C12.numeric.%d-ary.depth=%d.%s' % (ar, d, kind), fns, 'real hash: only the true root at the stated index', numeric(ar, d, kind, [(i, i) for i in idxs]),
                         scope='depth %d, listed leaves' % d, timeout=120)
            yield Ob('C12.numeric.%d-ary.depth=%d.outside' % (ar, d), fns, 'an index outside the tree is rejected', numeric(ar, d, 'Cube', [(0, ar ** d), (3, ar ** d + 3), (1, -1)]),
                     scope='depth %d' % d, timeout=120)
        yield Ob('C12.lengths.%d-ary' % ar, fns, 'number of siblings must match the depth', lengths(ar), scope='depth and node counts up to 4')
