"""The gadgets of the crate as a table: how to call prove_*/verify_* on inputs of a given size."""
from common import *
import random

RNG = lambda: Some(Opq('rng'))
SB = lambda s: En('SboxType', s)


def fc(x):
    return Poly.const(x % MODP)


def fl(xs):
    return Seq.of([P(x) if isinstance(x, Poly) else fc(x) for x in xs])


_r = random.Random(77)
CONSTS = [_r.randrange(1, MODP) for _ in range(4000)]


def params(width, fb=1, fe=1, pr=1, sym=False, off=0):
    """Poseidon parameters with distinct constants"""
    nk = (fb + fe + pr) * width
    if sym:
        rk = [fsym('rk', i) for i in range(nk)]
        mds = [[fsym('mds', i, j) for j in range(width)] for i in range(width)]
    else:
        rk = [fc(CONSTS[off + i]) for i in range(nk)]
        mds = [[fc(CONSTS[2000 + off + i * width + j]) for j in range(width)] for i in range(width)]
    return St('PoseidonParams', {'width': Lin(width), 'full_rounds_beginning': Lin(fb), 'full_rounds_end': Lin(fe),
                                 'partial_rounds': Lin(pr), 'round_keys': Seq.of(rk),
                                 'MDS_matrix': Seq.of([Seq.of(r) for r in mds])})


def syms(n, *ix):
    return [fsym(n, *ix, i) for i in range(ix[-1] if False else 0)]


class G:
    has_bad = True
    prove_file = None

    def __init__(self):
        self.file = 'src/r1cs/gadgets/%s.rs' % self.modname

    def P_(self, h, *a):
        return h.call(self.prove_name, *a)

    def V_(self, h, *a):
        return h.call(self.verify_name, *a)

    def bad_inputs(self):
        return []

    def tag(self, size):
        return str(size)


class Bound(G):
    modname = 'bound_check'
    prove_name, verify_name = 'prove_bounded_num', 'verify_bounded_num'
    # lower, upper, bits, value
    sizes = [(3, 10, 3, 5), (0, 255, 8, 200), (7, 7, 1, 7), (0, 0, 0, 0), (2 ** 63, 2 ** 64 - 1, 63, 2 ** 64 - 2)]

    def ncoms(self, size):
        return 3

    def prove(self, h, pv, size, rand=True):
        lo, up, n, v = size
        r = Some(fsym('ur', 0)) if rand is True else rand
        return self.P_(h, Lin(v), r, Lin(lo), Lin(up), Lin(n), RNG() if rand is NONE else NONE, pv)

    def verify(self, h, vf, size, coms):
        lo, up, n, v = size
        return self.V_(h, Lin(lo), Lin(up), Lin(n), coms, vf)

    def bad_inputs(self):
        yield 'neither randomness nor rng', lambda h, pv: self.P_(h, Lin(5), NONE, Lin(3), Lin(10), Lin(3), NONE, pv)


class Hamming(G):
    modname = 'hamming_distance'
    prove_name, verify_name = 'prove_hamming_distance', 'verify_hamming_distance'
    sizes = [(2, 1), (3, 2), (1, 1), (4, 0)]

    def ncoms(self, size):
        return size[0]

    def vals(self, size):
        n, k = size
        return [100 + 7 * i for i in range(n)], [100 + 7 * i + (1 if i < k else 0) for i in range(n)]

    def prove(self, h, pv, size, rand=True):
        a, b = self.vals(size)
        return self.P_(h, fl(a), fl(b), Lin(size[1]), pv)

    def verify(self, h, vf, size, coms):
        a, b = self.vals(size)
        return self.V_(h, fl(b), Lin(size[1]), coms, vf)

    def bad_inputs(self):
        for a, b in ((2, 3), (3, 2), (0, 1), (1, 0)):
            yield '%d originals, %d new values' % (a, b), lambda h, pv, a=a, b=b: self.P_(
                h, fl(range(a)), fl(range(b)), Lin(1), pv)


class Mimc(G):
    modname = 'mimc'
    prove_name, verify_name = 'prove_mimc_preimage', 'verify_mimc_preimage'
    sizes = [1, 2, 3, 0]

    def ncoms(self, size):
        return 2

    def consts(self, size):
        return Seq.of([fsym('mc', i) for i in range(size)])

    def prove(self, h, pv, size, rand=True):
        r = Some(Seq.of([fsym('ur', 0), fsym('ur', 1)])) if rand is True else rand
        return self.P_(h, Seq.of([fsym('x', 0), fsym('x', 1)]), r, fsym('img'), self.consts(size), Lin(size),
                       RNG() if rand is NONE else NONE, pv)

    def verify(self, h, vf, size, coms):
        return self.V_(h, fsym('img'), self.consts(size), Lin(size), coms, vf)

    def bad_inputs(self):
        def f(a, b, rng=NONE):
            return lambda h, pv: self.P_(h, fl(range(a)), b if b is NONE else Some(fl(range(b))), fsym('img'), self.consts(1), Lin(1), rng, pv)
        yield 'neither randomness nor rng', f(2, NONE)
        for a in range(4):
            for b in range(4):
                if (a, b) != (2, 2):
                    yield '%d inputs, %d randomness' % (a, b), f(a, b)
            if a != 2:
                yield '%d inputs with rng' % a, f(a, NONE, RNG())


class NonZero(G):
    modname = 'non_zero'
    prove_name, verify_name = 'prove_non_zero_val', 'verify_non_zero_val'
    sizes = [0]

    def ncoms(self, size):
        return 2

    def prove(self, h, pv, size, rand=True):
        r = Some(fsym('ur', 0)) if rand is True else rand
        return self.P_(h, fc(12345), r, RNG() if rand is NONE else NONE, pv)

    def verify(self, h, vf, size, coms):
        return self.V_(h, coms, vf)

    def bad_inputs(self):
        yield 'neither randomness nor rng', lambda h, pv: self.P_(h, fc(5), NONE, NONE, pv)


class Poseidon(G):
    modname = 'poseidon_hash'

    def __init__(self, k):
        self.k = k
        self.prove_name = 'prove_knowledge_of_preimage_of_Poseidon_%d' % k
        self.verify_name = 'verify_knowledge_of_preimage_of_Poseidon_%d' % k
        self.sizes = [('Cube', 1, 1, 1), ('Quint', 1, 1, 1), ('Inverse', 1, 0, 1), ('Cube', 2, 1, 0)]
        G.__init__(self)

    def ncoms(self, size):
        return self.k

    def pp(self, size):
        return params(self.k + 1, *size[1:])

    def prove(self, h, pv, size, rand=True):
        k = self.k
        r = Some(fl([fsym('ur', i) for i in range(k)])) if rand is True else rand
        # numeric inputs, so that the linear combinations stay small
        return self.P_(h, fl([CONSTS[3000 + i] for i in range(k)]), r, fsym('img'), self.pp(size), SB(size[0]), RNG() if rand is NONE else NONE, pv)

    def verify(self, h, vf, size, coms):
        return self.V_(h, fsym('img'), self.pp(size), SB(size[0]), coms, fsym('g'), fsym('h'), vf)

    def bad_inputs(self):
        k = self.k

        def f(a, b, rng=NONE):
            return lambda h, pv: self.P_(h, fl(range(a)), b if b is NONE else Some(fl(range(b))), fsym('img'), self.pp(self.sizes[0]), SB('Cube'), rng, pv)
        yield 'neither randomness nor rng', f(k, NONE)
        for a in (0, k - 1, k, k + 1):
            for b in (0, k - 1, k, k + 1):
                if (a, b) != (k, k):
                    yield '%d inputs, %d randomness' % (a, b), f(a, b)
            if a != k:
                yield '%d inputs with rng' % a, f(a, NONE, RNG())


class SetMem(G):
    modname = 'set_membership'
    prove_name, verify_name = 'prove_set_membership', 'verify_set_membership'
    sizes = [2, 3, 1, 4]
    alt = False

    def ncoms(self, size):
        return size + 1

    def the_set(self, size):
        return [fsym('s', i) for i in range(size)] if not self.alt else [3 * i + 5 for i in range(size)]

    def mkset(self, size):
        s = self.the_set(size)
        return Seq.of([Lin(x) for x in s]) if self.alt else Seq.of(s)

    def value(self, size):
        return Lin(self.the_set(size)[size - 1]) if self.alt else fsym('s', size - 1)

    def prove(self, h, pv, size, rand=True):
        r = Some(fsym('ur', 0)) if rand is True else rand
        return self.P_(h, self.value(size), r, self.mkset(size), RNG() if rand is NONE else NONE, pv)

    def verify(self, h, vf, size, coms):
        return self.V_(h, self.mkset(size), coms, vf)

    def bad_inputs(self):
        yield 'neither randomness nor rng', lambda h, pv: self.P_(h, self.value(2), NONE, self.mkset(2), NONE, pv)


class SetMemAlt(SetMem):
    modname = 'set_membership_alt'
    prove_name, verify_name = 'prove_set_membership_alt', 'verify_set_membership_alt'
    alt = True


class SetNonMem(SetMem):
    modname = 'set_non_membership'
    prove_name, verify_name = 'prove_set_non_membership', 'verify_set_non_membership'

    def ncoms(self, size):
        return 2 * size + 1

    def the_set(self, size):
        return [fc(3 * i + 5) for i in range(size)]

    def value(self, size):
        return fc(4)


class Merkle(G):
    def __init__(self, ar):
        self.ar = ar
        self.modname = 'sparse_merkle_tree_%d_ary' % ar
        self.prove_name = 'prove_leaf_inclusion_%d_ary_merkle_tree' % ar
        self.verify_name = 'verify_leaf_inclusion_%d_ary_merkle_tree' % ar
        self.sizes = [(1, 'Quint'), (2, 'Cube'), (3, 'Quint')]
        G.__init__(self)

    def ncoms(self, size):
        return 2 + (self.ar - 1) * size[0]

    def pp(self, size):
        return params(self.ar + 1, 1, 0, 1)

    def nodes(self, n):
        return Seq.of([fl([CONSTS[3000 + 20 * i + j] for j in range(self.ar - 1)]) for i in range(n)])

    def index(self, size):
        return sum(((i * 5 + 2) % self.ar) * self.ar ** i for i in range(size[0]))

    def prove(self, h, pv, size, rand=True):
        r = Some(fl([fsym('ur', 0), fsym('ur', 1)])) if rand is True else rand
        return self.P_(h, fc(CONSTS[3500]), fc(self.index(size)), r, self.nodes(size[0]), fsym('root'), Lin(size[0]), self.pp(size),
                       SB(size[1]), RNG() if rand is NONE else NONE, pv)

    def verify(self, h, vf, size, coms):
        return self.V_(h, fsym('root'), Lin(size[0]), self.pp(size), SB(size[1]), coms, fsym('g'), fsym('h'), vf)

    def bad_inputs(self):
        s = self.sizes[0]

        def f(r, rng, nn, d):
            return lambda h, pv: self.P_(h, fc(9), fc(1), r, self.nodes(nn), fsym('root'), Lin(d), self.pp(s), SB('Cube'), rng, pv)
        yield 'neither randomness nor rng', f(NONE, NONE, 1, 1)
        for k in (0, 1, 3, 4):
            yield '%d blindings' % k, f(Some(fl(range(k))), NONE, 1, 1)
        for nn, d in ((0, 1), (2, 1), (1, 2), (1, 0), (3, 2)):
            yield '%d proof nodes, depth %d' % (nn, d), f(Some(fl(range(2))), NONE, nn, d)


GADGETS = {}
for g in (Bound(), Hamming(), Mimc(), NonZero(), Poseidon(2), Poseidon(4), Poseidon(8), SetMem(), SetMemAlt(), SetNonMem(), Merkle(4), Merkle(8)):
    k = g.modname + ('_%d' % g.k if isinstance(g, Poseidon) else '')
    g.name = k
    GADGETS[k] = g
