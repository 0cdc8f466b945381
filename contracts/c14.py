from circ import *
from c11 import PP, M, fixed_commitments
from c12 import digits, root_spec, hash_spec
from c13 import World, eqp
import itertools

AR = 4


def sibs(i, k, d):
    """positions of value i and its siblings (root level first) among the commitments"""
    base = 1 + i * (1 + 3 * d)
    return base, [[base + 1 + 3 * r + j for j in range(3)] for r in range(d)]


class Run:
    """the verifier's statement, recorded where Verifier::verify is called; the hash and the node store are by contract"""

    def __init__(self, d, idx, real=None):
        self.h = h = H()
        self.d, self.idx = d, idx
        self.k = k = len(idx)
        self.ncom = 1 + k * (1 + 3 * d)
        self.calls = []
        self.nodes = {}
        self.pp = PP(5, 1, 0, 1)
        self.w = World(h, AR, d, self.pp)
        self.real = real

    def stub(self, ex, args, fn):
        cs, ins, st, pp, sb = args
        if ex.deref(pp) != self.w.pp or ex.deref(sb) != SB('Quint'):
            raise Undecided('the hash is called with other parameters')
        ins = [ex.as_lc(ex.deref(x)) for x in ex.deref(ins).items()]
        pad = list(ex.deref(st).items())
        if len(ins) != 4 or len(pad) != 1:
            raise Undecided('hash inputs')
        var = ex.deref(self.h.meth(cs, 'commit', fsym('Nc', len(self.calls))))
        self.calls.append((ins, ex.as_lc(pad[0]), var))
        return Ok(ex.as_lc(var))

    def H(self, ch):
        ch = tuple(ch)
        if ch not in self.nodes:
            self.nodes[ch] = fsym('node', len(self.nodes))
        return self.nodes[ch]

    def go(self):
        h, d = self.h, self.d
        h.ex.contracts['Poseidon_hash_4_constraints'] = self.stub
        box = {}

        def verify(ex, args, fn):
            box['vf'] = ex.deref(args[0])
            return Ok(UNIT)
        h.ex.contracts['Verifier::verify'] = verify

        def f():
            self.root = self.w.subtree(d)
            db = h.cell(St('InMemoryHashDb', {'db': HMap(base=self.w)}))
            tree = h.cell(St('VanillaSparseMerkleTree_4', {'depth': Lin(d), 'hash_params': self.pp.value(), 'root': self.root}))
            r = h.call('verify_proof_for_randomizer', tree, db, fl(self.idx), Lin(d), self.pp.value(), SB('Quint'), Opq('proof'), Seq.of([fsym('Vc', i) for i in range(self.ncom)]),
                       Bytes(['lbl']), fsym('g'), fsym('h'), gens('G', 4), gens('H', 4))
            ok(h.ex.deref(r), 'verify_proof_for_randomizer')
            return box['vf']
        self.vf = single(h, f, 'randomizer verifier')
        return self


def exact(d, idx):
    """the constraints are exactly: each original path hashes to the committed root; the new tree with the originals written back hashes to it"""
    def run():
        r = Run(d, idx).go()
        h, k = r.h, r.k
        vs = r.vf.f['V'].items()
        if [poly_str(h.ex.P(x)) for x in vs[:r.ncom]] != [poly_str(fsym('Vc', i)) for i in range(r.ncom)]:
            raise Undecided('commitment order')
        sub = {}
        for i, p in enumerate(vs):
            dd = linear(h.ex.P(p))
            if dd is not None and set(dd[0]) <= {fatom('g')} and dd[1] == 0:
                sub[fatom('V', i)] = fc(dd[0].get(fatom('g'), 0))
        for ins, pad, var in r.calls:
            if not h.zero(subst(h.lc_eval(pad, atom_val), sub)):
                raise Undecided('padding is not zero')
            sub[fatom('V', var.idx)] = r.H([subst(h.lc_eval(x, atom_val), sub) for x in ins])
        if h.num_vars(h.cell(r.vf)).c != 0:
            raise Undecided('multipliers outside the hash')
        got = [subst(h.lc_eval(c, atom_val), sub) for c in r.vf.f['constraints'].items()]
        got = [e for e in got if not e.is_zero()]
        V = lambda i: fsym('V', i)
        want = []
        cont = {}
        for i, x in enumerate(idx):
            b, s = sibs(i, k, d)
            want.append(root_spec(AR, d, V(b), x % AR ** d, [[V(q) for q in row] for row in s], r.H) - V(0))
            cont[x % AR ** d] = V(b)

        def rebuilt(path, node):
            """the new tree with the originals written over it"""
            lo = 0
            for p in path:
                lo = lo * AR + p
            span = AR ** (d - len(path))
            if not any(lo * span <= x < (lo + 1) * span for x in cont):
                return node
            if len(path) == d:
                return cont[lo]
            return r.H([rebuilt(path + (j,), c) for j, c in enumerate(r.w.expand(node))])
        want.append(rebuilt((), r.root) - V(0))
        for e in want:
            if not any(same_up_to_unit(h, g, e) for g in got):
                raise Undecided('constraint %s is missing' % poly_str(e)[:100])
        for g in got:
            if not any(same_up_to_unit(h, g, e) for e in want):
                raise Undecided('further constraint %s' % poly_str(g)[:100])
    return run


class Dup(Exception):
    pass


def honest(d, idx):
    """gen_proof_for_randomizer on an arbitrary original tree and the new tree with arbitrary values written at the indices: every constraint holds,
    the commitments are those the verifier expects"""
    def run():
        h = H()
        pp = PP(5, 1, 0, 1)
        w = World(h, AR, d, pp)
        box = {'pv': None}

        def stub(ex, args, fn):
            cs, ins, st, p2, sb = args
            val = h.prover_val(cs)
            node = w.node([h.lc_eval(ex.as_lc(ex.deref(x)), val) for x in ex.deref(ins).items()])
            var = ex.deref(ex.deref(h.meth(cs, 'commit', node, ZERO)).xs[1])
            return Ok(ex.as_lc(var))

        def prove(ex, args, fn):
            box['pv'] = ex.deref(args[0])
            return Ok(Opq('proof'))
        h.ex.contracts['Poseidon_hash_4_constraints'] = stub
        h.ex.contracts['Prover::prove'] = prove
        ty = 'VanillaSparseMerkleTree_4'

        def go():
            root = w.subtree(d)
            db = h.cell(St('InMemoryHashDb', {'db': HMap(base=w)}))
            ndb = h.cell(St('InMemoryHashDb', {'db': HMap(base=w)}))
            tree = h.cell(St(ty, {'depth': Lin(d), 'hash_params': pp.value(), 'root': root}))
            new = h.cell(St(ty, {'depth': Lin(d), 'hash_params': pp.value(), 'root': root}))
            vals = []
            for j, i in enumerate(idx):
                vals.append(w.path(root, i)[0])
                ok(h.ex.deref(h.meth(new, 'update', fc(i), fsym('mod', j), ndb)), 'update')
            r = h.call('gen_proof_for_randomizer', tree, db, new, ndb, fl(idx), Seq.of(vals), Lin(d), pp.value(), SB('Quint'), Bytes(['lbl']), fsym('g'), fsym('h'), gens('G', 4), gens('H', 4))
            pr, coms = ok(h.ex.deref(r), 'gen_proof_for_randomizer').xs
            pv = box['pv']
            val = h.prover_val(h.cell(pv))
            g = {'gadget': 'randomizer', 'kind': 'honest', 'depth': d, 'indices': [str(x) for x in idx]}
            for n, c in enumerate(pv.f['constraints'].items()):
                if not h.zero(h.lc_eval(c, val)):
                    raise Refuted('randomizer depth %d indices %s: constraint %d of the honest prover does not hold' % (d, idx, n), g)
            want = [root]
            for j, i in enumerate(idx):
                leaf, s = w.path(root, i)
                want += [leaf] + [x for row in s for x in row]
            got = [h.ex.P(x) for x in pv.f['v'].items()][:len(want)]
            if len(h.ex.deref(coms).items()) != len(want) or any(not eqp(h, a, b) for a, b in zip(got, want)):
                raise Refuted('randomizer: committed values are not root, values and their siblings', g)
            return UNIT
        single(h, go, 'randomizer prover')
    return run


# ------------------------------------------------------------------ numeric, real hash

def numeric(d, idx):
    def run():
        pp = PP(5, 1, 0, 1, off=9)
        Hh = lambda xs: hash_spec(AR, pp, xs, 'Quint')
        top = AR ** d
        orig = {i: CONSTS[600 + i] for i in range(top)}

        def tree(cont):
            """levels: list of node lists, leaves first"""
            lv = [[cont.get(i, 0) for i in range(top)]]
            while len(lv[-1]) > 1:
                x = lv[-1]
                lv.append([Hh(x[i:i + AR]) for i in range(0, len(x), AR)])
            return lv

        def proof(lv, i):
            out = []
            for l in range(d):
                b = i - i % AR
                out.append([lv[l][b + j] for j in range(AR) if j != i % AR])
                i //= AR
            return list(reversed(out))
        new = dict(orig)
        for j, i in enumerate(idx):
            new[i] = CONSTS[700 + j]
        free = next((i for i in range(top) if i not in idx), None)

        def statement(newc):
            h = H()
            h.ex.fuel = 10 ** 8
            lv = tree(newc)
            box = {}

            def verify(ex, args, fn):
                box['vf'] = ex.deref(args[0])
                return Ok(UNIT)
            h.ex.contracts['Verifier::verify'] = verify

            def f():
                ents = []
                for l in range(1, len(lv)):
                    for j, n in enumerate(lv[l]):
                        ents.append((Bytes([('enc', 'fe', fc(n))]), fl(lv[l - 1][AR * j:AR * j + AR])))
                db = h.cell(St('InMemoryHashDb', {'db': HMap(ents)}))
                t = h.cell(St('VanillaSparseMerkleTree_4', {'depth': Lin(d), 'hash_params': pp.value(), 'root': fc(lv[-1][0])}))
                r = h.call('verify_proof_for_randomizer', t, db, fl(idx), Lin(d), pp.value(), SB('Quint'), Opq('proof'), Seq.of([fsym('Vc', i) for i in range(1 + len(idx) * (1 + 3 * d))]),
                           Bytes(['lbl']), fsym('g'), fsym('h'), gens('G', 4), gens('H', 4))
                ok(h.ex.deref(r), 'verify_proof_for_randomizer')
                return box['vf']
            vf = single(h, f, 'randomizer verifier')
            st = Stmt.__new__(Stmt)
            st.h = h
            st.vf = h.cell(vf)
            st.n = h.num_vars(st.vf).c
            st.cons = [h.lc_eval(c, atom_val) for c in h.constraints(st.vf)]
            st.gates = [fsym('AL', i) * fsym('AR', i) - fsym('AO', i) for i in range(st.n)]
            return st

        def V(cont, newc=None, claim=None):
            lv = tree(cont)
            out = [lv[-1][0]]
            for j, i in enumerate(idx):
                out.append(cont[i] if not claim or j not in claim else claim[j])
                out += [x for row in proof(lv, i) for x in row]
            return out
        scen = [('honest', new, V(orig), True)]
        if free is not None:
            bad = dict(new)
            bad[free] = CONSTS[800]
            scen.append(('another leaf of the new tree differs', bad, V(orig), False))
        for j in range(len(idx)):
            # a value that is not in the original tree; the root is that of the new tree with the claimed values written back
            claim = {j: CONSTS[810 + j]}
            cont = dict(new)
            for q, i in enumerate(idx):
                cont[i] = claim.get(q, orig[i])
            v = V(orig, None, claim)
            v[0] = tree(cont)[-1][0]
            if len(idx) == 1:       # with the siblings of the other tree the statement would be true
                v[sibs(0, 1, d)[1][0][0]] = CONSTS[825]
            scen.append(('value %d is not in the original tree' % j, new, v, False))
            v = V(orig, None, claim)
            scen.append(('value %d is not in the original tree, true root' % j, new, v, False))
            # siblings of another tree
            v = V(orig)
            b, s = sibs(j, len(idx), d)
            v[s[0][0]] = CONSTS[820]
            scen.append(('a sibling of value %d is wrong' % j, new, v, False))
        v = V(orig)
        v[0] = CONSTS[830]
        scen.append(('another root', new, v, False))
        for what, nc, vals, good in scen:
            st = statement(nc)
            fx, n = fixed_commitments(st.h, st)
            full = vals + [fx.get(i, 0) for i in range(len(vals), n)]
            g = dict(pp.cex(), gadget='randomizer', depth=d, indices=[str(x) for x in idx], new=[str(nc[i]) for i in range(top)], orig=[str(orig[i]) for i in range(top)])
            if good:
                must_accept(st, full, 'randomizer: ' + what, dict(g, kind='honest'))
            else:
                must_reject(st, full, 'randomizer: ' + what, g)
    return run


def indices(n, size):
    """distinct indices below the data size, at most the number asked for, all of them unless the draws repeat"""
    def run():
        h = H()
        outs = val1(h.ex.explore(lambda: h.call('get_indices_to_modify', fsym('nonce'), Lin(size), Lin(n))), 'get_indices_to_modify')
        full = 0
        for o in outs:
            v = h.ex.deref(o.v)
            if not (isinstance(v, Opq) and v.kind == 'hset'):
                raise Undecided('result')
            xs = [h.ex.deref(x) for x in v.data[0].items()]
            h.ex.st = o.st
            if len(xs) > n:
                raise Refuted('%d indices chosen, %d asked for' % (len(xs), n), {'gadget': 'randomizer', 'kind': 'indices', 'n': n, 'size': size})
            full += len(xs) == n
            for x in xs:
                q = x.data[0] if isinstance(x, Opq) and x.kind == 'big' else L(x) if isinstance(x, Lin) else None
                if q is None:
                    raise Undecided('index %r' % (x,))
                if h.ex.decide(b_lt(q, Lin(size))) is not True or h.ex.decide(b_ge0(q)) is not True:
                    t = str(q)
                    if not (t.startswith('mod(') and t.endswith(',%d)' % size)):
                        raise Undecided('index %s' % t)
        if not full:
            raise Refuted('never as many indices as asked for', {'gadget': 'randomizer', 'kind': 'indices', 'n': n, 'size': size})
    return run


def data(n):
    """exactly the chosen positions change, their previous values are recorded, the new value is the hash of the old"""
    def run():
        for k in range(0, n + 1):
            for idx in itertools.combinations(range(n), k):
                h = H()

                def go():
                    s = Opq('hset', Seq.of([fc(i) for i in idx]))
                    return h.ex.deref(h.call('get_randomized_data', Seq.of([fsym('d', i) for i in range(n)]), s)), [h.ex.P(h.call('randomize', fsym('d', i))) for i in range(n)]
                v, rz = single(h, go, 'get_randomized_data')
                m, nd = h.ex.deref(v.xs[0]), h.ex.deref(v.xs[1])
                g = {'gadget': 'randomizer', 'kind': 'data', 'n': n, 'indices': [str(i) for i in idx]}
                xs = [h.ex.P(x) for x in nd.items()]
                if len(xs) != n:
                    raise Refuted('length of the randomized data', g)
                for i in range(n):
                    if not eqp(h, xs[i], rz[i] if i in idx else fsym('d', i)):
                        raise Refuted('position %d of the randomized data' % i, g)
                ents = {str(h.ex.deref(a)): h.ex.P(b) for a, b in m.ents}
                if len(m.ents) != k:
                    raise Refuted('recorded originals', g)
                for i in idx:
                    r = h.ex.map_find(m, fc(i))
                    if r is None or not eqp(h, r, fsym('d', i)):
                        raise Refuted('the original of position %d is not recorded' % i, g)
    return run


def obligations(tier):
    big = tier == 'thorough'
    fns = ['verify_proof_for_randomizer', 'randomizer_gadget']
    cases = [(1, [0]), (1, [3]), (1, [0, 1]), (1, [2, 0, 3]), (1, [3, 2, 1, 0]), (2, [0]), (2, [15]), (2, [6, 9]), (2, [4, 5]), (2, [5, 4, 7, 6]), (2, [0, 15, 3, 12, 8]),
             (3, [0]), (3, [63, 0]), (3, [21, 22, 37]), (3, [1, 5, 17, 33, 2]), (5, [0, 1023]), (5, [341, 342, 682, 500]), (9, [131072, 5])]
    if big:
        cases += [(2, list(range(16))), (4, [0, 255, 64, 65, 128, 7]), (12, [2 ** 20, 2 ** 21 + 5, 3]), (17, [2 ** 33, 1])]
        cases += [(2, list(p)) for p in itertools.permutations([1, 2, 9], 2)]
    for d, idx in cases:
        t = 'depth=%d.at=%s' % (d, '-'.join(map(str, idx)))
        yield Ob('C14.exact.' + t, fns, 'exactly: every original path gives the committed root and the new tree with the originals written back gives it; all trees and values (hash and node store by contract)',
                 exact(d, idx), scope='depth %d, listed indices' % d)
        yield Ob('C14.honest.' + t, ['gen_proof_for_randomizer', 'randomizer_gadget'], 'honest prover on an arbitrary original tree', honest(d, idx), scope='depth %d, listed indices' % d)
    for d, idx in ((1, [2]), (1, [0, 3]), (2, [6]), (2, [6, 9]), (2, [4, 5])):
        yield Ob('C14.numeric.depth=%d.at=%s' % (d, '-'.join(map(str, idx))), fns, 'real hash: true statements satisfiable, false ones not', numeric(d, idx), scope='listed trees')
    for n, size in ((0, 4), (1, 1), (1, 16), (2, 16), (2, 3), (3, 64)):
        yield Ob('C14.indices.n=%d.size=%d' % (n, size), ['get_indices_to_modify'], 'distinct indices below the size, for every nonce', indices(n, size), scope='%d of %d' % (n, size))
    for n in (1, 2, 4):
        yield Ob('C14.data.n=%d' % n, ['get_randomized_data', 'randomize'], 'exactly the chosen positions change; originals recorded; all values, all index sets', data(n), scope='data of length %d' % n)
