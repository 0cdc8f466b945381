from circ import *
from c11 import PP, M
from c12 import digits, root_spec, hash_spec
import itertools, random

SEED = 1300


class World:
    """Nodes of a tree under the no-collision assumption: a node is determined by its children and determines them.
    Callee contract of Poseidon_hash_{4,8}: an injective function of the inputs (parameters and S-box fixed).
    `arbitrary` trees are expanded lazily: an unread subtree is unconstrained."""

    def __init__(self, h, ar, d, pp):
        self.h, self.ar, self.d = h, ar, d
        self.rng = random.Random(SEED + ar * 100 + d)
        self.by_children, self.children = {}, {}
        self.pp = pp.value()
        self.level = {}
        self.nleaf = 0
        self.sb = None
        h.ex.contracts['Poseidon_hash_%d' % ar] = self.hash

    def fresh(self):
        return fc(self.rng.randrange(2 ** 200, MODP))

    def node(self, ch):
        ch = tuple(ch)
        if ch not in self.by_children:
            n = self.fresh()
            self.by_children[ch] = n
            self.children[n] = ch
        return self.by_children[ch]

    def hash(self, ex, args, fn):
        ins, pp, sb = args
        if ex.deref(pp) != self.pp:
            raise Undecided('hash with other parameters')
        sb = ex.deref(sb)
        if self.sb is None:
            self.sb = sb
        if sb != self.sb:
            raise Undecided('hash with different S-boxes')
        xs = [ex.P(x) for x in ex.deref(ins).items()]
        if len(xs) != self.ar:
            raise Undecided('hash of %d inputs' % len(xs))
        return self.node(xs)

    # an arbitrary tree
    def subtree(self, level):
        """a fresh node with `level` levels below it"""
        if level == 0:
            self.nleaf += 1
            return fsym('old', self.nleaf)
        n = self.fresh()
        self.level[n] = level
        return n

    def expand(self, n):
        if n not in self.children and n in self.level:
            ch = tuple(self.subtree(self.level[n] - 1) for _ in range(self.ar))
            self.children[n] = ch
            self.by_children[ch] = n
        return self.children.get(n)

    def lookup(self, ex, k):
        k = ex.deref(k)
        if isinstance(k, Bytes) and len(k.parts) == 1 and k.parts[0][0] == 'enc' and k.parts[0][1] == 'fe':
            n = ex.P(k.parts[0][2])
            if n in self.level:
                return Seq.of(list(self.expand(n)))
            return None
        raise Undecided('key of the node store')

    def __deepcopy__(self, memo):
        return self

    # reference semantics
    def path(self, root, idx):
        """leaf and siblings (root level first)"""
        cur, sib = root, []
        for dg in reversed(digits(idx, self.ar, self.d)):
            ch = self.expand(cur)
            if ch is None:
                raise Undecided('reference tree incomplete')
            sib.append([c for i, c in enumerate(ch) if i != dg])
            cur = ch[dg]
        return cur, sib

    def put(self, root, idx, val):
        leaf, sib = self.path(root, idx)
        return root_spec(self.ar, self.d, val, idx, sib, self.node)

    def empty(self):
        n = ZERO
        for _ in range(self.d):
            n = self.node([n] * self.ar)
        return n


class T:
    """a tree of the crate in a symbolic session"""

    def __init__(self, ar, d, arbitrary=False, pp=None):
        self.h = h = H()
        self.ar, self.d = ar, d
        self.pp = pp or PP(ar + 1, 1, 0, 1)
        self.w = World(h, ar, d, self.pp)
        self.ty = 'VanillaSparseMerkleTree_%d' % ar
        self.arb = arbitrary

    def make(self):
        h = self.h
        if self.arb:
            self.root = self.w.subtree(self.d)
            self.db = h.cell(St('InMemoryHashDb', {'db': HMap(base=self.w)}))
            self.tree = h.cell(St(self.ty, {'depth': Lin(self.d), 'hash_params': self.pp.value(), 'root': self.root}))
        else:
            self.db = h.cell(h.static('InMemoryHashDb', 'new'))
            self.tree = h.cell(h.static(self.ty, 'new', self.pp.value(), Lin(self.d), self.db))
            self.root = self.w.empty()
        return self

    def get(self, idx, proof=True):
        h = self.h
        pr = h.cell(Some(Seq.of([])) if proof else NONE)
        v = ok(h.ex.deref(h.meth(self.tree, 'get', fc(idx), pr, self.db)), 'get')
        p = h.ex.deref(pr)
        if proof:
            p = [[h.ex.P(x) for x in h.ex.deref(r).items()] for r in h.ex.deref(p.args[0]).items()]
        return h.ex.P(v), p

    def update(self, idx, val):
        return h_ok(self.h, self.h.meth(self.tree, 'update', fc(idx), val, self.db), 'update')

    def rootv(self):
        return self.h.ex.P(self.h.ex.deref(self.tree).f['root'])

    def verify(self, idx, val, proof, root=None):
        v = self.h.ex.deref(self.h.meth(self.tree, 'verify_proof', fc(idx), val, Seq.of([Seq.of(r) for r in proof]), NONE if root is None else Some(root)))
        if v is not True and v is not False:
            v = self.h.ex.decide(v) if v is not None else v
        return v


def h_ok(h, r, what):
    return h.ex.P(ok(h.ex.deref(r), what))


def cexd(ar, d, hist, **k):
    return dict({'gadget': 'smt', 'arity': ar, 'depth': d, 'history': [[str(i), str(v)] for i, v in hist]}, **k)


def eqp(h, a, b):
    return h.zero(h.ex.P(a) - h.ex.P(b))


def check_get(t, idx, root, what, cex):
    leaf, sib = t.w.path(root, idx)
    v, p = t.get(idx)
    if not eqp(t.h, v, leaf):
        raise Refuted('%s: get(%d) returns %s, the map holds %s' % (what, idx, poly_str(v)[:60], poly_str(leaf)[:60]), cex)
    if len(p) != len(sib) or any(len(a) != len(b) or not all(eqp(t.h, x, y) for x, y in zip(a, b)) for a, b in zip(p, sib)):
        raise Refuted('%s: the proof of index %d is not the list of siblings from root to leaf' % (what, idx), cex)
    v2, _ = t.get(idx, False)
    if not eqp(t.h, v2, leaf):
        raise Refuted('%s: get(%d) without proof returns another value' % (what, idx), cex)
    return v, p


def fresh(ar, d):
    def run():
        t = T(ar, d)

        def go():
            t.make()
            if not eqp(t.h, t.rootv(), t.w.empty()):
                raise Refuted('the root of a fresh tree is not the iterated hash of zeros', cexd(ar, d, []))
            for idx in idxs(ar, d):
                v, p = check_get(t, idx, t.root, 'fresh tree', cexd(ar, d, [], idx=str(idx)))
                if not eqp(t.h, v, ZERO):
                    raise Refuted('fresh tree reads non-zero at %d' % idx, cexd(ar, d, [], idx=str(idx)))
                if t.verify(idx, ZERO, p) is not True:
                    raise Refuted('fresh tree: proof of zero at %d does not verify' % idx, cexd(ar, d, [], idx=str(idx)))
            return UNIT
        single(t.h, go, 'tree')
    return run


def idxs(ar, d, n=6):
    top = ar ** d
    if top <= 64:
        return list(range(top))
    s = {0, 1, ar - 1, ar, top - 1, top // 2, top // ar, sum(((i * 3 + 1) % ar) * ar ** i for i in range(d)), sum(((i * 5 + 2) % ar) * ar ** i for i in range(d))}
    return sorted(s)


def step(ar, d, i1s, i2s):
    """inductive step: from an arbitrary tree, after update(i1, v): get(i1) = v, every other index reads as before; root and proofs are those of the
    updated map; proofs verify for exactly their index, value, siblings and root"""
    def run():
        for i1 in i1s:
            t = T(ar, d, True)

            def go():
                t.make()
                old = t.root
                before = {i: check_get(t, i, old, 'arbitrary tree', cexd(ar, d, [(i, 7)], idx=str(i))) for i in i2s}
                want = t.w.put(old, i1, fsym('new'))
                r = t.update(i1, fsym('new'))
                cx = cexd(ar, d, [(i, 11 + i) for i in i2s[:3]] + [(i1, 5)])
                if not eqp(t.h, r, want) or not eqp(t.h, t.rootv(), want):
                    raise Refuted('update(%d) does not give the root of the updated contents' % i1, cx)
                for i in list(i2s) + [i1]:
                    v, p = check_get(t, i, want, 'after update(%d)' % i1, dict(cx, idx=str(i)))
                    exp = fsym('new') if i == i1 else before[i][0]
                    if not eqp(t.h, v, exp):
                        raise Refuted('after update(%d), index %d reads %s' % (i1, i, poly_str(v)[:80]), dict(cx, idx=str(i)))
                    if t.verify(i, v, p) is not True or t.verify(i, v, p, want) is not True:
                        raise Refuted('after update(%d), the proof of index %d does not verify' % (i1, i), dict(cx, idx=str(i)))
                    # the old proof against the old root
                    if i in before and t.verify(i, before[i][0], before[i][1], old) is not True:
                        raise Refuted('the proof of index %d does not verify against the root it was made for' % i, dict(cx, idx=str(i)))
                    for what, vv, pp, ii, rr in tampered(t, i, v, p, old):
                        if t.verify(ii, vv, pp, rr) is not False:
                            raise Refuted('verify_proof accepts %s (index %d)' % (what, i), dict(cx, idx=str(i), tamper=what))
                return UNIT
            single(t.h, go, 'tree')
    return run


def tampered(t, i, v, p, old):
    yield 'another value', fsym('other'), p, i, None
    yield 'another root', v, p, i, fc(CONSTS[77])
    yield 'root zero', v, p, i, ZERO
    yield 'the old root', v, p, i, old
    for r in sorted({0, t.d // 2, t.d - 1}):
        for j in sorted({0, t.ar // 2, t.ar - 2}):
            q = [list(x) for x in p]
            q[r][j] = fsym('forged')
            yield 'a changed sibling', v, q, i, None
    for l in sorted({0, t.d // 2, t.d - 1}):
        dg = digits(i, t.ar, t.d)[l]
        for nd in sorted({(dg + 1) % t.ar, (dg + t.ar - 1) % t.ar}):
            # a different position is a different statement unless the row is symmetric
            row = list(p[t.d - 1 - l])
            row2 = list(row)
            row.insert(dg, 'x')
            row2.insert(nd, 'x')
            if row != row2:
                yield 'another index', v, p, i + (nd - dg) * t.ar ** l, None


def history(ar, d, hists):
    """histories from the empty tree against a dictionary; the root depends only on the contents"""
    def run():
        t = T(ar, d)

        def go():
            roots = {}
            for hist in hists:
                t.make()
                ref, root = {}, t.root
                for i, k in hist:
                    val = ZERO if k == 0 else fsym('v', k)
                    root = t.w.put(root, i, val)
                    ref[i] = val
                    r = t.update(i, val)
                    if not eqp(t.h, r, root) or not eqp(t.h, t.rootv(), root):
                        raise Refuted('root after %s is not the root of the contents' % hist, cexd(ar, d, hist))
                for i in sorted(set(ref) | {0, 1, ar ** d - 1}):
                    v, p = check_get(t, i, root, 'history %s' % hist, cexd(ar, d, hist, idx=str(i)))
                    if not eqp(t.h, v, ref.get(i, ZERO)):
                        raise Refuted('history %s: index %d reads %s' % (hist, i, poly_str(v)), cexd(ar, d, hist, idx=str(i)))
                    if t.verify(i, v, p) is not True:
                        raise Refuted('history %s: proof of index %d fails' % (hist, i), cexd(ar, d, hist, idx=str(i)))
                con = tuple(sorted((i, poly_str(v)) for i, v in ref.items() if not v.is_zero()))
                if roots.setdefault(con, t.rootv()) != t.rootv():
                    raise Refuted('same contents, different roots (history %s)' % hist, cexd(ar, d, hist))
            if len(set(roots.values())) != len(roots):
                raise Refuted('different contents, same root', cexd(ar, d, hists[0]))
            return UNIT
        single(t.h, go, 'tree')
    return run


def histories(ar, d):
    top = ar ** d
    a, b, c = 0, top - 1, (top // ar + 1) % top
    out = []
    for p in itertools.permutations([(a, 1), (b, 2), (c, 3)]):
        out.append(list(p))
    out += [[], [(a, 1), (a, 2)], [(a, 1), (a, 2), (a, 1)], [(a, 1), (b, 2), (a, 0)], [(b, 2)], [(a, 0)], [(a, 1), (a, 0)], [(b, 1), (a, 1), (c, 1)], [(c, 1), (b, 1), (a, 1)],
            [(a, 4), (b, 4), (a, 1), (b, 2), (c, 5), (c, 3)]]
    out.append([(i % top, 10 + i % 3) for i in range(0, 9)])
    out.append([(i % top, 10 + i % 3) for i in reversed(range(0, 9))])
    if top < 9:
        out = out[:-2]
    return out


def real(ar, d):
    """the same with the real hash, concrete contents"""
    def run():
        pp = PP(ar + 1, 1, 1, 1, off=3)
        h = H()
        h.ex.fuel = 10 ** 8
        top = ar ** d

        def go():
            db = h.cell(h.static('InMemoryHashDb', 'new'))
            tree = h.cell(h.static('VanillaSparseMerkleTree_%d' % ar, 'new', pp.value(), Lin(d), db))
            Hh = lambda xs: hash_spec(ar, pp, xs, 'Quint')
            memo = {}

            def node(path, cont):
                if len(path) == d:
                    i = 0
                    for x in path:
                        i = i * ar + x
                    return cont.get(i, 0)
                lo = 0
                for x in path:
                    lo = lo * ar + x
                span = ar ** (d - len(path))
                sub = tuple(sorted((i - lo * span, v) for i, v in cont.items() if lo * span <= i < lo * span + span and v))
                k = (len(path), sub)
                if k not in memo:
                    memo[k] = Hh([node(path + (x,), cont) for x in range(ar)])
                return memo[k]
            cont = {}
            hist = [(0, 5), (top - 1, CONSTS[9]), (top // 2, 7), (0, 6), (1 % top, MODP - 1), (top - 1, 0)]
            for i, v in [(None, None)] + hist:
                if i is not None:
                    cont[i] = v
                    h_ok(h, h.meth(tree, 'update', fc(i), fc(v), db), 'update')
                got = h.ex.P(h.ex.deref(tree).f['root'])
                if not eqp(h, got, fc(node((), cont))):
                    raise Refuted('root with the real hash after %s' % cont, cexd(ar, d, hist))
                for j in sorted({0, 1 % top, top // 2, top - 1}):
                    v2 = h_ok(h, h.meth(tree, 'get', fc(j), h.cell(NONE), db), 'get')
                    if not eqp(h, v2, fc(cont.get(j, 0))):
                        raise Refuted('get(%d) with the real hash' % j, cexd(ar, d, hist, idx=str(j)))
            return UNIT
        single(h, go, 'tree')
    return run


def paths(ar):
    def run():
        rng = random.Random(5)
        cases = [(0, 0), (0, 3), (5, 0), (ar ** 3 - 1, 3), (ar ** 3, 3), (ar ** 3 + 7, 3), (MODP - 1, 5), (MODP - 1, 60), (1, 60), (2 ** 64, 40), (2 ** 62 + 5, 40)]
        cases += [(rng.randrange(ar ** n), n) for n in range(1, 40)] + [(rng.randrange(MODP), n) for n in (10, 80, 84)] + [(MODP - 1, 84), (MODP - 1, 85), (MODP - 1, 127 if ar == 4 else 85), (3, 128)]
        for x, n in cases:
            h = H()
            v = single(h, lambda: h.call('get_base_%d_repr' % ar, fc(x), Lin(n)), 'get_base_%d_repr' % ar)
            got = [h.ex.deref(y) for y in h.ex.deref(v).items()]
            want = list(reversed(digits(x, ar, n)))
            if [y.c if isinstance(y, Lin) and y.is_const() else y for y in got] != want:
                raise Refuted('get_base_%d_repr(%d, %d) = %s' % (ar, x, n, got), {'gadget': 'smt', 'kind': 'digits', 'arity': ar, 'x': str(x), 'n': n})
            v = single(h, lambda: h.static('VanillaSparseMerkleTree_%d' % ar, 'leaf_index_to_path', fc(x), Lin(n)), 'leaf_index_to_path')
            if [h.ex.deref(y).c for y in h.ex.deref(v).items()] != want:
                raise Refuted('leaf_index_to_path(%d, %d)' % (x, n), {'gadget': 'smt', 'kind': 'digits', 'arity': ar, 'x': str(x), 'n': n})
    return run


def db():
    """InMemoryHashDb is a map; a missing key is an error"""
    h = H()

    def go():
        d = h.cell(h.static('InMemoryHashDb', 'new'))
        ref = {}
        K = [Bytes([('enc', 'fe', fc(k))]) for k in range(4)]
        rng = random.Random(3)
        for n in range(40):
            k, v = rng.randrange(4), fsym('x', n)
            for j in range(4):
                r = h.ex.deref(h.meth(d, 'get', K[j]))
                if j in ref:
                    if not eqp(h, ok(r, 'get'), ref[j]):
                        raise Refuted('node store returns another value', {'gadget': 'smt', 'kind': 'db'})
                elif not is_err(r):
                    raise Refuted('node store returns a value for a missing key', {'gadget': 'smt', 'kind': 'db'})
            h.meth(d, 'insert', K[k], v)
            ref[k] = v
        return UNIT
    single(h, go, 'db')


def missing(ar):
    """a node that is not in the store is an error, not a wrong value"""
    def run():
        t = T(ar, 2, True)

        def go():
            t.make()
            h = t.h
            e = h.cell(h.static('InMemoryHashDb', 'new'))
            r = h.ex.deref(h.meth(t.tree, 'get', fc(1), h.cell(NONE), e))
            r2 = h.ex.deref(h.meth(t.tree, 'update', fc(1), fsym('n'), e))
            if not is_err(r) or not is_err(r2):
                raise Refuted('read or update without the nodes succeeds', {'gadget': 'smt', 'kind': 'missing', 'arity': ar})
            if not eqp(h, t.rootv(), t.root):
                raise Refuted('failed update changes the root', {'gadget': 'smt', 'kind': 'missing', 'arity': ar})
            return UNIT
        single(t.h, go, 'tree')
    return run


def obligations(tier):
    big = tier == 'thorough'
    for ar in (4, 8):
        ty = 'VanillaSparseMerkleTree_%d' % ar
        yield Ob('C13.paths.%d-ary' % ar, ['get_base_%d_repr' % ar, ty + '::leaf_index_to_path'], 'digits, most significant first', paths(ar), scope='listed numbers')
        for d in (1, 2, 3, 4, 8, 12) if not big else list(range(1, 18)) + [32]:
            yield Ob('C13.new.%d-ary.depth=%d' % (ar, d), [ty + '::new', ty + '::get', ty + '::verify_proof'], 'a fresh tree is the zero map', fresh(ar, d), scope='depth %d' % d)
        for d in (1, 2, 3, 5, 9) if not big else list(range(1, 13)) + [17, 32]:
            if d == 1 or (d == 2 and ar == 4):
                i1s = i2s = list(range(ar ** d))
            else:
                i1s = idxs(ar, d)[:9] if ar ** d > 64 else [0, 1, ar, ar ** d - 1, ar ** d // 2, ar ** 2 // 2 + 1]
                i2s = sorted(set(i1s) | {i + 1 for i in i1s if i + 1 < ar ** d})
            for i1 in i1s:
                yield Ob('C13.step.%d-ary.depth=%d.at=%d' % (ar, d, i1), [ty + '::update', ty + '::get', ty + '::verify_proof'],
                         'from an arbitrary tree, update changes exactly the index written; proofs verify for exactly their statement (all values; no hash collisions)', step(ar, d, [i1], i2s),
                         scope='depth %d, %d read indices' % (d, len(i2s)))
        for d in (1, 2, 3) if not big else (1, 2, 3, 4, 6):
            yield Ob('C13.history.%d-ary.depth=%d' % (ar, d), [ty + '::new', ty + '::update', ty + '::get', ty + '::verify_proof'], 'histories against a map; the root depends only on the contents',
                     history(ar, d, histories(ar, d)), scope='depth %d, listed histories' % d)
        yield Ob('C13.real.%d-ary' % ar, [ty + '::new', ty + '::update', ty + '::get', 'Poseidon_hash_%d' % ar], 'with the real hash', real(ar, 2), scope='depth 2, one history')
        yield Ob('C13.missing.%d-ary' % ar, [ty + '::update', ty + '::get'], 'missing nodes are an error', missing(ar))
    yield Ob('C13.db', ['InMemoryHashDb::new', 'InMemoryHashDb::insert', 'InMemoryHashDb::get'], 'the node store is a map', db, scope='one history of 40 operations')
