from common import *
import models


def preimage(h, p, kinds=('hashF', 'hashG', 'hashGr')):
    """the message whose hash p is"""
    p = P(p)
    if len(p.m) == 1:
        (mo, c), = p.m.items()
        if c == 1 and len(mo) == 1 and mo[0][0][0] == 'f' and mo[0][0][1] in kinds and mo[0][1] == Lin(1):
            a = mo[0][0]
            nm, args = a[1], a[2:]
            if nm == 'hashG':
                return lookup(h, args[0]).cat(Bytes([str(args[1].c)])) if L(args[1]).is_const() else None
            return lookup(h, args[0])
    return None


def lookup(h, i):
    v = models.interned(h.ex, L(i).c)
    return Bytes([v]) if isinstance(v, str) else v


PRE = {'sym': Bytes([('enc', 'pfx', Lin(7))]), 'g': Bytes(['g']), 'a1': Bytes(['a1']), 'long': Bytes(['x' * 70 + '12 ']), 'empty': Bytes([])}


def generators(pre, ns):
    def run():
        h = H()
        cex = {'kind': 'generators', 'prefix': pre, 'n': max(ns)}

        def go():
            return [[h.ex.P(x) for x in h.ex.deref(h.call('get_generators', PRE[pre], Lin(n))).items()] for n in ns]
        for lists in paths(h, go, 'get_generators'):
            for n, xs in zip(ns, lists):
                if len(xs) != n:
                    raise Refuted('get_generators(_, %d) returns %d generators' % (n, len(xs)), cex)
                for i, x in enumerate(xs):
                    m = preimage(h, x, ('hashG', 'hashGr'))
                    want = PRE[pre].cat(Bytes([str(i + 1)]))
                    if m is None:
                        raise Undecided('generator is not recognised as a hash')
                    if m != want:
                        raise Refuted('generator %d of %d for prefix %r hashes %r instead of %r' % (i + 1, n, pre, m, want), cex)
    return run


def atoms_in(h, b, seen=None):
    """the leaves of a byte string: text, state, atoms of encoded elements, looking through hashes"""
    out = set()
    for p in b.parts:
        if isinstance(p, str):
            continue
        if isinstance(p[2], Poly):
            for a in atoms_of(p[2]):
                out.add(a)
        else:
            out.add(p)
    return out


def challs(k, n, st):
    def run():
        h = H()
        inp = [fsym('I', i) for i in range(k)]
        state0 = {'sym': Bytes([('enc', 'le64', Lin(3))]), 'empty': Bytes([])}[st]
        cex = {'kind': 'challenges', 'inputs': k, 'n': n}
        box = {}

        def go():
            s = h.cell(state0)
            box['s'] = s
            r = [h.ex.P(x) for x in h.ex.deref(h.call('gen_challenges', Seq.of(list(inp)), s, Lin(n))).items()]
            fin = h.ex.deref(s)
            return r, models.seq_to_bytes(h.ex, fin) if isinstance(fin, Seq) else fin
        for r, fin in paths(h, go, 'gen_challenges'):
            if len(r) != n:
                raise Refuted('gen_challenges returns %d challenges instead of %d' % (len(r), n), cex)
            need = [next(iter(atoms_of(x))) for x in inp] + list(state0.parts)
            for j, c in enumerate(r):
                m = preimage(h, c, ('hashF',))
                if m is None:
                    at = set()
                    for a in atoms_of(c):
                        mm = preimage(h, Poly({((a, Lin(1)),): 1}), ('hashF',))
                        if mm is not None:
                            at |= atoms_in(h, mm)
                        else:
                            at.add(a)
                else:
                    at = atoms_in(h, m)
                miss = [x for x in need if x not in at]
                if miss:
                    raise Refuted('challenge %d of %d does not depend on %r' % (j, n, miss[0]), cex)
                if any(h.zero(c - d) for d in r[:j]):
                    raise Refuted('challenge %d repeats an earlier one' % j, cex)
                for a in atoms_of(c):
                    need.append(a)
            at = atoms_in(h, fin)
            # the state left behind extends the prior one by the inputs and every challenge but the last
            left = [next(iter(atoms_of(x))) for x in inp] + list(state0.parts) + [a for c in r[:-1] for a in atoms_of(c)]
            miss = [x for x in left if x not in at]
            if miss:
                raise Refuted('the state left behind does not contain %r' % (miss[0],), cex)
            if fin.parts[:len(state0.parts)] != state0.parts:
                raise Refuted('the state left behind does not extend the prior one', cex)
    return run


def chain():
    """two calls in a row: the second depends on everything of the first"""
    def run():
        h = H()

        def go():
            s = h.cell(Bytes([]))
            r1 = h.ex.deref(h.call('gen_challenges', Seq.of([fsym('I', 0)]), s, Lin(2))).items()
            r2 = h.ex.deref(h.call('gen_challenges', Seq.of([fsym('I', 1)]), s, Lin(1))).items()
            return [h.ex.P(x) for x in r1], [h.ex.P(x) for x in r2]
        r1, r2 = single(h, go, 'gen_challenges')
        m = preimage(h, r2[0], ('hashF',))
        if m is None:
            raise Undecided('not a hash')
        at = atoms_in(h, m)
        for x in (fsym('I', 0), fsym('I', 1), r1[0]):
            if next(iter(atoms_of(x))) not in at:
                raise Refuted('a challenge of the second call does not depend on %s' % x, {'kind': 'challenges', 'inputs': 1, 'n': 2})
    return run


def obligations(tier):
    big = tier == 'thorough'
    lits = [x for l in literals(6, 9000, ('utils/mod.rs',), 4) for x in (l, l + 1)]
    for pre in PRE:
        yield Ob('C19.generators.%s' % pre, ['get_generators'], 'the i-th generator hashes prefix ++ decimal(i), i from 1, for each list length',
                 generators(pre, list(range(0, 13)) + [99, 100, 128, 130] + ([255, 256, 257, 1000, 1025] if big else [257]) + lits), scope='list lengths up to %d; %s' % (1025 if big else 257, 'any prefix' if pre == 'sym' else 'prefix ' + pre))
    for k in range(0, 5):
        for n in range(1, 6):
            for st in ('sym', 'empty'):
                if st == 'empty' and k == 0:
                    continue
                yield Ob('C19.challenges.inputs=%d.n=%d.%s' % (k, n, st), ['gen_challenges'], 'n distinct challenges, each depending on state, inputs and earlier challenges; the state is extended', challs(k, n, st), scope='%d inputs, %d challenges; all values' % (k, n))
    for k, n in [(1, 12), (9, 2), (40, 1), (1, 40), (3, 17)] + [(x, 1) for x in lits if x < 400] + [(1, x) for x in lits if x < 100]:
        yield Ob('C19.challenges.inputs=%d.n=%d.sym' % (k, n), ['gen_challenges'], 'n distinct challenges, each depending on state, inputs and earlier challenges; the state is extended', challs(k, n, 'sym'), scope='%d inputs, %d challenges; all values' % (k, n))
    yield Ob('C19.chain', ['gen_challenges'], 'a later call depends on the earlier one', chain(), scope='two calls')
