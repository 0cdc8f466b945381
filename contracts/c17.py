from common import *
import gad
from gad import GADGETS, fc, fl
from circ import linear, fatom

GEN = {'bound_check': ('gen_proof_of_bounded_num', 'verify_proof_of_bounded_num'),
       'hamming_distance': ('gen_proof_for_hamming_distance', 'verify_proof_for_hamming_distance'),
       'mimc': ('gen_proof_of_knowledge_of_preimage_of_mimc', 'verify_knowledge_of_preimage_of_mimc'),
       'non_zero': ('gen_proof_of_non_zero_val', 'verify_proof_of_non_zero_val'),
       'set_membership': ('gen_proof_of_set_membership', 'verify_proof_of_set_membership'),
       'set_membership_alt': ('gen_proof_of_set_membership_alt', 'verify_proof_of_set_membership_alt'),
       'set_non_membership': ('gen_proof_of_set_non_membership', 'verify_proof_of_set_non_membership')}
for k in (2, 4, 8):
    GEN['poseidon_hash_%d' % k] = ('gen_proof_of_knowledge_of_preimage_of_Poseidon_%d' % k, 'verify_proof_of_knowledge_of_preimage_of_Poseidon_%d' % k)
for k in (4, 8):
    GEN['sparse_merkle_tree_%d_ary' % k] = ('gen_proof_of_leaf_inclusion_%d_ary_merkle_tree' % k, 'verify_proof_of_leaf_inclusion_%d_ary_merkle_tree' % k)


def lcmap(h, c):
    d = {}
    for v, k in h.lc_terms(c):
        v = h.ex.deref(v)
        kk = (str(v.tag), str(v.idx) if str(v.tag) != '4' else '')
        d[kk] = d.get(kk, ZERO) + h.ex.P(k)
    return {k: v for k, v in d.items() if not h.zero(v)}


def same_lc(h, a, b):
    a, b = lcmap(h, a), lcmap(h, b)
    return set(a) == set(b) and all(h.zero(a[k] - b[k]) for k in a)


def compare(h, pv, vf, ptr, vtr, coms, what, cex):
    """prover state and verifier state describe the same statement over the same commitments"""
    p, v = h.ex.deref(pv), h.ex.deref(vf)
    vs, bs = p.f['v'].items(), p.f['v_blinding'].items()
    if len(vs) != len(bs):
        raise Refuted('%s: %d values and %d blindings recorded by the prover' % (what, len(vs), len(bs)), cex)
    PV = [h.ex.P(x) * fsym('g') + h.ex.P(y) * fsym('h') for x, y in zip(vs, bs)]
    VV = [h.ex.P(x) for x in v.f['V'].items()]
    if len(PV) != len(VV) or any(not h.zero(a - b) for a, b in zip(PV, VV)):
        raise Refuted('%s: prover and verifier commit to different sequences (%d, %d)' % (what, len(PV), len(VV)), cex)
    if len(coms) > len(PV) or any(not h.zero(a - b) for a, b in zip(coms, PV)):
        raise Refuted('%s: the returned commitments are not those of the prover in order' % what, cex)
    n1, n2 = h.num_vars(h.cell(p)), h.num_vars(h.cell(v))
    if n1 != n2:
        raise Refuted('%s: %s multipliers for the prover, %s for the verifier' % (what, n1, n2), cex)
    a, b = p.f['constraints'].items(), v.f['constraints'].items()
    if len(a) != len(b):
        raise Refuted('%s: %d constraints for the prover, %d for the verifier' % (what, len(a), len(b)), cex)
    for i, (x, y) in enumerate(zip(a, b)):
        if not same_lc(h, x, y):
            raise Refuted('%s: constraint %d differs between prover and verifier' % (what, i), cex)
    ea, eb = ptr.items(), vtr.items()
    if len(ea) != len(eb):
        raise Refuted('%s: transcripts of %d and %d events' % (what, len(ea), len(eb)), cex)
    for i, (x, y) in enumerate(zip(ea, eb)):
        x, y = h.ex.deref(x), h.ex.deref(y)
        if x == y:
            continue
        if x.xs[0] != y.xs[0] or len(x.xs[1].parts) != 1 or len(y.xs[1].parts) != 1 or isinstance(x.xs[1].parts[0], str) or isinstance(y.xs[1].parts[0], str):
            raise Refuted('%s: transcript event %d differs' % (what, i), cex)
        u, w = x.xs[1].parts[0], y.xs[1].parts[0]
        if u[:2] != w[:2] or not h.zero(h.ex.P(u[2]) - h.ex.P(w[2])):
            raise Refuted('%s: transcript event %d differs' % (what, i), cex)


def cexof(g, size, rand):
    return {'gadget': g.name, 'kind': 'agree', 'size': [str(x) for x in (size if isinstance(size, tuple) else (size,))], 'rand': rand is True}


def pair(g, size, rand):
    def run():
        h = H()
        if g.name == 'mimc':
            pass

        def go():
            T = h.transcript('t')
            pv = h.prover(T)
            coms = ok(h.ex.deref(g.prove(h, pv, size, rand)), g.prove_name)
            coms = h.ex.deref(coms)
            coms = [h.ex.P(x) for x in (coms.items() if isinstance(coms, Seq) else h.ex.deref(coms.xs[0]).items())]
            T2 = h.transcript('t')
            vf = h.verifier(T2)
            r = g.verify(h, vf, size, Seq.of(coms))
            ok(h.ex.deref(r), g.verify_name)
            compare(h, pv, vf, h.tr(T), h.tr(T2), coms, '%s size %s' % (g.name, size), cexof(g, size, rand))
            return UNIT
        outs = val1(h.ex.explore(go), g.name)
        if not outs:
            raise Undecided('no path')
    return run


class Capture(Exception):
    pass


def captured(g, f):
    box = {}
    sp, sv = type(g).P_, type(g).V_

    def P_(self, h, *a):
        box['a'] = a
        raise Capture()
    type(g).P_ = P_
    type(g).V_ = P_
    try:
        f()
    except Capture:
        pass
    finally:
        type(g).P_, type(g).V_ = sp, sv
    return list(box['a'])


def wrappers(g, size, rand):
    """gen_proof_* / verify_proof_*: same label, same generators, the proof and commitments handed through, the same statement"""
    def run():
        gen, ver = GEN[g.name]
        h = H()
        box = {}
        cex = cexof(g, size, rand)

        def prove(ex, args, fn):
            box['p'] = [ex.deref(a) for a in args]
            box['ptr'] = h.tr(box['p'][0].f['transcript'])
            return Ok(Opq('theproof'))

        def verify(ex, args, fn):
            box['v'] = [ex.deref(a) for a in args]
            box['vtr'] = h.tr(box['v'][0].f['transcript'])
            return box['ret']
        h.ex.contracts['Prover::prove'] = prove
        h.ex.contracts['Verifier::verify'] = verify
        G_, H_ = gens('G', 4), gens('H', 4)
        g_, h_ = fsym('g'), fsym('h')
        tail = [Bytes(['label']), g_, h_, G_, H_]
        a = captured(g, lambda: g.prove(h, 'PV', size, rand))
        if a[-1] != 'PV':
            raise Undecided('argument order')
        mark = Seq.of([fsym('marker')])
        b = captured(g, lambda: g.verify(h, 'VF', size, mark))
        at = next(i for i, x in enumerate(b) if x is mark)

        def go():
            r = ok(h.ex.deref(h.call(gen, *a[:-1], *tail)), gen)
            proof, coms = h.ex.deref(r).xs
            if h.ex.deref(proof) != Opq('theproof'):
                raise Refuted('%s does not return the proof made' % gen, cex)
            for ret in (Ok(UNIT), Err(Opq('thefailure'))):
                box['ret'] = ret
                box.pop('v', None)
                vr = h.ex.deref(h.call(ver, *b[:at], Opq('theproof'), coms, *tail))
                if 'v' not in box:
                    raise Refuted('%s does not verify the proof' % ver, cex)
                if isinstance(vr, En) and vr.var != ret.var:
                    raise Refuted('%s returns %s when the verification returns %s' % (ver, vr.var, ret.var), cex)
            p, v = box['p'], box['v']
            if h.ex.deref(v[1]) != Opq('theproof'):
                raise Refuted('%s verifies another proof' % ver, cex)
            for nm, x, y in (('g', v[2], g_), ('h', v[3], h_)):
                if not h.zero(h.ex.P(x) - y):
                    raise Refuted('%s: generator %s' % (ver, nm), cex)
            for nm, x, y in (('G (prover)', p[1], G_), ('H (prover)', p[2], H_), ('G', v[4], G_), ('H', v[5], H_)):
                xs = h.ex.deref(x).items()
                if len(xs) != 4 or any(not h.zero(h.ex.P(s) - h.ex.P(t)) for s, t in zip(xs, y.items())):
                    raise Refuted('%s: generators %s' % (ver, nm), cex)
            cs = [h.ex.P(x) for x in h.ex.deref(coms).items()]
            compare(h, h.cell(p[0]), h.cell(v[0]), box['ptr'], box['vtr'], cs, '%s/%s' % (gen, ver), cex)
            return UNIT
        outs = val1(h.ex.explore(go), gen)
        if not outs:
            raise Undecided('no path')
    return run


def randomizer_parts(h, d, idx, verify_too=False):
    from c11 import PP
    pp = PP(5, 1, 0, 1)
    box = {}
    cex = {'gadget': 'randomizer', 'kind': 'agree', 'depth': d, 'indices': [str(x) for x in idx]}

    def prove(ex, args, fn):
        box['p'] = [ex.deref(a) for a in args]
        box['ptr'] = h.tr(box['p'][0].f['transcript'])
        return Ok(Opq('theproof'))

    def verify(ex, args, fn):
        box['v'] = [ex.deref(a) for a in args]
        box['vtr'] = h.tr(box['v'][0].f['transcript'])
        return box['ret']
    h.ex.contracts['Prover::prove'] = prove
    h.ex.contracts['Verifier::verify'] = verify
    ty = 'VanillaSparseMerkleTree_4'
    tail = [Bytes(['label']), fsym('g'), fsym('h'), gens('G', 4), gens('H', 4)]

    def go():
        db = h.cell(h.static('InMemoryHashDb', 'new'))
        ndb = h.cell(h.static('InMemoryHashDb', 'new'))
        tree = h.cell(h.static(ty, 'new', pp.value(), Lin(d), db))
        new = h.cell(h.static(ty, 'new', pp.value(), Lin(d), ndb))
        vals = []
        for j, i in enumerate(idx):
            vals.append(fc(50 + j))
            ok(h.ex.deref(h.meth(tree, 'update', fc(i), fc(50 + j), db)), 'update')
            ok(h.ex.deref(h.meth(new, 'update', fc(i), fc(70 + j), ndb)), 'update')
        r = ok(h.ex.deref(h.call('gen_proof_for_randomizer', tree, db, new, ndb, fl(idx), Seq.of(vals), Lin(d), pp.value(), gad.SB('Quint'), *tail)), 'gen')
        proof, coms = h.ex.deref(r).xs
        if verify_too:
            for ret in (Ok(UNIT), Err(Opq('thefailure'))):
                box['ret'] = ret
                box.pop('v', None)
                vr = h.ex.deref(h.call('verify_proof_for_randomizer', new, ndb, fl(idx), Lin(d), pp.value(), gad.SB('Quint'), Opq('theproof'), coms, *tail))
                if 'v' not in box:
                    raise Refuted('the randomizer verifier does not verify the proof', cex)
                if isinstance(vr, En) and vr.var != ret.var:
                    raise Refuted('verify_proof_for_randomizer returns %s when the verification returns %s' % (vr.var, ret.var), cex)
        return [h.ex.P(x) for x in h.ex.deref(coms).items()]
    cs = single(h, go, 'randomizer')
    return box, cs, cex


def randomizer(d, idx):
    def run():
        h = H()
        box, cs, cex = randomizer_parts(h, d, idx, True)
        compare(h, h.cell(box['p'][0]), h.cell(box['v'][0]), box['ptr'], box['vtr'], cs, 'randomizer', cex)
    return run


def obligations(tier):
    big = tier == 'thorough'
    for nm, g in GADGETS.items():
        sizes = list(g.sizes)
        if big and nm in ('set_membership', 'set_membership_alt', 'set_non_membership'):
            sizes += [5, 8, 9, 17]
        if big and nm == 'hamming_distance':
            sizes += [(8, 3), (17, 9)]
        for size in sizes:
            for rand in (True, NONE):
                t = '%s.%s.%s' % (nm, '-'.join(map(str, size)) if isinstance(size, tuple) else size, 'given' if rand is True else 'rng')
                yield Ob('C17.pair.' + t, [g.prove_name, g.verify_name], 'same commitments in the same order, same circuit, same transcript', pair(g, size, rand), scope='size %s' % (size,))
                if size in sizes[:2]:
                    yield Ob('C17.wrap.' + t, list(GEN[nm]), 'label, generators, proof, commitments and the verification result are handed through; same statement', wrappers(g, size, rand), scope='size %s' % (size,))
    for d, idx in ((1, [2]), (2, [6, 9]), (2, [4, 5, 0])):
        yield Ob('C17.randomizer.depth=%d.at=%s' % (d, '-'.join(map(str, idx))), ['gen_proof_for_randomizer', 'verify_proof_for_randomizer'], 'same statement on both sides', randomizer(d, idx), scope='depth %d' % d)
