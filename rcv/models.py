"""Models of std and of the dependencies (amcl_wrapper, merlin, rand).  These are the trusted (assumed) contracts of the
verifier: DESIGN.md lists them.  Every function states the dependency's behaviour on symbolic values."""
from terms import *
from values import *
from exec import PanicE, Infeasible, RetE
from prog import ty_name

MODBYTES = 48
NLEN_BITS = 384


def path_value(ex, segs, n, env):
    name = segs[-1]
    if len(segs) == 1 and name == 'MODBYTES':
        return Lin(MODBYTES)
    if segs[-2:] == ['constants', 'MODBYTES']:
        return Lin(MODBYTES)
    if name == 'SHAKE256' or name == 'SHAKE128':
        return Opq('const', name)
    if name == 'CurveOrder':
        return Opq('big', Lin(MODP))
    if segs == ['usize', 'MAX'] or segs == ['u64', 'MAX'] or segs[-2:] in (['usize', 'MAX'], ['u64', 'MAX']):
        return Lin((1 << 64) - 1)
    if segs[-2:] == ['u32', 'MAX'] or segs == ['u32', 'MAX']:
        return Lin((1 << 32) - 1)
    if segs[-2:] == ['i64', 'MAX']:
        return Lin((1 << 63) - 1)
    return None


# ------------------------------------------------------------------ helpers
def is_rand_mono(p):
    """monomial in random / challenge atoms only (assumed non-zero)"""
    if len(p.m) != 1:
        return False
    (mo, c), = p.m.items()
    return all(a[0] == 'f' and a[1] in ('rnd', 'chal') for a, _ in mo)


def finverse(ex, p):
    p = P(p)
    if p.is_zero():
        return ZERO
    if is_rand_mono(p):
        ex.assumptions.add('random scalars and Fiat-Shamir challenges are non-zero')
        return p.inverse(True)
    if p in ex.poly_nonzero:
        return p.inverse(True)
    if len(p.m) == 1:
        (mo, c), = p.m.items()
        if all(Poly({((a, Lin(1)),): 1}) in ex.poly_nonzero or (a[0] == 'f' and a[1] in ('rnd', 'chal')) for a, _ in mo):
            return p.inverse(True)
    d = None
    c = b_feq0(p)
    if not isinstance(c, bool):
        d = ex.decide(c)
    if d is True:
        return ZERO
    if d is False:
        return p.inverse(True)
    return p.inverse(False)


def rnd(ex):
    ex.rnd_count += 1
    return fsym('rnd', Lin(ex.rnd_count), *getattr(ex, 'loop_ix', ()))


def rnd_vec(ex, n):
    n = L(n)
    ex.rnd_count += 1
    k = Lin(ex.rnd_count)
    return Seq.fam(n, lambda i: fsym('rnd', k, *getattr(ex, 'loop_ix', ()), i))


def intern(ex, tab, k):
    d = ex.hist
    kk = (tab, k)
    if kk not in d:
        d[kk] = len(d)
    return d[kk]


def interned(ex, i):
    for (t, k), v in ex.hist.items():
        if v == i:
            return k
    raise KeyError(i)


def chal_atom(ex, events, nbytes):
    h = intern(ex, 'tr', (tuple(events), nbytes))
    return fsym('chal', Lin(h))


def seq_of_list(xs):
    return Seq.of(xs)


def as_seq(ex, v):
    v = ex.deref(v)
    if isinstance(v, Seq):
        return v
    return ex.iter_of(v)


def elem_deref(ex, s):
    return s.map(lambda x: ex.deref(x) if isinstance(x, MutRef) else x)


def map_pure(ex, s, f):
    """map a closure over a sequence; a closure applied to a symbolic family must not mutate state"""
    out = []
    for g in s.segs:
        if g.k == 'e':
            out.append(Seg('e', None, None, f(g.v)))
        else:
            before = dict(ex.st.cells)
            pcb = ex.st.pc
            if g.n is not None:
                ex.st.assume(b_ge0(g.n - 1 - Lin.atom(g.ix)))
            if g.k == 'f':
                v = f(g.v)
            else:
                v = tuple(f(x) for x in g.v)
            for c, x in before.items():
                if ex.st.cells[c] is not x and ex.st.cells[c] != x:
                    raise Unsupported('side effect in closure over symbolic family')
            # keep only the facts that do not mention the index
            ex.st.pc = pcb
            out.append(Seg(g.k, g.n, g.ix, v))
    return Seq(out)


def bytes_of_lin(ex, v, w, end):
    return Bytes([('enc', '%s%d' % (end, w), v)])


def blen(ex, b):
    n = 0
    for p in b.parts:
        if isinstance(p, str):
            n += len(p)
        elif p[1] in ('fe', 'pt', 'chal'):
            n += MODBYTES
        elif p[1] == 'raw':
            n += p[3].c
        elif p[1].startswith('le') or p[1].startswith('be'):
            n += int(p[1][2:]) // 8
        else:
            raise Unsupported('length of bytes')
    return Lin(n)


def to_string(ex, v):
    v = ex.deref(v)
    if isinstance(v, Bytes):
        return v
    if isinstance(v, Lin):
        if v.is_const():
            return Bytes([str(v.c)])
        return Bytes([('enc', 'dec', v)])
    if isinstance(v, Opq) and v.kind == 'char':
        return Bytes([v.data[0]])
    return Bytes([('enc', 'str', v)])


def bytes_slice(ex, b, r):
    lo, hi = r.f['lo'], r.f['hi']
    if all(isinstance(p, str) for p in b.parts):
        s = ''.join(b.parts)
        l = lo.c if lo.is_const() else None
        h = len(s) if hi is None else (hi.c if hi.is_const() else None)
        if l is None or h is None:
            raise Unsupported('symbolic string slice')
        if l > h or h > len(s):
            raise PanicE('slice out of range')
        return Bytes([s[l:h]] if s[l:h] else [])
    return ex.seq_slice(bytes_seq(ex, b), lo, hi)


def bytes_seq(ex, b):
    out = []
    for p in b.parts:
        if isinstance(p, str):
            out += [Lin(ord(c)) for c in p]
        else:
            out += [Opq('byte', p, Lin(i)) for i in range(blen(ex, Bytes([p])).c)]
    return Seq.of(out)


def bytes_get(ex, b, i):
    return ex.seq_get(bytes_seq(ex, b), i)


def seq_iter_mut(ex, r, s):
    n = s.length()
    ix = fresh_ix()
    return Seq([Seg('f', n, ix, MutRef(r.cell, r.path + (('i', Lin.atom(ix)),)))])


def seq_to_bytes(ex, s):
    """Seq of byte values -> Bytes when it is a whole encoding"""
    if isinstance(s, Bytes):
        return s
    xs = s.items() if s.concrete() else None
    if xs is None:
        raise Unsupported('symbolic byte sequence')
    out = []
    i = 0
    while i < len(xs):
        x = ex.deref(xs[i])
        if isinstance(x, Lin) and x.is_const():
            out.append(chr(x.c))
            i += 1
            continue
        if isinstance(x, Opq) and x.kind == 'byte':
            p = x.data[0]
            n = blen(ex, Bytes([p])).c if p[1] != 'sha' else len(xs) + 1
            if i + n <= len(xs) and all(ex.deref(xs[i + t]) == Opq('byte', p, Lin(t)) for t in range(n)):
                out.append(p)
                i += n
                continue
        h = intern(ex, 'raw', tuple(ex.deref(y) for y in xs))
        return Bytes([('enc', 'raw', Lin(h), Lin(len(xs)))])
    b = Bytes([])
    for x in out:
        b = b.cat(Bytes([x]))
    return b


# ------------------------------------------------------------------ associated functions
ASSOC = {}


def assoc(*keys):
    def d(f):
        for k in keys:
            ASSOC[k] = f
        return f
    return d


def assoc_fn(ex, ty, name):
    f = ASSOC.get((ty, name))
    if f is None and ty in ('Vec', 'VecDeque', 'FieldElementVector', 'G1Vector') and name in ('new', 'with_capacity', 'from'):
        f = ASSOC.get(('Vec', name))
    return f


@assoc(('FieldElement', 'zero'), ('FieldElement', 'new'), ('G1', 'identity'), ('G1', 'new'))
def _zero(ex, a, env, n):
    return ZERO


@assoc(('FieldElement', 'one'))
def _one(ex, a, env, n):
    return ONE


@assoc(('FieldElement', 'minus_one'))
def _m1(ex, a, env, n):
    return -ONE


@assoc(('FieldElement', 'random'), ('FieldElement', 'random_using_rng'))
def _random(ex, a, env, n):
    return rnd(ex)


@assoc(('FieldElement', 'from'))
def _fefrom(ex, a, env, n):
    v = ex.deref(a[0])
    if isinstance(v, Lin) and v.is_const() and v.c >= 1 << 58:
        # amcl_wrapper stores the machine integer in one 58-bit limb: the result is not that number
        return fsym('limb_overflow', v)
    if isinstance(v, (Lin, Poly)):
        return P(v)
    if isinstance(v, Bytes):
        if len(v.parts) == 1 and not isinstance(v.parts[0], str):
            p = v.parts[0]
            if p[1] in ('chal', 'fe'):
                return p[2]
        return fsym('frombytes', Lin(intern(ex, 'fb', v)))
    if isinstance(v, Opq) and v.kind == 'big':
        return embed(v.data[0])
    if is_bool(v):
        return embed(iapp('ite', v, Lin(1), Lin(0))) if not isinstance(v, bool) else P(int(v))
    if isinstance(v, Seq):
        return _fefrom(ex, [seq_to_bytes(ex, v)], env, n)
    raise Unsupported('FieldElement::from(%s)' % type(v).__name__)


@assoc(('FieldElement', 'from_bytes'), ('G1', 'from_bytes'))
def _fefb(ex, a, env, n):
    v = ex.deref(a[0])
    if isinstance(v, Seq):
        v = seq_to_bytes(ex, v)
    if isinstance(v, Bytes):
        if len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][1] in ('fe', 'chal'):
            return Ok(v.parts[0][2])
        return Ok(fsym('frombytes', Lin(intern(ex, 'fb', v))))
    raise Unsupported('from_bytes')


@assoc(('FieldElement', 'from_msg_hash'))
def _femh(ex, a, env, n):
    v = ex.deref(a[0])
    if isinstance(v, Seq):
        v = seq_to_bytes(ex, v)
    return fsym('hashF', Lin(intern(ex, 'hF', v)))


@assoc(('G1', 'from_msg_hash'), ('G2', 'from_msg_hash'))
def _gmh(ex, a, env, n):
    v = ex.deref(a[0])
    if isinstance(v, Seq):
        v = seq_to_bytes(ex, v)
    if len(v.parts) >= 1 and any(not isinstance(p, str) for p in v.parts) and len(v.parts) <= 2:
        # family: prefix + symbolic decimal
        if len(v.parts) == 2 and isinstance(v.parts[0], str) and v.parts[1][1] == 'dec':
            return fsym('hashG', Lin(intern(ex, 'pre', v.parts[0])), v.parts[1][2])
    if len(v.parts) == 1 and isinstance(v.parts[0], str):
        s = v.parts[0]
        k = len(s)
        while k > 0 and s[k-1].isdigit():
            k -= 1
        if k < len(s) and not (s[k] == '0' and len(s) - k > 1):
            return fsym('hashG', Lin(intern(ex, 'pre', s[:k])), Lin(int(s[k:])))
    return fsym('hashGr', Lin(intern(ex, 'hG', v)))


@assoc(('G1', 'generator'))
def _gen(ex, a, env, n):
    return fsym('generator')


@assoc(('G1', 'random'))
def _grnd(ex, a, env, n):
    return rnd(ex)


@assoc(('FieldElement', 'from_hex'))
def _fehex(ex, a, env, n):
    v = ex.deref(a[0])
    if isinstance(v, Bytes) and all(isinstance(p, str) for p in v.parts):
        s = ''.join(v.parts)
        try:
            k = int(s, 16)
        except ValueError:
            return Err(Opq('err', 'hex'))
        # amcl_wrapper 0.1.7: at most MODBYTES*2 digits; the value is reduced modulo the group order
        if len(s) > 2 * MODBYTES:
            return Err(Opq('err', 'hexlen'))
        return Ok(Poly.const(k % MODP))
    raise Unsupported('from_hex of symbolic string')


@assoc(('FieldElement', 'batch_invert'))
def _batch_invert(ex, a, env, n):
    s = as_seq(ex, a[0])
    ex.panic_if(b_eq(ex.seq_len(s), 0), 'batch_invert of an empty slice', n.line)
    inv = s.map(lambda x: finverse(ex, ex.P(x)))
    pr = ONE
    for g in inv.segs:
        if g.k == 'e':
            pr = pr * g.v
        elif g.k == 'f':
            pr = pr * mk_prod(g.ix, g.v, Lin(0), g.n)
        else:
            raise Unsupported('batch_invert')
    return Tup((inv, pr))


@assoc(('FieldElementVector', 'new'), ('G1Vector', 'new'))
def _fvnew(ex, a, env, n):
    k = L(ex.deref(a[0]))
    ix = fresh_ix()
    return Seq([Seg('f', k, ix, ZERO)])


@assoc(('FieldElementVector', 'random'), ('G1Vector', 'random'))
def _fvrandom(ex, a, env, n):
    return rnd_vec(ex, ex.deref(a[0]))


@assoc(('FieldElementVector', 'with_capacity'), ('G1Vector', 'with_capacity'), ('Vec', 'new'), ('Vec', 'with_capacity'),
       ('VecDeque', 'new'))
def _vnew(ex, a, env, n):
    return Seq()


@assoc(('FieldElementVector', 'from'), ('G1Vector', 'from'), ('Vec', 'from'))
def _vfrom(ex, a, env, n):
    v = ex.deref(a[0])
    if isinstance(v, Seq):
        return elem_deref(ex, v)
    if isinstance(v, Bytes):
        return v
    raise Unsupported('Vec::from')


@assoc(('FieldElementVector', 'new_vandermonde_vector'))
def _vander(ex, a, env, n):
    e = ex.P(a[0])
    k = L(ex.deref(a[1]))
    # amcl_wrapper: an empty vector of size 0 for zero base? (0 -> all zeros, 1 -> all ones), otherwise powers
    if e.is_zero():
        return Seq.fam(k, lambda i: ZERO)
    if k.is_const():
        out = [ONE]
        for _ in range(max(k.c, 1) - 1):
            out.append(out[-1] * e)
        return Seq.of(out[:k.c]) if k.c > 0 else Seq.of([ONE])
    return Seq.fam(k, lambda i: e.pow(i))


@assoc(('G1Vector', 'inner_product_var_time_with_ref_vecs'), ('G1Vector', 'inner_product_const_time_with_ref_vecs'),
       ('G1Vector', 'multi_scalar_mul_var_time'), ('G1Vector', 'multi_scalar_mul_const_time'))
def _msm(ex, a, env, n):
    return vec_inner(ex, a[0], a[1])


def vec_inner(ex, a, b):
    s, t = as_seq(ex, a), as_seq(ex, b)
    la, lb = ex.seq_len(s), ex.seq_len(t)
    c = b_eq(la, lb)
    if c is False:
        return Err(Opq('err', 'length'))
    if c is not True and not ex.decide(c):
        if not ex.branch(c):
            return Err(Opq('err', 'length'))
    z = ex.seq_zip(s, t)
    return Ok(ex.seq_sum(z.map(lambda p: ex.P(p.xs[0]) * ex.P(p.xs[1]))))


@assoc(('HashMap', 'new'), ('HashMap', 'with_capacity'), ('BTreeMap', 'new'))
def _hm(ex, a, env, n):
    return HMap()


@assoc(('HashSet', 'new'), ('HashSet', 'with_capacity'), ('BTreeSet', 'new'))
def _hs(ex, a, env, n):
    return Opq('hset', Seq())


@assoc(('String', 'from'), ('String', 'from_str'))
def _sf(ex, a, env, n):
    return ex.deref(a[0])


@assoc(('String', 'new'), ('String', 'with_capacity'))
def _sn(ex, a, env, n):
    return Bytes([])


@assoc(('Transcript', 'new'))
def _tn(ex, a, env, n):
    return St('Transcript', {'tr': Seq.of([Tup((Bytes(['new']), ex.deref(a[0])))])})


@assoc(('SHA3', 'new'))
def _sha(ex, a, env, n):
    return Opq('sha3', ex.deref(a[0]), ())


@assoc(('Box', 'new'), ('Rc', 'new'), ('Arc', 'new'))
def _box(ex, a, env, n):
    return a[0]


@assoc(('Instant', 'now'))
def _now(ex, a, env, n):
    return Opq('instant')


@assoc(('BigNum', 'new'))
def _bnew(ex, a, env, n):
    return Opq('big', Lin(0))


@assoc(('BigNum', 'new_int'), ('BigNum', 'new_ints'))
def _bnewi(ex, a, env, n):
    return Opq('big', L(ex.deref(a[0])))


@assoc(('EntropyRng', 'new'))
def _rng(ex, a, env, n):
    return Opq('rng')


@assoc(('usize', 'from'), ('u64', 'from'), ('u32', 'from'), ('u8', 'from'))
def _ufrom(ex, a, env, n):
    v = ex.deref(a[0])
    if isinstance(v, Lin):
        return v
    if isinstance(v, bool):
        return Lin(int(v))
    raise Unsupported('integer from')


@assoc(('LinearCombination', 'default'), ('Default', 'default'))
def _dflt(ex, a, env, n):
    return St('LinearCombination', {'terms': Seq()})


def free_fn(ex, segs):
    name = segs[-1]
    return FREE.get(name)


FREE = {}


def free(*names):
    def d(f):
        for k in names:
            FREE[k] = f
        return f
    return d


@free('commit_to_field_element')
def _cfe(ex, a, env, n):
    g, h, v, r = [ex.P(x) for x in a]
    return g * v + h * r


@free('commit_to_field_element_vectors')
def _cfev(ex, a, env, n):
    G, H, h, s, t, r = a
    x = vec_inner(ex, G, s)
    if x.var == 'Err':
        return x
    y = vec_inner(ex, H, t)
    if y.var == 'Err':
        return y
    return Ok(x.args[0] + y.args[0] + ex.P(h) * ex.P(r))


@free('replace')
def _mrep(ex, a, env, n):
    r = a[0]
    if not isinstance(r, MutRef):
        raise Unsupported('mem::replace')
    r = ex.resolve(r)
    old = ex.load(r)
    ex.store(r, a[1])
    return old


@free('take')
def _mtake(ex, a, env, n):
    r = ex.resolve(a[0])
    old = ex.load(r)
    if isinstance(old, Seq):
        ex.store(r, Seq())
    elif isinstance(old, En):
        ex.store(r, NONE)
    elif isinstance(old, St) and old.name == 'LinearCombination':
        ex.store(r, St('LinearCombination', {'terms': Seq()}))
    else:
        raise Unsupported('mem::take')
    return old


@free('swap')
def _mswap(ex, a, env, n):
    r, s = ex.resolve(a[0]), ex.resolve(a[1])
    x, y = ex.load(r), ex.load(s)
    ex.store(r, y)
    ex.store(s, x)
    return UNIT


@free('drop')
def _drop(ex, a, env, n):
    return UNIT


@free('repeat')
def _rep(ex, a, env, n):
    ix = fresh_ix()
    return Seq([Seg('f', None, ix, ex.deref(a[0]))])


@free('once')
def _once(ex, a, env, n):
    return Seq.of([a[0]])


@free('empty')
def _empty(ex, a, env, n):
    return Seq()


@free('successors')
def _succ(ex, a, env, n):
    raise Unsupported('iter::successors')


@free('min')
def _min(ex, a, env, n):
    return iapp('min', L(ex.deref(a[0])), L(ex.deref(a[1])))


@free('max')
def _max(ex, a, env, n):
    return iapp('max', L(ex.deref(a[0])), L(ex.deref(a[1])))


# ------------------------------------------------------------------ methods
IDENT = {'clone', 'cloned', 'copied', 'to_owned', 'as_ref', 'as_slice', 'iter', 'into_iter', 'into', 'as_mut_slice', 'borrow',
         'as_bytes', 'to_vec', 'into_bytes', 'as_str', 'by_ref', 'into_boxed_slice', 'as_deref', 'collect_vec', 'peekable',
         'fuse', 'borrow_mut'}


def method(ex, recv, v, name, args, env, n):
    if name in ('as_mut', 'iter_mut', 'as_mut_slice', 'by_ref', 'borrow_mut') and isinstance(recv, MutRef):
        r = ex.resolve(recv)
        if name == 'iter_mut':
            return ex.iter_of(r)
        if name == 'as_mut' and isinstance(v, En):
            if v.var == 'Some':
                return Some(MutRef(r.cell, r.path + (('v', 0),)))
            return NONE
        return r
    if name == 'into_iter' and isinstance(recv, MutRef) and isinstance(v, Seq):
        return v
    if isinstance(v, Seq):
        return seq_method(ex, recv, v, name, args, env, n)
    if isinstance(v, (Poly,)):
        return fe_method(ex, recv, v, name, args, env, n)
    if isinstance(v, Lin) and name == 'into' and v.is_const() and v.c >= 1 << 58:
        return fsym('limb_overflow', v)
    if isinstance(v, Lin):
        return int_method(ex, recv, v, name, args, env, n)
    if isinstance(v, En):
        return en_method(ex, recv, v, name, args, env, n)
    if isinstance(v, St):
        return st_method(ex, recv, v, name, args, env, n)
    if isinstance(v, Bytes):
        return by_method(ex, recv, v, name, args, env, n)
    if isinstance(v, HMap):
        return hm_method(ex, recv, v, name, args, env, n)
    if isinstance(v, Opq):
        return oq_method(ex, recv, v, name, args, env, n)
    if is_bool(v):
        if name in IDENT:
            return v
        if name == 'then':
            return ex.cond(v, lambda: Some(ex.call_val(args[0], [])), lambda: NONE)
        if name == 'then_some':
            return ex.cond(v, lambda: Some(args[0]), lambda: NONE)
    if isinstance(v, (SymVar, Tup, Clo, FnRef)) and name in IDENT:
        return v
    if isinstance(v, (SymVar, Tup)) and name in ('eq', 'ne'):
        c = ex.val_eq(v, args[0])
        return c if name == 'eq' else b_not(c)
    raise Unsupported('method %s on %s' % (name, type(v).__name__))


def setv(ex, recv, val):
    if not isinstance(recv, MutRef):
        raise Unsupported('mutating method on a temporary')
    ex.store(ex.resolve(recv), val)


def seq_method(ex, recv, v, name, args, env, n):
    A = [ex.deref(a) for a in args]
    if name in IDENT:
        if name in ('cloned', 'copied', 'to_vec', 'clone', 'to_owned', 'into'):
            return elem_deref(ex, v)
        return v
    if name == 'len' or name == 'count' or name == 'size':
        return ex.seq_len(v)
    if name == 'is_empty':
        return b_eq(ex.seq_len(v), 0)
    if name == 'push' or name == 'push_back':
        setv(ex, recv, v.push(args[0]))
        return UNIT
    if name == 'pop' or name == 'pop_back':
        k = ex.seq_len(v)
        if not ex.branch(b_ge0(k - 1)):
            return NONE
        x = ex.seq_get(v, k - 1)
        setv(ex, recv, ex.seq_slice(v, Lin(0), k - 1))
        return Some(x)
    if name in ('next', 'pop_front'):
        k = v.length()
        if k is not None and not ex.branch(b_ge0(k - 1)):
            return NONE
        x = ex.seq_get(v, Lin(0))
        setv(ex, recv, ex.seq_slice(v, Lin(1), k))
        return Some(x)
    if name == 'next_back':
        return seq_method(ex, recv, v, 'pop', args, env, n)
    if name == 'remove':
        i = L(A[0])
        k = ex.seq_len(v)
        ex.panic_if(b_ge0(i - k), 'remove out of bounds', n.line)
        x = ex.seq_get(v, i)
        setv(ex, recv, ex.seq_slice(v, Lin(0), i).cat(ex.seq_slice(v, i + 1, k)))
        return x
    if name == 'swap_remove':
        i = L(A[0])
        k = ex.seq_len(v)
        ex.panic_if(b_ge0(i - k), 'swap_remove out of bounds', n.line)
        x = ex.seq_get(v, i)
        last = ex.seq_get(v, k - 1)
        s = ex.seq_set(v, i, last)
        setv(ex, recv, ex.seq_slice(s, Lin(0), k - 1))
        return x
    if name == 'insert':
        i = L(A[0])
        k = ex.seq_len(v)
        ex.panic_if(b_ge0(i - k - 1), 'insert out of bounds', n.line)
        setv(ex, recv, ex.seq_slice(v, Lin(0), i).push(args[1]).cat(ex.seq_slice(v, i, k)))
        return UNIT
    if name == 'swap':
        i, j = L(A[0]), L(A[1])
        x, y = ex.seq_get(v, i), ex.seq_get(v, j)
        setv(ex, recv, ex.seq_set(ex.seq_set(v, i, y), j, x))
        return UNIT
    if name == 'truncate':
        k = L(A[0])
        m = ex.seq_len(v)
        if ex.branch(b_ge0(k - m)):
            return UNIT
        setv(ex, recv, ex.seq_slice(v, Lin(0), k))
        return UNIT
    if name == 'resize':
        k = L(A[0])
        m = ex.seq_len(v)
        if ex.branch(b_ge0(m - k)):
            setv(ex, recv, ex.seq_slice(v, Lin(0), k))
        else:
            ix = fresh_ix()
            setv(ex, recv, v.cat(Seq([Seg('f', k - m, ix, A[1])])))
        return UNIT
    if name == 'split_off':
        k = L(A[0])
        m = ex.seq_len(v)
        t = ex.seq_slice(v, k, m, n.line)
        setv(ex, recv, ex.seq_slice(v, Lin(0), k))
        return t
    if name == 'clear':
        setv(ex, recv, Seq())
        return UNIT
    if name == 'reserve' or name == 'shrink_to_fit':
        return UNIT
    if name == 'capacity':
        raise Unsupported('capacity')
    if name == 'append':
        o = A[0]
        setv(ex, recv, v.cat(o))
        if isinstance(args[0], MutRef):
            ex.store(ex.resolve(args[0]), Seq())
        return UNIT
    if name in ('extend', 'extend_from_slice'):
        o = A[0]
        if isinstance(o, Bytes):
            o = bytes_seq(ex, o)
        o = ex.iter_of(o)
        setv(ex, recv, v.cat(elem_deref(ex, o)))
        return UNIT
    if name in ('get', 'get_mut'):
        if isinstance(A[0], St) and A[0].name == 'Range':
            lo, hi = A[0].f['lo'], A[0].f['hi']
            k = ex.seq_len(v)
            hi = k if hi is None else hi
            c = b_and(b_ge0(hi - lo), b_ge0(k - hi))
            if ex.branch(c):
                return Some(ex.seq_slice(v, lo, hi))
            return NONE
        i = L(A[0])
        k = ex.seq_len(v)
        if ex.branch(b_ge0(k - 1 - i)):
            if name == 'get_mut':
                r = ex.resolve(recv)
                return Some(MutRef(r.cell, r.path + (('i', i),)))
            return Some(ex.seq_get(v, i))
        return NONE
    if name in ('first', 'last', 'first_mut', 'last_mut'):
        k = ex.seq_len(v)
        if not ex.branch(b_ge0(k - 1)):
            return NONE
        i = Lin(0) if name.startswith('first') else k - 1
        if name.endswith('mut'):
            r = ex.resolve(recv)
            return Some(MutRef(r.cell, r.path + (('i', i),)))
        return Some(ex.seq_get(v, i))
    if name == 'nth':
        i = L(A[0])
        k = v.length()
        if k is None or ex.branch(b_ge0(k - 1 - i)):
            x = ex.seq_get(v, i)
            if isinstance(recv, MutRef):
                setv(ex, recv, ex.seq_slice(v, i + 1, k))
            return Some(x)
        if isinstance(recv, MutRef):
            setv(ex, recv, Seq())
        return NONE
    if name == 'map':
        return map_pure(ex, v, lambda x: ex.call_val(args[0], [x]))
    if name == 'for_each':
        if not v.concrete():
            raise Unsupported('for_each over symbolic family')
        for x in v.items():
            ex.call_val(args[0], [x])
        return UNIT
    if name == 'try_for_each':
        for x in v.items():
            r = ex.deref(ex.call_val(args[0], [x]))
            if isinstance(r, En) and r.var in ('Err', 'None'):
                return r
        return Ok(UNIT)
    if name == 'inspect':
        return v
    if name == 'filter':
        if not v.concrete():
            raise Unsupported('filter over symbolic family')
        out = []
        for x in v.items():
            if ex.branch(ex.deref(ex.call_val(args[0], [x]))):
                out.append(x)
        return Seq.of(out)
    if name in ('filter_map', 'flat_map'):
        if not v.concrete():
            raise Unsupported('%s over symbolic family' % name)
        out = Seq()
        for x in v.items():
            r = ex.deref(ex.call_val(args[0], [x]))
            out = out.cat(ex.iter_of(r))
        return out
    if name == 'flatten':
        out = Seq()
        for x in v.items():
            out = out.cat(ex.iter_of(ex.deref(x)))
        return out
    if name in ('any', 'all', 'position', 'find'):
        if not v.concrete():
            raise Unsupported('%s over symbolic family' % name)
        if name in ('any', 'all'):
            cs = [ex.deref(ex.call_val(args[0], [x])) for x in v.items()]
            return b_or(*cs) if name == 'any' else b_and(*cs)
        for i, x in enumerate(v.items()):
            if ex.branch(ex.deref(ex.call_val(args[0], [x]))):
                return Some(Lin(i) if name == 'position' else x)
        return NONE
    if name == 'contains':
        if not v.concrete():
            raise Unsupported('contains')
        return b_or(*[ex.val_eq(x, A[0]) for x in v.items()])
    if name in ('fold', 'try_fold'):
        acc = args[0]
        if not v.concrete():
            if name == 'fold' and hasattr(ex.loop_handler, 'fold'):
                return ex.loop_handler.fold(ex, v, acc, args[1], n)
            raise Unsupported('fold over symbolic family')
        for x in v.items():
            acc = ex.call_val(args[1], [acc, x])
            if name == 'try_fold':
                r = ex.deref(acc)
                if r.var in ('Err', 'None'):
                    return r
                acc = r.args[0]
        return acc if name == 'fold' else Ok(acc)
    if name == 'scan':
        if not v.concrete():
            raise Unsupported('scan')
        c = MutRef(ex.st.new(args[0]))
        out = []
        for x in v.items():
            r = ex.deref(ex.call_val(args[1], [c, x]))
            if r.var == 'None':
                break
            out.append(r.args[0])
        return Seq.of(out)
    if name == 'sum':
        if v.concrete() and not v.segs:
            return Lin(0)
        xs = [ex.deref(x) for x in v.items()] if v.concrete() else None
        if xs is not None and all(isinstance(x, Lin) for x in xs):
            r = Lin(0)
            for x in xs:
                r = r + x
            return r
        if xs is not None and any(ex.islc(x) for x in xs):
            r = ex.as_lc(xs[0])
            for x in xs[1:]:
                r = ex.binop('+', r, x)
            return r
        return ex.seq_sum(v)
    if name == 'product':
        r = ONE
        for x in v.items():
            r = ex.fmul(r, ex.P(x))
        return r
    if name == 'zip':
        return ex.seq_zip(v, as_seq(ex, args[0]))
    if name == 'unzip':
        return Tup((v.map(lambda t: ex.deref(t).xs[0]), v.map(lambda t: ex.deref(t).xs[1])))
    if name == 'chain':
        return v.cat(as_seq(ex, args[0]))
    if name == 'enumerate':
        out = []
        off = Lin(0)
        for g in v.segs:
            if g.k == 'e':
                out.append(Seg('e', None, None, Tup((off, g.v))))
            elif g.k == 'f':
                out.append(Seg('f', g.n, g.ix, Tup((off + Lin.atom(g.ix), g.v))))
            else:
                w = len(g.v)
                out.append(Seg('b', g.n, g.ix, tuple(Tup((off + Lin.atom(g.ix).scale(w) + t, x)) for t, x in enumerate(g.v))))
            if g.length() is None:
                break
            off = off + g.length()
        return Seq(out)
    if name == 'rev':
        return v.rev()
    if name == 'reverse':
        setv(ex, recv, v.rev())
        return UNIT
    if name in ('take', 'skip'):
        k = L(A[0])
        m = v.length()
        if m is not None:
            k = ex.imin(k, m)
        if name == 'take':
            if isinstance(recv, MutRef) and v.length() is not None:
                pass
            return ex.seq_slice(v, Lin(0), k, check=False)
        return ex.seq_slice(v, k, m, check=False)
    if name in ('take_while', 'skip_while'):
        out = []
        xs = v.items()
        for i, x in enumerate(xs):
            if not ex.branch(ex.deref(ex.call_val(args[0], [x]))):
                return Seq.of(out) if name == 'take_while' else Seq.of(xs[i:])
            out.append(x)
        return Seq.of(out) if name == 'take_while' else Seq()
    if name == 'step_by':
        k = L(A[0])
        if v.concrete() and k.is_const():
            if k.c == 0:
                raise PanicE('step_by(0)', n.line)
            return Seq.of(v.items()[::k.c])
        m = v.length()
        if len(v.segs) == 1 and v.segs[0].k == 'f' and m is not None and k.is_const() and k.c > 0:
            g = v.segs[0]
            q = iapp('div', m + (k.c - 1), k)
            ix = fresh_ix()
            return Seq([Seg('f', q, ix, subst_val(g.v, {g.ix: Lin.atom(ix).scale(k.c)}))])
        raise Unsupported('step_by')
    if name in ('chunks', 'chunks_exact', 'windows'):
        k = L(A[0])
        if not (v.concrete() and k.is_const() and k.c > 0):
            raise Unsupported(name)
        xs = v.items()
        if name == 'windows':
            return Seq.of([Seq.of(xs[i:i + k.c]) for i in range(0, len(xs) - k.c + 1)])
        out = [xs[i:i + k.c] for i in range(0, len(xs), k.c)]
        if name == 'chunks_exact':
            out = [x for x in out if len(x) == k.c]
        return Seq.of([Seq.of(x) for x in out])
    if name in ('collect',):
        tf = n.d.get('gargs') if n is not None else None
        s = elem_refs(ex, v)
        if tf and isinstance(tf, (list, tuple)) and tf:
            t = tf[0]
            tn = ty_name(t) if isinstance(t, tuple) else None
            if tn == 'Result' or tn == 'Option':
                return collect_result(ex, s)
            if tn in ('HashMap', 'BTreeMap'):
                return collect_map(ex, s)
            if tn in ('HashSet', 'BTreeSet'):
                r = Opq('hset', Seq())
                c = MutRef(ex.st.new(r))
                for x in s.items():
                    oq_method(ex, c, ex.load(c), 'insert', [x], env, n)
                return ex.load(c)
        return s
    if name in ('split_at', 'split_at_mut'):
        k = L(A[0])
        m = ex.seq_len(v)
        ex.panic_if(b_ge0(k - m - 1), 'split_at out of range', n.line)
        if name == 'split_at_mut':
            raise Unsupported('split_at_mut')
        return Tup((ex.seq_slice(v, Lin(0), k, check=False), ex.seq_slice(v, k, m, check=False)))
    if name in ('split_first', 'split_last'):
        k = ex.seq_len(v)
        if not ex.branch(b_ge0(k - 1)):
            return NONE
        if name == 'split_first':
            return Some(Tup((ex.seq_get(v, Lin(0)), ex.seq_slice(v, Lin(1), k))))
        return Some(Tup((ex.seq_get(v, k - 1), ex.seq_slice(v, Lin(0), k - 1))))
    if name == 'drain':
        r = A[0]
        lo, hi = r.f['lo'], r.f['hi']
        k = ex.seq_len(v)
        hi = k if hi is None else hi
        s = ex.seq_slice(v, lo, hi, n.line)
        setv(ex, recv, ex.seq_slice(v, Lin(0), lo, check=False).cat(ex.seq_slice(v, hi, k, check=False)))
        return s
    if name in ('clone_from_slice', 'copy_from_slice'):
        ex.panic_if(b_not(b_eq(ex.seq_len(v), ex.seq_len(A[0]))), 'slice lengths differ', n.line)
        setv(ex, recv, elem_deref(ex, A[0]))
        return UNIT
    if name == 'fill':
        setv(ex, recv, v.map(lambda x: A[0]))
        return UNIT
    if name == 'concat':
        out = Seq()
        for x in v.items():
            out = out.cat(as_seq(ex, x))
        return out
    if name in ('sort', 'sort_unstable', 'dedup', 'sort_by', 'sort_by_key'):
        if v.concrete() and all(isinstance(ex.deref(x), Lin) and ex.deref(x).is_const() for x in v.items()):
            xs = [ex.deref(x).c for x in v.items()]
            if name == 'dedup':
                out = []
                for x in xs:
                    if not out or out[-1] != x:
                        out.append(x)
                xs = out
            elif name.startswith('sort_by'):
                raise Unsupported(name)
            else:
                xs.sort()
            setv(ex, recv, Seq.of([Lin(x) for x in xs]))
            return UNIT
        raise Unsupported(name)
    if name in ('max', 'min'):
        xs = [L(ex.deref(x)) for x in v.items()]
        if not xs:
            return NONE
        r = xs[0]
        for x in xs[1:]:
            r = iapp(name, r, x)
        return Some(r)
    # --- vectors of the algebra crate
    if name in ('inner_product', 'inner_product_const_time', 'inner_product_var_time', 'multi_scalar_mul_var_time',
                'multi_scalar_mul_const_time', 'inner_product_const_time_', 'multi_scalar_mul_const_time_naive'):
        return vec_inner(ex, v, args[0])
    if name == 'hadamard_product':
        o = as_seq(ex, args[0])
        if not ex.branch(b_eq(ex.seq_len(v), ex.seq_len(o))):
            return Err(Opq('err', 'length'))
        return Ok(ex.seq_zip(v, o).map(lambda t: ex.fmul(ex.P(t.xs[0]), ex.P(t.xs[1]))))
    if name in ('plus', 'minus'):
        o = as_seq(ex, args[0])
        if not ex.branch(b_eq(ex.seq_len(v), ex.seq_len(o))):
            return Err(Opq('err', 'length'))
        sg = 1 if name == 'plus' else -1
        return Ok(ex.seq_zip(v, o).map(lambda t: ex.P(t.xs[0]) + ex.P(t.xs[1]).scale(sg)))
    if name in ('scaled_by', 'scale'):
        k = ex.P(args[0])
        s = v.map(lambda x: ex.fmul(ex.P(x), k))
        if name == 'scale':
            setv(ex, recv, s)
            return UNIT
        return s
    if name in ('eq', 'ne'):
        c = ex.val_eq(v, A[0])
        return c if name == 'eq' else b_not(c)
    if name == 'split':
        raise Unsupported('split')
    raise Unsupported('method %s on a sequence' % name)


def elem_refs(ex, v):
    return v


def collect_result(ex, s):
    out = []
    for x in s.items():
        x = ex.deref(x)
        if not isinstance(x, En):
            raise Unsupported('collect into Result')
        if x.var in ('Err', 'None'):
            return x
        out.append(x.args[0])
    return En('Result', 'Ok', [Seq.of(out)])


def collect_map(ex, s):
    m = HMap()
    for x in s.items():
        x = ex.deref(x)
        m = ex.map_put(m, x.xs[0], x.xs[1])
    return m


def fe_method(ex, recv, v, name, args, env, n):
    A = [ex.deref(a) for a in args]
    if name in IDENT:
        return v
    if name == 'inverse':
        return finverse(ex, v)
    if name == 'inverse_mut':
        setv(ex, recv, finverse(ex, v))
        return UNIT
    if name in ('negation', 'neg'):
        return -v
    if name in ('negate',):
        setv(ex, recv, -v)
        return UNIT
    if name == 'square':
        return ex.fmul(v, v)
    if name == 'double':
        return v.scale(2)
    if name in ('add', 'plus'):
        return v + ex.P(A[0])
    if name in ('sub', 'minus'):
        return v - ex.P(A[0])
    if name in ('mul', 'multiply', 'scalar_mul_const_time', 'scalar_mul_variable_time'):
        return ex.fmul(v, ex.P(A[0]))
    if name in ('add_assign_', 'sub_assign_'):
        o = ex.P(A[0])
        setv(ex, recv, v + o if name[0] == 'a' else v - o)
        return UNIT
    if name == 'binary_scalar_mul':
        # self*a + other*b
        return ex.P(v) * ex.P(A[1]) + ex.P(A[0]) * ex.P(A[2])
    if name == 'pow':
        e = ex.P(A[0])
        if e.is_const():
            return v.pow(e.constval())
        raise Unsupported('pow')
    if name in ('is_zero', 'is_identity'):
        return ex.val_eq(v, ZERO)
    if name in ('is_one',):
        return ex.val_eq(v, ONE)
    if name in ('to_bytes', 'to_hex'):
        return Bytes([('enc', 'fe', v)])
    if name == 'to_bignum':
        return Opq('big', iapp('nat', v))
    if name == 'shift_right':
        return Opq('shr', v, L(A[0]))
    if name == 'is_odd':
        return b_eq(iapp('bits', iapp('nat', v), Lin(0), Lin(1)), 1)
    if name in ('eq', 'ne'):
        c = ex.val_eq(v, A[0])
        return c if name == 'eq' else b_not(c)
    raise Unsupported('method %s on a field/group element' % name)


def int_method(ex, recv, v, name, args, env, n):
    A = [ex.deref(a) for a in args]
    if name in IDENT:
        return v
    if name == 'next_power_of_two':
        return iapp('npow2', v)
    if name == 'is_power_of_two':
        if v.is_const():
            return v.c > 0 and v.c & (v.c - 1) == 0
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0][0] == 'ia' and v.t[0][0][1] in ('npow2', 'pow2'):
            return True
        return ('bs', 'ispow2', v)
    if name == 'trailing_zeros':
        return iapp('tz', v)
    if name == 'leading_zeros':
        return iapp('lz32', v) if v.is_const() and v.c < (1 << 32) else iapp('lz64', v)
    if name == 'to_string':
        return to_string(ex, v)
    if name in ('to_le_bytes', 'to_be_bytes'):
        return Bytes([('enc', name[3:5] + '64', v)])
    if name == 'pow':
        e = L(A[0])
        if v.is_const() and e.is_const():
            return Lin(v.c ** e.c)
        if v.is_const() and v.c == 2:
            return iapp('pow2', e)
        if e.is_const() and e.c <= 4:
            r = Lin(1)
            for _ in range(e.c):
                r = r.mul(v)
            return r
        raise Unsupported('integer pow')
    if name in ('min', 'max'):
        return iapp(name, v, L(A[0]))
    if name == 'checked_sub':
        if ex.branch(b_ge0(v - L(A[0]))):
            return Some(v - L(A[0]))
        return NONE
    if name in ('checked_add', 'checked_mul'):
        return Some(v + L(A[0]) if name == 'checked_add' else v.mul(L(A[0])))
    if name == 'saturating_sub':
        if ex.branch(b_ge0(v - L(A[0]))):
            return v - L(A[0])
        return Lin(0)
    if name in ('wrapping_sub',):
        if ex.branch(b_ge0(v - L(A[0]))):
            return v - L(A[0])
        return v - L(A[0]) + (1 << 64)
    if name in ('wrapping_add', 'saturating_add', 'wrapping_mul'):
        return v + L(A[0]) if 'add' in name else v.mul(L(A[0]))
    if name in ('to_bytes',):
        return Bytes([('enc', 'fe', P(v))])
    if name in ('eq', 'ne'):
        c = ex.val_eq(v, A[0])
        return c if name == 'eq' else b_not(c)
    if name == 'count_ones' and v.is_const():
        return Lin(bin(v.c).count('1'))
    # literals used as field elements
    return fe_method(ex, recv, P(v), name, args, env, n)


def en_method(ex, recv, v, name, args, env, n):
    ok = v.var in ('Some', 'Ok')
    if v.name not in ('Option', 'Result'):
        if name in IDENT:
            return v
        if name == 'to_string':
            return Bytes([v.var])
        raise Unsupported('method %s on %s' % (name, v.name))
    x = v.args[0] if v.args else None
    if name == 'as_mut':
        return v
    if name in IDENT:
        if name in ('iter', 'into_iter'):
            return Seq.of([x] if ok else [])
        return v
    if name in ('unwrap', 'expect'):
        if ok:
            return x
        raise PanicE('unwrap of %s' % v.var, n.line)
    if name in ('unwrap_err', 'expect_err'):
        if not ok:
            return x
        raise PanicE('unwrap_err of Ok', n.line)
    if name == 'unwrap_or':
        return x if ok else args[0]
    if name == 'unwrap_or_else':
        return x if ok else ex.call_val(args[0], [] if v.name == 'Option' else [x])
    if name == 'unwrap_or_default':
        if ok:
            return x
        raise Unsupported('unwrap_or_default')
    if name in ('is_some', 'is_ok'):
        return ok
    if name in ('is_none', 'is_err'):
        return not ok
    if name == 'map':
        if ok:
            return En(v.name, v.var, [ex.call_val(args[0], [x])])
        return v
    if name == 'map_or':
        return ex.call_val(args[1], [x]) if ok else args[0]
    if name == 'map_or_else':
        return ex.call_val(args[1], [x]) if ok else ex.call_val(args[0], [] if v.name == 'Option' else [x])
    if name == 'map_err':
        if ok:
            return v
        return En('Result', 'Err', [ex.call_val(args[0], [x])])
    if name == 'and_then':
        return ex.deref(ex.call_val(args[0], [x])) if ok else v
    if name == 'and':
        return args[0] if ok else v
    if name == 'or':
        return v if ok else args[0]
    if name == 'or_else':
        return v if ok else ex.call_val(args[0], [] if v.name == 'Option' else [x])
    if name == 'ok_or':
        return Ok(x) if ok else Err(args[0])
    if name == 'ok_or_else':
        return Ok(x) if ok else Err(ex.call_val(args[0], []))
    if name == 'ok':
        return Some(x) if ok else NONE
    if name == 'err':
        return NONE if ok else Some(x)
    if name == 'take':
        setv(ex, recv, NONE)
        return v
    if name == 'replace':
        setv(ex, recv, Some(args[0]))
        return v
    if name == 'filter':
        if ok and ex.branch(ex.deref(ex.call_val(args[0], [x]))):
            return v
        return NONE
    if name == 'zip':
        o = ex.deref(args[0])
        return Some(Tup((x, o.args[0]))) if ok and o.var == 'Some' else NONE
    if name == 'get_or_insert_with':
        raise Unsupported(name)
    if name in ('eq', 'ne'):
        c = ex.val_eq(v, args[0])
        return c if name == 'eq' else b_not(c)
    raise Unsupported('method %s on %s' % (name, v.name))


def st_method(ex, recv, v, name, args, env, n):
    A = [ex.deref(a) for a in args]
    if v.name == 'Range':
        if name == 'contains':
            x = L(A[0])
            c = b_ge0(x - v.f['lo'])
            if v.f['hi'] is not None:
                c = b_and(c, b_ge0(v.f['hi'] - 1 - x))
            return c
        return seq_method(ex, ex.range_seq(v), ex.range_seq(v), name, args, env, n)
    if v.name == 'Transcript':
        tr = v.f['tr']
        if name in ('append_message', 'commit_bytes'):
            b = A[1]
            if isinstance(b, Seq):
                b = seq_to_bytes(ex, b)
            setv(ex, recv, v.set('tr', tr.push(Tup((A[0], b)))))
            return UNIT
        if name in ('append_u64', 'commit_u64'):
            setv(ex, recv, v.set('tr', tr.push(Tup((A[0], Bytes([('enc', 'le64', L(A[1]))]))))))
            return UNIT
        if name == 'challenge_bytes':
            buf = A[1]
            k = ex.seq_len(buf) if isinstance(buf, Seq) else blen(ex, buf)
            tr2 = tr.push(Tup((Bytes(['challenge']).cat(Bytes([('enc', 'lab', A[0])])), Bytes([('enc', 'n', k)]))))
            if not tr2.concrete():
                hk = tr2
                h = intern(ex, 'tr', (hk.canon(), k))
            else:
                h = intern(ex, 'tr', (tuple(tr2.items()), k))
            at = fsym('chal', Lin(h))
            setv(ex, recv, v.set('tr', tr2))
            if not isinstance(args[1], MutRef):
                raise Unsupported('challenge_bytes target')
            ex.store(ex.resolve(args[1]), Bytes([('enc', 'chal', at)]))
            return UNIT
    if name in IDENT:
        return v
    if name in ('eq', 'ne'):
        c = ex.val_eq(v, A[0])
        return c if name == 'eq' else b_not(c)
    raise Unsupported('method %s on %s' % (name, v.name))


def by_method(ex, recv, v, name, args, env, n):
    A = [ex.deref(a) for a in args]
    if name in ('iter', 'into_iter', 'bytes'):
        return bytes_seq(ex, v)
    if name in IDENT:
        return v
    if name == 'to_string':
        return v
    if name == 'len':
        return blen(ex, v)
    if name == 'is_empty':
        return not v.parts
    if name == 'replace_range':
        r = A[0]
        s = ''.join(v.parts)
        lo = r.f['lo'].c
        hi = len(s) if r.f['hi'] is None else r.f['hi'].c
        t = ''.join(A[1].parts)
        if hi > len(s):
            raise PanicE('replace_range', n.line)
        out = s[:lo] + t + s[hi:]
        setv(ex, recv, Bytes([out] if out else []))
        return UNIT
    if name in ('trim_start_matches', 'strip_prefix', 'trim_left_matches'):
        s = ''.join(v.parts)
        t = ''.join(A[0].parts)
        if name == 'strip_prefix':
            return Some(Bytes([s[len(t):]])) if s.startswith(t) else NONE
        while t and s.startswith(t):
            s = s[len(t):]
        return Bytes([s] if s else [])
    if name == 'starts_with':
        return ''.join(v.parts).startswith(''.join(A[0].parts))
    if name in ('push_str', 'extend_from_slice', 'append', 'extend'):
        o = A[0]
        if isinstance(o, Seq):
            o = seq_to_bytes(ex, o)
        setv(ex, recv, v.cat(o))
        return UNIT
    if name in ('eq', 'ne'):
        c = ex.val_eq(v, A[0])
        return c if name == 'eq' else b_not(c)
    return seq_method(ex, recv, bytes_seq(ex, v), name, args, env, n)


def hm_method(ex, recv, v, name, args, env, n):
    A = [ex.deref(a) for a in args]
    if name == 'insert':
        r = ex.resolve(recv)
        old = ex.map_find(v, A[0])
        ex.store(r, ex.map_put(v, A[0], args[1]))
        return NONE if old is None else Some(old)
    if name in ('get', 'remove'):
        x = ex.map_find(v, A[0])
        if x is None and v.base is not None:
            x = ex.map_base(v, A[0])
            return x
        if name == 'remove' and x is not None:
            ex.store(ex.resolve(recv), HMap([(k, y) for k, y in v.ents if ex.branch(ex.key_eq(k, A[0])) is False], v.acc, v.base))
        return NONE if x is None else Some(x)
    if name == 'get_mut':
        x = ex.map_find(v, A[0])
        if x is None:
            return NONE
        r = ex.resolve(recv)
        return Some(MutRef(r.cell, r.path + (('m', A[0]),)))
    if name == 'contains_key':
        return ex.map_find(v, A[0]) is not None
    if name == 'entry':
        r = ex.resolve(recv)
        return Opq('entry', r, A[0])
    if name == 'len':
        return Lin(len(v.ents))
    if name == 'is_empty':
        return not v.ents
    if name in ('iter', 'into_iter', 'drain'):
        s = Seq.of([Tup(e) for e in v.ents])
        if name == 'drain':
            ex.store(ex.resolve(recv), HMap())
        return s
    if name in ('keys', 'into_keys'):
        return Seq.of([k for k, _ in v.ents])
    if name in ('values', 'into_values'):
        return Seq.of([x for _, x in v.ents])
    if name in IDENT:
        return v
    if name == 'extend':
        m = v
        for x in ex.iter_of(A[0]).items():
            x = ex.deref(x)
            m = ex.map_put(m, x.xs[0], x.xs[1])
        ex.store(ex.resolve(recv), m)
        return UNIT
    raise Unsupported('method %s on HashMap' % name)


def oq_method(ex, recv, v, name, args, env, n):
    A = [ex.deref(a) for a in args]
    k = v.kind
    if k == 'entry':
        r, key_ = v.data
        m = ex.load(r)
        if name in ('or_insert', 'or_insert_with', 'or_default', 'and_modify'):
            x = ex.map_find(m, key_)
            if name == 'and_modify':
                if x is not None:
                    ex.call_val(args[0], [MutRef(r.cell, r.path + (('m', key_),))])
                return v
            if x is None:
                if name == 'or_default':
                    raise Unsupported('or_default')
                val = args[0] if name == 'or_insert' else ex.call_val(args[0], [])
                ex.store(r, ex.map_put(m, key_, val))
            return MutRef(r.cell, r.path + (('m', key_),))
    if k == 'big':
        q = v.data[0]
        if name in ('norm',):
            return Lin(0)
        if name == 'iszilch':
            return b_eq(q, 0)
        if name == 'isunity':
            return b_eq(q, 1)
        if name == 'lastbits':
            return iapp('bits', q, Lin(0), L(A[0]))
        if name == 'fshr':
            s = L(A[0])
            setv(ex, recv, Opq('big', iapp('bits', q, s, Lin(-1))))
            return iapp('bits', q, Lin(0), s)
        if name == 'shr':
            setv(ex, recv, Opq('big', iapp('bits', q, L(A[0]), Lin(-1))))
            return UNIT
        if name in ('bit',):
            return iapp('bits', q, L(A[0]), Lin(1))
        if name == 'parity':
            return iapp('bits', q, Lin(0), Lin(1))
        if name == 'tobytes':
            m = ex.seq_len(A[0])
            ex.panic_if(b_lt(m, MODBYTES), 'tobytes target too short', n.line)
            r = ex.resolve(args[0])
            ex.store(r, Seq.of([iapp('bits', q, Lin(8 * (MODBYTES - 1 - i)), Lin(8)) for i in range(MODBYTES)]))
            return UNIT
        if name == 'rmod':
            mq = A[0].data[0]
            setv(ex, recv, Opq('big', iapp('mod', q, mq)))
            return UNIT
        if name in IDENT:
            return v
        if name == 'to_string':
            return Bytes([('enc', 'big', q)])
    if k == 'shr':
        p, s = v.data
        if name == 'is_odd':
            return b_eq(iapp('bits', iapp('nat', p), s, Lin(1)), 1)
        if name in IDENT:
            return v
        if name == 'to_bignum':
            return Opq('big', iapp('bits', iapp('nat', p), s, Lin(-1)))
        # the shifted value as a field element
        return fe_method(ex, recv, embed(iapp('bits', iapp('nat', p), s, Lin(-1))), name, args, env, n)
    if k == 'hset':
        s = v.data[0]
        if name == 'insert':
            for x in s.items():
                c = ex.val_eq(x, A[0])
                if c is True or (c is not False and ex.branch(c)):
                    return False
            setv(ex, recv, Opq('hset', s.push(A[0])))
            return True
        if name == 'contains':
            for x in s.items():
                c = ex.val_eq(x, A[0])
                if c is True or (c is not False and ex.branch(c)):
                    return True
            return False
        if name == 'len':
            return ex.seq_len(s)
        if name in ('iter', 'into_iter'):
            return s
        if name == 'is_empty':
            return b_eq(ex.seq_len(s), 0)
        if name in IDENT:
            return v
        if name == 'remove':
            out = []
            hit = False
            for x in s.items():
                if not hit and ex.branch(ex.val_eq(x, A[0])):
                    hit = True
                else:
                    out.append(x)
            setv(ex, recv, Opq('hset', Seq.of(out)))
            return hit
    if k == 'sha3':
        if name == 'process':
            setv(ex, recv, Opq('sha3', v.data[0], v.data[1] + (A[0],)))
            return UNIT
        if name == 'process_array':
            b = A[0]
            xs = tuple(bytes_seq(ex, b).items()) if isinstance(b, Bytes) else tuple(b.items())
            setv(ex, recv, Opq('sha3', v.data[0], v.data[1] + xs))
            return UNIT
        if name in ('shake', 'hash'):
            r = ex.resolve(args[0])
            cur = ex.load(r)
            m = L(A[1]) if len(A) > 1 else ex.seq_len(cur)
            if not m.is_const():
                raise Unsupported('symbolic shake length')
            h = intern(ex, 'sha', (v.data[0], v.data[1]))
            old = cur.items()
            if len(old) < m.c:
                raise PanicE('shake target too short', n.line)
            # SHAKE output is a stream: byte i does not depend on the requested length
            ex.store(r, Seq.of([Opq('byte', ('enc', 'sha', Lin(h)), Lin(i)) for i in range(m.c)] + old[m.c:]))
            return UNIT
    if k == 'instant':
        return Opq('instant')
    if k in ('float', 'rng', 'const', 'err', 'char', 'enumsym') and name in IDENT:
        return v
    if k == 'optsym':
        c, x = v.data
        if name in ('is_some',):
            return c
        if name == 'is_none':
            return b_not(c)
        if ex.branch(c):
            return en_method(ex, recv, Some(x), name, args, env, n)
        return en_method(ex, recv, NONE, name, args, env, n)
    if k == 'instant' or name == 'to_string':
        return Bytes([('enc', 'str', Lin(intern(ex, 'str', v)))])
    raise Unsupported('method %s on %s' % (name, k))
