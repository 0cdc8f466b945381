"""Expression evaluation: the operational semantics of the Rust subset over symbolic values."""
import re
import rparse
from rparse import N
from terms import *
from values import *
from prog import Fn, ty_name
from exec import Exec, Env, RetE, BreakE, ContE, PanicE, Infeasible, NeedFork, State
import models

OPM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem', '+=': 'add_assign', '-=': 'sub_assign',
       '*=': 'mul_assign'}
NAME_LIMIT = 40


MUTATING = {'remove', 'push', 'insert', 'drain', 'pop', 'extend', 'append', 'swap_remove', 'truncate', 'clear', 'sort', 'reverse', 'next', 'extend_from_slice', 'swap', 'resize', 'split_off', 'retain', 'get_mut', 'last_mut', 'first_mut', 'iter_mut', 'nth', 'entry', 'take', 'replace', 'norm', 'fshr', 'rmod'}


class Eval(Exec):
    def __init__(self, prog, mode='core'):
        super().__init__(prog, mode)
        self.rnd_count = 0
        self.hist = {}           # transcript history -> id
        self.names = {}          # Poly -> atom (definitional names)
        self.defs = {}           # atom -> Poly
        self.generic_feq = False
        self.events = []
        self.const_cache = {}
        self.unknown_bools = []

    # ---------------------------------------------------------------- names for large polynomials
    def name_poly(self, p):
        a = self.names.get(p)
        if a is None:
            at = ('f', '$d', Lin(len(self.names)))
            a = Poly.atom(at)
            self.names[p] = a
            self.defs[at] = p
        return a

    def fmul(self, a, b):
        a, b = P(a), P(b)
        if len(a.m) > 1 and len(b.m) > 1 and len(a.m) * len(b.m) > NAME_LIMIT:
            if len(a.m) > 4:
                a = self.name_poly(a)
            if len(b.m) > 4:
                b = self.name_poly(b)
        return a * b

    def unfold(self, p):
        """expand all definitional names"""
        while True:
            m = {a: self.defs[a] for a in atoms_of(p) if a in self.defs}
            if not m:
                return p
            p = subst(p, m)

    # ---------------------------------------------------------------- statements and expressions
    def ev(self, n, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported('out of fuel')
        f = getattr(self, 'e_' + n.k, None)
        if f is None:
            raise Unsupported('expression kind %s' % n.k)
        return f(n, env)

    def val(self, n, env):
        return self.deref(self.ev(n, env))

    def e_block(self, n, env):
        env = Env(env)
        for s in n.stmts:
            if s.k == 'itemstmt' and s.item.k in ('fn', 'const'):
                it = s.item
                if it.k == 'fn':
                    f = Fn(it.name, it, env.fn.file if env.fn else '?')
                    f.outer = None
                    env.items[it.name] = f
                else:
                    env.items[it.name] = it
        for s in n.stmts:
            self.stmt(s, env)
        if n.tail is not None:
            return self.ev(n.tail, env)
        return UNIT

    def e_unsafe(self, n, env):
        return self.ev(n.body, env)

    def stmt(self, s, env):
        if s.k == 'let':
            if s.e is None:
                if s.pat[0] != 'bind':
                    raise Unsupported('let without init')
                env.vars[s.pat[1]] = self.st.new(None)
                return
            v = self.ev(s.e, env)
            if s.ty is not None:
                v = self.coerce(v, s.ty, env)
            if s.d.get('els') is not None:
                c, bs = self.match_pat(s.pat, v, env)
                if not self.branch(c):
                    self.ev(s.els, env)
                    raise Unsupported('let-else fallthrough')
                for nm, x in bs:
                    env.vars[nm] = self.st.new(x)
                return
            self.bind(s.pat, v, env)
        elif s.k == 'expr':
            self.ev(s.e, env)
        elif s.k == 'itemstmt':
            pass
        else:
            self.ev(s, env)

    def e_paren(self, n, env):
        return self.ev(n.e, env)

    def e_int(self, n, env):
        return Lin(n.v)

    def e_float(self, n, env):
        return Opq('float', n.v)

    def e_bool(self, n, env):
        return n.v

    def e_str(self, n, env):
        return Bytes([n.v]) if n.v != '' else Bytes([])

    e_bstr = e_str

    def e_char(self, n, env):
        return Opq('char', n.v)

    def e_tuple(self, n, env):
        return Tup([self.ev(e, env) for e in n.es])

    def e_array(self, n, env):
        return Seq.of([self.ev(e, env) for e in n.es])

    def e_repeat(self, n, env):
        v = self.ev(n.e, env)
        c = L(self.val(n.n, env))
        if isinstance(v, Lin) and v.is_const() and c.is_const() and c.c > 4096:
            raise Unsupported('large repeat')
        ix = fresh_ix()
        return Seq([Seg('f', c, ix, v)])

    def e_path(self, n, env):
        segs = n.segs
        if len(segs) == 1:
            c = env.find(segs[0])
            if c is not None:
                v = self.st.cells[c]
                if v is None:
                    raise Unsupported('read of uninitialised variable %s' % segs[0])
                return v
            it = env.finditem(segs[0])
            if it is not None:
                if isinstance(it, Fn):
                    return FnRef(it)
                return self.ev(it.e, env)
            if segs[0] == 'None':
                return NONE
            if segs[0] in ('Some', 'Ok', 'Err'):
                nm = segs[0]
                en = 'Option' if nm == 'Some' else 'Result'
                return FnRef(None, lambda ex, *a: En(en, nm, a))
        r = models.path_value(self, segs, n, env)
        if r is not None:
            return r
        name = segs[-1]
        c = self.prog.consts.get(name)
        if c:
            f = env.fn.file if env.fn else None
            pick = [x for x in c if x[0] == f] or c
            it = pick[0][1]
            k = (pick[0][0], name)
            if k not in self.const_cache:
                self.const_cache[k] = self.coerce(self.ev(it.e, Env(None, env.fn)), it.ty, env)
            return self.const_cache[k]
        if len(segs) >= 2:
            ty = self.tyalias(segs[-2], env)
            if ty in self.prog.enums:
                return self.enum_ctor(ty, name, None)
            m = self.prog.method(ty, name)
            if m is not None:
                return FnRef(m)
            py = models.assoc_fn(self, ty, name)
            if py is not None:
                return FnRef(None, lambda ex, *a: py(ex, list(a), env, n))
        f = self.find_fn(segs, env)
        if f is not None:
            return FnRef(f)
        if name in self.prog.structs:
            return FnRef(None, lambda ex, *a: ex.tuple_struct(name, a, env))
        raise Unsupported('path %s' % '::'.join(segs))

    def tyalias(self, t, env):
        if t == 'Self' and env.self_ty:
            return env.self_ty
        if t in env.tymap:
            return env.tymap[t]
        return t

    def enum_ctor(self, ty, name, args):
        if ty == 'Variable':
            t = SymVar.TAGS.index(name) if name in SymVar.TAGS else None
            if t is None:
                raise Unsupported('Variable::%s' % name)
            if args is None:
                return FnRef(None, lambda ex, *a: ex.enum_ctor(ty, name, list(a)))
            return SymVar(Lin(t), L(self.deref(args[0])) if args else Lin(0))
        for vn, flds, named in self.prog.enums[ty][1].variants:
            if vn == name:
                if args is None:
                    if flds is None:
                        return En(ty, name)
                    return FnRef(None, lambda ex, *a: En(ty, name, a))
                return En(ty, name, args)
        raise Unsupported('variant %s::%s' % (ty, name))

    def tuple_struct(self, name, args, env):
        _, s = self.prog.structs[name]
        d = {}
        for (fn, ty), a in zip(s.fields, args):
            d[fn] = self.coerce(a, ty, env)
        return St(name, d)

    def find_fn(self, segs, env):
        name = segs[-1]
        c = self.prog.fns.get(name, [])
        if not c:
            return None
        f = env.fn.file if env.fn else None
        same = [x for x in c if x.file == f]
        if len(segs) == 1 and same:
            return same[0]
        if len(segs) > 1:
            mod = segs[-2]
            mm = [x for x in c if x.file.endswith('/%s.rs' % mod) or x.file.endswith('/%s/mod.rs' % mod)]
            if mm:
                return mm[0]
        if len(c) == 1:
            return c[0]
        # resolve through use declarations
        if f:
            for it in self.prog.files.get(f, []):
                if it.k == 'use' and name in it.toks:
                    for x in c:
                        stem = x.file.rsplit('/', 1)[-1][:-3]
                        if stem in it.toks or (stem == 'mod' and x.file.rsplit('/', 2)[-2] in it.toks):
                            if 'helper_constraints' in x.file and 'helper_constraints' not in it.toks:
                                continue
                            return x
        return (same or c)[0]

    def e_structlit(self, n, env):
        name = self.tyalias(n.segs[-1], env)
        d = {}
        if n.base is not None:
            b = self.val(n.base, env)
            d.update(b.f)
        decl = None
        if name in self.prog.structs:
            decl = dict(self.prog.structs[name][1].fields)
        for fn, e in n.fields:
            v = self.ev(e, env)
            if decl and fn in decl:
                v = self.coerce(v, decl[fn], env)
            d[fn] = v
        if decl is None and len(n.segs) >= 2:
            ty = self.tyalias(n.segs[-2], env)
            if ty in self.prog.enums:
                return En(ty, n.segs[-1], [St(n.segs[-1], d)])
        return St(name, d)

    def e_ref(self, n, env):
        if n.mut:
            pl = self.place(n.e, env)
            if pl is not None:
                return self.resolve(pl)
            v = self.ev(n.e, env)
            if isinstance(v, MutRef):
                return v
            return MutRef(self.st.new(v))
        return self.ev(n.e, env)

    def e_un(self, n, env):
        if n.op == '*':
            v = self.ev(n.e, env)
            if isinstance(v, MutRef):
                return self.load(self.resolve(v))
            return v
        v = self.val(n.e, env)
        if n.op == '!':
            if is_bool(v):
                return b_not(v)
            raise Unsupported('bitwise not')
        if n.op == '-':
            if isinstance(v, Lin):
                return -v
            if isinstance(v, Poly):
                return -v
            t = self.tyname(v)
            m = self.prog.method(t, 'neg')
            if m:
                return self.call_fn(m, [], v)
        raise Unsupported('unary %s on %s' % (n.op, type(v).__name__))

    def e_bin(self, n, env):
        op = n.op
        if op in ('&&', '||'):
            a = self.val(n.l, env)
            if op == '&&':
                return self.cond(a, lambda: self.val(n.r, env), lambda: False)
            return self.cond(a, lambda: True, lambda: self.val(n.r, env))
        a = self.val(n.l, env)
        b = self.val(n.r, env)
        return self.binop(op, a, b, n.line)

    def tyname(self, v):
        if isinstance(v, St):
            return v.name
        if isinstance(v, En):
            return v.name
        if isinstance(v, SymVar):
            return 'Variable'
        if isinstance(v, (Poly,)):
            return 'FieldElement'
        if isinstance(v, Lin):
            return 'FieldElement'
        if isinstance(v, Opq) and v.kind == 'enumsym':
            return v.data[0]
        return None

    def islc(self, v):
        return isinstance(v, SymVar) or (isinstance(v, St) and v.name == 'LinearCombination')

    def user_op(self, meth, a, b):
        ta, tb = self.tyname(a), self.tyname(b)
        c = self.prog.methods.get((ta, meth), [])
        if isinstance(a, Lin):
            a = P(a)
        if isinstance(b, Lin):
            b = P(b)
        best = None
        for f in c:
            m = re.match(r'\w+<(.*)>$', f.trait or '')
            arg = m.group(1).lstrip('&') if m else None
            if arg == tb:
                best = f
                break
            if arg is not None and re.match(r'^[A-Z]\w?$', arg) and best is None:
                best = f
            if arg is None and ta == tb and best is None:
                best = f
        if best is None:
            raise Unsupported('operator %s on %s, %s' % (meth, ta, tb))
        return best, a, b

    def binop(self, op, a, b, line=0):
        if op in ('==', '!='):
            if isinstance(a, Seq) and isinstance(b, Bytes) or isinstance(a, Bytes) and isinstance(b, Seq):
                raise Unsupported('bytes comparison')
            c = self.val_eq(a, b)
            return c if op == '==' else b_not(c)
        if self.islc(a) or self.islc(b):
            f, a, b = self.user_op(OPM[op], a, b)
            return self.call_fn(f, [b], a)
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.intop(op, a, b, line)
        if isinstance(a, (Lin, Poly)) and isinstance(b, (Lin, Poly)):
            a, b = P(a), P(b)
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return self.fmul(a, b)
            raise Unsupported('field operator %s' % op)
        if is_bool(a) and is_bool(b):
            if op == '&':
                return b_and(a, b)
            if op == '|':
                return b_or(a, b)
            if op == '^':
                return b_not(self.val_eq(a, b))
        if isinstance(a, Bytes) and isinstance(b, Bytes) and op == '+':
            return a.cat(b)
        if isinstance(a, St) and (a.name, OPM.get(op)) in self.prog.methods:
            f, a, b = self.user_op(OPM[op], a, b)
            return self.call_fn(f, [b], a)
        raise Unsupported('operator %s on %s and %s' % (op, type(a).__name__, type(b).__name__))

    def intop(self, op, a, b, line=0):
        if op in ('+', '*'):
            r = a + b if op == '+' else a.mul(b)
            if r.is_const() and r.c >= 1 << 64:
                self.panic_if(True, 'arithmetic overflow', line)
            return r
        if op == '-':
            self.panic_if(b_lt(a, b), 'subtraction overflow', line)
            return a - b
        if op in ('/', '%'):
            self.panic_if(b_eq(b, 0), 'division by zero', line)
            if b.is_const() and b.c > 0 and (b.c & (b.c - 1)) == 0 and self.isbits(a):
                k = b.c.bit_length() - 1
                return iapp('bits', a, Lin(k), Lin(-1)) if op == '/' else iapp('bits', a, Lin(0), Lin(k))
            return iapp('div' if op == '/' else 'mod', a, b)
        if op == '<':
            return b_lt(a, b)
        if op == '>':
            return b_lt(b, a)
        if op == '<=':
            return b_le(a, b)
        if op == '>=':
            return b_le(b, a)
        if op in ('<<', '>>') and b.is_const() and b.c >= 64:
            self.panic_if(True, 'shift overflow', line)
        if op == '<<':
            if a.is_const() and b.is_const():
                return Lin((a.c << b.c) & ((1 << 64) - 1))
            return a.mul(iapp('pow2', b))
        if op == '>>':
            if a.is_const() and b.is_const():
                return Lin(a.c >> b.c)
            return iapp('bits', a, b, Lin(-1))
        if op == '&':
            if a.is_const() and b.is_const():
                return Lin(a.c & b.c)
            if a.is_const():
                a, b = b, a
            if b.is_const() and b.c > 0 and (b.c & (b.c + 1)) == 0:
                return iapp('bits', a, Lin(0), Lin(b.c.bit_length()))
        if op == '|' and a.is_const() and b.is_const():
            return Lin(a.c | b.c)
        if op == '^' and a.is_const() and b.is_const():
            return Lin(a.c ^ b.c)
        raise Unsupported('integer operator %s' % op)

    def isbits(self, a):
        return len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 and a.t[0][0][0] == 'ia' and a.t[0][0][1] in ('bits', 'nat')

    def e_cast(self, n, env):
        v = self.val(n.e, env)
        if is_bool(v) and not isinstance(v, Lin):
            t = ty_name(n.ty)
            if t != 'bool':
                if isinstance(v, bool):
                    return Lin(int(v))
                return iapp('ite', v, Lin(1), Lin(0))
        if isinstance(v, Lin) and v.is_const():
            w = {'u8': 8, 'u16': 16, 'u32': 32}.get(ty_name(n.ty))
            if w and not 0 <= v.c < (1 << w):
                return Lin(v.c % (1 << w))
        elif isinstance(v, Lin):
            w = {'u8': 8, 'u16': 16, 'u32': 32}.get(ty_name(n.ty))
            if w and self.decide(b_lt(v, Lin(1 << w))) is not True:
                return iapp('bits', v, Lin(0), Lin(w))
        return v

    def e_range(self, n, env):
        lo = L(self.val(n.lo, env)) if n.lo is not None else Lin(0)
        if n.hi is None:
            return St('Range', {'lo': lo, 'hi': None})
        hi = L(self.val(n.hi, env))
        if n.incl:
            hi = hi + 1
        return St('Range', {'lo': lo, 'hi': hi})

    def range_seq(self, r):
        lo, hi = r.f['lo'], r.f['hi']
        ix = fresh_ix()
        if hi is None:
            return Seq([Seg('f', None, ix, lo + Lin.atom(ix))])
        n = hi - lo
        d = self.decide(b_ge0(n))
        if d is not True:
            if d is None:
                d = self.branch(b_ge0(n))
            if not d:
                n = Lin(0)
        if n.is_const() and n.c > self.UNROLL:
            raise Unsupported('large range')
        if n.is_const():
            return Seq.of([lo + j for j in range(n.c)])
        return Seq([Seg('f', n, ix, lo + Lin.atom(ix))])

    def e_index(self, n, env):
        b = self.val(n.e, env)
        ix = self.val(n.ix, env)
        if isinstance(ix, St) and ix.name == 'Range':
            if isinstance(b, Bytes):
                return models.bytes_slice(self, b, ix)
            return self.seq_slice(b, ix.f['lo'], ix.f['hi'], n.line)
        if isinstance(b, St) and b.name in self.prog.structs and (b.name, 'index') in self.prog.methods:
            return self.call_fn(self.prog.method(b.name, 'index'), [ix], b)
        if isinstance(b, HMap):
            return self.map_get(b, ix, n.line)
        return self.seq_get(b, ix, n.line)

    def bytes_get(self, b, i):
        return models.bytes_get(self, b, i)

    def e_field(self, n, env):
        pl = self.place(n, env)
        if pl is not None:
            v = self.st.cells[pl.cell]
            for p in pl.path:
                v = self.proj(v, p)
            return v
        return self.proj(self.lcize(self.ev(n.e, env), n.name), ('f', n.name))

    def lcize(self, v, field):
        if field == 'terms':
            d = self.deref(v)
            if isinstance(d, (SymVar, Poly, Lin)):
                return self.as_lc(d)
        return v

    def proj(self, v, p):
        if p == ('f', 'terms'):
            v = self.lcize(v, 'terms')
        d = v
        while isinstance(d, MutRef):
            d = self.load(d)
        if p[0] == 'f' and isinstance(d, Opq) and d.kind == 'big' and p[1] == 'w':
            return Opq('limbs', d.data[0])
        return super().proj(v, p)

    # ---------------------------------------------------------------- places
    def place(self, n, env):
        k = n.k
        if k == 'paren':
            return self.place(n.e, env)
        if k == 'path':
            if len(n.segs) == 1:
                c = env.find(n.segs[0])
                if c is not None:
                    return MutRef(c)
            return None
        if k == 'field':
            b = self.place(n.e, env)
            if b is None:
                v = self.ev(n.e, env)
                if isinstance(v, MutRef):
                    b = v
                else:
                    return None
            return MutRef(b.cell, b.path + (('f', n.name),))
        if k == 'index':
            b = self.place(n.e, env)
            if b is None:
                v = self.ev(n.e, env)
                if not isinstance(v, MutRef):
                    return None
                b = v
            ix = self.val(n.ix, env)
            if isinstance(ix, St) and ix.name == 'Range':
                return None
            bv = self.deref(self.load(b))
            if isinstance(bv, HMap):
                return MutRef(b.cell, b.path + (('m', ix),))
            if not isinstance(bv, Seq):
                return None
            return MutRef(b.cell, b.path + (('i', L(ix)),))
        if k == 'un' and n.op == '*':
            v = self.ev(n.e, env)
            if isinstance(v, MutRef):
                return v
            return self.place(n.e, env)
        return None

    def e_assign(self, n, env):
        if n.op == '=':
            v = self.ev(n.rhs, env)
            if n.lhs.k == 'path' and n.lhs.segs == ['_']:
                return UNIT
            if n.lhs.k == 'path' and len(n.lhs.segs) == 1:
                c = env.find(n.lhs.segs[0])
                if c is None:
                    raise Unsupported('assignment to %s' % n.lhs.segs[0])
                old = self.st.cells[c]
                if isinstance(old, Poly) and isinstance(v, Lin):
                    v = P(v)
                if self.mode == 'core' and isinstance(old, St) and old.name == 'LinearCombination':
                    v = self.as_lc(v)
                self.st.cells[c] = v
                return UNIT
            if n.lhs.k == 'tuple':
                v = self.deref(v)
                for e, x in zip(n.lhs.es, v.xs):
                    self.assign_to(e, x, env)
                return UNIT
            self.assign_to(n.lhs, v, env)
            return UNIT
        pl = self.place(n.lhs, env)
        if pl is None:
            r = self.ev(n.lhs, env)
            if not isinstance(r, MutRef):
                raise Unsupported('compound assignment target')
            pl = r
        rhs = self.val(n.rhs, env)
        pl = self.resolve(pl)
        old = self.load(pl)
        if self.islc(old) or (isinstance(old, St) and (old.name, OPM.get(n.op)) in self.prog.methods):
            f, _, b = self.user_op(OPM[n.op], old, rhs)
            self.call_fn(f, [b], pl)
            return UNIT
        if isinstance(old, Bytes) and n.op == '+=':
            self.store(pl, old.cat(rhs))
            return UNIT
        self.store(pl, self.binop(n.op[:-1], old, rhs, n.line))
        return UNIT

    def assign_to(self, lhs, v, env):
        if lhs.k == 'path' and len(lhs.segs) == 1:
            if lhs.segs[0] == '_':
                return
            c = env.find(lhs.segs[0])
            self.st.cells[c] = v
            return
        pl = self.place(lhs, env)
        if pl is None:
            r = self.ev(lhs, env)
            if isinstance(r, MutRef):
                pl = r
            else:
                raise Unsupported('assignment target %s' % lhs.k)
        # overwrite the place itself (a stored reference is replaced only through *)
        pl = self.resolve(pl)
        old = None
        try:
            old = self.load(pl)
        except (Unsupported, PanicE):
            old = None
        if isinstance(old, Poly) and isinstance(v, Lin):
            v = P(v)
        if self.mode == 'core' and isinstance(old, St) and old.name == 'LinearCombination':
            v = self.as_lc(v)
        self.store(pl, v)

    # ---------------------------------------------------------------- control flow
    def e_if(self, n, env):
        return self.if_cond(n.c, env, lambda e: self.ev(n.th, e),
                            lambda: self.ev(n.el, env) if n.el is not None else UNIT)

    def if_cond(self, c, env, th, el):
        if c.k == 'letc':
            v = self.ev_scrut(c.e, env)
            cc, bs = self.match_pat(c.pat, v, env)

            def then():
                e2 = Env(env)
                for nm, x in bs:
                    e2.vars[nm] = self.st.new(x)
                return th(e2)
            return self.cond(cc, then, el)
        if c.k == 'andc':
            return self.if_cond(c.l, env, lambda e: self.if_cond(c.r, e, th, el), el)
        v = self.val(c, env)
        return self.cond(v, lambda: th(Env(env)), el)

    def ev_scrut(self, e, env):
        """scrutinee: keep places as references so that bindings can alias (ref / default binding modes)"""
        x = e
        while x.k == 'paren':
            x = x.e
        if x.k == 'ref' and not x.mut:
            return self.ev(x, env)
        v = self.ev(e, env)
        return v

    def e_match(self, n, env):
        v = self.ev_scrut(n.e, env)
        arms = n.arms

        def go(i):
            if i >= len(arms):
                raise Infeasible()
            p, g, b = arms[i]
            c, bs = self.match_pat(p, v, env)
            if c is False:
                return go(i + 1)

            def body():
                e2 = Env(env)
                for nm, x in bs:
                    e2.vars[nm] = self.st.new(x)
                if g is not None:
                    gv = self.val(g, e2)
                    return self.cond(gv, lambda: self.ev(b, e2), lambda: go(i + 1))
                return self.ev(b, e2)
            if i == len(arms) - 1 and g is None:
                # exhaustive match: the last arm needs no test
                if c is not True:
                    self.st.assume(c)
                return body()
            return self.cond(c, body, lambda: go(i + 1))
        return go(0)

    def e_return(self, n, env):
        raise RetE(self.ev(n.e, env) if n.e is not None else UNIT)

    def e_break(self, n, env):
        raise BreakE(n.label, self.ev(n.e, env) if n.e is not None else UNIT)

    def e_continue(self, n, env):
        raise ContE(n.label)

    def e_try(self, n, env):
        v = self.val(n.e, env)
        if isinstance(v, En):
            if v.var in ('Ok', 'Some'):
                return v.args[0]
            raise RetE(v)
        if isinstance(v, Opq) and v.kind == 'resultsym':
            c, ok, err = v.data
            if self.branch(c):
                return ok
            raise RetE(Err(err))
        raise Unsupported('? on %s' % type(v).__name__)

    def iter_of(self, v, line=0):
        """iterator contents of a value used in `for`"""
        if isinstance(v, MutRef):
            d = self.deref(v)
            r = self.resolve(v)
            if isinstance(d, Seq) and d.concrete():
                return Seq.of([MutRef(r.cell, r.path + (('i', Lin(j)),)) for j in range(len(d.segs))])
            if isinstance(d, Seq):
                return models.seq_iter_mut(self, r, d)
            v = d
        if isinstance(v, St) and v.name == 'Range':
            return self.range_seq(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, HMap):
            if v.base is not None:
                raise Unsupported('iteration over opaque map')
            return Seq.of([Tup(e) for e in v.ents])
        if isinstance(v, Opq) and v.kind == 'hset':
            return v.data[0]
        if isinstance(v, Bytes):
            return models.bytes_seq(self, v)
        if isinstance(v, En) and v.name == 'Option':
            return Seq.of(list(v.args))
        raise Unsupported('iteration over %s' % type(v).__name__)

    def e_for(self, n, env):
        it = self.iter_of(self.ev(n.it, env), n.line)
        if it.concrete():
            for x in [g.v for g in it.segs]:
                e2 = Env(env)
                self.bind(n.pat, x, e2)
                try:
                    self.ev(n.body, e2)
                except BreakE as b:
                    if b.label is not None and b.label != n.label:
                        raise
                    break
                except ContE as b:
                    if b.label is not None and b.label != n.label:
                        raise
                    continue
            return UNIT
        if self.loop_handler is None:
            raise Unsupported('loop with symbolic bound')
        return self.loop_handler.for_loop(self, n, it, env)

    def e_while(self, n, env):
        steps = 0
        while True:
            steps += 1
            if steps > self.UNROLL:
                raise Unsupported('while loop bound')
            if n.c.k in ('letc', 'andc'):
                v = self.ev_scrut(n.c.e, env) if n.c.k == 'letc' else None
                if v is None:
                    raise Unsupported('while let chain')
                c, bs = self.match_pat(n.c.pat, v, env)
                e2 = Env(env)
            else:
                c = self.val(n.c, env)
                bs = []
                e2 = Env(env)
            d = self.decide(c)
            if d is None:
                if self.loop_handler is not None and steps == 1 and getattr(self.loop_handler, 'whiles', False):
                    return self.loop_handler.while_loop(self, n, env)
                d = self.branch(c)
            if not d:
                break
            for nm, x in bs:
                e2.vars[nm] = self.st.new(x)
            try:
                self.ev(n.body, e2)
            except BreakE as b:
                if b.label is not None and b.label != n.label:
                    raise
                break
            except ContE as b:
                if b.label is not None and b.label != n.label:
                    raise
                continue
        return UNIT

    def e_loop(self, n, env):
        steps = 0
        while True:
            steps += 1
            if steps > self.UNROLL:
                raise Unsupported('loop bound')
            try:
                self.ev(n.body, Env(env))
            except BreakE as b:
                if b.label is not None and b.label != n.label:
                    raise
                return b.v
            except ContE as b:
                if b.label is not None and b.label != n.label:
                    raise

    def e_closure(self, n, env):
        return Clo(n.params, n.body, env)

    # ---------------------------------------------------------------- calls
    def e_call(self, n, env):
        f = n.f
        while f.k == 'paren':
            f = f.e
        if f.k == 'path':
            segs = f.segs
            name = segs[-1]
            if len(segs) == 1:
                c = env.find(name)
                if c is not None:
                    fv = self.st.cells[c]
                    return self.call_val(fv, [self.ev(a, env) for a in n.args])
                it = env.finditem(name)
                if isinstance(it, Fn):
                    return self.call_fn(it, [self.ev(a, env) for a in n.args])
                if name in ('Some', 'Ok', 'Err'):
                    return En('Option' if name == 'Some' else 'Result', name, [self.ev(n.args[0], env)])
            args = [self.ev(a, env) for a in n.args]
            if len(segs) >= 2:
                ty = self.tyalias(segs[-2], env)
                if ty in self.prog.enums and any(v[0] == name for v in self.prog.enums[ty][1].variants):
                    return self.enum_ctor(ty, name, args)
                cands = self.prog.methods.get((ty, name), [])
                if not cands and ty in self.prog.aliases:
                    ty = ty_name(self.prog.aliases[ty].ty)
                    cands = self.prog.methods.get((ty, name), [])
                if cands and not (ty == 'FieldElement'):
                    m = self.pick_assoc(cands, args)
                    if m.node.selfp is not None:
                        return self.call_method_fn(m, args[0], args[1:])
                    return self.call_fn(m, args)
                py = models.assoc_fn(self, ty, name)
                if py is not None:
                    return py(self, args, env, n)
                # trait static call  Trait::method(x, ..)
                if ty in self.prog.traits or ty in ('GroupElement', 'GroupElementVector'):
                    return self.call_method(args[0], name, args[1:], env, n)
            fn = self.find_fn(segs, env)
            if fn is not None:
                return self.call_fn(fn, args)
            py = models.free_fn(self, segs)
            if py is not None:
                return py(self, args, env, n)
            if name in self.prog.structs or (name == 'Self' and env.self_ty in self.prog.structs):
                return self.tuple_struct(name if name != 'Self' else env.self_ty, args, env)
            # enum variant imported
            for en, (_, e) in self.prog.enums.items():
                if len(segs) == 1 and any(v[0] == name for v in e.variants):
                    return self.enum_ctor(en, name, args)
            raise Unsupported('call of %s' % '::'.join(segs))
        fv = self.ev(f, env)
        return self.call_val(fv, [self.ev(a, env) for a in n.args])

    def pick_assoc(self, cands, args):
        if len(cands) == 1:
            return cands[0]
        if args:
            t = self.tyname(self.deref(args[0]))
            for f in cands:
                m = re.match(r'\w+<(.*)>$', f.trait or '')
                if m and m.group(1).lstrip('&') == t:
                    return f
        for f in cands:
            if f.trait is None:
                return f
        return cands[0]

    def call_method_fn(self, m, recv, args):
        """call user method m with receiver (value or MutRef)"""
        sp = m.node.selfp
        if sp[0] == 'ref' and sp[1]:
            if not isinstance(recv, MutRef):
                recv = MutRef(self.st.new(recv))
            else:
                recv = self.resolve(recv)
        else:
            recv = self.deref(recv)
        return self.call_fn(m, args, recv)

    def e_mcall(self, n, env):
        name = n.name
        pl = self.place(n.recv, env)
        if pl is None:
            recv = self.ev(n.recv, env)
            if not isinstance(recv, MutRef) and name in MUTATING and n.recv.k in ('call', 'mcall', 'macro', 'try', 'paren', 'block', 'if', 'match', 'struct'):
                recv = MutRef(self.st.new(recv))
        else:
            recv = pl
        args = [self.ev(a, env) for a in n.args]
        return self.call_method(recv, name, args, env, n)

    def call_method(self, recv, name, args, env, n):
        v = self.deref(recv)
        # field holding a closure is called as (x.f)(..), so a method is always a method
        t = self.tyname(v)
        c = self.prog.methods.get((t, name), []) if t else []
        c = [f for f in c if f.node.selfp is not None]
        if t == 'FieldElement' and c:
            c = [f for f in c if not (f.trait or '').split('<')[0] in ('Add', 'Sub', 'Mul', 'Neg')]
        if c:
            best = c[0]
            for f in c:
                if f.trait is None:
                    best = f
                    break
            return self.call_method_fn(best, recv, args)
        if t and (t, name) not in self.prog.methods:
            # default method of a user trait implemented by t
            for tn, (rel, tr) in self.prog.traits.items():
                for it in tr.items:
                    if it.k == 'fn' and it.name == name and it.body is not None and it.selfp is not None and \
                            any(k[0] == t and (f.trait or '').split('<')[0] == tn
                                for k, l in self.prog.methods.items() for f in l):
                        f = Fn(name, it, rel, t, tn)
                        return self.call_method_fn(f, recv, args)
        return models.method(self, recv, v, name, args, env, n)

    # ---------------------------------------------------------------- macros
    def e_macro(self, n, env):
        nm = n.name
        if nm in ('println', 'print', 'eprintln', 'eprint', 'debug', 'trace', 'info', 'dbg'):
            return UNIT
        if nm in ('assert', 'debug_assert'):
            c = self.val(n.args[0], env)
            self.panic_if(b_not(c), 'assertion failed', n.line)
            return UNIT
        if nm in ('assert_eq', 'debug_assert_eq', 'assert_ne', 'debug_assert_ne'):
            a, b = self.val(n.args[0], env), self.val(n.args[1], env)
            c = self.val_eq(a, b)
            if nm.endswith('_ne'):
                c = b_not(c)
            self.panic_if(b_not(c), 'assertion failed', n.line)
            return UNIT
        if nm in ('panic', 'unreachable', 'unimplemented', 'todo'):
            raise PanicE(nm, n.line)
        if nm == 'format':
            if n.args and n.args[0].k == 'str':
                parts = re.split(r'\{[^}]*\}', n.args[0].v)
                out = Bytes([])
                for j, p in enumerate(parts):
                    if p:
                        out = out.cat(Bytes([p]))
                    if j < len(parts) - 1:
                        if j + 1 < len(n.args):
                            v = self.val(n.args[j + 1], env)
                            out = out.cat(models.to_string(self, v))
                        else:
                            out = out.cat(Bytes([('enc', 'fmt', Lin(j))]))
                return out
            return Bytes([('enc', 'fmt', Lin(0))])
        # user macro_rules
        d = self.find_macro(nm)
        if d is not None:
            return self.ev(self.expand(d, n), env)
        raise Unsupported('macro %s!' % nm)

    def find_macro(self, nm):
        for rel, items in self.prog.files.items():
            for it in items:
                if it.k == 'macroitem' and it.name == 'macro_rules' and it.mname == nm:
                    return it
        return None

    def expand(self, d, n):
        toks = list(d.body)
        # single arm: ( pat ) => { body }
        def group(ts, i):
            op = ts[i][1]
            cl = {'(': ')', '[': ']', '{': '}'}[op]
            dep = 0
            j = i
            while True:
                if ts[j][1] == op:
                    dep += 1
                elif ts[j][1] == cl:
                    dep -= 1
                    if dep == 0:
                        return ts[i+1:j], j + 1
                j += 1
        pat, i = group(toks, 0)
        if toks[i][1] != '=>':
            raise Unsupported('macro shape')
        body, j = group(toks, i + 1)
        names = []
        q = 0
        while q < len(pat):
            if pat[q][1] == '$':
                names.append(pat[q+1][1])
                if pat[q+3][1] not in ('expr', 'ident'):
                    raise Unsupported('macro fragment')
                q += 4
            elif pat[q][1] == ',':
                q += 1
            else:
                raise Unsupported('macro pattern')
        args = []
        cur = []
        dep = 0
        for t in n.toks:
            if t[0] == 'p' and t[1] in '([{':
                dep += 1
            if t[0] == 'p' and t[1] in ')]}':
                dep -= 1
            if t[0] == 'p' and t[1] == ',' and dep == 0:
                args.append(cur)
                cur = []
            else:
                cur.append(t)
        if cur:
            args.append(cur)
        if len(args) != len(names):
            raise Unsupported('macro arity')
        mp = dict(zip(names, args))
        out = []
        q = 0
        while q < len(body):
            if body[q][1] == '$' and q + 1 < len(body) and body[q+1][1] in mp:
                out.append(('p', '(', n.line))
                out.extend(mp[body[q+1][1]])
                out.append(('p', ')', n.line))
                q += 2
            else:
                out.append(body[q])
                q += 1
        p = rparse.Parser.__new__(rparse.Parser)
        p.t = [('p', '{', n.line)] + out + [('p', '}', n.line), ('eof', '', n.line)]
        p.i = 0
        p.fname = 'macro'
        p.errors = []
        return p.block()
