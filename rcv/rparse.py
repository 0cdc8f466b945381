"""Hand-written lexer/parser for the subset of Rust used by the repository (and a good deal more).

The parser reads the files of /repo's working tree on every run; nothing is cached.  Items under
`#[cfg(test)]` are dropped (they are not part of the shipped library).  Everything else that the
grammar below does not understand raises ParseError for the *item* concerned, which is recorded and makes
every contract that needs this item undecided (never silently skipped).
"""
import re

class ParseError(Exception):
    pass

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bstr>b"(?:[^"\\]|\\.)*")
 |(?P<bchar>b'(?:[^'\\]|\\.)[^']*')
 |(?P<rstr>r\#*".*?"\#*)
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<char>'(?:[^'\\]|\\(?:u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>0x[0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|0b[01_]+(?:[iu](?:8|16|32|64|128|size))?|\d[\d_]*(?:\.\d[\d_]*)?(?:[iuf](?:8|16|32|64|128|size))?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<p><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
''', re.X | re.S)


def lex(src):
    toks = []
    i = 0
    n = len(src)
    line = 1
    while i < n:
        if src.startswith('/*', i):
            depth = 0
            j = i
            while j < n:
                if src.startswith('/*', j):
                    depth += 1; j += 2
                elif src.startswith('*/', j):
                    depth -= 1; j += 2
                    if depth == 0:
                        break
                else:
                    j += 1
            line += src.count('\n', i, j)
            i = j
            continue
        m = TOK.match(src, i)
        if not m:
            raise ParseError('lex error line %d: %r' % (line, src[i:i+20]))
        k = m.lastgroup
        t = m.group()
        if k not in ('ws', 'lc'):
            toks.append((k, t, line))
        line += t.count('\n')
        i = m.end()
    toks.append(('eof', '', line))
    return toks


class N:
    """AST node: kind + attributes."""
    __slots__ = ('k', 'd', 'line')
    def __init__(self, k, line=0, **d):
        self.k = k; self.d = d; self.line = line
    def __getattr__(self, a):
        try:
            return self.d[a]
        except KeyError:
            raise AttributeError(a)
    def __repr__(self):
        return '%s(%s)' % (self.k, ', '.join('%s=%r' % x for x in self.d.items()))


BINPREC = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '|': 4, '^': 5, '&': 6,
           '<<': 7, '>>': 7, '+': 8, '-': 8, '*': 9, '/': 9, '%': 9}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<=', '>>='}


class Parser:
    def __init__(self, src, fname='?'):
        self.t = lex(src)
        self.i = 0
        self.fname = fname
        self.errors = []

    # -- token helpers
    def peek(self, o=0):
        return self.t[min(self.i + o, len(self.t) - 1)]
    def tv(self, o=0):
        return self.peek(o)[1]
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def at(self, *vals):
        k, v, _ = self.peek()
        return k in ('p', 'id') and v in vals
    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.at(v):
            raise ParseError('%s:%d expected %r got %r' % (self.fname, self.peek()[2], v, self.tv()))
        self.i += 1
    def ident(self):
        k, v, l = self.next()
        if k != 'id':
            raise ParseError('%s:%d expected ident got %r' % (self.fname, l, v))
        return v
    def split_tok(self, first):
        """Split a compound token such as '>>' when only '>' is wanted."""
        k, v, l = self.peek()
        if k == 'p' and v != first and v.startswith(first):
            self.t[self.i:self.i+1] = [('p', first, l), ('p', v[len(first):], l)]
    def skip_balanced(self):
        """skip one balanced group starting at ( [ or {"""
        op = self.tv()
        pairs = {'(': ')', '[': ']', '{': '}'}
        st = []
        while True:
            k, v, l = self.next()
            if k == 'eof':
                raise ParseError('unbalanced')
            if k == 'p':
                if v in pairs:
                    st.append(pairs[v])
                elif v in (')', ']', '}'):
                    if not st or st.pop() != v:
                        raise ParseError('unbalanced')
                    if not st:
                        return

    # -- attributes
    def attrs(self):
        out = []
        while self.at('#'):
            self.next()
            self.eat('!')
            s = self.i
            self.skip_balanced()
            out.append(''.join(x[1] for x in self.t[s+1:self.i-1]))
        return out

    # -- items
    def items(self, end='eof'):
        res = []
        while True:
            if end == 'eof' and self.peek()[0] == 'eof':
                return res
            if end == '}' and self.at('}'):
                return res
            save = self.i
            try:
                it = self.item()
                if it is not None:
                    res.append(it)
            except ParseError as e:
                # recover: record and skip to the next plausible item at this nesting level
                self.errors.append(str(e))
                self.i = save
                self.recover()

    def recover(self):
        depth = 0
        started = False
        while self.peek()[0] != 'eof':
            v = self.tv()
            if v in ('{', '(', '['):
                self.skip_balanced()
                if v == '{':
                    return
                continue
            if v == ';':
                self.next()
                return
            if v == '}':
                return
            self.next()

    def item(self):
        at = self.attrs()
        test = any(re.match(r'cfg\(test\)', a) for a in at)
        line = self.peek()[2]
        vis = False
        if self.at('pub'):
            vis = True
            self.next()
            if self.at('(') and self.tv(1) in ('super', 'crate', 'self', 'in'):
                self.skip_balanced()
        while self.at('unsafe', 'async', 'default') or (self.at('const') and self.tv(1) in ('fn', 'unsafe')) or \
                (self.at('extern') and self.peek(1)[0] == 'str'):
            if self.at('extern'):
                self.next()
            self.next()
        r = None
        if self.at('fn'):
            r = self.fn(vis)
        elif self.at('struct'):
            r = self.struct()
        elif self.at('enum'):
            r = self.enum()
        elif self.at('impl'):
            r = self.impl()
        elif self.at('trait'):
            r = self.trait()
        elif self.at('use', 'extern'):
            toks = []
            while not self.at(';'):
                toks.append(self.next()[1])
            self.next()
            r = N('use', line, toks=toks)
        elif self.at('mod'):
            self.next()
            name = self.ident()
            if self.eat(';'):
                r = N('moddecl', line, name=name)
            else:
                self.expect('{')
                if test:
                    self.i -= 1
                    self.skip_balanced()
                    return None
                its = self.items('}')
                self.expect('}')
                r = N('mod', line, name=name, items=its)
        elif self.at('const', 'static'):
            self.next()
            self.eat('mut')
            name = self.ident()
            self.expect(':')
            ty = self.type()
            e = None
            if self.eat('='):
                e = self.expr()
            self.expect(';')
            r = N('const', line, name=name, ty=ty, e=e)
        elif self.at('type'):
            self.next()
            name = self.ident()
            self.generics()
            if self.eat(':'):
                while not self.at(';', '='):
                    self.next()
            ty = None
            if self.eat('='):
                ty = self.type()
            self.expect(';')
            r = N('type', line, name=name, ty=ty)
        elif self.peek()[0] == 'id' and self.tv(1) == '!':
            name = self.ident()
            self.next()
            mname = None
            if self.peek()[0] == 'id':
                mname = self.ident()
            b = self.tv()
            s = self.i
            self.skip_balanced()
            body = self.t[s+1:self.i-1]
            if b != '{':
                self.eat(';')
            r = N('macroitem', line, name=name, mname=mname, body=body)
        else:
            raise ParseError('%s:%d unknown item at %r' % (self.fname, line, self.tv()))
        if test:
            return None
        r.d['attrs'] = at
        r.d['vis'] = vis
        return r

    def generics(self):
        out = []
        self.split_tok('<')
        if not self.at('<'):
            return out
        depth = 0
        cur = []
        while True:
            k, v, l = self.next()
            if v == '<':
                depth += 1
                if depth == 1:
                    continue
            elif v == '>':
                depth -= 1
                if depth == 0:
                    break
            elif v == '>>':
                depth -= 2
                if depth <= 0:
                    break
            elif v == ',' and depth == 1:
                out.append(cur); cur = []
                continue
            cur.append(v)
        if cur:
            out.append(cur)
        return out

    def where(self):
        if self.at('where'):
            while not self.at('{', ';'):
                if self.at('(', '['):
                    self.skip_balanced()
                else:
                    self.next()

    def fn(self, vis=False):
        line = self.peek()[2]
        self.expect('fn')
        name = self.ident()
        gen = self.generics()
        self.expect('(')
        params = []
        selfp = None
        while not self.at(')'):
            self.attrs()
            s = self.i
            # self params
            if self.at('&') or self.at('self') or (self.at('mut') and self.tv(1) == 'self'):
                ref = mut = False
                if self.eat('&'):
                    ref = True
                    if self.peek()[0] == 'life':
                        self.next()
                if self.eat('mut'):
                    mut = True
                if self.at('self'):
                    self.next()
                    if self.eat(':'):
                        self.type()
                    selfp = ('ref' if ref else 'val', mut)
                    if not self.eat(','):
                        break
                    continue
                self.i = s
            p = self.pattern()
            self.expect(':')
            ty = self.type()
            params.append((p, ty))
            if not self.eat(','):
                break
        self.expect(')')
        ret = None
        if self.eat('->'):
            ret = self.type()
        self.where()
        body = None
        if self.at('{'):
            s = self.i
            try:
                body = self.block()
            except ParseError as e:
                self.errors.append('fn %s: %s' % (name, e))
                self.i = s
                self.skip_balanced()
                body = N('unparsed', line, msg=str(e))
        else:
            self.expect(';')
        return N('fn', line, name=name, generics=gen, selfp=selfp, params=params, ret=ret, body=body, vis=vis)

    def struct(self):
        line = self.peek()[2]
        self.expect('struct')
        name = self.ident()
        self.generics()
        self.where()
        fields = []
        if self.eat(';'):
            return N('struct', line, name=name, fields=fields, tuple=False)
        if self.at('('):
            self.next()
            while not self.at(')'):
                self.attrs()
                if self.eat('pub') and self.at('(') and self.tv(1) in ('super', 'crate', 'self', 'in'):
                    self.skip_balanced()
                fields.append((str(len(fields)), self.type()))
                if not self.eat(','):
                    break
            self.expect(')')
            self.where()
            self.expect(';')
            return N('struct', line, name=name, fields=fields, tuple=True)
        self.expect('{')
        while not self.at('}'):
            self.attrs()
            if self.eat('pub') and self.at('('):
                self.skip_balanced()
            fn = self.ident()
            self.expect(':')
            fields.append((fn, self.type()))
            if not self.eat(','):
                break
        self.expect('}')
        return N('struct', line, name=name, fields=fields, tuple=False)

    def enum(self):
        line = self.peek()[2]
        self.expect('enum')
        name = self.ident()
        self.generics()
        self.where()
        self.expect('{')
        vs = []
        while not self.at('}'):
            self.attrs()
            vn = self.ident()
            flds = None
            named = False
            if self.at('('):
                self.next()
                flds = []
                while not self.at(')'):
                    flds.append((str(len(flds)), self.type()))
                    if not self.eat(','):
                        break
                self.expect(')')
            elif self.at('{'):
                self.next()
                flds = []
                named = True
                while not self.at('}'):
                    self.attrs()
                    f = self.ident()
                    self.expect(':')
                    flds.append((f, self.type()))
                    if not self.eat(','):
                        break
                self.expect('}')
            if self.eat('='):
                self.expr()
            vs.append((vn, flds, named))
            if not self.eat(','):
                break
        self.expect('}')
        return N('enum', line, name=name, variants=vs)

    def impl(self):
        line = self.peek()[2]
        self.expect('impl')
        gen = self.generics()
        self.eat('!')
        t1 = self.type()
        tr = None
        if self.eat('for'):
            tr = t1
            t1 = self.type()
        self.where()
        self.expect('{')
        its = self.items('}')
        self.expect('}')
        return N('impl', line, trait=tr, ty=t1, items=its, generics=gen)

    def trait(self):
        line = self.peek()[2]
        self.expect('trait')
        name = self.ident()
        self.generics()
        if self.eat(':'):
            while not self.at('{', 'where'):
                self.next()
        self.where()
        self.expect('{')
        its = self.items('}')
        self.expect('}')
        return N('trait', line, name=name, items=its)

    # -- types
    def type(self):
        self.split_tok('&')
        if self.eat('&'):
            if self.peek()[0] == 'life':
                self.next()
            mut = self.eat('mut')
            return ('ref', mut, self.type())
        if self.at('*'):
            self.next(); self.next()
            return ('ptr', self.type())
        if self.at('['):
            self.next()
            t = self.type()
            if self.eat(';'):
                e = self.expr()
                self.expect(']')
                return ('array', t, e)
            self.expect(']')
            return ('slice', t)
        if self.at('('):
            self.next()
            ts = []
            while not self.at(')'):
                ts.append(self.type())
                if not self.eat(','):
                    break
            self.expect(')')
            r = ('tuple', ts) if len(ts) != 1 else ts[0]
            return self.bounds(r)
        if self.eat('!'):
            return ('never',)
        if self.at('_'):
            self.next()
            return ('infer',)
        if self.at('dyn', 'impl'):
            self.next()
            return self.bounds(('dyn', self.type()))
        if self.at('for'):
            self.next()
            self.generics()
            return self.type()
        self.split_tok('<')
        if self.at('<'):
            # qualified path <T as Trait>::X
            depth = 0
            while True:
                v = self.next()[1]
                if v == '<':
                    depth += 1
                elif v == '>':
                    depth -= 1
                elif v == '>>':
                    depth -= 2
                if depth <= 0:
                    break
            segs = []
            while self.eat('::'):
                segs.append(self.ident())
            return ('path', segs, [])
        segs = []
        args = []
        if self.peek()[0] == 'life':
            self.next()
            return self.bounds(('life',))
        self.eat('::')
        while True:
            segs.append(self.ident())
            if self.at('::') and self.tv(1) == '<':
                self.next()
            self.split_tok('<')
            if self.at('<'):
                args = self.generic_args()
            elif self.at('(') and segs[-1] in ('Fn', 'FnMut', 'FnOnce'):
                self.next()
                ps = []
                while not self.at(')'):
                    ps.append(self.type())
                    if not self.eat(','):
                        break
                self.expect(')')
                ret = None
                if self.eat('->'):
                    ret = self.type()
                return self.bounds(('fn', ps, ret))
            if not self.eat('::'):
                break
        return self.bounds(('path', segs, args))

    def bounds(self, t):
        while self.at('+') and (self.peek(1)[0] in ('id', 'life')) and getattr(self, 'type_bounds', False):
            self.next()
            self.type()
        return t

    def generic_args(self):
        self.expect('<')
        args = []
        while True:
            self.split_tok('>')
            if self.at('>'):
                break
            if self.peek()[0] == 'life':
                self.next()
            elif self.peek()[0] == 'num':
                args.append(('num', self.next()[1]))
            elif self.at('{'):
                self.skip_balanced()
                args.append(('other',))
            elif self.peek()[0] == 'id' and self.tv(1) == '=':
                self.next(); self.next()
                self.type()
            else:
                args.append(self.type())
                while self.eat('+'):
                    self.type()
            self.split_tok('>')
            if not self.eat(','):
                break
        self.split_tok('>')
        self.expect('>')
        return args

    # -- patterns
    def pattern(self):
        self.eat('|')
        p = self.pattern1()
        if self.at('|'):
            alts = [p]
            while self.eat('|'):
                alts.append(self.pattern1())
            return ('or', alts)
        return p

    def pattern1(self):
        k, v, l = self.peek()
        if v == '&&':
            self.split_tok('&')
            k, v, l = self.peek()
        if v == '&':
            self.next()
            self.eat('mut')
            return ('refp', self.pattern1())
        if v == '_':
            self.next()
            return ('wild',)
        if v == '..':
            self.next()
            return ('rest',)
        if v == '(':
            self.next()
            ps = []
            trailing = False
            while not self.at(')'):
                ps.append(self.pattern())
                trailing = False
                if not self.eat(','):
                    break
                trailing = True
            self.expect(')')
            if len(ps) == 1 and not trailing and ps[0] != ('rest',):
                return ps[0]
            return ('tuple', ps)
        if v == '[':
            self.next()
            ps = []
            while not self.at(']'):
                ps.append(self.pattern())
                if not self.eat(','):
                    break
            self.expect(']')
            return ('slice', ps)
        if k in ('num', 'str', 'char', 'bstr', 'bchar') or v == '-' or v in ('true', 'false'):
            e = self.unary(True)
            if self.at('..=', '..', '...'):
                op = self.next()[1]
                hi = None
                if self.peek()[0] in ('num', 'char') or self.at('-') :
                    hi = self.unary(True)
                return ('range', e, hi, op != '..')
            return ('lit', e)
        byref = False
        mut = False
        if v == 'ref':
            self.next(); byref = True
        if self.eat('mut'):
            mut = True
        if byref or mut:
            name = self.ident()
            sub = self.pattern1() if self.eat('@') else None
            return ('bind', name, byref, mut, sub)
        # path / binding
        path = [self.ident()]
        while self.at('::'):
            self.next()
            if self.at('<'):
                self.generic_args()
            else:
                path.append(self.ident())
        if self.at('('):
            self.next()
            ps = []
            while not self.at(')'):
                ps.append(self.pattern())
                if not self.eat(','):
                    break
            self.expect(')')
            return ('tstruct', path, ps)
        if self.at('{'):
            self.next()
            fs = []
            rest = False
            while not self.at('}'):
                if self.eat('..'):
                    rest = True
                    break
                byref = self.eat('ref')
                mut = self.eat('mut')
                fk, f, _ = self.next()
                if self.eat(':'):
                    fs.append((f, self.pattern()))
                else:
                    fs.append((f, ('bind', f, byref, mut, None)))
                if not self.eat(','):
                    break
            self.expect('}')
            return ('struct', path, fs)
        if self.at('..=', '...') :
            self.next()
            hi = self.unary(True)
            return ('range', N('path', l, segs=path, gargs=[]), hi, True)
        if len(path) == 1 and not (path[0][0].isupper() and (len(path[0]) > 1 and path[0] in ('None',) )):
            sub = self.pattern1() if self.eat('@') else None
            return ('bind', path[0], False, False, sub)
        return ('pathp', path)

    # -- blocks / statements
    def block(self):
        line = self.peek()[2]
        self.expect('{')
        stmts = []
        tail = None
        while not self.at('}'):
            if self.eat(';'):
                continue
            at = self.attrs()
            if any(a.startswith('cfg(test') for a in at):
                raise ParseError('cfg(test) statement')
            l = self.peek()[2]
            if self.at('let'):
                self.next()
                p = self.pattern()
                ty = self.type() if self.eat(':') else None
                e = None
                els = None
                if self.eat('='):
                    e = self.expr()
                    if self.at('else'):
                        self.next()
                        els = self.block()
                self.expect(';')
                stmts.append(N('let', l, pat=p, ty=ty, e=e, els=els))
                continue
            if self.is_item_start():
                it = self.item()
                if it is not None:
                    stmts.append(N('itemstmt', l, item=it))
                continue
            e = self.expr(stmt=True)
            if self.eat(';'):
                stmts.append(N('expr', l, e=e, semi=True))
            elif self.at('}'):
                tail = e
            elif e.k in ('if', 'match', 'for', 'while', 'loop', 'block', 'iflet', 'whilelet', 'unsafe') or (e.k == 'macro' and e.brace == '{'):
                stmts.append(N('expr', l, e=e, semi=False))
            else:
                raise ParseError('%s:%d expected ; got %r' % (self.fname, self.peek()[2], self.tv()))
        self.expect('}')
        return N('block', line, stmts=stmts, tail=tail)

    def is_item_start(self):
        v = self.tv()
        if self.peek()[0] != 'id':
            return False
        if v in ('fn', 'struct', 'enum', 'impl', 'trait', 'use', 'mod', 'static', 'pub', 'extern'):
            return True
        if v == 'const' and self.tv(1) != '{':
            return True
        if v == 'type' and self.peek(1)[0] == 'id':
            return True
        return False

    # -- expressions
    def expr(self, nostruct=False, stmt=False):
        return self.assign(nostruct, stmt)

    def assign(self, ns, stmt=False):
        l = self.peek()[2]
        e = self.range(ns, stmt)
        if stmt and self.blocklike(e) :
            return e
        k, v, _ = self.peek()
        if k == 'p' and v in ASSIGN:
            self.next()
            r = self.assign(ns)
            return N('assign', l, op=v, lhs=e, rhs=r)
        return e

    def blocklike(self, e):
        return e.k in ('if', 'match', 'for', 'while', 'loop', 'block', 'iflet', 'whilelet', 'unsafe') and e.d.get('stmtpos')

    def range(self, ns, stmt=False):
        l = self.peek()[2]
        if self.at('..', '..='):
            op = self.next()[1]
            hi = None
            if not self.range_end(ns):
                hi = self.binary(1, ns)
            return N('range', l, lo=None, hi=hi, incl=op == '..=')
        e = self.binary(1, ns, stmt)
        if stmt and self.blocklike(e):
            return e
        if self.at('..', '..='):
            op = self.next()[1]
            hi = None
            if not self.range_end(ns):
                hi = self.binary(1, ns)
            return N('range', l, lo=e, hi=hi, incl=op == '..=')
        return e

    def range_end(self, ns):
        k, v, _ = self.peek()
        if k == 'eof':
            return True
        if k == 'p' and v in (')', ']', '}', ',', ';', '=>'):
            return True
        if ns and v == '{':
            return True
        return False

    def binary(self, minp, ns, stmt=False):
        l = self.peek()[2]
        e = self.cast(ns, stmt)
        if stmt and self.blocklike(e):
            return e
        while True:
            k, v, _ = self.peek()
            if k != 'p' or v not in BINPREC or BINPREC[v] < minp:
                return e
            p = BINPREC[v]
            self.next()
            r = self.binary(p + 1, ns)
            e = N('bin', l, op=v, l=e, r=r)

    def cast(self, ns, stmt=False):
        l = self.peek()[2]
        e = self.unary(ns, stmt)
        if stmt and self.blocklike(e):
            return e
        while self.at('as'):
            self.next()
            e = N('cast', l, e=e, ty=self.type())
        return e

    def unary(self, ns, stmt=False):
        k, v, l = self.peek()
        if k == 'p':
            if v == '&&':
                self.split_tok('&')
                v = '&'
            if v == '&':
                self.next()
                mut = False
                if self.at('mut'):
                    self.next()
                    mut = True
                return N('ref', l, mut=mut, e=self.unary(ns))
            if v in ('-', '!', '*'):
                self.next()
                return N('un', l, op=v, e=self.unary(ns))
        return self.postfix(ns, stmt)

    def postfix(self, ns, stmt=False):
        e = self.primary(ns, stmt)
        if stmt and self.blocklike(e):
            # `if ... {}.method()` is not used as a statement; `match x {}.foo()` neither
            if not self.at('.', '?'):
                return e
            e.d['stmtpos'] = False
        while True:
            k, v, l = self.peek()
            if v == '?' and k == 'p':
                self.next()
                e = N('try', l, e=e)
            elif v == '.' and k == 'p':
                self.next()
                k2, v2, l2 = self.next()
                if k2 == 'num':
                    for part in v2.split('.'):
                        e = N('field', l2, e=e, name=part)
                    continue
                if v2 == 'await':
                    raise ParseError('await')
                gargs = []
                if self.at('::'):
                    self.next()
                    gargs = self.generic_args()
                if self.at('('):
                    args = self.args()
                    e = N('mcall', l2, recv=e, name=v2, args=args, gargs=gargs)
                else:
                    e = N('field', l2, e=e, name=v2)
            elif v == '(' and k == 'p':
                e = N('call', l, f=e, args=self.args())
            elif v == '[' and k == 'p':
                self.next()
                ix = self.expr()
                self.expect(']')
                e = N('index', l, e=e, ix=ix)
            else:
                return e

    def args(self):
        self.expect('(')
        out = []
        while not self.at(')'):
            self.attrs()
            out.append(self.expr())
            if not self.eat(','):
                break
        self.expect(')')
        return out

    def primary(self, ns, stmt=False):
        k, v, l = self.peek()
        if k == 'num':
            self.next()
            m = re.match(r'^(0x[0-9a-fA-F_]+?|0b[01_]+?|[\d_]+(?:\.[\d_]+)?)((?:[iuf](?:8|16|32|64|128|size))?)$', v)
            body, suf = m.group(1), m.group(2)
            if '.' in body:
                return N('float', l, v=body)
            val = int(body.replace('_', ''), 0) if body[:2] in ('0x', '0b') else int(body.replace('_', ''))
            return N('int', l, v=val, suf=suf)
        if k == 'str':
            self.next()
            return N('str', l, v=v[1:-1])
        if k == 'rstr':
            self.next()
            return N('str', l, v=v)
        if k == 'bstr':
            self.next()
            return N('bstr', l, v=v[2:-1])
        if k in ('char', 'bchar'):
            self.next()
            return N('char', l, v=v)
        if k == 'life':
            lab = v
            self.next()
            self.expect(':')
            e = self.primary(ns, stmt)
            e.d['label'] = lab
            return e
        if k == 'p':
            if v == '(':
                self.next()
                es = []
                trailing = False
                while not self.at(')'):
                    es.append(self.expr())
                    trailing = False
                    if not self.eat(','):
                        break
                    trailing = True
                self.expect(')')
                if len(es) == 1 and not trailing:
                    return N('paren', l, e=es[0])
                return N('tuple', l, es=es)
            if v == '[':
                self.next()
                if self.at(']'):
                    self.next()
                    return N('array', l, es=[])
                e = self.expr()
                if self.eat(';'):
                    n = self.expr()
                    self.expect(']')
                    return N('repeat', l, e=e, n=n)
                es = [e]
                while self.eat(','):
                    if self.at(']'):
                        break
                    es.append(self.expr())
                self.expect(']')
                return N('array', l, es=es)
            if v == '{':
                b = self.block()
                b.d['stmtpos'] = stmt
                return b
            if v in ('|', '||'):
                return self.closure(False)
            if v == '<':
                # <T>::f or <T as Tr>::f
                self.next()
                ty = self.type()
                if self.eat('as'):
                    self.type()
                self.split_tok('>')
                self.expect('>')
                segs = [ty[1][-1] if ty[0] == 'path' else '?']
                while self.eat('::'):
                    segs.append(self.ident())
                return N('path', l, segs=segs, gargs=[])
            raise ParseError('%s:%d unexpected %r' % (self.fname, l, v))
        if k == 'id':
            if v == 'move':
                self.next()
                return self.closure(True)
            if v == 'if':
                e = self.if_()
                e.d['stmtpos'] = stmt
                return e
            if v == 'match':
                self.next()
                e = self.expr(nostruct=True)
                self.expect('{')
                arms = []
                while not self.at('}'):
                    self.attrs()
                    p = self.pattern()
                    g = None
                    if self.eat('if'):
                        g = self.expr()
                    self.expect('=>')
                    b = self.expr(stmt=False)
                    arms.append((p, g, b))
                    if not self.eat(','):
                        if not self.at('}') and b.k not in ('block', 'if', 'match', 'for', 'while', 'loop', 'iflet', 'whilelet'):
                            raise ParseError('%s:%d match arm' % (self.fname, self.peek()[2]))
                self.expect('}')
                return N('match', l, e=e, arms=arms, stmtpos=stmt)
            if v == 'loop':
                self.next()
                return N('loop', l, body=self.block(), stmtpos=stmt, label=None)
            if v == 'while':
                self.next()
                c = self.cond()
                return N('while', l, c=c, body=self.block(), stmtpos=stmt, label=None)
            if v == 'for':
                self.next()
                p = self.pattern()
                self.expect('in')
                it = self.expr(nostruct=True)
                return N('for', l, pat=p, it=it, body=self.block(), stmtpos=stmt, label=None)
            if v == 'unsafe':
                self.next()
                b = self.block()
                return N('unsafe', l, body=b, stmtpos=stmt)
            if v in ('return', 'break', 'continue'):
                self.next()
                lab = None
                if v != 'return' and self.peek()[0] == 'life':
                    lab = self.next()[1]
                e = None
                kk, vv, _ = self.peek()
                if not (kk == 'p' and vv in (';', '}', ')', ',', ']', '=>')) and kk != 'eof' and v != 'continue':
                    if not (ns and vv == '{'):
                        e = self.expr(nostruct=ns)
                return N(v, l, e=e, label=lab)
            if v in ('true', 'false'):
                self.next()
                return N('bool', l, v=v == 'true')
            # macro call?
            if self.tv(1) == '!' and self.tv(2) in ('(', '[', '{') and self.peek(1)[0] == 'p':
                name = self.ident()
                self.next()
                return self.macro(name, l)
            segs = [self.ident()]
            gargs = []
            while self.at('::'):
                self.next()
                self.split_tok('<')
                if self.at('<'):
                    gargs = self.generic_args()
                else:
                    segs.append(self.ident())
            if self.at('{') and not ns and (segs[-1][0].isupper() or segs[-1] == 'Self'):
                return self.struct_lit(segs, l)
            return N('path', l, segs=segs, gargs=gargs)
        raise ParseError('%s:%d unexpected token %r' % (self.fname, l, v))

    def struct_lit(self, segs, l):
        self.expect('{')
        fs = []
        base = None
        while not self.at('}'):
            self.attrs()
            if self.eat('..'):
                base = self.expr()
                break
            f = self.next()[1]
            if self.eat(':'):
                fs.append((f, self.expr()))
            else:
                fs.append((f, N('path', l, segs=[f], gargs=[])))
            if not self.eat(','):
                break
        self.expect('}')
        return N('structlit', l, segs=segs, fields=fs, base=base)

    def cond(self):
        """condition of if/while: expression or let chain"""
        l = self.peek()[2]
        if self.at('let'):
            self.next()
            p = self.pattern()
            self.expect('=')
            e = self.binary(3, True)  # no && inside scrutinee
            c = N('letc', l, pat=p, e=e)
            if self.at('&&'):
                self.next()
                return N('andc', l, l=c, r=self.cond())
            return c
        return self.expr(nostruct=True)

    def if_(self):
        l = self.peek()[2]
        self.expect('if')
        c = self.cond()
        th = self.block()
        el = None
        if self.eat('else'):
            if self.at('if'):
                el = self.if_()
            else:
                el = self.block()
        return N('if', l, c=c, th=th, el=el)

    def closure(self, move):
        l = self.peek()[2]
        params = []
        if self.eat('||'):
            pass
        else:
            self.expect('|')
            while not self.at('|'):
                p = self.pattern1()
                ty = self.type() if self.eat(':') else None
                params.append((p, ty))
                if not self.eat(','):
                    break
            self.expect('|')
        if self.eat('->'):
            self.type()
            body = self.block()
        else:
            body = self.expr()
        return N('closure', l, params=params, body=body, move=move)

    def macro(self, name, l):
        b = self.tv()
        close = {'(': ')', '[': ']', '{': '}'}[b]
        s = self.i
        self.skip_balanced()
        e = self.i
        toks = self.t[s+1:e-1]
        if name in ('println', 'print', 'eprintln', 'eprint', 'debug', 'trace', 'info', 'dbg'):
            return N('macro', l, name=name, brace=b, args=None, toks=toks)
        sub = Parser.__new__(Parser)
        sub.t = list(toks) + [('eof', '', l)]
        sub.i = 0
        sub.fname = self.fname
        sub.errors = self.errors
        if name == 'vec':
            if sub.peek()[0] == 'eof':
                return N('array', l, es=[], vec=True)
            e1 = sub.expr()
            if sub.eat(';'):
                n = sub.expr()
                return N('repeat', l, e=e1, n=n, vec=True)
            es = [e1]
            while sub.eat(','):
                if sub.peek()[0] == 'eof':
                    break
                es.append(sub.expr())
            if sub.peek()[0] != 'eof':
                raise ParseError('vec! body')
            return N('array', l, es=es, vec=True)
        args = []
        while sub.peek()[0] != 'eof':
            if sub.peek()[0] == 'id' and sub.tv(1) == '=' and sub.tv(2) != '=':
                sub.next(); sub.next()
            args.append(sub.expr())
            if not sub.eat(','):
                break
        if sub.peek()[0] != 'eof':
            raise ParseError('macro %s! body' % name)
        return N('macro', l, name=name, brace=b, args=args, toks=toks)


def parse_file(path):
    src = open(path, encoding='utf-8').read()
    p = Parser(src, path)
    its = p.items()
    return its, p.errors
