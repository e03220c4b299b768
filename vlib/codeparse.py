"""Parser of the code CLooG prints (C and Fortran) into a small AST.

stmt: ('for',var,lb,ub,stride,body) | ('if',cond,body) | ('asg',var,expr)
    | ('call',name,args) | ('block',body)
expr: ('n',k) ('v',x) ('+',a,b) ('-',a,b) ('*',a,b) ('/',a,b) ('%',a,b)
      ('floord',a,b) ('ceild',a,b) ('min',a,b) ('max',a,b) ('neg',a)
      ('rfloor',a,b) ('rceil',a,b) for Fortran FLOOR(REAL(a)/REAL(b)) ...
cond: ('<=',a,b) ... ('&&',a,b) ('||',a,b) ('!',a) ('true',)
lb/ub may be None (no bound)."""
import re


class ParseError(Exception):
    pass


_tok = re.compile(r'\s+|/\*.*?\*/|//[^\n]*|(\d+)|([A-Za-z_]\w*)|(\+\+|--|\+=|-=|<=|>=|==|!=|&&|\|\||[-+*/%()<>=;,{}!?:&\[\]."])', re.S)


def tokenize(text):
    out, i = [], 0
    while i < len(text):
        m = _tok.match(text, i)
        if not m:
            raise ParseError('bad character %r at %d: %r' % (text[i], i, text[i:i + 30]))
        i = m.end()
        if m.group(1):
            out.append(('num', int(m.group(1))))
        elif m.group(2):
            out.append(('id', m.group(2)))
        elif m.group(3):
            out.append(('op', m.group(3)))
    out.append(('eof', None))
    return out


class CParser:
    def __init__(self, text):
        text = '\n'.join('' if l.lstrip().startswith('#') else l for l in text.split('\n'))
        self.t = tokenize(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def nxt(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def is_op(self, v, k=0):
        return self.peek(k) == ('op', v)

    def expect(self, v):
        t = self.nxt()
        if t[1] != v:
            raise ParseError('expected %r, got %r (token %d)' % (v, t[1], self.i))

    # ---- statements
    def program(self):
        out = []
        while self.peek()[0] != 'eof':
            out += self.stmt()
        return out

    def block_or_stmt(self):
        if self.is_op('{'):
            self.nxt()
            out = []
            while not self.is_op('}'):
                if self.peek()[0] == 'eof':
                    raise ParseError('unbalanced braces')
                out += self.stmt()
            self.nxt()
            return out
        return self.stmt()

    def stmt(self):
        k, v = self.peek()
        if k == 'op' and v == '{':
            return [('block', self.block_or_stmt())]
        if k == 'op' and v == ';':
            self.nxt()
            return []
        if k != 'id':
            raise ParseError('statement expected, got %r (token %d)' % (v, self.i))
        if v == 'for':
            self.nxt()
            self.expect('(')
            lb = ub = None
            var = None
            if not self.is_op(';'):
                if self.peek() == ('id', 'int'):
                    self.nxt()
                var = self.nxt()[1]
                self.expect('=')
                lb = self.expr()
            self.expect(';')
            ubs = []
            if not self.is_op(';'):
                c = self.cond()
                ubs.append(c)
            self.expect(';')
            v2 = self.nxt()[1]
            if var is None:
                var = v2
            if v2 != var:
                raise ParseError('loop variable mismatch')
            if self.is_op('++'):
                self.nxt()
                stride = ('n', 1)
            else:
                self.expect('+=')
                stride = self.expr()
            self.expect(')')
            body = self.block_or_stmt()
            ub = None
            for c in ubs:
                if c[0] == '<=' and c[1] == ('v', var):
                    ub = c[2]
                elif c[0] == '<' and c[1] == ('v', var):
                    ub = ('-', c[2], ('n', 1))
                else:
                    raise ParseError('loop condition %r' % (c,))
            return [('for', var, lb, ub, stride, body)]
        if v == 'if':
            self.nxt()
            self.expect('(')
            c = self.cond()
            self.expect(')')
            body = self.block_or_stmt()
            if self.peek() == ('id', 'else'):
                self.nxt()
                eb = self.block_or_stmt()
                return [('if', c, body), ('if', ('!', c), eb)]
            return [('if', c, body)]
        self.nxt()
        if self.is_op('='):
            self.nxt()
            e = self.expr()
            self.expect(';')
            return [('asg', v, e)]
        if self.is_op('('):
            self.nxt()
            args = []
            if not self.is_op(')'):
                args.append(self.expr())
                while self.is_op(','):
                    self.nxt()
                    args.append(self.expr())
            self.expect(')')
            if self.is_op(';'):
                self.nxt()
            return [('call', v, args)]
        if self.is_op(';'):
            self.nxt()
            return [('call', v, [])]
        raise ParseError('unexpected %r after %r' % (self.peek()[1], v))

    # ---- conditions / expressions
    def cond(self):
        a = self.cand()
        while self.is_op('||'):
            self.nxt()
            a = ('||', a, self.cand())
        return a

    def cand(self):
        a = self.crel()
        while self.is_op('&&'):
            self.nxt()
            a = ('&&', a, self.crel())
        return a

    def crel(self):
        if self.is_op('('):
            # parenthesised condition or expression
            save = self.i
            self.nxt()
            try:
                c = self.cond()
                if c[0] in ('<=', '>=', '==', '<', '>', '!=', '&&', '||', '!') and self.is_op(')'):
                    self.nxt()
                    return c
            except ParseError:
                pass
            self.i = save
        if self.is_op('!'):
            self.nxt()
            return ('!', self.crel())
        a = self.expr()
        k, v = self.peek()
        if k == 'op' and v in ('<=', '>=', '==', '<', '>', '!='):
            self.nxt()
            return (v, a, self.expr())
        raise ParseError('comparison expected')

    def expr(self):
        a = self.term()
        while self.is_op('+') or self.is_op('-'):
            o = self.nxt()[1]
            a = (o, a, self.term())
        return a

    def term(self):
        a = self.unary()
        while self.is_op('*') or self.is_op('/') or self.is_op('%'):
            o = self.nxt()[1]
            a = (o, a, self.unary())
        return a

    def unary(self):
        if self.is_op('-'):
            self.nxt()
            return ('neg', self.unary())
        if self.is_op('+'):
            self.nxt()
            return self.unary()
        k, v = self.nxt()
        if k == 'num':
            return ('n', v)
        if k == 'op' and v == '(':
            e = self.expr()
            self.expect(')')
            return e
        if k == 'id':
            if self.is_op('('):
                self.nxt()
                args = [self.expr()]
                while self.is_op(','):
                    self.nxt()
                    args.append(self.expr())
                self.expect(')')
                return self.func(v, args)
            return ('v', v)
        raise ParseError('expression expected, got %r (token %d)' % (v, self.i))

    def func(self, f, args):
        if f in ('floord', 'ceild', 'min', 'max') and len(args) == 2:
            return (f, args[0], args[1])
        raise ParseError('unknown function %s/%d' % (f, len(args)))


def parse_c(text):
    return CParser(text).program()


# ------------------------------------------------------------------ Fortran --

class FExpr(CParser):
    """Expressions of one Fortran logical line."""

    def __init__(self, text):
        for a, b in (('.AND.', '&&'), ('.OR.', '||'), ('.NOT.', '!')):
            text = text.replace(a, b)
        self.t = tokenize(text)
        self.i = 0

    def func(self, f, args):
        F = f.upper()
        if F == 'REAL' and len(args) == 1:
            return ('real', args[0])
        if F in ('FLOOR', 'CEILING') and len(args) == 1:
            a = args[0]
            if a[0] == '/' and a[1][0] == 'real' and a[2][0] == 'real':
                return ('floord' if F == 'FLOOR' else 'ceild', a[1][1], a[2][1])
            raise ParseError('FLOOR argument')
        if F in ('MIN', 'MAX') and len(args) >= 2:
            e = args[0]
            for a in args[1:]:
                e = (F.lower(), e, a)
            return e
        if F == 'MOD' and len(args) == 2:
            return ('%', args[0], args[1])
        raise ParseError('unknown function %s/%d' % (f, len(args)))

    def end(self):
        if self.peek()[0] != 'eof':
            raise ParseError('trailing %r' % (self.peek()[1],))


def parse_fortran(text):
    # logical lines: "&" at end of line continues, with optional leading "&"
    raw, logical = text.split('\n'), []
    cont = None
    for l in raw:
        s = l.strip()
        if s.startswith('!') or not s:
            continue
        if cont is not None:
            if s.startswith('&'):
                s = s[1:]
            s = cont + s
            cont = None
        if s.endswith('&'):
            cont = s[:-1]
            continue
        logical.append(s)
    if cont is not None:
        raise ParseError('dangling continuation')
    stack = [('top', [])]
    for s in logical:
        m = re.match(r'DO\s+(\w+)\s*=(.*)$', s)
        if m:
            e = FExpr(m.group(2))
            lb = e.expr() if not e.is_op(',') else None
            e.expect(',')
            ub = e.expr() if e.peek()[0] != 'eof' else None
            st = ('n', 1)
            if e.is_op(','):
                e.nxt()
                st = e.expr()
            e.end()
            stack.append((('for', m.group(1), lb, ub, st), []))
            continue
        if s == 'END DO':
            h, b = stack.pop()
            if h == 'top' or h[0] != 'for':
                raise ParseError('END DO')
            stack[-1][1].append(h + (b,))
            continue
        m = re.match(r'IF\s*\((.*)\)\s*THEN$', s)
        if m:
            e = FExpr(m.group(1))
            c = e.cond()
            e.end()
            stack.append((('if', c), []))
            continue
        if s == 'END IF':
            h, b = stack.pop()
            if h == 'top' or h[0] != 'if':
                raise ParseError('END IF')
            stack[-1][1].append(h + (b,))
            continue
        s2 = re.sub(r'^CALL\s+', '', s)
        m = re.match(r'(\w+)\s*=(.*)$', s2)
        if m:
            e = FExpr(m.group(2))
            x = e.expr()
            e.end()
            stack[-1][1].append(('asg', m.group(1), x))
            continue
        m = re.match(r'(\w+)\s*(\((.*)\))?$', s2)
        if m:
            args = []
            if m.group(3):
                e = FExpr(m.group(3))
                args.append(e.expr())
                while e.is_op(','):
                    e.nxt()
                    args.append(e.expr())
                e.end()
            stack[-1][1].append(('call', m.group(1), args))
            continue
        raise ParseError('Fortran line %r' % s)
    if len(stack) != 1:
        raise ParseError('unclosed block')
    return stack[0][1]
