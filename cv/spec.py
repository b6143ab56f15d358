"""Specification language: lexer, parser (to tuples), spec-file items.

Contracts live in /verif/specs/*.spec and talk about the C program's own names, types and
fields.  Expressions are C-like with mathematical integers, quantifiers and old().
"""
import re


class SpecErr(Exception):
    pass


TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<num>0x[0-9a-fA-F]+|\d+)
 |(?P<chr>'(?:\\.|[^'])')
 |(?P<str>"[^"]*")
 |(?P<id>[A-Za-z_][A-Za-z_0-9']*)
 |(?P<op><==>|==>|->|\.\.|<=|>=|==|!=|&&|\|\||\{:|:\}|:=|[-+*/%!<>=()\[\]{};,.:?&@])
''', re.X | re.S)


def lex(text, fname):
    out, i = [], 0
    line = 1
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SpecErr('%s:%d: bad character %r' % (fname, line, text[i]))
        k = m.lastgroup
        if k != 'ws':
            g = m.group()
            # '.' directly between an expression and a name selects a field
            if g == '.' and i > 0 and not text[i - 1].isspace() and text[i + 1:i + 2].isidentifier(): g = '.f'
            out.append((k, g, line))
        line += m.group().count('\n')
        i = m.end()
    out.append(('eof', '', line))
    return out


class Parser:
    def __init__(s, text, fname):
        s.t, s.i, s.f = lex(text, fname), 0, fname

    def peek(s, k=0): return s.t[s.i + k][1]
    def kind(s, k=0): return s.t[s.i + k][0]

    def err(s, m):
        raise SpecErr('%s:%d: %s (at %r)' % (s.f, s.t[s.i][2], m, s.peek()))

    def next(s):
        r = s.t[s.i][1]
        s.i += 1
        return r

    def acc(s, v):
        if s.peek() == v and s.kind() in ('op', 'id'):
            s.i += 1
            return True
        return False

    def exp(s, v):
        if not s.acc(v): s.err('expected %r' % v)

    def ident(s):
        if s.kind() != 'id': s.err('identifier expected')
        return s.next()

    # ---- types
    def type(s):
        const = s.acc('const')
        s.acc('struct')
        n = s.ident()
        k = 0
        while s.acc('*'): k += 1
        return (n, k)

    # ---- expressions
    def expr(s):
        if s.peek() in ('forall', 'exists') and s.kind() == 'id':
            q = s.next()
            vs = []
            while True:
                t = s.type() if s.kind(1) != 'op' or s.peek(1) == '*' else vs[-1][0] if vs else s.err('type')
                vs.append((t, s.ident()))
                if not s.acc(','): break
            trigs = []
            while s.acc('{:'):
                tr = [s.expr()]
                while s.acc(','): tr.append(s.expr())
                s.exp(':}')
                trigs.append(tr)
            s.exp('.')
            return (q, vs, trigs, s.expr())
        if s.peek() == 'let' and s.kind() == 'id':
            s.next()
            n = s.ident()
            s.exp('=')
            e = s.expr()
            s.exp('in')
            return ('let', n, e, s.expr())
        if s.peek() == 'if' and s.kind() == 'id':
            s.next()
            c = s.expr()
            s.exp('then')
            a = s.expr()
            s.exp('else')
            return ('ite', c, a, s.expr())
        return s.iff()

    def iff(s):
        a = s.imp()
        while s.acc('<==>'): a = ('iff', a, s.imp_r())
        return a

    def imp_r(s):
        if s.peek() in ('forall', 'exists', 'let', 'if') and s.kind() == 'id': return s.expr()
        return s.imp()

    def imp(s):
        a = s.tern()
        if s.acc('==>'): return ('imp', a, s.imp_r())
        return a

    def tern(s):
        a = s.or_()
        if s.acc('?'):
            b = s.expr()
            s.exp(':')
            return ('ite', a, b, s.tern())
        return a

    def or_(s):
        a = s.and_()
        while s.acc('||'): a = ('or', a, s.and_r())
        return a

    def and_r(s):
        if s.peek() in ('forall', 'exists', 'let', 'if') and s.kind() == 'id': return s.expr()
        return s.and_()

    def and_(s):
        a = s.cmp()
        while s.acc('&&'):
            if s.peek() in ('forall', 'exists', 'let', 'if') and s.kind() == 'id':
                return ('and', a, s.expr())
            a = ('and', a, s.cmp())
        return a

    def cmp(s):
        a = s.add()
        res = None
        while s.peek() in ('<', '<=', '>', '>=', '==', '!=') and s.kind() == 'op':
            op = s.next()
            b = s.add()
            c = ('cmp', op, a, b)
            res = c if res is None else ('and', res, c)
            a = b
        return res or a

    def add(s):
        a = s.mul()
        while s.peek() in ('+', '-') and s.kind() == 'op': a = ('bin', s.next(), a, s.mul())
        return a

    def mul(s):
        a = s.un()
        while s.peek() in ('*', '/', '%') and s.kind() == 'op': a = ('bin', s.next(), a, s.un())
        return a

    def un(s):
        if s.kind() == 'op':
            if s.acc('!'): return ('not', s.un())
            if s.acc('-'): return ('neg', s.un())
            if s.acc('*'): return ('deref', s.un())
            if s.acc('&'): return ('addr', s.un())
        return s.post()

    def post(s):
        a = s.prim()
        while s.kind() == 'op':
            if s.acc('->'): a = ('arrow', a, s.ident())
            elif s.acc('.f'): a = ('dot', a, s.ident())
            elif s.acc('['):
                e = s.expr()
                if s.acc(':='):
                    v = s.expr()
                    s.exp(']')
                    a = ('upd', a, e, v)
                else:
                    s.exp(']')
                    a = ('idx', a, e)
            else: break
        return a

    def args(s):
        out = []
        if s.acc(')'): return out
        while True:
            out.append(s.expr())
            if s.acc(')'): return out
            s.exp(',')

    def prim(s):
        if s.acc('('):
            e = s.expr()
            s.exp(')')
            return e
        k = s.kind()
        if k == 'num': return ('num', int(s.next(), 0))
        if k == 'chr':
            from cfront import charconst
            return ('num', charconst(s.next()))
        if k == 'id':
            n = s.next()
            if n == 'old' and s.acc('('):
                e = s.expr()
                s.exp(')')
                return ('old', e)
            if n == 'at' and s.acc('('):
                l = s.ident()
                s.exp(',')
                e = s.expr()
                s.exp(')')
                return ('at', l, e)
            if n == 'cast' and s.acc('('):     # cast(T *, e)
                t = s.type()
                s.exp(',')
                e = s.expr()
                s.exp(')')
                return ('cast', '%s %d' % t, e)
            if n == 'true': return ('true',)
            if n == 'false': return ('false',)
            if n == 'null': return ('null',)
            if s.acc('('): return ('call', n, s.args())
            return ('id', n)
        s.err('expression expected')

    # ---- items
    def params(s):
        ps = []
        s.exp('(')
        if s.acc(')'): return ps
        while True:
            t = s.type()
            ps.append((t, s.ident()))
            if s.acc(')'): return ps
            s.exp(',')

    def file(s):
        items = []
        while s.kind() != 'eof':
            ln = s.t[s.i][2]
            k = s.ident()
            if k == 'ghostsource':
                items.append(('ghostsource', s.next().strip('"'), ln))
                s.exp(';')
            elif k == 'source':
                items.append(('source', s.next().strip('"'), ln))
                s.exp(';')
            elif k == 'import':
                items.append(('import', s.next().strip('"'), ln))
                s.exp(';')
            elif k in ('predicate', 'logic'):
                rt = ('bool', 0) if k == 'predicate' else s.type()
                n = s.ident()
                ps = s.params()
                opq = False
                trig = None
                while s.kind() == 'id' and s.peek() in ('opaque',):
                    s.next()
                    opq = True
                body = None
                if s.acc('='): body = s.expr()
                s.exp(';')
                items.append(('def', n, rt, ps, opq, body, ln))
            elif k in ('axiom', 'lemma', 'comprehension'):
                n = s.ident()
                attrs = []
                two = []
                if s.acc('('):
                    # two-state lemma: the maps that may differ between old(...) and now
                    while True:
                        m = s.ident()
                        while s.acc('.f'): m += '.' + s.ident()
                        if s.acc('@'): m += '@' + s.ident()
                        two.append(m)
                        if not s.acc(','): break
                    s.exp(')')
                while s.kind() == 'id': attrs.append(s.next())
                s.exp(':')
                e = s.expr()
                s.exp(';')
                items.append((k, n, e, attrs, two, ln))
            elif k == 'fn':
                items.append(s.fn(ln))
            elif k == 'basetype':
                items.append(('basetype', s.ident(), ln))
                while s.acc(','): items.append(('basetype', s.ident(), ln))
                s.exp(';')
            elif k == 'basefield':
                while True:
                    t = s.ident()
                    s.exp('.f')
                    f = s.ident()
                    while s.acc('.f'): f += '.' + s.ident()
                    items.append(('basefield', t, f, ln))
                    if not s.acc(','): break
                s.exp(';')
            elif k == 'addrfield':
                t = s.ident()
                s.exp('.f')
                f = s.ident()
                s.exp(';')
                items.append(('addrfield', t, f, ln))
            else:
                s.err('unknown item %s' % k)
        return items

    def lab(s):
        """optional label 'name:' before an expression"""
        if s.kind() == 'id' and s.peek(1) == ':':
            n = s.next()
            s.next()
            return n
        return None

    def fn(s, ln):
        f = {'name': s.ident(), 'requires': [], 'ensures': [], 'assigns': None, 'loops': {}, 'flags': set(),
             'at': [], 'line': ln, 'file': s.f, 'frees': [], 'callbacks': {}, 'cbon': {}, 'defs': [], 'ghost': [], 'logicals': [], 'use': [], 'decreases': None, 'inline': [], 'calls': {}}
        s.exp('{')
        while not s.acc('}'):
            k = s.ident()
            if k in ('requires', 'ensures'):
                l = s.lab()
                f[k].append((l, s.expr()))
            elif k == 'ghost':
                t = s.type()
                f['ghost'].append((t, s.ident()))
            elif k == 'logical':
                t = s.type()
                f['logicals'].append((t, s.ident()))
            elif k == 'assigns':
                f['assigns'] = (f['assigns'] or []) + s.assigns()
            elif k == 'frees':
                f['frees'].append(s.freeclause())
            elif k in ('allocates', 'trusted', 'pure', 'noreturn', 'inline', 'merge', 'noterm', 'bounded', 'scoped'):
                f['flags'].add(k)
            elif k == 'use':
                f['use'].append(s.ident())
                while s.acc(','): f['use'].append(s.ident())
            elif k == 'unroll':
                n = int(s.next())
                f['loops'].setdefault(n, {'inv': [], 'variant': None, 'assigns': None, 'after': [], 'flags': set()})['unroll'] = int(s.next())
            elif k == 'callback':
                n = s.ident()
                s.exp('=')
                f['callbacks'][n] = s.ident()
                if s.acc('on'): f['cbon'][n] = s.expr()
            elif k == 'call':
                # instantiate ghost parameters of a callee: call g: O = expr;
                n = s.ident()
                s.exp(':')
                while True:
                    v = s.ident()
                    s.exp('=')
                    f['calls'].setdefault(n, {})[v] = s.expr()
                    if not s.acc(','): break
            elif k == 'at':
                # at <where> assert e ;   where: before|after callee [n] / loop n / entry / exit
                where = [s.ident()]
                while s.peek() not in ('assert', 'split', 'label') : where.append(s.next())
                kind = s.next()
                l = s.lab()
                f['at'].append((tuple(where), kind, l, s.expr() if kind != 'label' else s.ident()))
            elif k == 'loop':
                n = int(s.next())
                L = f['loops'].setdefault(n, {'inv': [], 'variant': None, 'assigns': None, 'after': [], 'flags': set()})
                s.exp('{')
                while not s.acc('}'):
                    kk = s.ident()
                    if kk == 'invariant':
                        l = s.lab()
                        L['inv'].append((l, s.expr()))
                    elif kk == 'variant': L['variant'] = s.expr()
                    elif kk == 'after':
                        l = s.lab()
                        L['after'].append((l, s.expr()))
                    elif kk == 'assigns': L['assigns'] = (L['assigns'] or []) + s.assigns()
                    elif kk == 'frees':
                        L.setdefault('frees', []).append(s.freeclause())
                    elif kk in ('merge',): L['flags'].add(kk)
                    else: s.err('loop clause %s' % kk)
                    s.exp(';')
                continue
            else:
                s.err('fn clause %s' % k)
            s.exp(';')
        return ('fn', f['name'], f, ln)

    def freeclause(s):
        e = s.expr()
        if s.acc('where'):
            return (e, s.expr())
        return (e, None)

    def assigns(s):
        """list of: expr (an lvalue) [where cond] | map in block(expr) | *"""
        out = []
        if s.acc('nothing'): return out
        while True:
            if s.acc('@'):
                # @mapname(block-expr)  whole block of the named map;   @mapname(forall int b . pred)
                n = s.ident()
                while s.acc('.f'): n += '.' + s.ident()
                s.exp('(')
                e = s.expr()
                s.exp(')')
                out.append(('block', n, e, s.expr() if s.acc('where') else None))
            else:
                e = s.expr()
                out.append(('lv', e, s.expr() if s.acc('where') else None))
            if not s.acc(','): return out


def parse_file(path):
    with open(path) as fh:
        return Parser(fh.read(), path).file()
