"""Forward symbolic execution / verification-condition generation for C functions with contracts.

Memory model (see DESIGN.md):
  pointer      = (block id, offset in elements); null = (0,0)
  heap         = one map per scalar struct field  (block -> offset -> value),
                 one map per scalar memory type   (block -> offset -> value),
                 array-typed fields have a third index
  $alloc       = block -> size in bytes, -1 when not live;   $brk = next fresh block id
  a struct field whose address is taken (addrfield) lives in scalar/struct memory at its own
  block  emb.S.f(block, offset)  (negative, injective).
"""
import re
from pycparser import c_ast
from cfront import *
from spec import SpecErr

DEPTH2 = '(Array Int (Array Int Int))'
DEPTH1 = '(Array Int Int)'
DEPTH3 = '(Array Int (Array Int (Array Int Int)))'


# ---------------------------------------------------------------- terms
def is_lit(t):
    return re.fullmatch(r'\d+|\(- \d+\)', t) is not None


def litval(t):
    return -int(t[3:-1]) if t[0] == '(' else int(t)


def lit(n):
    return str(n) if n >= 0 else '(- %d)' % -n


def add(a, b):
    if is_lit(a) and is_lit(b): return lit(litval(a) + litval(b))
    if a == '0': return b
    if b == '0': return a
    if is_lit(b):
        m = re.fullmatch(r'\(\+ (.*) (\d+|\(- \d+\))\)', a)
        if m and balanced(m.group(1)):
            n = litval(m.group(2)) + litval(b)
            return m.group(1) if n == 0 else '(+ %s %s)' % (m.group(1), lit(n))
    return '(+ %s %s)' % (a, b)


def balanced(t):
    d = 0
    for i, c in enumerate(t):
        if c == '(': d += 1
        elif c == ')':
            d -= 1
            if d < 0: return False
        elif c == ' ' and d == 0: return False
    return d == 0


def sub(a, b):
    if is_lit(a) and is_lit(b): return lit(litval(a) - litval(b))
    if b == '0': return a
    if is_lit(b): return add(a, lit(-litval(b)))
    if a == b: return '0'
    return '(- %s %s)' % (a, b)


def mul(a, b):
    if is_lit(a) and is_lit(b): return lit(litval(a) * litval(b))
    if a == '1': return b
    if b == '1': return a
    return '(* %s %s)' % (a, b)


def cmp_(op, a, b):
    if is_lit(a) and is_lit(b):
        x, y = litval(a), litval(b)
        return 'true' if {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '=': x == y}[op] else 'false'
    if a == b: return 'true' if op in ('<=', '>=', '=') else 'false'
    return '(%s %s %s)' % (op, a, b)


def and_(*xs):
    out = []
    for x in xs:
        if x == 'false': return 'false'
        if x != 'true' and x not in out: out.append(x)
    if not out: return 'true'
    return out[0] if len(out) == 1 else '(and %s)' % ' '.join(out)


def or_(*xs):
    out = []
    for x in xs:
        if x == 'true': return 'true'
        if x != 'false' and x not in out: out.append(x)
    if not out: return 'false'
    return out[0] if len(out) == 1 else '(or %s)' % ' '.join(out)


def not_(x):
    if x == 'true': return 'false'
    if x == 'false': return 'true'
    if x.startswith('(not ') and balanced(x[5:-1]): return x[5:-1]
    return '(not %s)' % x


def imp(a, b):
    if a == 'true': return b
    if a == 'false' or b == 'true': return 'true'
    if b == 'false': return not_(a)
    return '(=> %s %s)' % (a, b)


def ite(c, a, b):
    if c == 'true': return a
    if c == 'false': return b
    if a == b: return a
    return '(ite %s %s %s)' % (c, a, b)


def sel(a, i): return '(select %s %s)' % (a, i)
def sto(a, i, v): return '(store %s %s %s)' % (a, i, v)


def split_and(t):
    """top-level conjuncts of a term"""
    if t.startswith('(and '):
        out = []
        for x in sexp_args(t): out += split_and(x)
        return out
    return [t]


def split_goal(t):
    """conjuncts of a goal; also through implications and universal quantifiers, and both
    directions of equivalences between compound formulas"""
    if t.startswith('(and '):
        out = []
        for x in sexp_args(t): out += split_goal(x)
        return out
    if t.startswith('(=> '):
        a = sexp_args(t)
        if len(a) == 2: return ['(=> %s %s)' % (a[0], x) for x in split_goal(a[1])]
    if t.startswith('(forall '):
        bs, body = sexp_args(t)
        pat = ''
        if body.startswith('(! '):
            bb = sexp_args(body)
            pat = ' ' + ' '.join(bb[1:])
            body = bb[0]
        xs = split_goal(body)
        if len(xs) == 1: return [t]
        return ['(forall %s %s)' % (bs, '(! %s%s)' % (x, pat) if pat else x) for x in xs]
    if t.startswith('(= ('):
        a = sexp_args(t)
        if len(a) == 2 and is_formula(a[0]) and is_formula(a[1]):
            return split_goal('(=> %s %s)' % (a[0], a[1])) + split_goal('(=> %s %s)' % (a[1], a[0]))
    return [t]


BOOLFN = set()       # logic predicates (filled by the session)
ARITH = ('+', '-', '*', 'div', 'mod', 'select', 'store', 'ite')


def is_formula(t):
    if not t.startswith('('): return False
    h = t[1:].split(' ', 1)[0]
    return h in ('and', 'or', 'not', '=>', '<', '<=', '>', '>=', 'forall', 'exists', '=', 'bit', '!') or h in BOOLFN


def sexp_args(t):
    """arguments of (op a b c)"""
    out, d, cur, i = [], 0, '', 1
    t = t[1:-1]
    toks = []
    for c in t:
        if c == ' ' and d == 0:
            if cur: toks.append(cur)
            cur = ''
            continue
        if c == '(': d += 1
        elif c == ')': d -= 1
        cur += c
    if cur: toks.append(cur)
    return toks[1:]


# ---------------------------------------------------------------- values
class V:
    __slots__ = ('k', 't', 'ty', 'b', 'o', 'prov', 'idx', 'parts')

    def __init__(s, k, t=None, ty=None, b=None, o=None, prov=None, idx=None, parts=None):
        s.k, s.t, s.ty, s.b, s.o, s.prov, s.idx, s.parts = k, t, ty, b, o, prov, idx, parts

    def __repr__(s):
        return 'V(%s,%s,%s,%s,%s)' % (s.k, s.t, s.b, s.o, s.ty)


def I(t, ty=None): return V('int', t, ty)
def B(t): return V('bool', t, INT)
def P(b, o, to): return V('ptr', None, TPtr(to), b, o)
NULLV = lambda to=VOID: P('0', '0', to)


def as_int(v):
    if v.k == 'bool': return ite(v.t, '1', '0')
    if v.k == 'int': return v.t
    raise CErr('integer expected, got %s' % v.k)


def as_bool(v):
    if v.k == 'bool': return v.t
    if v.k == 'int': return not_(cmp_('=', v.t, '0'))
    if v.k == 'ptr':
        if v.prov: return 'true'
        return not_(ptr_null(v))
    raise CErr('condition expected')


def ptr_null(v): return and_(cmp_('=', v.b, '0'), cmp_('=', v.o, '0'))


def ptr_eq(a, c):
    if a.prov or c.prov: raise CErr('comparison of array-field pointers')
    return and_(cmp_('=', a.b, c.b), cmp_('=', a.o, c.o))


# ---------------------------------------------------------------- lvalues
class LV:
    """k: var | fld | mem | farr | struct | farrobj"""
    __slots__ = ('k', 'name', 'S', 'path', 'b', 'o', 'idx', 'ty', 'bits')

    def __init__(s, k, ty, name=None, S=None, path=None, b=None, o=None, idx=None, bits=None):
        s.k, s.ty, s.name, s.S, s.path, s.b, s.o, s.idx, s.bits = k, ty, name, S, path, b, o, idx, bits


BASE = {'f': set(), 't': set()}     # pointer fields / pointee structs whose pointers always have offset 0


def base_ptr(ty, S=None, path=None):
    """pointers of this type (or stored in this field) always point at offset 0: obligation on every
    store and conversion, in exchange the offset is not represented"""
    if not isinstance(ty, TPtr): return False
    if isinstance(ty.to, TStruct) and ty.to.tag in BASE['t']: return True
    if isinstance(ty.to, TFunc): return True
    return S is not None and (S, path) in BASE['f']


def lv_base(lv):
    if lv.k in ('fld', 'farr'): return base_ptr(lv.ty, lv.S, lv.path)
    return base_ptr(lv.ty)


def maps_of(lv):
    """names of the map(s) holding a scalar lvalue"""
    if lv.k == 'fld' or lv.k == 'farr':
        n = '%s.%s' % (lv.S, lv.path)
    elif lv.k == 'mem':
        n = 'm.' + memkey(lv.ty)
    else:
        raise CErr('maps_of %s' % lv.k)
    if isinstance(lv.ty, TPtr): return [n + '@b'] if lv_base(lv) else [n + '@b', n + '@o']
    return [n]


def memkey(ty):
    if isinstance(ty, TPtr):
        to = ty.to
        if isinstance(to, TFunc): return 'p_fn'
        return 'p_' + memkey(to)
    return ty.key()


class World:
    """everything shared: TUs' struct tables, ADDR fields, map sorts, logic definitions, contracts"""

    def __init__(s):
        s.sorts = {'$alloc': DEPTH1, '$brk': 'Int'}
        s.addr = {}          # (S,f) -> True
        s.structs = {}       # tag -> (TU, fields)
        s.defs = {}
        s.order = []         # logic items in order
        s.contracts = {}     # name -> contract ; also (file,name)
        s.typedefs = {}

    def add_tu(s, tu):
        for tag, fs in tu.structs.items():
            if fs and tag not in s.structs: s.structs[tag] = (tu, fs)

    def fields(s, tag, tu=None):
        if tu is not None and tu.structs.get(tag): return tu.structs[tag], tu
        if tag in s.structs: return s.structs[tag][1], s.structs[tag][0]
        raise CErr('incomplete struct %s' % tag)

    def sizeof(s, ty, tu=None):
        if isinstance(ty, TStruct):
            fs, tu2 = s.fields(ty.tag, tu)
            return tu2.sizeof(ty)
        if isinstance(ty, TArr):
            return s.sizeof(ty.el, tu) * (ty.n or 0)
        t = tu or next(iter(s.structs.values()))[0]
        return t.sizeof(ty)

    def sort(s, m):
        return s.sorts[m]

    def field_lv(s, lv, f, tu=None):
        """lvalue of member f of struct lvalue lv"""
        tag = lv.ty.tag
        fs, tu2 = s.fields(tag, tu)
        for fd in fs:
            if fd.name == f: break
        else:
            # anonymous members
            for fd in fs:
                if fd.name is None and isinstance(fd.ty, TStruct):
                    try:
                        return s.field_lv(LV('struct', fd.ty, S=lv.S, path=lv.path, b=lv.b, o=lv.o), f, tu2)
                    except CErr:
                        pass
            raise CErr('no field %s in struct %s' % (f, tag))
        path = (lv.path + '.' if lv.path else '') + f
        if (lv.S, path) in s.addr:
            eb = '(emb.%s.%s %s %s)' % (lv.S, path, lv.b, lv.o)
            if isinstance(fd.ty, TStruct):
                return LV('struct', fd.ty, S=fd.ty.tag, path='', b=eb, o='0')
            s.reg('m.' + memkey(fd.ty), fd.ty, DEPTH2)
            return LV('mem', fd.ty, b=eb, o='0')
        if isinstance(fd.ty, TStruct):
            return LV('struct', fd.ty, S=lv.S, path=path, b=lv.b, o=lv.o)
        if isinstance(fd.ty, TArr):
            return LV('farrobj', fd.ty, S=lv.S, path=path, b=lv.b, o=lv.o)
        s.reg('%s.%s' % (lv.S, path), fd.ty, DEPTH2)
        return LV('fld', fd.ty, S=lv.S, path=path, b=lv.b, o=lv.o, bits=fd.bits)

    def reg(s, n, ty, sort):
        if isinstance(ty, TPtr):
            s.sorts[n + '@b'] = sort
            s.sorts[n + '@o'] = sort
        else:
            s.sorts[n] = sort

    def leaves(s, lv, tu=None):
        """all scalar/array leaves of a struct lvalue"""
        fs, tu2 = s.fields(lv.ty.tag, tu)
        out = []
        for f in fs:
            if f.name is None: continue
            l = s.field_lv(lv, f.name, tu2)
            if l.k == 'struct': out += s.leaves(l, tu2)
            else: out.append(l)
        return out

    def leaf_maps(s, ty, tu=None):
        """names of all maps that hold an element of type ty (not emb)"""
        if isinstance(ty, TStruct):
            ms = []
            for l in s.leaves(LV('struct', ty, S=ty.tag, path='', b='0', o='0'), tu):
                if l.k == 'farrobj':
                    ms += s.farr_maps(l)
                else:
                    ms += maps_of(l)
            return ms
        s.reg('m.' + memkey(ty), ty, DEPTH2)
        return maps_of(LV('mem', ty))

    def farr_maps(s, l):
        n = '%s.%s' % (l.S, l.path)
        s.reg(n, l.ty.el, DEPTH3)
        return maps_of(LV('farr', l.ty.el, S=l.S, path=l.path))

    def read(s, heap, lv):
        """heap: callable name->term.  Scalar read."""
        ms = maps_of(lv)
        if lv.k == 'farr':
            s.reg('%s.%s' % (lv.S, lv.path), lv.ty, DEPTH3)
            ts = [sel(sel(sel(heap(m), lv.b), lv.o), lv.idx) for m in ms]
        else:
            if lv.k == 'mem': s.reg('m.' + memkey(lv.ty), lv.ty, DEPTH2)
            ts = [sel(sel(heap(m), lv.b), lv.o) for m in ms]
        if isinstance(lv.ty, TPtr):
            return V('ptr', None, lv.ty, ts[0], ts[1] if len(ts) > 1 else '0')
        return V('int', ts[0], lv.ty)

    def is_emb_type(s, ty):
        """may a pointer to ty be an embedded (field) address?"""
        k = memkey(ty)
        return any(k == a for a in s.embtypes())

    def embtypes(s):
        return set(s.addr.values())


def valid_term(alloc, b, o, sz, emb=False):
    a = '(bs %s %s)' % (alloc, b) if emb else sel(alloc, b)
    if o == '0': return '(<= %d %s)' % (sz, a)
    return '(and (<= 0 %s) (<= %s %s))' % (o, mul(lit(sz), add(o, '1')), a)


def live_term(alloc, b): return '(<= 0 %s)' % sel(alloc, b)


# ---------------------------------------------------------------- spec evaluation
class SpecEval:
    """evaluates spec expressions to V (k in int,bool,ptr,arr)"""

    def __init__(s, world, env, heap, old=None, labels=None, tu=None, oldenv=None, result=None):
        s.w, s.env, s.heap, s.old, s.labels, s.tu = world, env, heap, old, labels or {}, tu
        s.oldenv = oldenv
        s.result = result
        s.n = [0]

    def with_(s, **kw):
        e = SpecEval(s.w, s.env, s.heap, s.old, s.labels, s.tu, s.oldenv, s.result)
        e.n = s.n
        for k, v in kw.items(): setattr(e, k, v)
        return e

    def fresh(s, base):
        # bound variables keep their names (readable queries); shadowing is scoped by SMT-LIB
        return base

    def b(s, e):
        v = s.ev(e)
        if v.k == 'bool': return v.t
        raise SpecErr('boolean expected: %r' % (e,))

    def i(s, e):
        v = s.ev(e)
        if v.k == 'int': return v.t
        if v.k == 'bool': return ite(v.t, '1', '0')
        raise SpecErr('int expected: %r' % (e,))

    def sty(s, t):
        return spec_type(s.w, t, s.tu)

    def ev(s, e):
        k = e[0]
        if k == 'num': return I(lit(e[1]))
        if k == 'true' or k == 'false': return B(k)
        if k == 'null': return NULLV()
        if k == 'id':
            n = e[1]
            if n == 'result' and s.result is not None: return s.result
            if n in s.env:
                v = s.env[n]
                if isinstance(v, LV):
                    return s.rd(v)
                return v
            if n in CONSTS: return I(lit(CONSTS[n]))
            if s.tu and n in s.tu.enums: return I(lit(s.tu.enums[n]))
            if n in s.w.defs: return s.call(n, [])
            if n == 'brk': return I(s.heap('$brk'))
            raise SpecErr('unknown name %s' % n)
        if k == 'old':
            if s.old is None: raise SpecErr('old() not available here')
            env = dict(s.env)
            if s.oldenv: env.update({n: v for n, v in s.oldenv.items()})
            return s.with_(heap=s.old, env=env).ev(e[1])
        if k == 'at':
            if e[1] not in s.labels: raise SpecErr('unknown label %s' % e[1])
            h, lenv = s.labels[e[1]]
            env = dict(s.env)
            env.update(lenv)
            return s.with_(heap=h, env=env).ev(e[2])
        if k == 'neg': return I(sub('0', s.i(e[1])))
        if k == 'not': return B(not_(s.b(e[1])))
        if k == 'and': return B(and_(s.b(e[1]), s.b(e[2])))
        if k == 'or': return B(or_(s.b(e[1]), s.b(e[2])))
        if k == 'imp': return B(imp(s.b(e[1]), s.b(e[2])))
        if k == 'iff':
            a, c = s.b(e[1]), s.b(e[2])
            return B('(= %s %s)' % (a, c))
        if k == 'ite':
            c, a, d = s.b(e[1]), s.ev(e[2]), s.ev(e[3])
            if a.k == 'bool': return B(ite(c, a.t, d.t))
            if a.k == 'ptr': return V('ptr', None, a.ty if not isinstance(a.ty.to, TVoid) else d.ty, ite(c, a.b, d.b), ite(c, a.o, d.o))
            return V(a.k, ite(c, a.t, d.t), a.ty)
        if k == 'cmp':
            op, a, c = e[1], s.ev(e[2]), s.ev(e[3])
            if a.k == 'ptr' or c.k == 'ptr':
                if c.k == 'int' and c.t == '0': c = NULLV()
                t = and_(cmp_('=', a.b, c.b), cmp_('=', a.o, c.o))
                if op == '==': return B(t)
                if op == '!=': return B(not_(t))
                raise SpecErr('pointer order')
            if a.k == 'arr' or c.k == 'arr':
                t = '(= %s %s)' % (a.t, c.t)
                return B(t if op == '==' else not_(t))
            if a.k == 'bool' and c.k == 'bool':
                t = '(= %s %s)' % (a.t, c.t)
                return B(t if op == '==' else not_(t))
            x, y = as_int(a), as_int(c)
            if op == '!=': return B(not_(cmp_('=', x, y)))
            return B(cmp_('=' if op == '==' else op, x, y))
        if k == 'bin':
            op, a = e[1], s.ev(e[2])
            c = s.ev(e[3])
            if a.k == 'ptr' and op in '+-':
                if c.k == 'ptr': return I(sub(a.o, c.o))
                return V('ptr', None, a.ty, a.b, add(a.o, as_int(c)) if op == '+' else sub(a.o, as_int(c)))
            x, y = as_int(a), as_int(c)
            if op == '+': return I(add(x, y))
            if op == '-': return I(sub(x, y))
            if op == '*': return I(mul(x, y))
            if op == '/': return I('(div %s %s)' % (x, y))
            if op == '%': return I('(mod %s %s)' % (x, y))
        if k == 'let':
            v = s.ev(e[2])
            env = dict(s.env)
            env[e[1]] = v
            return s.with_(env=env).ev(e[3])
        if k in ('forall', 'exists'):
            env = dict(s.env)
            decl = []
            oe = dict(s.oldenv) if s.oldenv else None
            for ty, n in e[1]:
                v, ds = spec_var(s.w, ty, n, s.tu)
                env[n] = v
                if oe is not None: oe.pop(n, None)
                decl += ds
            lab = {l: (h, {a: c for a, c in le.items() if a not in [n for _, n in e[1]]}) for l, (h, le) in s.labels.items()}
            s2 = s.with_(env=env, oldenv=oe, labels=lab)
            body = s2.b(e[3])
            if body in ('true', 'false'): return B(body)
            ds = ' '.join('(%s %s)' % d for d in decl)
            pats = ''
            for tr in e[2]:
                ts = []
                for x in tr:
                    v = s2.ev(x)
                    ts += [v.t] if v.k != 'ptr' else [v.b]
                pats += ' :pattern (%s)' % ' '.join(ts)
            if pats: body = '(! %s%s)' % (body, pats)
            return B('(%s (%s) %s)' % (k, ds, body))
        if k in ('arrow', 'dot', 'idx', 'deref'):
            if k == 'idx':
                a = None
                if e[1][0] in ('arrow', 'dot', 'idx', 'deref'):
                    lv = s.lv(e)
                    if lv is not None: return s.rd(lv)
                a = s.ev(e[1])
                if a.k == 'arr' and a.ty == 'iseq2':
                    return V('arr', sel(a.t, s.i(e[2])), 'iseq')
                if a.k == 'arr':
                    return V('int', sel(a.t, s.i(e[2])), None) if a.ty != 'set' else B(sel(a.t, s.i(e[2])))
            return s.rd(s.lv(e))
        if k == 'upd':
            a = s.ev(e[1])
            v = s.ev(e[3])
            return V('arr', sto(a.t, s.i(e[2]), v.t), a.ty)
        if k == 'addr':
            lv = s.lv(e[1])
            if lv.k == 'mem': return P(lv.b, lv.o, lv.ty)
            if lv.k == 'struct' and not lv.path: return P(lv.b, lv.o, lv.ty)
            raise SpecErr('address-of')
        if k == 'cast':
            n, st = e[1].split()
            v, ct = s.ev(e[2]), spec_type(s.w, (n, int(st)), s.tu)
            return V('ptr', None, ct, v.b, '0' if base_ptr(ct) else v.o)
        if k == 'call': return s.callb(e[1], e[2])
        raise SpecErr('spec expr %s' % k)

    def rd(s, lv):
        if lv.k == 'farrobj': return V('ptr', None, TPtr(lv.ty.el), lv.b, lv.o, prov=(lv.S, lv.path), idx='0')
        if lv.k == 'struct': raise SpecErr('struct value in spec')
        if lv.k == 'elt': return lv.name
        v = s.w.read(s.heap, lv)
        return v

    def lv(s, e):
        k = e[0]
        if k == 'id':
            v = s.env.get(e[1])
            if isinstance(v, LV): return v
            return None
        if k == 'arrow':
            p = s.ev(e[1])
            if p.k != 'ptr': raise SpecErr('-> on non-pointer %r' % (e,))
            if not isinstance(p.ty.to, TStruct): raise SpecErr('-> on %r (%r)' % (p.ty, e))
            return s.w.field_lv(LV('struct', p.ty.to, S=p.ty.to.tag, path='', b=p.b, o=p.o), e[2], s.tu)
        if k == 'dot':
            l = s.lv(e[1])
            if l is None: raise SpecErr('. on non-lvalue')
            return s.w.field_lv(l, e[2], s.tu)
        if k == 'deref' or k == 'idx':
            a = None
            if e[1][0] in ('arrow', 'dot', 'idx', 'deref', 'id'):
                l = s.lv(e[1]) if e[1][0] != 'id' else (s.env.get(e[1][1]) if isinstance(s.env.get(e[1][1]), LV) else None)
                if l is not None and l.k == 'farrobj':
                    return LV('farr', l.ty.el, S=l.S, path=l.path, b=l.b, o=l.o, idx=s.i(e[2]))
            p = s.ev(e[1])
            if p.k != 'ptr': return None
            if p.prov:
                return LV('farr', p.ty.to, S=p.prov[0], path=p.prov[1], b=p.b, o=p.o,
                          idx=add(p.idx, s.i(e[2]) if k == 'idx' else '0'))
            o = p.o if k == 'deref' else add(p.o, s.i(e[2]))
            if isinstance(p.ty.to, TStruct):
                return LV('struct', p.ty.to, S=p.ty.to.tag, path='', b=p.b, o=o)
            return LV('mem', p.ty.to, b=p.b, o=o)
        raise SpecErr('not an lvalue: %r' % (e,))

    def callb(s, n, args):
        w = s.w
        if n == 'valid' or n == 'valid_n':
            p = s.ev(args[0])
            emb = w.is_emb_type(p.ty.to)
            sz = w.sizeof(p.ty.to, s.tu)
            if n == 'valid': return B(valid_term(s.heap('$alloc'), p.b, p.o, sz, emb))
            # valid_n(p, n): p[0..n-1] all valid
            nn = s.i(args[1])
            a = '(bs %s %s)' % (s.heap('$alloc'), p.b) if emb else sel(s.heap('$alloc'), p.b)
            return B('(and (<= 0 %s) (<= %s %s))' % (p.o, mul(lit(sz), add(p.o, nn)), a))
        if n == 'live':
            p = s.ev(args[0])
            t = p.b if p.k == 'ptr' else p.t
            return B(live_term(s.heap('$alloc'), t))
        if n == 'bytes':
            p = s.ev(args[0])
            t = p.b if p.k == 'ptr' else p.t
            return I(sel(s.heap('$alloc'), t))
        if n == 'block': return I(s.ev(args[0]).b)
        if n == 'off': return I(s.ev(args[0]).o)
        if n == 'base': return I('(base %s)' % s.ev(args[0]).b)
        if n == 'sizeof_elt': return I(lit(w.sizeof(s.ev(args[0]).ty.to, s.tu)))
        if n == 'isfn': return B('(= %s %s)' % (s.ev(args[0]).b, 'fn.' + args[1][1]))
        if n == 'fnid': return I('fn.' + args[0][1])
        if n == 'ptr':   # ptr(b,o,likeptr)
            c = s.ev(args[2])
            return V('ptr', None, c.ty, s.i(args[0]), s.i(args[1]))
        if n == 'abs':
            x = s.i(args[0])
            return I('(ite (>= %s 0) %s (- %s))' % (x, x, x))
        if n == 'min' or n == 'max':
            x, y = s.i(args[0]), s.i(args[1])
            return I('(ite (%s %s %s) %s %s)' % ('<=' if n == 'min' else '>=', x, y, x, y))
        if n == 'inner':    # inner(mapname-ish lvalue): whole block content of the map holding lvalue
            l = s.lv(args[0])
            if l.k == 'farrobj':    # the row of an array field
                m = s.w.farr_maps(l)[0]
                return V('arr', sel(sel(s.heap(m), l.b), l.o), 'iseq')
            m = maps_of(l)[0]
            return V('arr', sel(s.heap(m), l.b), 'iseq')
        if n == 'inner2':   # rows of an array field over a whole block
            l = s.lv(args[0])
            m = s.w.farr_maps(l)[0]
            return V('arr', sel(s.heap(m), l.b), 'iseq2')
        if n == 'fresh':    # fresh(p): block did not exist in the pre-state
            p = s.ev(args[0])
            # in the body being verified: allocated after the locals (which live in blocks of their own)
            bk = getattr(getattr(s.old, '__self__', None), 'brkH', None) if getattr(s.old, '__name__', '') == 'heap0' else None
            return B('(>= %s %s)' % (p.b if p.k == 'ptr' else p.t, bk or s.old('$brk')))
        if n == 'newer':    # newer(p): block does not exist yet in this state (under at(L, ..): it is allocated later)
            p = s.ev(args[0])
            return B('(>= %s %s)' % (p.b if p.k == 'ptr' else p.t, s.heap('$brk')))
        if n in BITFN:
            return (B if BITFN[n] == 'Bool' else I)('(%s %s)' % (n, ' '.join(s.i(a) for a in args)))
        if n == 'ptr_int':
            p = s.ev(args[0])
            return I('(ptr_int %s %s)' % (p.b, p.o))
        if n in ('ptrof', ):
            p = s.i(args[0])
            return V('ptr', None, TPtr(VOID), '(int_ptr %s)' % p, '0')
        return s.call(n, [s.ev(a) for a in args])

    def call(s, n, vals):
        w = s.w
        d = s.w.defs.get(n)
        if d is None: raise SpecErr('unknown logic function %s' % n)
        if len(vals) != len(d['params']): raise SpecErr('arity of %s' % n)
        ts = [s.heap(m) for m in d['maps']]
        for v, (ty, pn) in zip(vals, d['params']):
            if v.k == 'ptr': 
                if v.prov: raise SpecErr('array-field pointer as logic argument')
                ct = spec_type(w, ty, s.tu)
                if ct is not None and base_ptr(ct):
                    if v.o != '0': raise SpecErr('pointer with an offset passed to %s' % n)
                    ts += [v.b]
                else: ts += [v.b, v.o]
            else:
                if ty == ('bool', 0): ts.append(v.t if v.k == 'bool' else as_bool(v))
                elif v.k == 'bool': ts.append(ite(v.t, '1', '0'))
                else: ts.append(v.t)
        t = '(%s %s)' % (n, ' '.join(ts)) if ts else n
        rt = d['rt']
        if rt == ('bool', 0): return B(t)
        if rt in (('iseq', 0), ('set', 0), ('iseq2', 0)): return V('arr', t, rt[0])
        return I(t)


CONSTS = {'U32_MAX': 2**32 - 1, 'U64_MAX': 2**64 - 1, 'SIZE_MAX': 2**64 - 1, 'INT_MAX': 2**31 - 1, 'I64_MAX': 2**63 - 1}
BITFN = {'bit': 'Bool', 'band': 'Int', 'bor': 'Int', 'bxor': 'Int', 'bnot': 'Int', 'pow2': 'Int', 'shl': 'Int', 'shr': 'Int', 'popc': 'Int', 'lsb': 'Int'}
SCAL = {'u32': UINT, 'u64': ULONG, 'i32': INT, 'i64': LONG, 'char': CHAR, 'u8': UCHAR, 'u16': USHORT, 'bool': BOOL, 'void': VOID, 'i16': SHORT}


def spec_type(w, t, tu=None):
    """(name, stars) -> CType for pointers, or None for int/bool/sets"""
    n, k = t
    if k == 0: return None
    if n in SCAL: base = SCAL[n]
    elif tu is not None and n in tu.typedefs and n not in tu.structs: base = tu.typedefs[n]
    else: base = TStruct(n)
    for _ in range(k): base = TPtr(base)
    return base


def spec_var(w, t, n, tu=None):
    ct = spec_type(w, t, tu)
    if ct is not None:
        if base_ptr(ct): return V('ptr', None, ct, n + '@b', '0'), [(n + '@b', 'Int')]
        return V('ptr', None, ct, n + '@b', n + '@o'), [(n + '@b', 'Int'), (n + '@o', 'Int')]
    if t[0] == 'bool': return B(n), [(n, 'Bool')]
    if t[0] in ('iseq', 'set', 'iseq2'):
        return V('arr', n, t[0]), [(n, {'iseq': DEPTH1, 'set': '(Array Int Bool)', 'iseq2': DEPTH2}[t[0]])]
    return I(n), [(n, 'Int')]


# ---------------------------------------------------------------- states
class Facts:
    __slots__ = ('up', 't', 'n')

    def __init__(s, up, t):
        s.up, s.t = up, t
        s.n = up.n + 1 if up else 1

    def list(s):
        out, x = [], s
        while x is not None:
            out.append(x.t)
            x = x.up
        return out[::-1]


class St:
    __slots__ = ('env', 'heap', 'facts', 'trace', 'labels')

    def __init__(s):
        s.env, s.heap, s.facts, s.trace, s.labels = {}, {}, None, (), {}

    def copy(s):
        n = St()
        n.env, n.heap, n.facts, n.trace, n.labels = dict(s.env), dict(s.heap), s.facts, s.trace, dict(s.labels)
        return n

    def fact(s, t):
        if t != 'true':
            for x in split_and(t):
                s.facts = Facts(s.facts, x)


class Ob:
    __slots__ = ('func', 'name', 'line', 'facts', 'goal', 'trace', 'kind', 'uid')

    def __init__(s, func, kind, name, line, facts, goal, trace):
        s.func, s.kind, s.name, s.line, s.facts, s.goal, s.trace = func, kind, name, line, facts, goal, trace
