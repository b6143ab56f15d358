"""The symbolic executor proper: one FV instance verifies one C function against its contract."""
import re
from pycparser import c_ast
from cfront import *
from se import *
from spec import SpecErr

ALLOCF = {'f_malloc': (1, 'malloc'), 'f_calloc': (1, 'calloc'), 'f_realloc': (1, 'realloc'), 'f_free': (1, 'free'),
          'malloc': (0, 'malloc'), 'calloc': (0, 'calloc'), 'realloc': (0, 'realloc'), 'free': (0, 'free')}
MAXSTATES = 4000
MAXOBJ = 2**47      # no object is larger than the x86-64 user address space (assumption, see DESIGN.md)


class Rec:
    def __init__(s): s.maps, s.locals, s.pre = set(), set(), {}


class FV:
    def __init__(s, world, tu, fname, contract, lookup, rename=None):
        """lookup(name, tu) -> contract or None"""
        s.w, s.tu, s.fname, s.c, s.lookup = world, tu, fname, contract, lookup
        s.rename = rename or {}
        s.decls = {}          # symbol -> sort
        s.order = {}          # symbol -> creation index
        s.obs = []
        s.cnt = 0
        s.dry = 0
        s.recs = []
        s.nonnull = set()
        s.inlined = []        # stack
        s.calls = set()       # contracts used
        s.inl_used = set()
        s.loopno = 0
        s.loopids = {}
        s.noterm = []
        s.line = 0
        s.stack = []          # inline environments
        s.vac = []            # vacuity queries: (name, facts)
        s.usedloops = set()
        s.zero_locals = set()
        s.notes = set()

    # ------------------------------------------------ symbols
    def fresh(s, base, sort='Int'):
        s.cnt += 1
        n = '%s~%d' % (base, s.cnt)
        s.decls[n] = sort
        s.order[n] = s.cnt
        return n

    def const(s, n, sort):
        if n not in s.decls:
            s.decls[n] = sort
            s.order[n] = 0
        return n

    def invariant_since(s, term, mark):
        for x in re.findall(r'[A-Za-z_$][^\s()]*~(\d+)', term):
            if int(x) > mark: return False
        return True

    # ------------------------------------------------ heap
    def hget(s, st, m):
        t = st.heap.get(m)
        if t is None:
            if m not in s.w.sorts: raise CErr('unknown map %s' % m)
            t = s.const(m, s.w.sorts[m])
            st.heap[m] = t
        return t

    def heapf(s, st):
        return lambda m: s.hget(st, m)

    def heap0(s, m):
        if m not in s.w.sorts: raise CErr('unknown map %s' % m)
        return s.const(m, s.w.sorts[m])

    def snap(s, st):
        h = dict(st.heap)

        def f(m):
            if m in h: return h[m]
            return s.heap0(m)
        return f

    def hset(s, st, m, term, block, sortfact=True):
        s.hget(st, m)
        n = s.fresh(m, s.w.sorts[m])
        st.fact('(= %s %s)' % (n, term))
        if term.startswith('(store ') and m not in ('$alloc', '$brk'):
            a = sexp_args(term)
            if a[0] == s.hget(st, m): st.fact('(= (select %s %s) %s)' % (n, a[1], a[2]))
        st.heap[m] = n
        for r in s.recs: r.maps.add((m, block))

    def hhavoc(s, st, m, block=None):
        """arbitrary new content (of one block if given)"""
        old = s.hget(st, m)
        n = s.fresh(m, s.w.sorts[m])
        if block is not None:
            srt = {DEPTH2: DEPTH1, DEPTH3: DEPTH2, DEPTH1: 'Int'}[s.w.sorts[m]]
            inner = s.fresh('in', srt)
            st.fact('(= %s (store %s %s %s))' % (n, old, block, inner))
        st.heap[m] = n
        for r in s.recs: r.maps.add((m, block))
        return n

    # ------------------------------------------------ obligations
    def check(s, st, goal, kind, name, node=None, keep=True):
        line = s.lineof(node)
        if s.dry:
            st.fact(goal)
            return
        for g in split_goal(goal):
            if g == 'true': continue
            f = st.facts
            seen = False
            k = 0
            while f is not None and k < 400:
                if f.t == g:
                    seen = True
                    break
                f = f.up
                k += 1
            if not seen:
                s.obs.append(Ob(s.fname, kind, name, line, st.facts, g, st.trace))
                if keep: st.fact(g)

    def lineof(s, node):
        c = getattr(node, 'coord', None)
        if c is not None: s.line = c.line
        return s.line

    def infeasible(s, st, cond):
        if cond == 'false': return True
        neg = not_(cond)
        f, k = st.facts, 0
        while f is not None and k < 300:
            if f.t == neg: return True
            f = f.up
            k += 1
        return False

    def assume(s, st, cond, note=None):
        """returns False when syntactically infeasible"""
        if s.infeasible(st, cond): return False
        st.fact(cond)
        if note: st.trace = st.trace + (note,)
        return cond != 'false'

    # ------------------------------------------------ values / conversions
    def rng(s, st, v):
        """range fact of a freshly read int"""
        if v.k == 'int' and isinstance(v.ty, TInt) and not is_lit(v.t):
            st.fact('(<= %s %s)' % (lit(v.ty.lo), v.t))
            st.fact('(<= %s %s)' % (v.t, lit(v.ty.hi)))
        return v

    def conv(s, st, v, ty, node=None):
        if isinstance(ty, TVoid): return v
        if isinstance(ty, TInt):
            if v.k == 'bool':
                return v if ty.name == '_Bool' else V('bool', v.t, ty)
            if v.k == 'int':
                if ty.name == '_Bool':
                    if v.ty is BOOL: return v
                    return B(not_(cmp_('=', v.t, '0')))
                return V('int', s.convint(v.t, v.ty, ty), ty)
            if v.k == 'ptr':
                if ty.name == '_Bool': return B(not_(ptr_null(v)))
                if isinstance(v.ty.to, TFunc): return V('int', v.b, ty)
                s.notes.add('ptr_int')
                t = '(ptr_int %s %s)' % (v.b, v.o)
                r = V('int', t, ULONG)
                s.rng(st, r)
                return V('int', s.convint(t, ULONG, ty), ty)
            raise CErr('conv to int')
        if isinstance(ty, TPtr):
            if v.k == 'bool': v = I(as_int(v), INT)
            if v.k == 'int':
                if v.t == '0': return V('ptr', None, ty, '0', '0')
                if isinstance(ty.to, TFunc): return V('ptr', None, ty, v.t, '0')
                s.notes.add('int_ptr')
                return V('ptr', None, ty, '(int_ptr %s)' % v.t, '0')
            if v.k == 'ptr':
                a, b = v.ty.to, ty.to
                if not (isinstance(a, TVoid) or isinstance(b, TVoid) or same(a, b)):
                    ok = isinstance(a, TInt) and isinstance(b, TInt) and a.key() == b.key()
                    if not ok and isinstance(a, TArr) and same(a.el, b): ok = True
                    if not ok: raise CErr('pointer cast %r -> %r' % (v.ty, ty))
                if base_ptr(ty) and v.o != '0':
                    s.check(st, cmp_('=', v.o, '0'), 'memory', 'pointer to %r has offset 0' % b, node)
                    return V('ptr', None, ty, v.b, '0')
                return V('ptr', None, ty if not (isinstance(b, TVoid) and v.prov) else v.ty, v.b, v.o, v.prov, v.idx)
            raise CErr('conv to pointer from %s' % v.k)
        if isinstance(ty, TStruct): return v
        if isinstance(ty, TFunc): return v
        raise CErr('conv to %r' % ty)

    def convint(s, t, a, b):
        if is_lit(t): return lit(wrapc(litval(t), b))
        if a is not None and b.lo <= a.lo and a.hi <= b.hi: return t
        m = 1 << b.bits
        if not b.signed:
            if a is not None and a.signed and a.bits <= b.bits:
                return '(ite (<= 0 %s) %s (+ %s %d))' % (t, t, t, m)
            return '(ite (<= 0 %s %d) %s (mod %s %d))' % (t, b.hi, t, t, m)
        return '(ite (<= %s %s %d) %s (- (mod (+ %s %d) %d) %d))' % (lit(b.lo), t, b.hi, t, t, m // 2, m, m // 2)

    def promote(s, v):
        if v.k == 'bool': return V('int', as_int(v), INT)
        if v.k == 'int' and v.ty.bits < 32: return V('int', v.t, INT)
        return v

    def usual(s, a, b):
        if a.bits < 32: a = INT
        if b.bits < 32: b = INT
        if a.bits == b.bits:
            return a if not a.signed else b
        return a if a.bits > b.bits else b

    def wrapu(s, st, t, ty, how, a=None, b=None):
        """unsigned wraparound of a mathematical result"""
        if is_lit(t): return lit(wrapc(litval(t), ty))
        m = 1 << ty.bits
        if how == 'add': w = '(ite (<= %s %d) %s (- %s %d))' % (t, ty.hi, t, t, m)
        elif how == 'sub': w = '(ite (<= 0 %s) %s (+ %s %d))' % (t, t, t, m)
        else: w = '(ite (<= %s %d) %s (mod %s %d))' % (t, ty.hi, t, t, m)
        n = s.fresh('u')
        st.fact('(= %s %s)' % (n, w))
        st.fact('(<= 0 %s)' % n)
        st.fact('(<= %s %d)' % (n, ty.hi))
        return n

    def arith(s, st, op, a, b, node):
        a, b = s.promote(a), s.promote(b)
        if op in ('<<', '>>'): ty = a.ty
        else: ty = s.usual(a.ty, b.ty)
        x = s.convint(a.t, a.ty, ty)
        y = s.convint(b.t, b.ty, ty) if op not in ('<<', '>>') else b.t
        if ty is DOUBLE: raise CErr('floating point')
        if op in '+-*' and len(op) == 1:
            t = add(x, y) if op == '+' else sub(x, y) if op == '-' else mul(x, y)
            if ty.signed:
                if not is_lit(t):
                    s.check(st, and_('(<= %s %s)' % (lit(ty.lo), t), '(<= %s %s)' % (t, lit(ty.hi))), 'overflow',
                            'signed %s does not overflow' % op, node)
                return V('int', t, ty)
            if t == x or t == y and op == '+': return V('int', t, ty)
            return V('int', s.wrapu(st, t, ty, {'+': 'add', '-': 'sub', '*': 'mul'}[op]), ty)
        if op in '/%':
            s.check(st, not_(cmp_('=', y, '0')), 'div', 'divisor is not zero', node)
            if is_lit(x) and is_lit(y) and litval(y):
                import math
                q = int(math.trunc(litval(x) / litval(y)))
                return V('int', lit(q if op == '/' else litval(x) - q * litval(y)), ty)
            f = 'div' if op == '/' else 'mod'
            if not ty.signed: return V('int', '(%s %s %s)' % (f, x, y), ty)
            if op == '/':
                t = '(ite (<= 0 {0}) (div {0} {1}) (- (div (- {0}) {1})))'.format(x, y)
            else:
                t = '(ite (<= 0 {0}) (mod {0} {1}) (- (mod (- {0}) {1})))'.format(x, y)
            return V('int', t, ty)
        w = ty.bits
        if op in ('<<', '>>'):
            s.check(st, and_(cmp_('<=', '0', y), cmp_('<', y, str(w))), 'shift', 'shift amount in range', node)
            if is_lit(y):
                k = 1 << litval(y)
                if op == '>>': return V('int', '(div %s %d)' % (x, k) if not is_lit(x) else lit(litval(x) // k), ty)
                t = mul(x, lit(k))
                if ty.signed:
                    s.check(st, and_(cmp_('<=', '0', x), cmp_('<=', t, lit(ty.hi))), 'overflow', 'signed << does not overflow', node)
                    return V('int', t, ty)
                return V('int', s.wrapu(st, t, ty, 'mul'), ty)
            s.notes.add('bits')
            if op == '<<' and x == '1' :
                if ty.signed: s.check(st, cmp_('<', y, str(w - 1)), 'overflow', 'signed << does not overflow', node)
                return s.rng(st, V('int', '(pow2 %s)' % y, ty))
            return s.rng(st, V('int', '(%s %s %s)' % ({'<<': 'shl', '>>': 'shr'}[op] + str(w), x, y), ty))
        if op in '&|^':
            if is_lit(x) and is_lit(y):
                f = {'&': lambda p, q: p & q, '|': lambda p, q: p | q, '^': lambda p, q: p ^ q}[op]
                return V('int', lit(f(litval(x), litval(y))), ty)
            if is_lit(x) and not is_lit(y): x, y = y, x
            if op == '&' and is_lit(y):
                m = litval(y)
                if m >= 0 and (m & (m + 1)) == 0 and m > 0: return V('int', '(mod %s %d)' % (x, m + 1), ty)
                if m == 0: return V('int', '0', ty)
                if m > 0 and (m & (m - 1)) == 0:
                    return V('int', '(* %d (mod (div %s %d) 2))' % (m, x, m), ty)
            if op == '|' and y == '1':
                return V('int', '(ite (= (mod {0} 2) 0) (+ {0} 1) {0})'.format(x), ty)
            if op in '|^' and y == '0': return V('int', x, ty)
            s.notes.add('bits')
            return s.rng(st, V('int', '(%s %s %s)' % ({'&': 'band', '|': 'bor', '^': 'bxor'}[op], x, y), ty))
        raise CErr('operator %s' % op)

    # ------------------------------------------------ lvalues
    def validlv(s, st, lv, node):
        """obligation: the object can be accessed"""
        al = s.hget(st, '$alloc')
        if lv.k in ('fld', 'farr', 'farrobj') or (lv.k == 'struct'):
            tag = lv.S
            sz = s.w.sizeof(TStruct(tag), s.tu)
            emb = any(tag == a for a in s.w.embtypes())
            last = s.trailing(lv)
            if lv.k == 'farr' and last is not None:
                off, esz = last
                s.check(st, and_(cmp_('<=', '0', lv.idx),
                                 ite(cmp_('=', lv.o, '0'),
                                     '(<= (+ %d %s) %s)' % (off, mul(lit(esz), add(lv.idx, '1')), sel(al, lv.b)),
                                     'false')), 'memory', 'trailing array index within the allocation', node)
                return
            if s.w.structs and last is not None and lv.o == '0':
                # header access of an over-allocated struct: header only
                s.check(st, '(<= %d %s)' % (last[0], sel(al, lv.b)), 'memory', 'valid access (%s)' % tag, node)
                return
            s.check(st, valid_term(al, lv.b, lv.o, sz, emb), 'memory', 'valid access through pointer to struct %s' % tag, node)
            if lv.k == 'farr':
                n = s.farr_len(lv)
                s.check(st, and_(cmp_('<=', '0', lv.idx), cmp_('<', lv.idx, str(n))), 'memory', 'array field index in bounds', node)
        elif lv.k == 'mem':
            if isinstance(lv.ty, TVoid): raise CErr('void access')
            m = re.match(r'\(emb\.([A-Za-z_0-9]+)\.', lv.b)
            if m:
                tag = m.group(1)
                a = sexp_args(lv.b)
                s.check(st, valid_term(al, a[0], a[1], s.w.sizeof(TStruct(tag), s.tu)), 'memory',
                        'valid access through pointer to struct %s' % tag, node)
                return
            s.check(st, valid_term(al, lv.b, lv.o, s.w.sizeof(lv.ty, s.tu), s.w.is_emb_type(lv.ty)), 'memory',
                    'valid access through pointer to %r' % lv.ty, node)

    def trailing(s, lv):
        """(offset, elemsize) when struct lv.S ends in a flexible / over-allocated array"""
        fs, tu = s.w.fields(lv.S, s.tu)
        l = fs[-1]
        if isinstance(l.ty, TArr) and l.ty.n in (None, 0, 1) and lv.path in [f.name for f in fs] :
            if lv.k == 'farr' and lv.path != l.name: return None
            esz = s.w.sizeof(l.ty.el, s.tu)
            off = 0
            for f in fs[:-1]:
                z, a = tu.layout(f.ty)
                off = (off + a - 1) // a * a + z
            off = (off + esz - 1) // esz * esz if isinstance(l.ty.el, (TInt, TPtr)) else off
            return off, esz
        return None

    def farr_len(s, lv):
        cur = TStruct(lv.S)
        tu = s.tu
        for p in lv.path.split('.'):
            fs, tu = s.w.fields(cur.tag, tu)
            for f in fs:
                if f.name == p:
                    cur = f.ty
                    break
        return cur.n

    def lookup_var(s, st, n):
        return st.env.get(n)

    def lval(s, st, e):
        """-> list of (st, LV)"""
        if isinstance(e, c_ast.ID):
            b = st.env.get(e.name)
            if b is None:
                return [(st, s.global_lv(st, e.name))]
            if b[0] == 'val': return [(st, LV('var', b[1].ty if b[1] else b[2], name=e.name))]
            _, blk, ty = b
            if isinstance(ty, TStruct): return [(st, LV('struct', ty, S=ty.tag, path='', b=blk, o='0'))]
            if isinstance(ty, TArr): return [(st, LV('arrobj', ty, b=blk, o='0'))]
            return [(st, LV('mem', ty, b=blk, o='0'))]
        if isinstance(e, c_ast.StructRef):
            f = e.field.name
            if e.type == '->':
                out = []
                for st1, p in s.ev(st, e.name):
                    if p.k != 'ptr' or not isinstance(p.ty.to, TStruct): raise CErr('-> on %r' % p)
                    out.append((st1, s.w.field_lv(LV('struct', p.ty.to, S=p.ty.to.tag, path='', b=p.b, o=p.o), f, s.tu)))
                return out
            out = []
            for st1, l in s.lval(st, e.name):
                if l.k != 'struct': raise CErr('. on non-struct')
                out.append((st1, s.w.field_lv(l, f, s.tu)))
            return out
        if isinstance(e, c_ast.UnaryOp) and e.op == '*':
            return [(st1, s.deref(p, '0')) for st1, p in s.ev(st, e.expr)]
        if isinstance(e, c_ast.ArrayRef):
            out = []
            for st1, p in s.ev(st, e.name):
                for st2, i in s.ev(st1, e.subscript):
                    if p.k != 'ptr': p, i = i, p
                    out.append((st2, s.deref(p, as_int(i))))
            return out
        if isinstance(e, c_ast.Cast):
            raise CErr('cast lvalue')
        if isinstance(e, c_ast.CompoundLiteral):
            raise CErr('compound literal')
        raise CErr('lvalue %s' % type(e).__name__)

    def deref(s, p, i):
        if p.k != 'ptr': raise CErr('deref of non-pointer')
        if isinstance(p.ty.to, TVoid): raise CErr('deref of void*')
        if p.prov:
            return LV('farr', p.ty.to, S=p.prov[0], path=p.prov[1], b=p.b, o=p.o, idx=add(p.idx, i))
        o = add(p.o, i)
        if isinstance(p.ty.to, TStruct): return LV('struct', p.ty.to, S=p.ty.to.tag, path='', b=p.b, o=o)
        if isinstance(p.ty.to, TArr): raise CErr('pointer to array')
        if isinstance(p.ty.to, TFunc): return LV('func', p.ty.to, b=p.b)
        return LV('mem', p.ty.to, b=p.b, o=o)

    def global_lv(s, st, n):
        if n not in s.tu.globals: raise CErr('unknown identifier %s' % n)
        ty, init = s.tu.globals[n]
        # errno: no contract mentions it; reads give an arbitrary value, writes are dropped
        if n == 'errno': return LV('errno', ty)
        b = s.const('g.' + n, 'Int')
        s.notes.add('global:' + n)
        if isinstance(ty, TStruct): return LV('struct', ty, S=ty.tag, path='', b=b, o='0')
        if isinstance(ty, TArr): return LV('arrobj', ty, name=n, b=b, o='0')
        return LV('mem', ty, b=b, o='0')

    def read(s, st, lv, node):
        if lv.k == 'var':
            b = st.env[lv.name]
            return b[1]
        if lv.k == 'func': return V('ptr', None, TPtr(lv.ty), lv.b, '0')
        if lv.k == 'errno':
            v = s.anyval(st, lv.ty, 'errno')
            return v
        if lv.k == 'farrobj':
            return V('ptr', None, TPtr(lv.ty.el), lv.b, lv.o, prov=(lv.S, lv.path), idx='0')
        if lv.k == 'arrobj':
            return V('ptr', None, TPtr(lv.ty.el), lv.b, '0')
        if lv.k == 'struct':
            s.validlv(st, lv, node)
            parts = {}
            for l in s.w.leaves(lv, s.tu):
                key = l.path if l.k != 'mem' else 'emb:' + re.match(r'\(emb\.(\S+) ', l.b).group(1)
                if l.k == 'farrobj':
                    parts[key] = ('farr', l.ty, [sel(sel(s.hget(st, m), l.b), l.o) for m in s.w.farr_maps(l)])
                else:
                    parts[key] = ('sc', l.ty, s.w.read(s.heapf(st), l))
            # strip prefix
            pre = lv.path + '.' if lv.path else ''
            parts = {(k[len(pre):] if k.startswith(pre) else k): v for k, v in parts.items()}
            return V('struct', None, lv.ty, parts=parts)
        s.validlv(st, lv, node)
        v = s.w.read(s.heapf(st), lv)
        if lv.bits is not None and v.k == 'int' and not lv.ty.signed:
            st.fact('(<= 0 %s)' % v.t)
            st.fact('(<= %s %s)' % (v.t, lit((1 << lv.bits) - 1)))
        else: s.rng(st, v)
        return v

    def write(s, st, lv, v, node):
        if lv.k == 'var':
            ty = st.env[lv.name][2]
            st.env[lv.name] = ('val', s.bind(st, lv.name, v), ty)
            for r in s.recs: r.locals.add(lv.name)
            return
        if lv.k == 'errno': return
        if lv.k == 'struct':
            s.validlv(st, lv, node)
            if v.k != 'struct': raise CErr('struct assign')
            pre = lv.path + '.' if lv.path else ''
            for l in s.w.leaves(lv, s.tu):
                key = l.path if l.k != 'mem' else 'emb:' + re.match(r'\(emb\.(\S+) ', l.b).group(1)
                if key.startswith(pre): key = key[len(pre):]
                kind, ty, x = v.parts[key]
                if kind == 'farr':
                    for m, t in zip(s.w.farr_maps(l), x):
                        F = s.hget(st, m)
                        s.hset(st, m, sto(F, l.b, sto(sel(F, l.b), l.o, t)), l.b)
                else:
                    s.store(st, l, x)
            return
        s.validlv(st, lv, node)
        if lv.bits is not None and v.k == 'int' and lv.ty.name != '_Bool':
            m = 1 << lv.bits
            if is_lit(v.t): v = V('int', lit(litval(v.t) % m), v.ty)
            else: v = V('int', '(ite (<= 0 %s %d) %s (mod %s %d))' % (v.t, m - 1, v.t, v.t, m), v.ty)
        s.store(st, lv, v)

    def store(s, st, lv, v):
        ms = maps_of(lv)
        comps = [v.b, v.o] if isinstance(lv.ty, TPtr) else [as_int(v)]
        if isinstance(lv.ty, TPtr) and lv_base(lv):
            s.check(st, cmp_('=', v.o, '0'), 'memory', 'pointer stored in %s has offset 0' % (lv.path or lv.ty), None)
            comps = [v.b]
        if isinstance(lv.ty, TPtr) and v.prov: raise CErr('storing array-field pointer')
        for m, t in zip(ms, comps):
            if lv.k == 'farr':
                s.w.sorts.setdefault(m, DEPTH3)
                F = s.hget(st, m)
                a = sel(F, lv.b)
                c = sel(a, lv.o)
                s.hset(st, m, sto(F, lv.b, sto(a, lv.o, sto(c, lv.idx, t))), lv.b)
            else:
                s.w.sorts.setdefault(m, DEPTH2)
                F = s.hget(st, m)
                s.hset(st, m, sto(F, lv.b, sto(sel(F, lv.b), lv.o, t)), lv.b)
                if lv.o != '0':
                    # select-over-store towards the new array (E-matching does not derive it)
                    st.fact('(forall ((o! Int)) (! (=> (not (= o! %s)) (= (select (select %s %s) o!) (select (select %s %s) o!))) :pattern ((select (select %s %s) o!))))' % (
                        lv.o, s.hget(st, m), lv.b, F, lv.b, F, lv.b))

    def bind(s, st, name, v):
        """keep terms small: name big terms"""
        if v.k == 'int' and len(v.t) > 24:
            n = s.fresh(name)
            st.fact('(= %s %s)' % (n, v.t))
            r = V('int', n, v.ty)
            return r
        if v.k == 'bool' and len(v.t) > 40:
            n = s.fresh(name, 'Bool')
            st.fact('(= %s %s)' % (n, v.t))
            return V('bool', n, v.ty)
        if v.k == 'ptr' and not v.prov and len(v.b) > 24:
            n = s.fresh(name)
            st.fact('(= %s %s)' % (n, v.b))
            if v.b in s.nonnull: s.nonnull.add(n)
            return V('ptr', None, v.ty, n, v.o)
        return v

    # ------------------------------------------------ expressions
    def ev(s, st, e, hint=None):
        """-> list of (st, V)"""
        s.lineof(e)
        k = type(e).__name__
        f = getattr(s, 'e_' + k, None)
        if f is None: raise CErr('expression %s' % k)
        if k in ('FuncCall', 'Cast'): return f(st, e, hint)
        return f(st, e)

    def e_Constant(s, st, e):
        if e.type == 'char': return [(st, V('int', lit(charconst(e.value)), INT))]
        if e.type == 'string':
            return [(st, s.strlit(st, e.value))]
        n, ty = intconst(e.value)
        return [(st, V('int', lit(n), ty))]

    def strlit(s, st, v):
        bs = cstr(v)
        import hashlib
        b = s.const('str.' + hashlib.md5(bytes(bs)).hexdigest()[:8], 'Int')
        s.notes.add('str:%s:%d' % (b, len(bs) + 1))
        m = s.w.leaf_maps(CHAR)[0]
        h = s.hget(st, m)
        if len(bs) <= 64:
            for i, c in enumerate(bs + [0]):
                st.fact('(= (select (select %s %s) %d) %s)' % (h, b, i, lit(c if c < 128 else c - 256)))
        return P(b, '0', CHAR)

    def e_ID(s, st, e):
        n = e.name
        if n in st.env or n in s.tu.globals:
            if n not in st.env and n in s.tu.enums: pass
            out = []
            for st1, lv in s.lval(st, e):
                v = s.read(st1, lv, e)
                out.append((st1, v))
            return out
        if n in s.tu.enums: return [(st, V('int', lit(s.tu.enums[n]), INT))]
        if n in s.tu.ftypes:
            b = s.const('fn.' + n, 'Int')
            s.notes.add('fn:' + n)
            return [(st, V('ptr', None, TPtr(s.tu.ftypes[n]), b, '0'))]
        raise CErr('unknown identifier %s' % n)

    def e_StructRef(s, st, e):
        return [(st1, s.read(st1, lv, e)) for st1, lv in s.lval(st, e)]

    def e_ArrayRef(s, st, e):
        out = []
        for st1, lv in s.lval(st, e):
            s.const_table(st1, e, lv)
            out.append((st1, s.read(st1, lv, e)))
        return out

    def const_table(s, st, e, lv):
        if isinstance(e.name, c_ast.ID) and e.name.name not in st.env and e.name.name in s.tu.globals:
            ty, init = s.tu.globals[e.name.name]
            if isinstance(init, c_ast.InitList) and isinstance(ty, TArr) and isinstance(ty.el, TInt) and len(init.exprs) <= 64:
                for i, x in enumerate(init.exprs):
                    m = s.w.leaf_maps(ty.el)[0]
                    st.fact('(= (select (select %s g.%s) %d) %s)' % (s.hget(st, m), e.name.name, i, lit(s.tu.const(x))))

    def e_ExprList(s, st, e):
        cur = [(st, None)]
        for x in e.exprs:
            cur = [r for st1, _ in cur for r in s.ev(st1, x)]
        return cur

    def e_Cast(s, st, e, hint=None):
        ty = s.tu.ctype(e.to_type)
        if isinstance(ty, TVoid):
            return [(st1, V('void')) for st1, v in s.ev(st, e.expr)]
        return [(st1, s.conv(st1, v, ty, e)) for st1, v in s.ev(st, e.expr, ty)]

    def e_TernaryOp(s, st, e):
        if s.pure(e.iftrue) and s.pure(e.iffalse):
            out = []
            for st1, c in s.cond(st, e.cond):
                if c == 'true': out += s.ev(st1, e.iftrue)
                elif c == 'false': out += s.ev(st1, e.iffalse)
                else:
                    a = s.guarded(st1, c, e.iftrue)
                    b = s.guarded(st1, not_(c), e.iffalse)
                    out.append((st1, s.joinv(st1, c, a, b)))
            return out
        out = []
        for st1, c in s.cond(st, e.cond):
            a, b = st1.copy(), st1
            if s.assume(a, c): out += s.ev(a, e.iftrue)
            if s.assume(b, not_(c)): out += s.ev(b, e.iffalse)
        return out

    def joinv(s, st, c, a, b):
        if a.k == 'bool' and b.k == 'bool': return B(ite(c, a.t, b.t))
        if a.k in ('int', 'bool') and b.k in ('int', 'bool'):
            a, b = s.promote(a), s.promote(b)
            ty = s.usual(a.ty, b.ty)
            return V('int', ite(c, s.convint(a.t, a.ty, ty), s.convint(b.t, b.ty, ty)), ty)
        if a.k == 'ptr' or b.k == 'ptr':
            if a.k != 'ptr': a = s.conv(st, a, b.ty)
            if b.k != 'ptr': b = s.conv(st, b, a.ty)
            return V('ptr', None, b.ty if isinstance(a.ty.to, TVoid) else a.ty, ite(c, a.b, b.b), ite(c, a.o, b.o))
        if a.k == 'void': return a
        raise CErr('ternary types')

    def guarded(s, st, c, e):
        """evaluate a pure expression under an extra assumption, keep its facts as implications"""
        g = st.copy()
        g.fact(c)
        base = g.facts
        r = s.ev(g, e)
        if len(r) != 1: raise CErr('guarded evaluation forked')
        g2, v = r[0]
        new, f = [], g2.facts
        while f is not base:
            new.append(f.t)
            f = f.up
        for m, h in g2.heap.items():
            if m not in st.heap: st.heap[m] = h
        for t in reversed(new): st.fact(imp(c, t))
        return v

    def pure(s, e):
        """no side effects, no calls, no forking"""
        if isinstance(e, (c_ast.Assignment,)): return False
        if isinstance(e, c_ast.FuncCall):
            n = e.name.name if isinstance(e.name, c_ast.ID) else None
            if n in ('isprint', 'isalnum', 'isalpha', 'isdigit', 'isspace', 'isupper', 'islower', 'isxdigit'): return all(s.pure(x) for x in (e.args.exprs if e.args else []))
            return False
        if isinstance(e, c_ast.UnaryOp) and e.op in ('++', '--', 'p++', 'p--'): return False
        return all(s.pure(c) for _, c in e.children())

    def cond(s, st, e):
        """-> list of (st, boolterm)"""
        s.lineof(e)
        if isinstance(e, c_ast.BinaryOp) and e.op in ('&&', '||'):
            out = []
            for st1, l in s.cond(st, e.left):
                short = 'false' if e.op == '&&' else 'true'
                if l == short:
                    out.append((st1, short))
                    continue
                if l in ('true', 'false'):
                    out += s.cond(st1, e.right)
                    continue
                g = l if e.op == '&&' else not_(l)
                if s.pure(e.right):
                    gst = st1.copy()
                    gst.fact(g)
                    base = gst.facts
                    rs = s.cond(gst, e.right)
                    if len(rs) == 1:
                        g2, r = rs[0]
                        new, f = [], g2.facts
                        while f is not base:
                            new.append(f.t)
                            f = f.up
                        for m, h in g2.heap.items():
                            if m not in st1.heap: st1.heap[m] = h
                        for t in reversed(new): st1.fact(imp(g, t))
                        out.append((st1, and_(l, r) if e.op == '&&' else or_(l, r)))
                        continue
                a, b = st1.copy(), st1
                if s.assume(a, g): out += s.cond(a, e.right)
                if s.assume(b, not_(g)): out.append((b, short))
            return out
        if isinstance(e, c_ast.UnaryOp) and e.op == '!':
            return [(st1, not_(c)) for st1, c in s.cond(st, e.expr)]
        out = []
        for st1, v in s.ev(st, e):
            if v.k == 'ptr' and v.b in s.nonnull: out.append((st1, 'true'))
            else: out.append((st1, as_bool(v)))
        return out

    def e_BinaryOp(s, st, e):
        if e.op in ('&&', '||'):
            return [(st1, B(c)) for st1, c in s.cond(st, e)]
        out = []
        for st1, a in s.ev(st, e.left):
            for st2, b in s.ev(st1, e.right):
                out.append((st2, s.binop(st2, e.op, a, b, e)))
        return out

    def binop(s, st, op, a, b, e):
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if a.k == 'ptr' or b.k == 'ptr':
                if a.k != 'ptr': a = s.conv(st, a, b.ty)
                if b.k != 'ptr': b = s.conv(st, b, a.ty)
                if op in ('==', '!='):
                    if (a.b in s.nonnull and b.b == '0') or (b.b in s.nonnull and a.b == '0'): t = 'false'
                    elif (a.prov and b.b == '0') or (b.prov and a.b == '0'): t = 'false'
                    else: t = ptr_eq(a, b)
                    return B(t if op == '==' else not_(t))
                if a.prov or b.prov: raise CErr('pointer order on array fields')
                s.check(st, cmp_('=', a.b, b.b), 'memory', 'pointer comparison within one object', e)
                return B(cmp_(op, a.o, b.o))
            a, b = s.promote(a), s.promote(b)
            ty = s.usual(a.ty, b.ty)
            x, y = s.convint(a.t, a.ty, ty), s.convint(b.t, b.ty, ty)
            if op == '!=': return B(not_(cmp_('=', x, y)))
            return B(cmp_('=' if op == '==' else op, x, y))
        if a.k == 'ptr' or b.k == 'ptr':
            if op == '+':
                if a.k != 'ptr': a, b = b, a
                n = as_int(b)
                if a.prov: return V('ptr', None, a.ty, a.b, a.o, a.prov, add(a.idx, n))
                return V('ptr', None, a.ty, a.b, add(a.o, n))
            if op == '-':
                if b.k == 'ptr':
                    if a.prov or b.prov: raise CErr('array-field pointer difference')
                    s.check(st, cmp_('=', a.b, b.b), 'memory', 'pointer difference within one object', e)
                    return V('int', sub(a.o, b.o), LONG)
                n = as_int(b)
                if a.prov: return V('ptr', None, a.ty, a.b, a.o, a.prov, sub(a.idx, n))
                return V('ptr', None, a.ty, a.b, sub(a.o, n))
            raise CErr('pointer op %s' % op)
        return s.arith(st, op, a, b, e)

    def e_UnaryOp(s, st, e):
        op = e.op
        if op == '!': return [(st1, B(c)) for st1, c in s.cond(st, e)]
        if op == 'sizeof':
            return [(st, V('int', str(s.sizeof_expr(st, e.expr)), ULONG))]
        if op == '&': return s.addrof(st, e)
        if op == '*':
            return [(st1, s.read(st1, lv, e)) for st1, lv in s.lval(st, e)]
        if op in ('++', '--', 'p++', 'p--'):
            out = []
            for st1, lv in s.lval(st, e.expr):
                v = s.read(st1, lv, e)
                ty = lv.ty
                n = s.binop(st1, '+' if '++' in op else '-', v, V('int', '1', INT), e)
                n = s.conv(st1, n, ty, e)
                if lv.k == 'var': n = s.bind(st1, lv.name, n)
                s.write(st1, lv, n, e)
                out.append((st1, v if op[0] == 'p' else n))
            return out
        out = []
        for st1, v in s.ev(st, e.expr):
            v = s.promote(v)
            if op == '-':
                out.append((st1, s.arith(st1, '-', V('int', '0', v.ty), v, e)))
            elif op == '+': out.append((st1, v))
            elif op == '~':
                if v.ty.signed: t = sub('(- 1)', v.t) if not is_lit(v.t) else lit(~litval(v.t))
                else:
                    if is_lit(v.t): t = lit(v.ty.hi - litval(v.t))
                    elif v.ty.bits == 64:
                        s.notes.add('bits')
                        t = '(bnot %s)' % v.t
                    else: t = '(- %d %s)' % (v.ty.hi, v.t)
                out.append((st1, V('int', t, v.ty)))
            else: raise CErr('unary %s' % op)
        return out

    def sizeof_expr(s, st, x):
        if isinstance(x, c_ast.Typename): return s.w.sizeof(s.tu.ctype(x), s.tu)
        t = s.typeof(st, x)
        return s.w.sizeof(t, s.tu)

    def typeof(s, st, x):
        if isinstance(x, c_ast.ID):
            b = st.env.get(x.name)
            if b: return b[2]
            if x.name in s.tu.globals: return s.tu.globals[x.name][0]
            raise CErr('typeof %s' % x.name)
        if isinstance(x, c_ast.UnaryOp) and x.op == '*':
            t = s.typeof(st, x.expr)
            return t.to if isinstance(t, TPtr) else t.el
        if isinstance(x, c_ast.ArrayRef):
            t = s.typeof(st, x.name)
            return t.to if isinstance(t, TPtr) else t.el
        if isinstance(x, c_ast.StructRef):
            t = s.typeof(st, x.name)
            if x.type == '->': t = t.to
            return s.w.field_lv(LV('struct', t, S=t.tag, path='', b='0', o='0'), x.field.name, s.tu).ty
        if isinstance(x, c_ast.Cast): return s.tu.ctype(x.to_type)
        if isinstance(x, c_ast.Constant):
            if x.type == 'string': return TArr(CHAR, len(cstr(x.value)) + 1)
            return intconst(x.value)[1] if x.type != 'char' else INT
        if isinstance(x, c_ast.BinaryOp): return s.typeof(st, x.left)
        raise CErr('typeof %s' % type(x).__name__)

    def addrof(s, st, e):
        x = e.expr
        if isinstance(x, c_ast.ID) and x.name not in st.env and x.name in s.tu.ftypes and x.name not in s.tu.globals:
            return s.e_ID(st, x)
        out = []
        for st1, lv in s.lval(st, x):
            if lv.k == 'struct':
                if lv.path: raise CErr('address of nested struct %s.%s (declare addrfield)' % (lv.S, lv.path))
                out.append((st1, P(lv.b, lv.o, lv.ty)))
            elif lv.k == 'mem': out.append((st1, P(lv.b, lv.o, lv.ty)))
            elif lv.k == 'farr': out.append((st1, V('ptr', None, TPtr(lv.ty), lv.b, lv.o, (lv.S, lv.path), lv.idx)))
            elif lv.k == 'func': out.append((st1, V('ptr', None, TPtr(lv.ty), lv.b, '0')))
            elif lv.k == 'arrobj': out.append((st1, P(lv.b, lv.o, lv.ty.el)))
            elif lv.k == 'farrobj': out.append((st1, V('ptr', None, TPtr(lv.ty.el), lv.b, lv.o, (lv.S, lv.path), '0')))
            else: raise CErr('address of %s (%s)' % (lv.k, lv.path or lv.name))
        return out

    def e_Assignment(s, st, e):
        out = []
        for st0, lv in s.lval(st, e.lvalue):
            # the lvalue is computed first, but its contents are read after the rhs (no C code here depends on it)
            for st1, v in s.ev(st0, e.rvalue, lv.ty if e.op == '=' else None):
                if e.op != '=':
                    cur = s.read(st1, lv, e)
                    v = s.binop(st1, e.op[:-1], cur, v, e)
                v = s.conv(st1, v, lv.ty, e)
                if lv.k == 'var': v = s.bind(st1, lv.name, v)
                s.write(st1, lv, v, e)
                out.append((st1, v))
        return out

    # ------------------------------------------------ calls
    def e_FuncCall(s, st, e, hint=None):
        args = e.args.exprs if e.args else []
        if isinstance(e.name, c_ast.ID) and e.name.name not in st.env and e.name.name not in s.tu.globals:
            n = e.name.name
            return s.call_named(st, n, args, e, hint)
        # through a function pointer
        out = []
        fexp = e.name
        if isinstance(fexp, c_ast.UnaryOp) and fexp.op == '*': fexp = fexp.expr
        for st1, f in s.ev(st, fexp):
            pname = None
            if isinstance(fexp, c_ast.ID): pname = fexp.name
            elif isinstance(fexp, c_ast.StructRef): pname = fexp.field.name
            m = re.fullmatch(r'fn\.(\w+)', f.b)
            if m:
                out += s.call_named(st1, m.group(1), args, e, hint)
                continue
            c = (s.c or {}).get('callbacks', {}).get(pname)
            if c is None: raise CErr('call through unknown function pointer %s' % pname)
            con = s.lookup(c, s.tu)
            if con is None: raise CErr('no contract %s for callback' % c)
            on = s.c['cbon'].get(pname)
            out += s.call_contract(st1, con, c, args, e, f.ty.to, extra={'self': V('int', f.b, None)}, on=s.speval(st1).ev(on) if on is not None else None)
        return out

    def closure(s, st, con, pname, env, ev, e):
        """a known function passed as a callback that answers a logic function: the answers are
        those of its contract in the state at the call, under a name fresh for this call"""
        v = env[pname]
        m = re.fullmatch(r'fn\.(\w+)', v.b or '') if v.k == 'ptr' else None
        on = con['cbon'].get(pname)
        if on is None: return
        own = None
        if m is None and v.k == 'ptr':
            # a callback parameter of ours handed on: what is known of it is its own contract
            own = [c for q, c in (s.c or {}).get('callbacks', {}).items() if q not in s.c['cbon'] and q in s.entryenv and s.entryenv[q].b == v.b]
            if not own: return
        if m is None and not own: return
        cb = s.lookup(con['callbacks'][pname], s.tu)
        tg = s.lookup(own[0] if own else m.group(1), s.tu)
        if cb is None or tg is None: raise CErr('callback %s: no contract for %s' % (pname, m.group(1)))
        lf = [x for _, r in cb['ensures'] for x in conjuncts(r) if x[0] == 'cmp' and x[1] == '==' and x[2] == ('id', 'result') and x[3][0] == 'call']
        if len(lf) != 1: raise CErr('callback contract %s does not name its answer' % cb['name'])
        if tg['assigns'] or tg['frees'] or 'allocates' in tg['flags']: raise CErr('callback %s has effects' % tg['name'])
        p = s.fresh('clo')
        st.fact('(< 0 %s)' % p)
        onv = ev.ev(on)
        names = tg['params'] if not own else ['arg%d' % (k + 1) for k in range(len(v.ty.to.params))]
        vs = [onv] + [V('int', '%s!q' % s.fresh('ci'), None) for _ in names[1:]]
        qs = [x.t for x in vs[1:]]
        e1 = {'arg%d' % (k + 1): x for k, x in enumerate(vs)}
        e1['self'] = V('int', p, None)
        ecb = SpecEval(s.w, e1, s.heapf(st), old=s.heapf(st), tu=cb['tu'] or s.tu)
        app = ecb.ev(lf[0][3])
        ent = dict(zip(names, vs))
        if own:
            for _, g in tg['ghost']: ent[g] = s.ghostenv[g]
            ent['self'] = V('int', p, None)
        et = SpecEval(s.w, ent, s.heapf(st), old=s.heapf(st), tu=tg['tu'] or s.tu, result=V('int', app.t, INT))
        dom = and_(*[s.specb(ecb, r, cb) for _, r in cb['requires']])
        b = ' '.join('(%s Int)' % q for q in qs)
        for l, r in tg['requires']:
            t = s.specb(et, r, tg)
            s.check(st, '(forall (%s) %s)' % (b, imp(dom, t)), 'precondition', 'precondition of %s when called through %s%s' % (tg['name'], pname, ' [%s]' % l if l else ''), e)
        for l, r in tg['ensures']:
            st.fact('(forall (%s) (! %s :pattern (%s)))' % (b, imp(dom, s.specb(et, r, tg)), app.t))
        env[pname] = V('ptr', None, v.ty, p, '0')

    def refine(s, st, con, pname, env, e):
        """a known function passed as a callback: its contract implies the callback's, in every state"""
        v = env.get(pname)
        m = re.fullmatch(r'fn\.(\w+)', v.b or '') if v is not None and v.k == 'ptr' else None
        if m is None: return
        cb = s.lookup(con['callbacks'][pname], s.tu)
        tg = s.lookup(m.group(1), s.tu)
        if cb is None or tg is None: raise CErr('callback %s: no contract for %s' % (pname, m.group(1)))
        if tg['assigns'] or tg['frees'] or 'allocates' in tg['flags']: raise CErr('callback %s has effects' % tg['name'])
        heap = {}

        def h(mm):
            if mm not in heap: heap[mm] = s.fresh(mm, s.w.sorts[mm])
            return heap[mm]
        ftt = s.tu.ftypes.get(m.group(1))
        if ftt is None: raise CErr('callback %s: type unknown' % tg['name'])
        names = tg['params'] or ftt.names
        vs = []
        for nm, ty in zip(names, ftt.params):
            if isinstance(ty, TPtr): vs.append(V('ptr', None, ty, s.fresh('cb_b'), '0' if base_ptr(ty) else s.fresh('cb_o')))
            else: vs.append(s.rng(st, V('int', s.fresh('cb_i'), ty)))
        res = s.rng(st, V('int', s.fresh('cb_r'), ftt.ret)) if isinstance(ftt.ret, TInt) else None
        e1 = {'arg%d' % (k + 1): x for k, x in enumerate(vs)}
        e1['self'] = V('int', v.b, None)
        for ty, g in cb['ghost']:
            if g not in env: raise CErr('callback %s: ghost %s' % (cb['name'], g))
            e1[g] = env[g]
        e2 = dict(zip(names, vs))
        ec = SpecEval(s.w, e1, h, old=h, tu=cb['tu'] or s.tu, result=res)
        et = SpecEval(s.w, e2, h, old=h, tu=tg['tu'] or s.tu, result=res)
        pre = and_(*[s.specb(ec, r, cb) for _, r in cb['requires']])
        for l, r in tg['requires']:
            s.check(st, imp(pre, s.specb(et, r, tg)), 'precondition', 'precondition of %s when called through %s%s' % (tg['name'], pname, ' [%s]' % l if l else ''), e)
        post = and_(pre, *[s.specb(et, r, tg) for _, r in tg['ensures']])
        for l, r in cb['ensures']:
            s.check(st, imp(post, s.specb(ec, r, cb)), 'precondition', '%s honours the callback contract %s%s' % (tg['name'], cb['name'], ' [%s]' % l if l else ''), e)

    def evargs(s, st, args, types=None):
        cur = [(st, [])]
        for k, a in enumerate(args):
            nxt = []
            for st1, vs in cur:
                for st2, v in s.ev(st1, a):
                    if types is not None and k < len(types): v = s.conv(st2, v, types[k], a)
                    nxt.append((st2, vs + [v]))
            cur = nxt
        return cur

    def evargs_ref(s, st, args, types):
        """evargs; addresses of plain scalar fields are passed by copy-in/copy-out"""
        def isref(a): return isinstance(a, c_ast.UnaryOp) and a.op == '&' and isinstance(a.expr, c_ast.StructRef)
        if not any(isref(a) for a in args): return [(st1, vs, []) for st1, vs in s.evargs(st, args, types)]
        cur = [(st, [], [])]
        for k, a in enumerate(args):
            nxt = []
            for st1, vs, refs in cur:
                if isref(a):
                    for st2, lv in s.lval(st1, a.expr):
                        if lv.k == 'fld' and lv.bits is None and isinstance(lv.ty, (TPtr, TInt)):
                            if any(maps_of(lv) == maps_of(x) for x, _ in refs): raise CErr('two references to the same kind of field in one call')
                            v, cell = s.byref(st2, lv, a)
                            nxt.append((st2, vs + [v], refs + [(lv, cell)]))
                        else:
                            for st3, v in s.ev(st2, a): nxt.append((st3, vs + [v], refs))
                else:
                    for st2, v in s.ev(st1, a):
                        if types is not None and k < len(types): v = s.conv(st2, v, types[k], a)
                        nxt.append((st2, vs + [v], refs))
            cur = nxt
        return cur

    def call_named(s, st, n, args, e, hint):
        if n == '__v_assert':
            out = []
            a = args[0]
            neg = 0
            while isinstance(a, c_ast.UnaryOp) and a.op == '!': a, neg = a.expr, neg + 1
            if neg % 2 and isinstance(a, c_ast.Constant) and a.type == 'string':
                s.check(st, 'false', 'assert', 'assert() holds', e)     # assert(!"unreachable"): nothing follows
                return []
            for st1, c in s.cond(st, args[0]):
                s.check(st1, c, 'assert', 'assert() holds', e)
                if c != 'false': out.append((st1, V('void')))
            return out
        if n in ALLOCF: return s.do_alloc(st, n, args, e, hint)
        bi = getattr(s, 'b_' + n, None)
        if bi is not None: return bi(st, args, e)
        if n in ('__builtin_popcountl', '__builtin_popcountll', '__builtin_popcount'):
            return [(st1, s.rng(st1, V('int', '(popc %s)' % as_int(vs[0]), INT))) for st1, vs in s.evargs(st, args, s.tu.ftypes[n].params if n in s.tu.ftypes else [ULONG])]
        if n in ('__builtin_unreachable',):
            s.check(st, 'false', 'assert', 'unreachable', e)
            return []
        if n in ('abort', 'exit'):
            if n == 'abort': s.check(st, 'false', 'assert', 'abort() is not reached', e)
            return []
        con = s.lookup(n, s.tu)
        if con is not None and n != s.fname and 'inline' not in con['flags']:
            return s.call_contract(st, con, n, args, e, s.tu.ftypes.get(n))
        if con is not None and n == s.fname and 'inline' not in con['flags']:
            return s.call_contract(st, con, n, args, e, s.tu.ftypes.get(n), rec=True)
        if n in s.tu.funcs:
            return s.call_inline(st, n, args, e)
        if con is not None and con.get('tu') is not None and n in con['tu'].funcs:
            # a body from another translation unit (contract flagged inline)
            tu = s.tu
            out = []
            for st1, vs in s.evargs(st, args, con['tu'].ftypes[n].params):
                s.tu = con['tu']
                try: out += s.call_inline(st1, n, args, e, vs)
                finally: s.tu = tu
            return out
        if n in ('fprintf', 'printf', 'perror', 'fputs', 'fputc', 'fflush', 'putchar', 'puts'):
            s.notes.add('io')
            return [(st1, s.rng(st1, V('int', s.fresh('io'), INT))) for st1, _ in s.evargs(st, args)]
        raise CErr('call to %s: no contract and no body' % n)

    def call_inline(s, st, n, args, e, given=None):
        if len(s.inlined) > 12 or n in s.inlined: raise CErr('recursive/deep inlining of %s' % n)
        fd, ft = s.tu.funcs[n], s.tu.ftypes[n]
        s.inl_used.add(n)
        out = []
        for st1, vs in ([(st, given)] if given is not None else s.evargs(st, args, ft.params)):
            saved = st1.env
            st1.env = {}
            s.inlined.append(n)
            s.enter(st1, fd, ft, vs)
            outs = s.stmt(st1, fd.body)
            s.inlined.pop()
            for o in outs:
                if o[0] == 'return':
                    st2, v = o[1], o[2]
                elif o[0] == 'next': st2, v = o[1], V('void')
                else: raise CErr('stray %s in %s' % (o[0], n))
                s.leave(st2, fd, saved)
                st2.env = dict(saved)
                if v is not None and v.k in ('int', 'bool') and isinstance(ft.ret, (TInt, TPtr)): v = s.conv(st2, v, ft.ret)
                out.append((st2, v))
        return s.merge_states(out)

    def merge_states(s, outs):
        """join states that differ only in facts/value (keeps path counts down after inlining)"""
        if len(outs) < 2: return outs
        return outs

    def local_types(s, fd):
        """parameters (by name) and declarations (by id) whose address is taken"""
        taken = set()
        scopes = [{}]

        def walk(n):
            push = isinstance(n, (c_ast.Compound, c_ast.For))
            if push: scopes.append({})
            if isinstance(n, c_ast.UnaryOp) and n.op == '&' and isinstance(n.expr, c_ast.ID):
                for sc in reversed(scopes):
                    if n.expr.name in sc:
                        taken.add(id(sc[n.expr.name]))
                        break
                else: taken.add(n.expr.name)
            if isinstance(n, c_ast.Decl) and n.name is not None: scopes[-1][n.name] = n
            for _, c in n.children(): walk(c)
            if push: scopes.pop()
        walk(fd.body)
        return taken

    def block_decls(s, fd, ft, path):
        """(path, key, name, type) of every memory-resident local, descending into inlined calls"""
        out = []
        taken = s.local_types(fd)
        for nm, ty in zip(ft.names or [], ft.params):
            if nm in taken or isinstance(ty, TStruct): out.append((path, 'param:' + nm, nm, ty))

        def walk(n, inloop=False):
            if isinstance(n, c_ast.Decl) and not inloop and n.name is not None and 'static' not in (n.storage or []):
                try:
                    ty = s.decl_type(n)
                    if not isinstance(ty, TFunc) and (isinstance(ty, (TStruct, TArr)) or id(n) in taken):
                        out.append((path, id(n), n.name, ty))
                except CErr:
                    pass
            if isinstance(n, c_ast.FuncCall) and isinstance(n.name, c_ast.ID):
                f = n.name.name
                con = s.lookup(f, s.tu)
                if f in s.tu.funcs and f not in path and f != s.fname and len(path) < 8 and f not in ALLOCF and (con is None or 'inline' in con['flags']):
                    if not hasattr(s, 'b_' + f):
                        out.extend(s.block_decls(s.tu.funcs[f], s.tu.ftypes[f], path + (f,)))
            if isinstance(n, (c_ast.For, c_ast.While, c_ast.DoWhile)) and 'scoped' in (s.c or {}).get('flags', ()): inloop = True
            for _, c in n.children(): walk(c, inloop)
        walk(fd.body)
        return out

    def decl_type(s, n):
        ty = s.tu.ctype(n.type)
        if isinstance(ty, TArr) and ty.n is None and n.init is not None:
            if isinstance(n.init, c_ast.InitList): ty = TArr(ty.el, len(n.init.exprs))
            elif isinstance(n.init, c_ast.Constant): ty = TArr(ty.el, len(cstr(n.init.value)) + 1)
        return ty

    def hoist(s, st, fd, ft):
        s.hoisted = {}
        s.refsz = {}
        seen = set()
        for path, key, nm, ty in s.block_decls(fd, ft, ()):
            if (path, key) in seen: continue
            seen.add((path, key))
            if isinstance(ty, TArr) and ty.n is None: continue
            s.hoisted[(path, key)] = s.newblock(st, str(s.w.sizeof(ty, s.tu)), 'loc_' + nm)
        # cells standing for fields whose address is passed to a contract function (see byref)
        for x in s.fieldaddrs(fd):
            sz = s.fresh('refsz')
            st.fact('(<= 0 %s)' % sz)
            s.hoisted[('byref', id(x))] = s.newblock(st, sz, 'ref_' + x.expr.field.name)
            s.refsz[id(x)] = sz

    def fieldaddrs(s, n):
        out = []
        if isinstance(n, c_ast.FuncCall) and n.args is not None:
            for a in n.args.exprs:
                if isinstance(a, c_ast.UnaryOp) and a.op == '&' and isinstance(a.expr, c_ast.StructRef) and s.scalarfield(a.expr.field.name): out.append(a)
        for _, c in n.children(): out += s.fieldaddrs(c)
        return out

    def scalarfield(s, f):
        for tag in s.tu.structs:
            try: fs, _ = s.w.fields(tag, s.tu)
            except Exception: continue
            for x in fs or []:
                if x.name == f and isinstance(x.ty, (TPtr, TInt)) and (tag, f) not in s.w.addr: return True
        return False

    def byref(s, st, lv, x):
        """&p->f passed to a contract function: copy in to a private cell, copy back after the call.
        Sound because the contract is checked not to mention the field otherwise."""
        b = s.hoisted.get(('byref', id(x)))
        sz = str(s.w.sizeof(lv.ty, s.tu))
        if b is None: b = s.newblock(st, sz, 'ref')
        else: st.fact('(= %s %s)' % (s.refsz[id(x)], sz))
        v = s.read(st, lv, x)
        s.w.leaf_maps(lv.ty, s.tu)
        cell = LV('mem', lv.ty, b=b, o='0')
        s.store(st, cell, v)
        return V('ptr', None, TPtr(lv.ty), b, '0'), cell

    def enter(s, st, fd, ft, vs):
        taken = s.local_types(fd)
        st.env['#taken'] = taken
        st.env['#blocks'] = ()
        for nm, ty, v in zip(ft.names, ft.params, vs):
            if nm in taken or isinstance(ty, TStruct): s.newlocal(st, nm, ty, v, 'param:' + nm)
            else: st.env[nm] = ('val', s.bind(st, nm, v), ty)

    def newblock(s, st, size, base):
        b = s.fresh(base)
        if not is_lit(size): st.fact('(<= %s %d)' % (size, MAXOBJ))
        s.nonnull.add(b)
        brk = s.hget(st, '$brk')
        st.fact('(= %s %s)' % (b, brk))
        st.fact('(< 0 %s)' % b)
        al = s.hget(st, '$alloc')
        s.hset(st, '$alloc', sto(al, b, size), b)
        s.hset(st, '$brk', add(b, '1'), None)
        return b

    def newlocal(s, st, nm, ty, v=None, key=None):
        hk = (tuple(s.inlined), key)
        if hk in s.hoisted:
            b = s.hoisted[hk]
            st.env[nm] = ('blk', b, ty)
            # re-entering the declaration makes the content indeterminate again
            for m in s.w.leaf_maps(ty.el if isinstance(ty, TArr) else ty, s.tu): s.hhavoc(st, m, b)
        else:
            b = s.newblock(st, str(s.w.sizeof(ty, s.tu)), 'loc_' + nm)
            st.env[nm] = ('blk', b, ty)
            st.env['#blocks'] = st.env['#blocks'] + (b,)
        if v is not None:
            lv = LV('struct', ty, S=ty.tag, path='', b=b, o='0') if isinstance(ty, TStruct) else LV('mem', ty, b=b, o='0')
            s.w.leaf_maps(ty, s.tu)
            s.write(st, lv, v, None)

    def leave(s, st, fd, saved):
        bl = st.env['#blocks']
        if saved is None: bl = tuple(s.hoisted.values()) + bl
        for b in bl:
            al = s.hget(st, '$alloc')
            s.hset(st, '$alloc', sto(al, b, '(- 1)'), b)

    # contracts at call sites
    def call_contract(s, st, con, n, args, e, ft, rec=False, extra=None, on=None):
        s.calls.add(con['key'])
        out = []
        ctu = con['tu'] or s.tu
        names = con['params'] or (ft.names if ft else None)
        types = ft.params if ft is not None else con['ptypes']
        ret = ft.ret if ft is not None else con['rtype']
        for st1, vs, refs in s.evargs_ref(st, args, types):
            if refs:
                # arguments are values: name those read from a field whose address is passed too
                rn = {s.hget(st1, m) for lv, _ in refs for m in maps_of(lv)}

                def named(t):
                    if not isinstance(t, str) or not any(x in rn for x in re.findall(r'[^\s()]+', t)): return t
                    c = s.fresh('arg')
                    st1.fact('(= %s %s)' % (c, t))
                    return c
                vs = [V('ptr', None, v.ty, named(v.b), named(v.o), v.prov) if v.k == 'ptr' else V('int', named(v.t), v.ty) if v.k == 'int' else v for v in vs]
            env = dict(zip(names, vs)) if names and None not in names else {}
            for k, v in enumerate(vs): env['arg%d' % (k + 1)] = v
            for nm, v in zip(names or [''] * len(vs), vs):
                if v.k == 'ptr' and v.prov: raise CErr('array-field pointer passed to contract function %s' % n)
            if extra: env.update(extra)
            if on is not None: s.check(st1, and_('(= %s %s)' % (vs[0].b, on.b), '(= %s %s)' % (vs[0].o, on.o)), 'precondition', 'callback %s is applied to its subject' % n, e)
            for pn in con['cbon']: s.closure(st1, con, pn, env, SpecEval(s.w, env, s.heapf(st1), old=s.heapf(st1), tu=ctu), e)
            # ghost arguments
            for ty, g in con['ghost']:
                ge = (s.c or {}).get('calls', {}).get(n, {}).get(g)
                if ge is None:
                    # default: same-named ghost parameter of the caller
                    gv = (st1.env.get('#ghost') or s.ghostenv).get(g) if hasattr(s, 'ghostenv') else None
                    if gv is None: raise CErr('ghost argument %s of %s not given' % (g, n))
                    env[g] = gv
                else:
                    env[g] = s.speval(st1).ev(ge)
            for pn in con['callbacks']:
                if pn not in con['cbon'] and 'trusted' not in con['flags']: s.refine(st1, con, pn, env, e)
            ev = SpecEval(s.w, env, s.heapf(st1), old=s.heapf(st1), tu=ctu)
            refmaps = {m for lv, _ in refs for m in maps_of(lv)}
            refnames = {s.hget(st1, m) for m in refmaps}

            def noref(t):
                if refnames and any(x in refnames for x in re.findall(r'[^\s()]+', t)): raise CErr('the contract of %s mentions a field whose address is passed to it' % n)
                return t
            for l, r in con['requires']:
                noref(s.specb(ev, r, con))
                s.check(st1, s.specb(ev, r, con), 'precondition', 'precondition of %s%s' % (n, ' [%s]' % l if l else ''), e)
            if rec and con.get('decreases') is not None:
                pass
            s.before_call(st1, n, e)
            pre = s.snap(st1)
            alloc_l = 'allocates' in con['flags']
            brk0 = s.hget(st1, '$brk')
            # effects
            s.apply_assigns(st1, con['assigns'] or [], ev, alloc_l, con)
            if alloc_l or con['frees']:
                al0 = s.hget(st1, '$alloc')
                if con['frees'] and not alloc_l and all(c is None or True for _, c in con['frees']) and not any(self_set(x) for x, _ in con['frees']):
                    al = al0
                    for x, c in con['frees']:
                        v = ev.with_(heap=pre, old=pre).ev(x)
                        bt = v.b if v.k == 'ptr' else v.t
                        inner = s.fresh('fr')
                        if c is not None:
                            cc = ev.with_(heap=pre, old=pre).b(c)
                            st1.fact(imp(not_(cc), '(= %s %s)' % (inner, sel(al, bt))))
                        al = sto(al, bt, inner)
                        st1.fact('(<= (- 1) %s)' % inner)
                    s.hset(st1, '$alloc', al, None)
                else:
                    n1 = s.fresh('$alloc', DEPTH1)
                    ex = []
                    for x, c in con['frees']:
                        ex.append(s.setmember(ev.with_(heap=pre, old=pre), x, c, 'b!'))
                    st1.fact('(forall ((b! Int)) (! (=> %s (= (select %s b!) (select %s b!))) :pattern ((select %s b!))))' % (
                        and_('(< b! %s)' % brk0, *[not_(x) for x in ex]), n1, al0, n1))
                    st1.heap['$alloc'] = n1
                    for r in s.recs: r.maps.add(('$alloc', None))
                    if alloc_l:
                        nb = s.fresh('$brk')
                        st1.heap['$brk'] = nb
                        for r in s.recs: r.maps.add(('$brk', None))
                        st1.fact('(<= %s %s)' % (brk0, nb))
                    s.wf_alloc(st1)
            res = None
            if not isinstance(ret, TVoid):
                if isinstance(ret, TPtr):
                    z = base_ptr(ret) or any(x == ('cmp', '==', ('call', 'off', [('id', 'result')]), ('num', 0)) for _, r in con['ensures'] for x in conjuncts(r))
                    res = V('ptr', None, ret, s.fresh(n + '_b'), '0' if z else s.fresh(n + '_o'))
                elif isinstance(ret, TStruct): raise CErr('struct return through contract')
                else:
                    res = s.rng(st1, V('int', s.fresh(n), ret))
            ev2 = SpecEval(s.w, env, s.heapf(st1), old=pre, tu=ctu, result=res)
            for l, r in con['ensures']:
                st1.fact(noref(s.specb(ev2, r, con)))
            if refs and refmaps & set(s.assign_items(con['assigns'] or [], ev.with_(heap=pre, old=pre))): raise CErr('%s assigns a field whose address is passed to it' % n)
            for lv, cell in refs: s.store(st1, lv, s.read(st1, cell, e))
            if 'noreturn' in con['flags']: continue
            s.after_call(st1, n, pre, e, res)
            out.append((st1, res if res is not None else V('void')))
        return out

    def before_call(s, st, n, e):
        c = s.c or {}
        k = st.labels.get('#' + n, (0, {}))[0] + 1
        for where, kind, l, x in c.get('at') or []:
            if kind != 'assert' or where[0] != 'before' or where[1] != n: continue
            if len(where) > 2 and int(where[2]) != k: continue
            s.check(st, s.invterm(st, x, 'before ' + n), 'assertion', 'assertion%s before the call of %s' % (' [%s]' % l if l else '', n), e)

    def after_call(s, st, n, pre, e, res=None):
        """labels B_f_k / A_f_k around the k-th call of f on this path, and 'at after f k assert'"""
        c = s.c or {}
        if not c.get('at'): return
        k = st.labels.get('#' + n, (0, {}))[0] + 1
        st.labels = dict(st.labels)
        st.labels['#' + n] = (k, {})
        env = s.specenv(st)
        st.labels['B_%s_%d' % (n, k)] = st.labels['B_' + n] = (pre, env)     # without a number: the latest call
        st.labels['A_%s_%d' % (n, k)] = st.labels['A_' + n] = (s.snap(st), env)
        for where, kind, l, x in c['at']:
            if kind != 'assert' or where[0] != 'after' or where[1] != n: continue
            if len(where) > 2 and int(where[2]) != k: continue
            s.check(st, s.invterm(st, x, 'after ' + n, res), 'assertion', 'assertion%s after the call of %s' % (' [%s]' % l if l else '', n), e)

    def specb(s, ev, r, con=None):
        try:
            t = ev.b(r)
        except SpecErr as x:
            raise CErr('spec: %s (in contract of %s)' % (x, con['name'] if con else s.fname))
        return t

    def setmember(s, ev, x, c, var):
        """membership condition of block `var` in a free/assign block set item"""
        if x == ('id', '_'):
            env = dict(ev.env)
            env['_'] = I(var)
            return ev.with_(env=env).b(c)
        v = ev.ev(x)
        bt = v.b if v.k == 'ptr' else v.t
        t = '(= %s %s)' % (var, bt)
        if c is not None: t = and_(ev.b(c), t)
        return t

    def expand_map(s, name):
        """spec map name -> list of map symbols"""
        if name in ('alloc', '$alloc'): return ['$alloc']
        if name in s.w.sorts: return [name]
        if name + '@b' in s.w.sorts: return [name + '@b', name + '@o']
        if name.startswith('m.'):
            k = name[2:]
            if k in SCAL: return s.w.leaf_maps(SCAL[k])
        if name in s.w.structs:
            return s.w.leaf_maps(TStruct(name), s.tu)
        tag, _, f = name.partition('.')
        if tag in s.w.structs:
            ms = [m for m in s.w.leaf_maps(TStruct(tag), s.tu) if m.split('@')[0] == name or m.startswith(name + '.')]
            if ms: return ms
        raise CErr('unknown map %s in assigns' % name)

    def assign_items(s, items, ev):
        """-> dict map -> list of ('loc',b,o,idx|None,cond) / ('blk',b,cond) / ('set',fn) / ('fresh',)"""
        res = {}
        for it in items:
            if it[0] == 'lv':
                lv = ev.lv(it[1])
                if lv is None: raise CErr('assigns: not an lvalue')
                cond = ev.b(it[2]) if it[2] is not None else 'true'
                lvs = s.w.leaves(lv, s.tu) if lv.k == 'struct' else [lv]
                for l in lvs:
                    if l.k == 'farrobj':
                        for m in s.w.farr_maps(l): res.setdefault(m, []).append(('loc', l.b, l.o, cond))
                    elif l.k == 'farr':
                        for m in maps_of(l): res.setdefault(m, []).append(('loc', l.b, l.o, cond))
                    else:
                        s.w.read(lambda m: m, l)
                        for m in maps_of(l): res.setdefault(m, []).append(('loc', l.b, l.o, cond))
            else:
                _, name, x, c = it
                for m in s.expand_map(name):
                    if x == ('id', 'fresh'): res.setdefault(m, []).append(('fresh',))
                    elif x == ('id', '_'): res.setdefault(m, []).append(('set', lambda var, ev=ev, x=x, c=c: s.setmember(ev, x, c, var)))
                    else:
                        v = ev.ev(x)
                        cond = ev.b(c) if c is not None else 'true'
                        res.setdefault(m, []).append(('blk', v.b if v.k == 'ptr' else v.t, cond))
        return res

    def isfresh(s, m, b, k):
        """block b (of map m) allocated at or after break k"""
        if m.startswith('m.') and s.w.addr and any('m.' + a == m.split('@')[0] for a in s.w.embtypes()): return '(>= (base %s) %s)' % (b, k)
        if m.split('.')[0] in s.w.embtypes(): return '(>= (base %s) %s)' % (b, k)
        return '(>= %s %s)' % (b, k)

    def apply_assigns(s, st, items, ev, alloc_l, con):
        try:
            d = s.assign_items(items, ev)
        except SpecErr as x:
            raise CErr('spec: %s (assigns of %s)' % (x, con['name']))
        brk0 = s.hget(st, '$brk')
        for m, its in d.items():
            if m == '$alloc': continue
            F = s.hget(st, m)
            srt = s.w.sorts[m]
            isrt = {DEPTH2: DEPTH1, DEPTH3: DEPTH2}[srt]
            esrt = {DEPTH2: 'Int', DEPTH3: DEPTH1}[srt]
            if any(i[0] in ('fresh', 'set') for i in its):
                n = s.fresh(m, srt)
                ex = []
                for i in its:
                    if i[0] == 'fresh': pass
                    elif i[0] == 'set': ex.append(i[1]('b!'))
                    elif i[0] == 'blk': ex.append(and_(i[2], '(= b! %s)' % i[1]))
                    else: ex.append(and_(i[3], '(= b! %s)' % i[1]))
                if any(i[0] == 'fresh' for i in its): ex.append(s.isfresh(m, 'b!', brk0))
                st.fact('(forall ((b! Int)) (! (=> %s (= (select %s b!) (select %s b!))) :pattern ((select %s b!))))' % (
                    and_(*[not_(x) for x in ex]), n, F, n))
                # location-level frame within touched blocks
                locs = [i for i in its if i[0] == 'loc']
                for i in locs:
                    same = [j for j in locs]
                    blk = [j for j in its if j[0] == 'blk']
                    c = and_(*[not_(and_(j[3], '(= %s %s)' % (j[1], i[1]), '(= o! %s)' % j[2])) for j in same],
                             *[not_(and_(j[2], '(= %s %s)' % (j[1], i[1]))) for j in blk],
                             *[not_(j[1](i[1])) for j in its if j[0] == 'set'])
                    st.fact(imp(not_(s.isfresh(m, i[1], brk0)),
                            '(forall ((o! Int)) (! (=> %s (= (select (select %s %s) o!) (select (select %s %s) o!))) :pattern ((select (select %s %s) o!))))' % (
                        c, n, i[1], F, i[1], n, i[1])))
                st.heap[m] = n
                for r in s.recs: r.maps.add((m, None))
                continue
            for i in its:
                F = s.hget(st, m)
                if i[0] == 'blk':
                    inner = s.fresh('in', isrt)
                    t = sto(F, i[1], ite(i[2], inner, sel(F, i[1])))
                else:
                    x = s.fresh('w', esrt)
                    t = sto(F, i[1], sto(sel(F, i[1]), i[2], ite(i[3], x, sel(sel(F, i[1]), i[2]))))
                s.hset(st, m, t, i[1])

    # ------------------------------------------------ allocation
    def size_arg(s, st, x, elsz):
        """evaluate a size argument; returns list of (st, bytes, count or None)"""
        if isinstance(x, c_ast.BinaryOp) and x.op == '*':
            for a, b in ((x.left, x.right), (x.right, x.left)):
                if isinstance(b, c_ast.UnaryOp) and b.op == 'sizeof':
                    out = []
                    z = s.sizeof_expr(st, b.expr)
                    for st1, v in s.ev(st, a):
                        n = s.conv(st1, v, ULONG).t
                        raw = mul(n, str(z))
                        by = raw if is_lit(raw) else s.wrapu(st1, raw, ULONG, 'mul')
                        out.append((st1, by, n, z, raw))
                    return out
        out = []
        for st1, v in s.ev(st, x):
            t = s.conv(st1, v, ULONG).t
            out.append((st1, t, None, None, t))
        return out

    def do_alloc(s, st, fname, args, e, hint):
        skip, kind = ALLOCF[fname]
        cur = [(st, None)]
        if skip: cur = [(st1, None) for st1, _ in s.ev(st, args[0])]
        args = args[skip:]
        out = []
        for st1, _ in cur:
            if kind == 'free':
                for st2, p in s.ev(st1, args[0]):
                    if p.prov: raise CErr('free of array field')
                    al = s.hget(st2, '$alloc')
                    if p.k != 'ptr': raise CErr('free of non-pointer')
                    s.check(st2, or_(ptr_null(p), and_('(= %s 0)' % p.o if p.o != '0' else 'true', '(< 0 %s)' % p.b, live_term(al, p.b))), 'memory', 'free() of a live heap block or NULL', e)
                    s.hset(st2, '$alloc', sto(al, p.b, '(- 1)'), p.b)
                    out.append((st2, V('void')))
            elif kind == 'malloc':
                for st2, by, n, z, raw in s.size_arg(st1, args[0], None):
                    f = st2.copy()
                    f.trace += ('%s fails' % fname,)
                    out.append((f, NULLV()))
                    b = s.newblock(st2, by, 'blk')
                    out.append((st2, P(b, '0', VOID)))
            elif kind == 'calloc':
                for st2, nv in s.ev(st1, args[0]):
                    z = None
                    if isinstance(args[1], c_ast.UnaryOp) and args[1].op == 'sizeof': z = s.sizeof_expr(st2, args[1].expr)
                    n = s.conv(st2, nv, ULONG).t
                    if z is None: 
                        r = s.ev(st2, args[1])
                        if len(r) != 1: raise CErr('calloc size')
                        st2, zv = r[0]
                        zt = s.conv(st2, zv, ULONG).t
                        by = mul(n, zt)
                    else: by = mul(n, str(z))
                    f = st2.copy()
                    f.trace += ('%s fails' % fname,)
                    out.append((f, NULLV()))
                    # calloc() itself fails on overflow of n*size
                    if not is_lit(by): st2.fact('(<= %s %d)' % (by, 2**64 - 1))
                    b = s.newblock(st2, by, 'blk')
                    if hint is None or not isinstance(hint, TPtr) or isinstance(hint.to, TVoid): raise CErr('calloc of unknown type')
                    s.zero_block(st2, hint.to, b)
                    out.append((st2, P(b, '0', VOID)))
            elif kind == 'realloc':
                for st2, p in s.ev(st1, args[0]):
                    for st3, by, n, z, raw in s.size_arg(st2, args[1], None):
                        al = s.hget(st3, '$alloc')
                        s.check(st3, or_(ptr_null(p), and_('(= %s 0)' % p.o if p.o != '0' else 'true', '(< 0 %s)' % p.b, live_term(al, p.b))), 'memory', 'realloc() of a live heap block or NULL', e)
                        f = st3.copy()
                        f.trace += ('%s fails' % fname,)
                        out.append((f, NULLV()))
                        to = p.ty.to
                        if isinstance(to, TVoid): raise CErr('realloc of void*')
                        b = s.newblock(st3, by, 'blk')
                        s.copy_block(st3, to, p.b, b, al)
                        al2 = s.hget(st3, '$alloc')
                        s.hset(st3, '$alloc', sto(al2, p.b, '(- 1)'), p.b)
                        out.append((st3, P(b, '0', VOID)))
        return out

    def zero_block(s, st, ty, b):
        if isinstance(ty, TStruct):
            for l in s.w.leaves(LV('struct', ty, S=ty.tag, path='', b=b, o='0'), s.tu):
                if l.k == 'mem':
                    for m in maps_of(l):
                        F = s.hget(st, m)
                        n = s.fresh(m, s.w.sorts[m])
                        eb = re.match(r'\((emb\.\S+) ', l.b).group(1)
                        st.fact('(forall ((i! Int)) (! (= (select (select %s (%s %s i!)) 0) 0) :pattern ((%s %s i!))))' % (n, eb, b, eb, b))
                        st.fact('(forall ((b! Int)) (! (=> (not (= (base b!) %s)) (= (select %s b!) (select %s b!))) :pattern ((select %s b!))))' % (b, n, F, n))
                        st.heap[m] = n
                        for r in s.recs: r.maps.add((m, None))
                elif l.k == 'farrobj':
                    for m in s.w.farr_maps(l):
                        F = s.hget(st, m)
                        s.hset(st, m, sto(F, b, '((as const %s) ((as const %s) 0))' % (DEPTH2, DEPTH1)), b)
                else:
                    for m in maps_of(l):
                        F = s.hget(st, m)
                        s.hset(st, m, sto(F, b, '((as const %s) 0)' % DEPTH1), b)
        else:
            for m in s.w.leaf_maps(ty, s.tu):
                F = s.hget(st, m)
                s.hset(st, m, sto(F, b, '((as const %s) 0)' % DEPTH1), b)

    def copy_block(s, st, ty, ob, nb, alloc):
        sz = s.w.sizeof(ty, s.tu)
        vt = lambda i: '(and (<= 0 %s) (<= (* %d (+ %s 1)) (select %s %s)))' % (i, sz, i, alloc, ob)
        ls = s.w.leaves(LV('struct', ty, S=ty.tag, path='', b=nb, o='0'), s.tu) if isinstance(ty, TStruct) else [None]
        for l in ls:
            if l is not None and l.k == 'mem':
                for m in maps_of(l):
                    F = s.hget(st, m)
                    n = s.fresh(m, s.w.sorts[m])
                    eb = re.match(r'\((emb\.\S+) ', l.b).group(1)
                    st.fact('(forall ((i! Int)) (! (=> %s (= (select (select %s (%s %s i!)) 0) (select (select %s (%s %s i!)) 0))) :pattern ((%s %s i!))))' % (
                        vt('i!'), n, eb, nb, F, eb, ob, eb, nb))
                    st.fact('(forall ((b! Int)) (! (=> (not (= (base b!) %s)) (= (select %s b!) (select %s b!))) :pattern ((select %s b!))))' % (nb, n, F, n))
                    st.heap[m] = n
                    for r in s.recs: r.maps.add((m, None))
                continue
            ms = s.w.leaf_maps(ty, s.tu) if l is None else (s.w.farr_maps(l) if l.k == 'farrobj' else maps_of(l))
            for m in ms:
                F = s.hget(st, m)
                srt = {DEPTH2: DEPTH1, DEPTH3: DEPTH2}[s.w.sorts[m]]
                inn = s.fresh('in', srt)
                st.fact('(forall ((i! Int)) (! (=> %s (= (select %s i!) (select (select %s %s) i!))) :pattern ((select %s i!)) :pattern ((select (select %s %s) i!))))' % (
                    vt('i!'), inn, F, ob, inn, F, ob))
                s.hset(st, m, sto(F, nb, inn), nb)

    # ------------------------------------------------ libc memory functions
    def b_memcpy(s, st, args, e): return s.memmove(st, args, e, True)
    def b_memmove(s, st, args, e): return s.memmove(st, args, e, False)

    def count_of(s, st, x, el, e):
        """byte-count argument -> number of elements"""
        z = s.w.sizeof(el, s.tu)
        out = []
        for st1, by, n, zz, raw in s.size_arg(st, x, z):
            if zz == z:
                if not is_lit(raw): s.check(st1, '(<= %s %d)' % (raw, 2**64 - 1), 'overflow', 'byte count does not wrap', e)
                out.append((st1, n))
            elif is_lit(by) and litval(by) % z == 0: out.append((st1, str(litval(by) // z)))
            else:
                s.check(st1, '(= (mod %s %d) 0)' % (by, z), 'memory', 'byte count is a whole number of elements', e)
                out.append((st1, '(div %s %d)' % (by, z)))
        return out

    def memmove(s, st, args, e, nooverlap):
        out = []
        for st1, d in s.ev(st, args[0]):
            for st2, r in s.ev(st1, args[1]):
                el = d.ty.to if not isinstance(d.ty.to, TVoid) else r.ty.to
                if isinstance(el, TVoid): raise CErr('memmove of void*')
                if not isinstance(r.ty.to, TVoid) and not isinstance(d.ty.to, TVoid) and not same(r.ty.to, d.ty.to): raise CErr('memmove of different types')
                for st3, n in s.count_of(st2, args[2], el, e):
                    s.do_memmove(st3, d, r, n, el, e, nooverlap)
                    out.append((st3, d))
        return out

    def rangevalid(s, st, p, n, el, e, what):
        z = s.w.sizeof(el, s.tu)
        if p.prov:
            lv = LV('farrobj', TArr(el, None), S=p.prov[0], path=p.prov[1], b=p.b, o=p.o)
            s.validlv(st, lv, e)
            tr = s.trailing(LV('farr', el, S=p.prov[0], path=p.prov[1], b=p.b, o=p.o, idx=p.idx))
            if tr is not None:
                s.check(st, imp(cmp_('<', '0', n), and_(cmp_('=', p.o, '0'), cmp_('<=', '0', p.idx), '(<= (+ %d %s) %s)' % (tr[0], mul(str(tr[1]), add(p.idx, n)), sel(s.hget(st, '$alloc'), p.b)))),
                        'memory', '%s range within the allocation (trailing array)' % what, e)
                return
            L = s.farr_len(lv)
            s.check(st, imp(cmp_('<', '0', n), and_(cmp_('<=', '0', p.idx), cmp_('<=', add(p.idx, n), str(L)))), 'memory', '%s range within the array field' % what, e)
            return
        a = '(bs %s %s)' % (s.hget(st, '$alloc'), p.b) if s.w.is_emb_type(el) else sel(s.hget(st, '$alloc'), p.b)
        s.check(st, imp(cmp_('<', '0', n), and_(cmp_('<=', '0', p.o), '(<= %s %s)' % (mul(str(z), add(p.o, n)), a))), 'memory', '%s range within the allocation' % what, e)

    def do_memmove(s, st, d, r, n, el, e, nooverlap):
        s.rangevalid(st, d, n, el, e, 'destination')
        s.rangevalid(st, r, n, el, e, 'source')
        if nooverlap and not d.prov and not r.prov:
            s.check(st, or_(not_(cmp_('=', d.b, r.b)), '(<= %s %s)' % (add(d.o, n), r.o), '(<= %s %s)' % (add(r.o, n), d.o), '(<= %s 0)' % n), 'memory', 'memcpy() areas do not overlap', e)
        if d.prov or r.prov:
            # scalar elements, at least one side an array field
            def arr(p, m):
                if p.prov:
                    nm = '%s.%s' % p.prov
                    s.w.reg(nm, el, DEPTH3)
                    return nm, sel(sel(s.hget(st, nm), p.b), p.o), p.idx
                return m, sel(s.hget(st, m), p.b), p.o
            m0 = s.w.leaf_maps(el)[0]
            dn, da, di = arr(d, m0)
            rn, ra, ri = arr(r, m0)
            inn = s.fresh('in', DEPTH1)
            shift = sub(ri, di)
            st.fact('(forall ((i! Int)) (! (= (select %s i!) (ite (and (<= %s i!) (< i! %s)) (select %s %s) (select %s i!))) :pattern ((select %s i!))))' % (
                inn, di, add(di, n), ra, add('i!', shift), da, inn))
            F = s.hget(st, dn)
            if d.prov: s.hset(st, dn, sto(F, d.b, sto(sel(F, d.b), d.o, inn)), d.b)
            else: s.hset(st, dn, sto(F, d.b, inn), d.b)
            return
        ls = s.w.leaves(LV('struct', el, S=el.tag, path='', b='0', o='0'), s.tu) if isinstance(el, TStruct) else [None]
        shift = sub(r.o, d.o)
        for l in ls:
            if l is not None and l.k == 'mem': raise CErr('memmove of struct with addressable field')
            ms = s.w.leaf_maps(el, s.tu) if l is None else (s.w.farr_maps(l) if l.k == 'farrobj' else maps_of(l))
            for m in ms:
                F = s.hget(st, m)
                srt = {DEPTH2: DEPTH1, DEPTH3: DEPTH2}[s.w.sorts[m]]
                inn = s.fresh('in', srt)
                st.fact('(forall ((i! Int)) (! (= (select %s i!) (ite (and (<= %s i!) (< i! %s)) (select (select %s %s) %s) (select (select %s %s) i!))) :pattern ((select %s i!))))' % (
                    inn, d.o, add(d.o, n), F, r.b, add('i!', shift), F, d.b, inn))
                # help matching from the source side
                st.fact('(forall ((i! Int)) (! (=> (or (< i! %s) (<= %s i!)) (= (select %s i!) (select (select %s %s) i!))) :pattern ((select (select %s %s) i!))))' % (
                    d.o, add(d.o, n), inn, F, d.b, F, d.b))
                st.fact('(forall ((i! Int)) (! (=> (and (<= %s i!) (< i! %s)) (= (select %s %s) (select (select %s %s) i!))) :pattern ((select (select %s %s) i!))))' % (
                    r.o, add(r.o, n), inn, sub('i!', shift) if is_lit(shift) else '(- i! %s)' % shift, F, r.b, F, r.b))
                s.hset(st, m, sto(F, d.b, inn), d.b)

    def b_memset(s, st, args, e):
        out = []
        for st1, d in s.ev(st, args[0]):
            for st2, c in s.ev(st1, args[1]):
                el = d.ty.to
                if isinstance(el, TVoid): raise CErr('memset of void*')
                for st3, n in s.count_of(st2, args[2], el, e):
                    cv = as_int(c)
                    if is_lit(cv):
                        byte = litval(cv) & 255
                    else: raise CErr('memset with variable byte')
                    s.rangevalid(st3, d, n, el, e, 'memset')
                    if not isinstance(el, TStruct):
                        if not isinstance(el, TInt):
                            if byte: raise CErr('memset pointer nonzero')
                            val = 0
                        else:
                            val = 0
                            for _ in range(el.bits // 8): val = val << 8 | byte
                            val = wrapc(val, el)
                        inn = s.fresh('in', DEPTH1)
                        for m in (['%s.%s' % d.prov] if d.prov else s.w.leaf_maps(el)):
                            if d.prov: s.w.reg(m, el, DEPTH3)
                            F = s.hget(st3, m)
                            a = sel(sel(F, d.b), d.o) if d.prov else sel(F, d.b)
                            i0 = d.idx if d.prov else d.o
                            st3.fact('(forall ((i! Int)) (! (= (select %s i!) (ite (and (<= %s i!) (< i! %s)) %s (select %s i!))) :pattern ((select %s i!))))' % (
                                inn, i0, add(i0, n), lit(val), a, inn))
                            s.hset(st3, m, sto(F, d.b, sto(sel(F, d.b), d.o, inn) if d.prov else inn), d.b)
                    else:
                        if byte: raise CErr('memset struct nonzero')
                        for l in s.w.leaves(LV('struct', el, S=el.tag, path='', b='0', o='0'), s.tu):
                            if l.k == 'mem': raise CErr('memset of struct with addressable field')
                            for m in (s.w.farr_maps(l) if l.k == 'farrobj' else maps_of(l)):
                                F = s.hget(st3, m)
                                srt = {DEPTH2: DEPTH1, DEPTH3: DEPTH2}[s.w.sorts[m]]
                                z = '0' if srt == DEPTH1 else '((as const %s) 0)' % DEPTH1
                                inn = s.fresh('in', srt)
                                st3.fact('(forall ((i! Int)) (! (= (select %s i!) (ite (and (<= %s i!) (< i! %s)) %s (select (select %s %s) i!))) :pattern ((select %s i!))))' % (
                                    inn, d.o, add(d.o, n), z, F, d.b, inn))
                                s.hset(st3, m, sto(F, d.b, inn), d.b)
                    out.append((st3, d))
        return out

    def b_memcmp(s, st, args, e):
        out = []
        for st1, d in s.ev(st, args[0]):
            for st2, r in s.ev(st1, args[1]):
                el = d.ty.to if not isinstance(d.ty.to, TVoid) else r.ty.to
                for st3, n in s.count_of(st2, args[2], el, e):
                    s.rangevalid(st3, d, n, el, e, 'memcmp')
                    s.rangevalid(st3, r, n, el, e, 'memcmp')
                    res = s.rng(st3, V('int', s.fresh('memcmp'), INT))
                    if isinstance(el, TStruct): raise CErr('memcmp struct')

                    def at(p, i):
                        if p.prov:
                            s.w.reg('%s.%s' % p.prov, el, DEPTH3)
                            return sel(sel(sel(s.hget(st3, '%s.%s' % p.prov), p.b), p.o), add(p.idx, i))
                        return sel(sel(s.hget(st3, s.w.leaf_maps(el)[0]), p.b), add(p.o, i))
                    if is_lit(n) and litval(n) <= 8:
                        st3.fact('(= (= %s 0) %s)' % (res.t, and_(*['(= %s %s)' % (at(d, str(i)), at(r, str(i))) for i in range(litval(n))])))
                    else:
                        st3.fact('(= (= %s 0) (forall ((i! Int)) (=> (and (<= 0 i!) (< i! %s)) (= %s %s))))' % (res.t, n, at(d, 'i!'), at(r, 'i!')))
                    out.append((st3, res))
        return out

    def b_qsort(s, st, args, e):
        """qsort of scalars: the comparator is checked to be the numeric order, the result is a
        sorted permutation"""
        out = []
        for st1, d in s.ev(st, args[0]):
            el = d.ty.to
            if not isinstance(el, TInt): raise CErr('qsort of non-scalars')
            z = s.w.sizeof(el, s.tu)
            for st2, n in s.ev(st1, args[1]):
                n = s.conv(st2, n, ULONG).t
                for st3, zz in s.ev(st2, args[2]):
                    s.check(st3, cmp_('=', s.conv(st3, zz, ULONG).t, str(z)), 'memory', 'qsort element size', e)
                    f = s.ev(st3, args[3])
                    m = re.fullmatch(r'fn\.(\w+)', f[0][1].b)
                    if not m or m.group(1) not in s.tu.funcs: raise CErr('qsort comparator')
                    s.rangevalid(st3, d, n, el, e, 'qsort')
                    # the comparator is the order of the values
                    p = st3.copy()
                    b = s.newblock(p, str(2 * z), 'cmpel')
                    P0, P1 = P(b, '0', el), P(b, '1', el)
                    cn = m.group(1)
                    fd, ft = s.tu.funcs[cn], s.tu.ftypes[cn]
                    s.inl_used.add(cn)
                    p.env = {}
                    s.inlined.append(cn)
                    s.enter(p, fd, ft, [s.conv(p, P0, ft.params[0]), s.conv(p, P1, ft.params[1])])
                    # void* parameters keep their element type
                    for nm, pv in zip(ft.names, (P0, P1)): p.env[nm] = ('val', pv, p.env[nm][2])
                    x = sel(sel(s.hget(p, s.w.leaf_maps(el)[0]), b), '0')
                    y = sel(sel(s.hget(p, s.w.leaf_maps(el)[0]), b), '1')
                    p.fact('(<= %s %s %s)' % (lit(el.lo), x, lit(el.hi)))
                    p.fact('(<= %s %s %s)' % (lit(el.lo), y, lit(el.hi)))
                    for o in s.stmt(p, fd.body):
                        if o[0] != 'return': raise CErr('comparator')
                        r = as_int(o[2])
                        s.check(o[1], and_('(= (< %s 0) (< %s %s))' % (r, x, y), '(= (< 0 %s) (< %s %s))' % (r, y, x)), 'precondition', 'qsort comparator %s orders by value' % cn, e)
                    s.inlined.pop()
                    mm = s.w.leaf_maps(el)[0]
                    F = s.hget(st3, mm)
                    inn = s.fresh('in', DEPTH1)
                    pi, qi = s.fresh('perm', DEPTH1), s.fresh('perm', DEPTH1)
                    lo, hi = d.o, add(d.o, n)
                    old = sel(F, d.b)
                    rg = lambda i: '(and (<= %s %s) (< %s %s))' % (lo, i, i, hi)
                    st3.fact('(forall ((i! Int)) (! (=> (not %s) (= (select %s i!) (select %s i!))) :pattern ((select %s i!))))' % (rg('i!'), inn, old, inn))
                    st3.fact('(forall ((i! Int)) (! (=> %s (and %s (= (select %s i!) (select %s (select %s i!))) (= (select %s (select %s i!)) i!))) :pattern ((select %s i!))))' % (
                        rg('i!'), rg('(select %s i!)' % pi), inn, old, pi, qi, pi, inn))
                    st3.fact('(forall ((i! Int)) (! (=> %s (and %s (= (select %s (select %s i!)) (select %s i!)) (= (select %s (select %s i!)) i!))) :pattern ((select %s i!))))' % (
                        rg('i!'), rg('(select %s i!)' % qi), inn, qi, old, pi, qi, old))
                    st3.fact('(forall ((i! Int) (j! Int)) (! (=> (and (<= %s i!) (< i! j!) (< j! %s)) (<= (select %s i!) (select %s j!))) :pattern ((select %s i!) (select %s j!))))' % (
                        lo, hi, inn, inn, inn, inn))
                    s.hset(st3, mm, sto(F, d.b, inn), d.b)
                    out.append((st3, V('void')))
        return out

    def b_isprint(s, st, args, e): return s.ctype_fn(st, args, e, lambda c: '(and (<= 32 %s) (<= %s 126))' % (c, c))
    def b_isdigit(s, st, args, e): return s.ctype_fn(st, args, e, lambda c: '(and (<= 48 %s) (<= %s 57))' % (c, c))
    def b_isupper(s, st, args, e): return s.ctype_fn(st, args, e, lambda c: '(and (<= 65 %s) (<= %s 90))' % (c, c))
    def b_islower(s, st, args, e): return s.ctype_fn(st, args, e, lambda c: '(and (<= 97 %s) (<= %s 122))' % (c, c))
    def b_isalpha(s, st, args, e): return s.ctype_fn(st, args, e, lambda c: '(or (and (<= 65 %s) (<= %s 90)) (and (<= 97 %s) (<= %s 122)))' % (c, c, c, c))
    def b_isalnum(s, st, args, e): return s.ctype_fn(st, args, e, lambda c: '(or (and (<= 48 %s) (<= %s 57)) (and (<= 65 %s) (<= %s 90)) (and (<= 97 %s) (<= %s 122)))' % ((c,) * 6))
    def b_isspace(s, st, args, e): return s.ctype_fn(st, args, e, lambda c: '(or (= %s 32) (and (<= 9 %s) (<= %s 13)))' % (c, c, c))

    def ctype_fn(s, st, args, e, f):
        out = []
        for st1, v in s.ev(st, args[0]):
            c = as_int(s.promote(v))
            s.check(st1, and_(cmp_('<=', '(- 1)', c), cmp_('<=', c, '255')), 'memory', 'ctype argument is EOF or an unsigned char', e)
            out.append((st1, B(f(c))))
        return out

    # ------------------------------------------------ statements
    def stmt(s, st, n):
        """-> list of outcomes ('next',st) ('return',st,v) ('break',st) ('continue',st) ('goto',st,label)"""
        if n is None: return [('next', st)]
        s.lineof(n)
        k = type(n).__name__
        f = getattr(s, 's_' + k, None)
        if f is not None: return f(st, n)
        # expression statement
        if k == 'FuncCall' or k == 'Assignment' or k == 'UnaryOp' or k == 'Cast' or k == 'ID' or k == 'BinaryOp' or k == 'TernaryOp' or k == 'ExprList' or k == 'Constant' or k == 'StructRef':
            outs = [('next', st1) for st1, _ in s.ev(st, n)]
            return outs
        raise CErr('statement %s' % k)

    def s_BackBody(s, st, n): return s.s_Compound(st, n)

    def s_Compound(s, st, n):
        items = n.block_items or []
        before = set(st.env)
        bl0 = st.env.get('#blocks')
        outs = s.seq(st, items, 0, items)
        for o in outs:
            env = o[1].env
            if 'scoped' in (s.c or {}).get('flags', ()) and bl0 is not None:
                # the storage of locals that are not hoisted ends with their block
                for b in env['#blocks']:
                    if b not in bl0: s.hset(o[1], '$alloc', sto(s.hget(o[1], '$alloc'), b, '(- 1)'), b)
                env['#blocks'] = bl0
            for k in list(env):
                if k not in before:
                    del env[k]
        return outs

    def seq(s, st, items, i, allitems):
        cur = [st]
        res = []
        for j in range(i, len(items)):
            nxt = []
            for c in cur:
                for o in s.stmt(c, items[j]):
                    if o[0] == 'next': nxt.append(o[1])
                    else: res.append(o)
            cur = nxt
            if len(cur) > MAXSTATES: raise CErr('too many paths')
        res += [('next', c) for c in cur]
        # forward gotos to labels in this compound
        labels = {}
        for j, it in enumerate(items):
            x = it
            while isinstance(x, c_ast.Label):
                labels[x.name] = j
                x = x.stmt
        # ... and to labels at the top level of the body of a loop in this compound
        inloop = {}
        for j, it in enumerate(items):
            if type(it).__name__ in ('For', 'While') and isinstance(it.stmt, c_ast.Compound):
                for q, x in enumerate(it.stmt.block_items or []):
                    while isinstance(x, c_ast.Label):
                        inloop[x.name] = (j, q)
                        x = x.stmt
        if labels or inloop:
            out = []
            work = []
            for o in res:
                if o[0] == 'goto' and o[2] in inloop and o[2] not in labels: work += s.enter_loop(o[1], items, *inloop[o[2]])
                else: work.append(o)
            for o in work:
                if o[0] == 'goto' and o[2] in labels:
                    j = labels[o[2]]
                    if s.goto_guard.get(o[2], 0) > 40: raise CErr('backward goto %s' % o[2])
                    s.goto_guard[o[2]] = s.goto_guard.get(o[2], 0) + 1
                    out += s.seq(o[1], items, j, items)
                    s.goto_guard[o[2]] -= 1
                else: out.append(o)
            return out
        return res
    goto_guard = {}

    def enter_loop(s, st, items, j, q):
        """goto into the body of the loop items[j] at its statement q: for (;;) { A; q: B } entered at q is for (;;) { B; A }"""
        node = items[j]
        body = node.stmt.block_items
        if node.cond is not None or getattr(node, 'next', None) is not None: raise CErr('goto into a loop with a condition')

        def conts(x):
            if isinstance(x, c_ast.Continue): return True
            if isinstance(x, (c_ast.For, c_ast.While, c_ast.DoWhile)): return False
            return any(conts(y) for _, y in x.children())
        if any(conts(x) for x in body): raise CErr('goto into a loop with continue')
        for x in body[:q]:
            if isinstance(x, c_ast.Decl) and x.init is not None: raise CErr('goto past an initialiser')
        rot = s.__dict__.setdefault('_rot', {})
        if node not in rot:
            c = c_ast.Compound([x for x in body[:q] if isinstance(x, c_ast.Decl)] + body[q:] + [x for x in body[:q] if not isinstance(x, c_ast.Decl)], node.stmt.coord)
            rot[node] = c
        res = []
        for o in s.loop(st, node, None, rot[node], None, False):
            if o[0] == 'next': res += s.seq(o[1], items, j + 1, items)
            else: res.append(o)
        return res

    def s_Label(s, st, n): return s.stmt(st, n.stmt)
    def s_EmptyStatement(s, st, n): return [('next', st)]
    def s_Pragma(s, st, n): return [('next', st)]
    def s_Goto(s, st, n): return [('goto', st, n.name)]
    def s_Break(s, st, n): return [('break', st)]
    def s_Continue(s, st, n): return [('continue', st)]

    def s_Return(s, st, n):
        if n.expr is None: return [('return', st, V('void'))]
        ret = s.cur_ret()
        return [('return', st1, s.conv(st1, v, ret, n)) for st1, v in s.ev(st, n.expr, ret)]

    def cur_ret(s):
        return s.tu.ftypes[s.inlined[-1] if s.inlined else s.fname].ret

    def s_DeclList(s, st, n):
        return s.seq(st, n.decls, 0, n.decls)

    def s_Typedef(s, st, n): return [('next', st)]

    def s_Decl(s, st, n):
        if n.name is None: 
            s.tu.ctype(n.type)
            return [('next', st)]
        ty = s.decl_type(n)
        if isinstance(ty, TFunc): return [('next', st)]
        if 'static' in (n.storage or []):
            raise CErr('static local %s' % n.name)
        taken = st.env.get('#taken', ())
        if n.init is not None and not isinstance(ty, (TStruct, TArr)) and mentions(n.init, n.name):
            # T *x = f(sizeof *x): x is in scope, without a value, in its own initialiser
            st.env[n.name] = ('val', s.anyval(st, ty, n.name), ty)
        if isinstance(ty, (TStruct, TArr)) or id(n) in taken:
            if isinstance(ty, TArr) and ty.n is None: raise CErr('variable length array')
            old = st.env.get(n.name)
            if old is not None and old[0] == 'blk' and s.in_loop_decl(st, n.name): pass
            if n.init is None:
                s.newlocal(st, n.name, ty, None, id(n))
                s.w.leaf_maps(ty.el if isinstance(ty, TArr) else ty, s.tu)
                return [('next', st)]
            if isinstance(n.init, c_ast.InitList):
                s.newlocal(st, n.name, ty, None, id(n))
                b = st.env[n.name][1]
                return [('next', x) for x in s.init_list(st, ty, b, n.init)]
            outs = []
            for st1, v in s.ev(st, n.init, ty):
                v = s.conv(st1, v, ty, n)
                s.newlocal(st1, n.name, ty, v, id(n))
                outs.append(('next', st1))
            return outs
        if n.init is None:
            st.env[n.name] = ('val', s.anyval(st, ty, n.name), ty)
            return [('next', st)]
        outs = []
        init = n.init
        if isinstance(init, c_ast.InitList): init = init.exprs[0]
        for st1, v in s.ev(st, init, ty):
            v = s.conv(st1, v, ty, n)
            st1.env[n.name] = ('val', s.bind(st1, n.name, v), ty)
            outs.append(('next', st1))
        return outs

    def in_loop_decl(s, st, nm): return False

    def init_list(s, st, ty, b, il):
        if isinstance(ty, TArr):
            el = ty.el
            if isinstance(el, TStruct): raise CErr('array of struct initialiser')
            s.zero_block(st, el, b)
            cur = [st]
            for i, x in enumerate(il.exprs):
                if isinstance(x, c_ast.NamedInitializer): raise CErr('designated initialiser')
                nxt = []
                for c in cur:
                    for st1, v in s.ev(c, x):
                        s.write(st1, LV('mem', el, b=b, o=str(i)), s.conv(st1, v, el), x)
                        nxt.append(st1)
                cur = nxt
            return cur
        s.zero_block(st, ty, b)
        cur = [st]
        fs, _ = s.w.fields(ty.tag, s.tu)
        for i, x in enumerate(il.exprs):
            if isinstance(x, c_ast.NamedInitializer):
                f = x.name[0].name
                x = x.expr
            else: f = fs[i].name
            lv = s.w.field_lv(LV('struct', ty, S=ty.tag, path='', b=b, o='0'), f, s.tu)
            if isinstance(x, c_ast.InitList):
                if all(isinstance(y, c_ast.Constant) and y.value == '0' for y in x.exprs): continue
                raise CErr('nested initialiser')
            nxt = []
            for c in cur:
                for st1, v in s.ev(c, x, lv.ty):
                    s.write(st1, lv, s.conv(st1, v, lv.ty), x)
                    nxt.append(st1)
            cur = nxt
        return cur

    def anyval(s, st, ty, nm):
        if isinstance(ty, TInt): return s.rng(st, V('int', s.fresh(nm), ty))
        if isinstance(ty, TPtr): return V('ptr', None, ty, s.fresh(nm + '_b'), '0' if base_ptr(ty) or nm in s.zero_locals else s.fresh(nm + '_o'))
        raise CErr('uninitialised %r' % ty)

    def s_If(s, st, n):
        outs = []
        for st1, c in s.cond(st, n.cond):
            line = s.lineof(n)
            f0, tr0 = st1.facts, st1.trace
            a, b = st1.copy(), st1
            ra, rb = [], []
            okA = c != 'false' and s.assume(a, c, 'L%d:then' % line)
            okB = c != 'true' and s.assume(b, not_(c), 'L%d:else' % line)
            if okA:
                ra = s.stmt(a, n.iftrue)
            if okB:
                rb = s.stmt(b, n.iffalse) if n.iffalse is not None else [('next', b)]
            if okA and okB and len(ra) == 1 and len(rb) == 1 and ra[0][0] == 'next' and rb[0][0] == 'next':
                m = s.join(c, ra[0][1], rb[0][1], f0, tr0)
                if m is not None:
                    outs.append(('next', m))
                    continue
            outs += ra + rb
        return outs

    def join(s, c, a, b, f0, tr0):
        """if-conversion when the heaps agree"""
        for m in set(a.heap) | set(b.heap):
            if a.heap.get(m, m) != b.heap.get(m, m): return None
        if set(a.env) != set(b.env): return None

        def since(f):
            out = []
            while f is not f0:
                out.append(f.t)
                f = f.up
                if len(out) > 80: return None
            return out[::-1]
        fa, fb = since(a.facts), since(b.facts)
        if fa is None or fb is None: return None
        j = a.copy()
        j.facts = f0
        cs = split_and(c)
        for t in fa:
            if t not in cs: j.fact(imp(c, t))
        cs = split_and(not_(c))
        for t in fb:
            if t not in cs: j.fact(imp(not_(c), t))
        j.trace = tr0
        for k in a.env:
            x, y = a.env[k], b.env[k]
            if x == y or k.startswith('#'): 
                if k.startswith('#') and x != y: return None
                continue
            if x[0] != 'val' or y[0] != 'val': return None
            vx, vy = x[1], y[1]
            if vx is vy: continue
            if vx.k in ('int', 'bool') and vy.k in ('int', 'bool'):
                if vx.k == 'bool' and vy.k == 'bool': v = V('bool', ite(c, vx.t, vy.t), x[2])
                else: v = V('int', ite(c, as_int(vx), as_int(vy)), x[2])
            elif vx.k == 'ptr' and vy.k == 'ptr' and not vx.prov and not vy.prov:
                v = V('ptr', None, vx.ty, ite(c, vx.b, vy.b), ite(c, vx.o, vy.o))
            else: return None
            j.env[k] = ('val', s.bind(j, k, v), x[2])
        return j

    def s_Switch(s, st, n):
        outs = []
        body = n.stmt.block_items if isinstance(n.stmt, c_ast.Compound) else [n.stmt]
        flat = []        # (labels or None, stmts)
        for it in body or []:
            x = it
            while isinstance(x, (c_ast.Case, c_ast.Default)):
                flat.append(('case', None if isinstance(x, c_ast.Default) else s.tu.const(x.expr)))
                ss = x.stmts or []
                nested = None
                for y in ss:
                    if isinstance(y, (c_ast.Case, c_ast.Default)):
                        nested = y
                    else: flat.append(('stmt', y))
                x = nested
            else:
                if x is it: flat.append(('stmt', x))
        for st1, v in s.ev(st, n.cond):
            t = as_int(s.promote(v))
            vals = [c for k, c in flat if k == 'case' and c is not None]
            entries = []
            for idx, (k, c) in enumerate(flat):
                if k != 'case': continue
                if c is None:
                    entries.append((idx, and_(*[not_(cmp_('=', t, lit(x))) for x in vals])))
                else: entries.append((idx, cmp_('=', t, lit(c))))
            if not any(k == 'case' and c is None for k, c in flat):
                entries.append((len(flat), and_(*[not_(cmp_('=', t, lit(x))) for x in vals])))
            stmts = [x for k, x in flat if k == 'stmt']
            pos, cnt = {}, 0
            for idx, (k, c) in enumerate(flat):
                pos[idx] = cnt
                if k == 'stmt': cnt += 1
            pos[len(flat)] = cnt
            # consecutive labels share an entry
            groups = {}
            for idx, c in entries: groups.setdefault(pos[idx], []).append(c)
            for p, cs in groups.items():
                stx = st1.copy()
                c = or_(*cs)
                if not s.assume(stx, c, 'L%d:case' % s.line): continue
                before = set(stx.env)
                for o in s.seq(stx, stmts, p, stmts):
                    for kk in list(o[1].env):
                        if kk not in before: del o[1].env[kk]
                    if o[0] == 'break': outs.append(('next', o[1]))
                    else: outs.append(o)
        return outs

    # ------------------------------------------------ loops
    def s_While(s, st, n): return s.loop(st, n, n.cond, n.stmt, None, False)
    def s_DoWhile(s, st, n): return s.loop(st, n, n.cond, n.stmt, None, True)

    def s_For(s, st, n):
        before = set(st.env)
        sts = [st]
        if n.init is not None:
            sts = [o[1] for o in s.stmt(st, n.init)]
        outs = []
        for x in sts: outs += s.loop(x, n, n.cond, n.stmt, n.next, False)
        for o in outs:
            for k in list(o[1].env):
                if k not in before: del o[1].env[k]
        return outs

    def loopid(s, node):
        """loop number within the function under verification (inlined bodies continue the count)"""
        fn = s.inlined[-1] if s.inlined else s.fname
        # loops of an inlined function that has its own loop specs
        owner = None
        for f in reversed(s.inlined):
            con = s.lookup(f, s.tu)
            if con is not None and con['loops']:
                owner = f
                break
        key = (tuple(s.inlined), node)
        if key not in s.loopids:
            base = s.count_before(node)
            s.loopids[key] = base
        return s.loopids[key]

    def loop_table(s, fd, path=()):
        """list of (path, loopnode) in textual order, descending into inlined calls"""
        out = []
        depth = len(path)

        def walk(n):
            if isinstance(n, (c_ast.For, c_ast.While, c_ast.DoWhile)):
                if isinstance(n, c_ast.For):
                    if n.init is not None: walk(n.init)
                out.append((path, n))
                for c in ([n.cond] if n.cond is not None else []) + [n.stmt] + ([n.next] if isinstance(n, c_ast.For) and n.next is not None else []): walk(c)
                return
            if isinstance(n, c_ast.FuncCall) and isinstance(n.name, c_ast.ID):
                for _, c in n.children(): walk(c)
                f = n.name.name
                con = s.lookup(f, s.tu)
                if f in s.tu.funcs and f not in path and f != s.fname and depth < 6 and f not in ALLOCF and (con is None or 'inline' in con['flags']):
                    if con is None or not con['loops']:
                        out.extend(s.loop_table(s.tu.funcs[f], path + (f,)))
                return
            for _, c in n.children(): walk(c)
        walk(fd.body)
        return out

    def loop_spec(s, node):
        """(spec dict, display id)"""
        for f in reversed(s.inlined):
            con = s.lookup(f, s.tu)
            if con is not None and con['loops']:
                tab = [x for x in s.own_loops(f)]
                k = tab.index(node) + 1
                return con['loops'].get(k), '%s#%d' % (f, k)
        if not hasattr(s, '_ltab'):
            s._ltab = s.loop_table(s.tu.funcs[s.fname])
        for k, (p, nd) in enumerate(s._ltab):
            if nd is node and p == tuple(s.inlined):
                return (s.c['loops'].get(k + 1) if s.c else None), 'loop %d' % (k + 1)
        for k, (p, nd) in enumerate(s._ltab):
            if nd is node:
                return (s.c['loops'].get(k + 1) if s.c else None), 'loop %d' % (k + 1)
        return None, 'loop ?'

    def own_loops(s, f):
        out = []

        def walk(n):
            if isinstance(n, c_ast.For):
                if n.init is not None: walk(n.init)
                out.append(n)
                for c in (n.cond, n.stmt, n.next):
                    if c is not None: walk(c)
                return
            if isinstance(n, (c_ast.While, c_ast.DoWhile)): out.append(n)
            for _, c in n.children(): walk(c)
        walk(s.tu.funcs[f].body)
        return out

    def havoc(s, st, mods, mark, label, lspec, entry, dry):
        """havoc locals and maps modified by a loop; mods: Rec"""
        for nm in sorted(mods.locals):
            b = st.env.get(nm)
            if b is None or b[0] != 'val': continue
            st.env[nm] = ('val', s.anyval(st, b[2], nm), b[2])
        bymap = {}
        for m, blk in mods.maps: bymap.setdefault(m, set()).add(blk)
        frames = []
        allocmod = False
        for m in sorted(bymap):
            if m == '$brk': continue
            blks = bymap[m]
            old = s.hget(st, m)
            if None not in blks and all(s.invariant_since(b, mark) for b in blks):
                cur = old
                srt = {DEPTH2: DEPTH1, DEPTH3: DEPTH2, DEPTH1: 'Int'}[s.w.sorts[m]]
                for b in sorted(blks):
                    cur = sto(cur, b, s.fresh('in', srt))
                n = s.fresh(m, s.w.sorts[m])
                st.fact('(= %s %s)' % (n, cur))
                st.heap[m] = n
                for b in sorted(blks):
                    frames.append((m, old, b, None))
            else:
                n = s.fresh(m, s.w.sorts[m])
                st.heap[m] = n
                frames.append((m, old, n, [b for b in mods.pre.get(m, ()) if b is not None and s.invariant_since(b, mark)]))
            if m == '$alloc': allocmod = True
            for r in s.recs: 
                if None not in blks:
                    for b in blks: r.maps.add((m, b))
                else: r.maps.add((m, None))
        for r in s.recs:
            for nm in mods.locals: r.locals.add(nm)
        if '$brk' in bymap:
            old = s.hget(st, '$brk')
            n = s.fresh('$brk')
            st.heap['$brk'] = n
            st.fact('(<= %s %s)' % (old, n))
            for r in s.recs: r.maps.add(('$brk', None))
        return frames

    def loop_frame_goals(s, frames, entryheap, st, lspec, cur):
        """frame invariant formulas for maps havocked as a whole.  cur(m) current term"""
        out = []
        d = {}
        ev0 = s.speval0()
        d = s.assign_items((s.c or {}).get('assigns') or [], ev0)
        for x, c in (s.c or {}).get('frees', []):
            d.setdefault('$alloc', []).append(('setx', x, c))
        dl = {}
        if lspec and lspec['assigns']:
            evl = s.speval(entryheap)
            dl = s.assign_items(lspec['assigns'], evl)
        if lspec and lspec.get('frees'):
            evf = s.speval(entryheap)
            for x, c in lspec['frees']:
                dl.setdefault('$alloc', []).append(('set', lambda b, x=x, c=c: s.setmember(evf, x, c, b)))
        lim = s.snap(entryheap)('$brk')
        for m, old, pre in frames:
            if isinstance(pre, str):
                # block havocked precisely: within it, only the locations the function may assign
                its = dl[m] if m in dl else d.get(m, [])
                if not its or any(i[0] not in ('loc', 'fresh') for i in its): continue
                ls = [and_(i[3], '(= %s %s)' % (i[1], pre), '(= o! %s)' % i[2]) for i in its if i[0] == 'loc']
                if not ls or s.isfresh(m, pre, s.heap0('$brk')) == 'true': continue
                n = cur(m)
                out.append((m, '(forall ((o! Int)) (! (=> %s (= (select (select %s %s) o!) (select (select %s %s) o!))) :pattern ((select (select %s %s) o!))))' % (
                    and_(not_(s.isfresh(m, pre, s.heap0('$brk'))), *[not_(x) for x in ls]), n, pre, old, pre, n, pre)))
                continue
            its = dl[m] if m in dl else d.get(m, [])
            ex = ['(= b! %s)' % b for b in pre]
            for i in its:
                if i[0] == 'fresh': pass
                elif i[0] == 'set': ex.append(i[1]('b!'))
                elif i[0] == 'setx': ex.append(s.setmember(ev0, i[1], i[2], 'b!'))
                elif i[0] == 'blk': ex.append(and_(i[2], '(= b! %s)' % i[1]))
                else: ex.append(and_(i[3], '(= b! %s)' % i[1]))
            ex.append(s.isfresh(m, 'b!', lim))
            n = cur(m)
            out.append((m, '(forall ((b! Int)) (! (=> %s (= (select %s b!) (select %s b!))) :pattern ((select %s b!))))' % (
                and_(*[not_(x) for x in ex]), n, old, n)))
            locs = [i for i in its if i[0] == 'loc']
            for b in dict.fromkeys(i[1] for i in locs):
                g = [not_(s.isfresh(m, b, s.heap0('$brk'))), not_(s.isfresh(m, b, lim))]
                g += [not_(i[1](b)) for i in its if i[0] == 'set']
                g += [not_(s.setmember(ev0, i[1], i[2], b)) for i in its if i[0] == 'setx']
                g += [not_(and_(i[2], '(= %s %s)' % (b, i[1]))) for i in its if i[0] == 'blk']
                g += [not_(and_(i[3], '(= %s %s)' % (b, i[1]), '(= o! %s)' % i[2])) for i in locs]
                out.append((m, '(forall ((o! Int)) (! (=> %s (= (select (select %s %s) o!) (select (select %s %s) o!))) :pattern ((select (select %s %s) o!))))' % (
                    and_(*g), n, b, old, b, n, b)))
        return out

    def loop(s, st, node, cond, body, post, isdo):
        lspec, lid = s.loop_spec(node)
        if not s.dry: s.usedloops.add(lid)
        if lspec and lspec.get('unroll'): return s.unroll(st, node, cond, body, post, isdo, lspec['unroll'], lid)
        mark = s.cnt
        # ---- find what the loop modifies
        mods = Rec()
        for _ in range(5):
            s.dry += 1
            x = st.copy()
            saverecs = s.recs
            s.recs = []
            s.havoc(x, mods, mark, lid, lspec, None, True)
            r = Rec()
            s.recs = [r]
            h0, e0 = dict(x.heap), dict(x.env)
            its = [o[1] for o in s.run_body(x, cond, body, post, isdo) if o[0] == 'iter']
            s.recs = saverecs
            s.dry -= 1
            ns = Rec()
            # only what changes on paths that come back to the loop head matters
            ns.locals = {l for l in r.locals if l in st.env and s.local_changed(l, e0, its)}
            for m, b in r.maps:
                if not s.map_changed(m, h0, its): continue
                if b is not None and not s.invariant_since(b, mark): b = None
                ns.maps.add((m, b))
            grew = not (ns.locals <= mods.locals and ns.maps <= mods.maps)
            if {m for m, b in ns.maps if b is None} | {m for m, b in mods.maps if b is None}:
                pass
            mods.locals |= ns.locals
            mods.maps |= ns.maps
            for m, b in ns.maps: mods.pre.setdefault(m, set()).add(b)
            # normalise
            whole = {m for m, b in mods.maps if b is None}
            mods.maps = {(m, b) for m, b in mods.maps if m not in whole} | {(m, None) for m in whole}
            if not grew: break
        if s.dry:
            # cheap: havoc, run the body once for its escapes
            x = st.copy()
            s.havoc(x, mods, mark, lid, lspec, None, True)
            outs = s.run_body(x, cond, body, post, isdo)
            res = []
            for o in outs:
                if o[0] == 'exit' or o[0] == 'break': res.append(('next', o[1]))
                elif o[0] == 'iter': pass
                elif o[0] == 'out': res.append((o[2], o[1]))
                else: res.append(o)
            return res[:8]
        entry = st.copy()
        lname = lid
        invs = (lspec or {}).get('inv') or []
        env_label = s.specenv(entry)
        # ---- invariants hold on entry
        st.labels = dict(st.labels)
        lkey = 'L' + (lid.split()[-1] if lid.startswith('loop') else lid.split('#')[-1])
        st.labels[lkey] = (s.snap(entry), env_label)
        for l, iv in invs:
            s.check(st, s.invterm(st, iv, lid), 'invariant', '%s: invariant%s holds on entry' % (lid, ' [%s]' % l if l else ''), node)
        # ---- arbitrary iteration
        h = st.copy()
        frames = s.havoc(h, mods, mark, lid, lspec, entry, False)
        if any(m == '$alloc' or m == '$brk' for m, _ in mods.maps): s.wf_alloc(h)
        eh = s.snap(entry)
        fr = [(m, old, n if pre is None else pre) for m, old, n, pre in frames]
        for m, t in s.loop_frame_goals(fr, eh if False else entry, h, lspec, lambda m: s.hget(h, m)):
            h.fact(t)
        for l, iv in invs:
            h.fact(s.invterm(h, iv, lid))
        h.trace = h.trace + ('%s: arbitrary iteration' % lid,)
        hv = h.copy()
        var = (lspec or {}).get('variant')
        v0 = None
        if var is not None:
            v0 = s.speval(h).i(var)
        else: s.noterm.append(lid)
        rr = Rec()
        h0, e0 = dict(h.heap), dict(h.env)
        s.recs.append(rr)
        outs = s.run_body(h, cond, body, post, isdo)
        s.recs.pop()
        # the havoc must cover everything an iteration can change
        its = [o[1] for o in outs if o[0] == 'iter']
        for l in rr.locals:
            if l in entry.env and l not in mods.locals and s.local_changed(l, e0, its): raise CErr('%s: %s modified but not havocked' % (lid, l))
        for m, b in rr.maps:
            if (m, None) in mods.maps or (m, b) in mods.maps: continue
            if s.map_changed(m, h0, its): raise CErr('%s: %s modified but not havocked' % (lid, m))
        res = []
        for o in outs:
            if o[0] == 'iter':
                e = o[1]
                # variables declared inside the body go out of scope
                for k in list(e.env):
                    if k not in entry.env: del e.env[k]
                for l, iv in invs:
                    s.check(e, s.invterm(e, iv, lid), 'invariant', '%s: invariant%s preserved' % (lid, ' [%s]' % l if l else ''), node)
                for m, t in s.loop_frame_goals(fr, entry, e, lspec, lambda m: s.hget(e, m)):
                    s.check(e, t, 'frame', '%s: only the declared locations of %s change' % (lid, m), node)
                if v0 is not None:
                    v1 = s.speval(e).i(var)
                    s.check(e, and_('(<= 0 %s)' % v0, '(< %s %s)' % (v1, v0)), 'termination', '%s: variant decreases' % lid, node)
            elif o[0] in ('exit', 'break'):
                e = o[1]
                for k in list(e.env):
                    if k not in entry.env: del e.env[k]
                e.labels = dict(e.labels)
                e.labels['X' + lkey[1:]] = (s.snap(e), s.specenv(e))      # the state a loop ends in
                for l, a in (lspec or {}).get('after') or []:
                    s.check(e, s.invterm(e, a, lid), 'assert', '%s: after-loop assertion%s' % (lid, ' [%s]' % l if l else ''), node)
                res.append(('next', e))
            elif o[0] == 'out': res.append((o[2], o[1]))
            else: res.append(o)
        return res

    def map_changed(s, m, h0, its):
        o = h0.get(m)
        if o is None: o = s.const(m, s.w.sorts[m])
        return any(i.heap.get(m, o) != o for i in its)

    def local_changed(s, l, e0, its):
        def key(b): return b if b is None or b[0] != 'val' else (b[1].k, b[1].t, getattr(b[1], 'b', None), getattr(b[1], 'o', None))
        o = key(e0.get(l))
        return any(key(i.env.get(l)) != o for i in its)

    def unroll(s, st, node, cond, body, post, isdo, k, lid):
        s.notes.add('unroll:%s:%d' % (lid, k))
        cur, res = [st], []
        for i in range(k + 1):
            nxt = []
            for x in cur:
                for o in s.run_body(x, cond, body, post, isdo):
                    if o[0] == 'iter': nxt.append(o[1])
                    elif o[0] in ('exit', 'break'): res.append(('next', o[1]))
                    else: res.append(o)
            cur = nxt
            if not cur: break
        for x in cur:
            # full unrolling must be exhaustive: one more iteration is impossible
            for st1, c in (s.cond(x, cond) if cond is not None else [(x, 'true')]):
                s.check(st1, not_(c), 'unwind', '%s: terminates within %d iterations' % (lid, k + 1), node)
                res.append(('next', st1))
        return res

    def run_body(s, st, cond, body, post, isdo):
        outs = []
        if isdo:
            starts = [st]
        else:
            starts = []
            if cond is None: starts = [st]
            else:
                for st1, c in s.cond(st, cond):
                    a, b = st1.copy(), st1
                    if c != 'false' and s.assume(a, c): starts.append(a)
                    if c != 'true' and s.assume(b, not_(c)): outs.append(('exit', b))
        back = getattr(body, 'backlabel', None)
        for a in starts:
            for o in s.stmt(a, body):
                if back:
                    # label L: ... goto L ... as a loop: only "goto L" iterates
                    if o[0] == 'goto' and o[2] == back: outs.append(('iter', o[1]))
                    elif o[0] == 'next': outs.append(('exit', o[1]))
                    elif o[0] in ('break', 'continue'): outs.append(('out', o[1], o[0]))
                    else: outs.append(o)
                    continue
                if o[0] in ('next', 'continue'):
                    x = [o[1]]
                    if post is not None:
                        x = [y for y, _ in s.ev(o[1], post)]
                    for y in x:
                        if isdo:
                            for st1, c in s.cond(y, cond):
                                p, q = st1.copy(), st1
                                if c != 'false' and s.assume(p, c): outs.append(('iter', p))
                                if c != 'true' and s.assume(q, not_(c)): outs.append(('exit', q))
                        else: outs.append(('iter', y))
                elif o[0] == 'break': outs.append(('break', o[1]))
                else: outs.append(o)
        return outs

    # ------------------------------------------------ spec environments
    def specenv(s, st):
        env = {}
        for k, b in st.env.items():
            if k.startswith('#'): continue
            if b[0] == 'val': env[k] = b[1]
            else:
                _, blk, ty = b
                if isinstance(ty, TStruct): env[k] = LV('struct', ty, S=ty.tag, path='', b=blk, o='0')
                elif isinstance(ty, TArr): env[k] = P(blk, '0', ty.el)
                else: env[k] = LV('mem', ty, b=blk, o='0')
        for k, v in s.ghostenv.items(): env.setdefault(k, v)
        for k, a in s.rename.items():
            if k not in env and a in env: env[k] = env[a]
        return env

    def speval(s, st):
        env = s.specenv(st)
        return SpecEval(s.w, env, s.heapf(st), old=s.heap0, labels=st.labels, tu=s.tu, oldenv=s.entryenv)

    def speval0(s):
        return SpecEval(s.w, dict(s.entryenv), s.heap0, old=s.heap0, tu=s.tu, oldenv=s.entryenv)

    def invterm(s, st, iv, lid, res=None):
        try:
            if res is not None: return SpecEval(s.w, s.specenv(st), s.heapf(st), old=s.heap0, labels=st.labels, tu=s.tu, oldenv=s.entryenv, result=res).b(iv)
            return s.speval(st).b(iv)
        except SpecErr as x:
            raise CErr('spec: %s (%s of %s)' % (x, lid, s.fname))

    def wf_alloc(s, st):
        al, brk = s.hget(st, '$alloc'), s.hget(st, '$brk')
        st.fact('(< 0 %s)' % brk)
        st.fact('(forall ((b! Int)) (! (=> (or (<= %s b!) (<= b! 0)) (= (select %s b!) (- 1))) :pattern ((select %s b!))))' % (brk, al, al))
        st.fact('(forall ((b! Int)) (! (and (<= (- 1) (select %s b!)) (<= (select %s b!) %d)) :pattern ((select %s b!))))' % (al, al, MAXOBJ, al))

    # ------------------------------------------------ whole function
    def verify(s):
        fd, ft = s.tu.funcs[s.fname], s.tu.ftypes[s.fname]
        s.goto_guard = {}
        st = St()
        s.brk0 = s.hget(st, '$brk')
        s.hget(st, '$alloc')
        s.wf_alloc(st)
        s.entryenv, s.ghostenv = {}, {}
        vs = []
        zero_off = set()
        for _, r in s.c['requires']:
            for x in conjuncts(r):
                if x[0] == 'cmp' and x[1] == '==' and x[2][:2] == ('call', 'off') and x[3] == ('num', 0) and x[2][2][0][0] == 'id':
                    zero_off.add(x[2][2][0][1])
        if s.c['params'] and s.c['params'] != ft.names:
            zero_off = {ft.names[s.c['params'].index(z)] for z in zero_off if z in s.c['params']}
        for nm, ty in zip(ft.names, ft.params):
            if isinstance(ty, TInt):
                v = s.rng(st, V('int', s.const('p.' + nm, 'Int'), ty))
            elif isinstance(ty, TPtr):
                z = base_ptr(ty) or nm in zero_off
                v = V('ptr', None, ty, s.const('p.%s@b' % nm, 'Int'), '0' if z else s.const('p.%s@o' % nm, 'Int'))
            else: raise CErr('struct parameter')
            vs.append(v)
            s.entryenv[nm] = v
        names = s.c['params'] or ft.names
        for cn, rn in zip(names, ft.names):
            s.entryenv.setdefault(cn, s.entryenv[rn])
            if cn != rn: s.rename[cn] = rn
        for ty, g in s.c['ghost']:
            v, ds = spec_var(s.w, ty, 'gh.' + g, s.tu)
            for d, srt in ds: s.const(d, srt)
            s.ghostenv[g] = v
            s.entryenv[g] = v
        ev = s.speval0()
        for l, r in s.c['requires']:
            st.fact(s.specb(ev, r, s.c))
        s.vac.append(('precondition satisfiable', st.facts))
        s.hoist(st, fd, ft)
        s.brkH = s.hget(st, '$brk')
        s.enter(st, fd, ft, vs)
        outs = s.stmt(st, fd.body)
        nret = 0
        for o in outs:
            if o[0] == 'next': e, v = o[1], V('void')
            elif o[0] == 'return': e, v = o[1], o[2]
            else: raise CErr('stray %s' % o[0])
            nret += 1
            s.finish(e, v, fd, ft)
        if not nret and 'noreturn' not in s.c['flags']: raise CErr('no return path')
        return s.obs

    def finish(s, st, v, fd, ft):
        s.leave(st, fd, None)
        con = s.c
        if v.k in ('int', 'bool') and isinstance(ft.ret, TInt):
            v = V('int', as_int(s.conv(st, v, ft.ret)), ft.ret)
        if v.k == 'ptr' and v.prov: raise CErr('returning array-field pointer')
        alloc_l = 'allocates' in con['flags']
        # memory frame
        d = s.assign_items(con['assigns'] or [], s.speval0())
        al = s.hget(st, '$alloc')
        for m in sorted(st.heap):
            if m in ('$brk',): continue
            end, F0 = st.heap[m], s.heap0(m)
            if end == F0: continue
            if m == '$alloc':
                ex = [s.setmember(s.speval0(), x, c, 'b!') for x, c in con['frees']]
                g = '(forall ((b! Int)) (=> %s (= (select %s b!) (select %s b!))))' % (
                    and_('(< b! %s)' % s.brk0, *[not_(x) for x in ex]), end, F0)
                s.check(st, g, 'frame', 'no block of the caller is freed or resized beyond the contract', None, keep=False)
                if not alloc_l:
                    s.check(st, '(forall ((b! Int)) (=> (<= %s b!) (= (select %s b!) (- 1))))' % (s.brk0, end), 'frame', 'no block allocated here stays live (contract says: does not allocate)', None, keep=False)
                continue
            its = d.get(m, [])
            ex, locs = [], []
            for i in its:
                if i[0] == 'fresh': pass
                elif i[0] == 'set': ex.append(i[1]('b!'))
                elif i[0] == 'blk': ex.append(and_(i[2], '(= b! %s)' % i[1]))
                else:
                    ex.append('(= b! %s)' % i[1])
                    locs.append(i)
            if any(i[0] == 'fresh' for i in its) or not alloc_l or 'scoped' in con['flags']: lim = [not_(s.isfresh(m, 'b!', s.brk0))]
            else: lim = [or_(not_(s.isfresh(m, 'b!', s.brk0)), '(<= 0 (select %s b!))' % al)]
            g = '(forall ((b! Int)) (=> %s (= (select %s b!) (select %s b!))))' % (and_(*(lim + [not_(x) for x in ex])), end, F0)
            s.check(st, g, 'frame', 'nothing else of %s changes' % m.split('@')[0], None, keep=False)
            for i in locs:
                c = and_(*[not_(and_(j[3], '(= %s %s)' % (j[1], i[1]), '(= o! %s)' % j[2])) for j in locs],
                         *[not_(and_(j[2], '(= %s %s)' % (j[1], i[1]))) for j in its if j[0] == 'blk'],
                         *[not_(j[1](i[1])) for j in its if j[0] == 'set'])
                s.check(st, '(forall ((o! Int)) (=> %s (= (select (select %s %s) o!) (select (select %s %s) o!))))' % (c, end, i[1], F0, i[1]),
                        'frame', 'nothing else of %s changes' % m.split('@')[0], None, keep=False)
        if alloc_l:
            pass
        env = dict(s.entryenv)
        ev = SpecEval(s.w, env, s.heapf(st), old=s.heap0, labels=st.labels, tu=s.tu, oldenv=s.entryenv, result=v if v.k != 'void' else None)
        for where, kind, l, x in con.get('at') or []:
            if kind == 'assert' and where[0] == 'exit':
                env2 = s.specenv(st)
                env2.update({k: w for k, w in s.entryenv.items() if k not in env2})
                try: t = ev.with_(env=env2).b(x)
                except SpecErr as xx:
                    if 'unknown label' in str(xx): continue     # this path does not pass the labelled call
                    raise CErr('spec: %s (exit assertion of %s)' % (xx, s.fname))
                s.check(st, t, 'assertion', 'assertion%s before return' % (' [%s]' % l if l else ''), None)
        s.retcount = getattr(s, 'retcount', 0) + 1
        for l, r in con['ensures']:
            # each postcondition is proved on its own from the path facts
            p = st.copy()
            s.check(p, s.specb(ev, r, con), 'postcondition', 'postcondition%s' % (' [%s]' % l if l else ''), None, keep=False)
        s.vac.append(('return path %d reachable' % s.retcount, st.facts))


def conjuncts(e):
    return conjuncts(e[1]) + conjuncts(e[2]) if e[0] == 'and' else [e]


def self_set(x): return x == ('id', '_')


def mentions(n, name):
    if isinstance(n, c_ast.ID): return n.name == name
    return any(mentions(c, name) for _, c in n.children())
