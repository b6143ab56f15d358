"""C front end: preprocess + parse the real sources of /repo, build type/symbol tables.

Nothing here is hand-copied from the repository: every run preprocesses the current
working tree with gcc -E (with our own libc *declarations* in cv/fakelibc, so that
assert() survives as a call) and parses it with pycparser.
"""
import os, subprocess, hashlib, pickle
from pycparser import c_parser, c_ast

REPO = os.environ.get('CV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


class CErr(Exception):
    """construct outside the supported subset / extraction failure"""


# ---------------------------------------------------------------- types
class CType:
    pass


class TInt(CType):
    def __init__(s, name, bits, signed):
        s.name, s.bits, s.signed = name, bits, signed
        if name == '_Bool':
            s.lo, s.hi = 0, 1
        elif signed:
            s.lo, s.hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            s.lo, s.hi = 0, (1 << bits) - 1

    def __repr__(s): return s.name
    def key(s): return s.name


class TVoid(CType):
    def __repr__(s): return 'void'
    def key(s): return 'void'


class TPtr(CType):
    def __init__(s, to): s.to = to
    def __repr__(s): return '%r*' % s.to
    def key(s): return 'p_' + s.to.key()


class TArr(CType):
    def __init__(s, el, n): s.el, s.n = el, n
    def __repr__(s): return '%r[%s]' % (s.el, s.n)
    def key(s): return 'a%s_%s' % (s.n, s.el.key())


class TStruct(CType):
    def __init__(s, tag, union=False): s.tag, s.union = tag, union
    def __repr__(s): return 'struct ' + s.tag
    def key(s): return s.tag


class TFunc(CType):
    def __init__(s, ret, params, variadic=False, names=None):
        s.ret, s.params, s.variadic, s.names = ret, params, variadic, names
    def __repr__(s): return 'fn(%s)->%r' % (s.params, s.ret)
    def key(s): return 'fn'


BOOL = TInt('_Bool', 8, False)
CHAR = TInt('char', 8, True)
SCHAR = TInt('schar', 8, True)
UCHAR = TInt('u8', 8, False)
SHORT = TInt('i16', 16, True)
USHORT = TInt('u16', 16, False)
INT = TInt('i32', 32, True)
UINT = TInt('u32', 32, False)
LONG = TInt('i64', 64, True)
ULONG = TInt('u64', 64, False)
VOID = TVoid()
DOUBLE = TInt('double', 64, True)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, TPtr):
        return same(a.to, b.to)
    if isinstance(a, TArr):
        return same(a.el, b.el)
    if isinstance(a, TFunc):
        return True
    return a.key() == b.key()


class Field:
    def __init__(s, name, ty, bits=None): s.name, s.ty, s.bits = name, ty, bits


def gotos(n, out=None):
    if out is None: out = set()
    if isinstance(n, c_ast.Goto): out.add(n.name)
    if n is not None:
        for _, c in n.children(): gotos(c, out)
    return out


def backloops(n):
    """rewrite "L: ...; goto L ...;" as an endless loop whose body leaves by falling through"""
    if n is None: return
    if isinstance(n, c_ast.Compound) and n.block_items:
        j = 0
        while j < len(n.block_items):
            x = n.block_items[j]
            if isinstance(x, c_ast.Label):
                last = [k for k in range(j, len(n.block_items)) if x.name in gotos(n.block_items[k])]
                if last:
                    part = n.block_items[j:last[-1] + 1]
                    if any(isinstance(y, c_ast.Decl) for y in part): raise CErr('declaration inside a goto loop')
                    part[0] = x.stmt
                    if isinstance(x.stmt, c_ast.Label): raise CErr('stacked labels at a goto loop')
                    body = BackBody(part, x.coord)
                    body.backlabel = x.name
                    n.block_items = n.block_items[:j] + [c_ast.For(None, None, None, body, x.coord)] + n.block_items[last[-1] + 1:]
            j += 1
    for _, c in n.children(): backloops(c)


def unshadow(fd):
    """a local that hides another local or parameter becomes name__2, name__3, ..."""
    ps = fd.decl.type.args
    top = {p.name: p.name for p in (ps.params if ps else []) if isinstance(p, c_ast.Decl) and p.name}
    used = set(top)

    def bind(d, sc):
        n = d.name
        if n is None or isinstance(d.type, c_ast.FuncDecl): return
        new, k = n, 1
        if n in sc:
            while new in used:
                k += 1
                new = '%s__%d' % (n, k)
        used.add(new)
        sc[n] = new
        if new != n:
            d.name = new
            t = d.type
            while t is not None and not isinstance(t, c_ast.TypeDecl): t = getattr(t, 'type', None)
            if t is not None: t.declname = new

    def go(n, sc):
        if n is None: return
        if isinstance(n, c_ast.ID):
            n.name = sc.get(n.name, n.name)
        elif isinstance(n, c_ast.Compound):
            sc = dict(sc)
            for x in n.block_items or []: go(x, sc)
        elif isinstance(n, c_ast.For):
            sc = dict(sc)
            for x in (n.init, n.cond, n.next): go(x, sc)
            go(n.stmt, dict(sc))
        elif isinstance(n, c_ast.DeclList):
            for d in n.decls: go(d, sc)
        elif isinstance(n, c_ast.Decl):
            go(n.type, sc)
            bind(n, sc)
            go(n.init, sc)
        elif isinstance(n, c_ast.StructRef):
            go(n.name, sc)
        elif isinstance(n, c_ast.NamedInitializer):
            for x in n.name:
                if not isinstance(x, c_ast.ID): go(x, sc)
            go(n.expr, sc)
        elif isinstance(n, (c_ast.Struct, c_ast.Union, c_ast.Enum)): pass
        else:
            for _, c in n.children(): go(c, sc)
    go(fd.body, dict(top))


class BackBody(c_ast.Compound):
    __slots__ = ('backlabel',)


class TU:
    """one parsed translation unit"""

    def __init__(s, path, defines=()):
        s.path = path
        s.rel = os.path.relpath(path, REPO)
        s.defines = defines
        s.structs = {}      # tag -> [Field] or None
        s.unions = set()
        s.typedefs = {}
        s.enums = {}
        s.funcs = {}        # name -> FuncDef
        s.ftypes = {}       # name -> TFunc
        s.globals = {}      # name -> (ctype, init)
        s.anon = 0
        s.anontags = {}
        s.text = preprocess(path, defines)
        ast = c_parser.CParser().parse(s.text, path)
        s.ast = ast
        for ext in ast.ext:
            s.toplevel(ext)

    def toplevel(s, n):
        if isinstance(n, c_ast.Typedef):
            s.typedefs[n.name] = s.ctype(n.type, anon_hint=n.name)
        elif isinstance(n, c_ast.Decl):
            t = s.ctype(n.type)
            if isinstance(t, TFunc):
                s.ftypes.setdefault(n.name, t)
            elif n.name:
                if n.name not in s.globals or n.init is not None:
                    s.globals[n.name] = (t, n.init)
        elif isinstance(n, c_ast.FuncDef):
            t = s.ctype(n.decl.type)
            s.ftypes[n.decl.name] = t
            s.funcs[n.decl.name] = n
            unshadow(n)
            backloops(n.body)
        elif isinstance(n, c_ast.Pragma):
            pass
        else:
            raise CErr('toplevel %s' % type(n).__name__)

    # -------- types
    def ctype(s, n, anon_hint=None):
        if isinstance(n, c_ast.TypeDecl):
            return s.ctype(n.type, anon_hint)
        if isinstance(n, c_ast.Typename):
            return s.ctype(n.type)
        if isinstance(n, c_ast.PtrDecl):
            return TPtr(s.ctype(n.type, anon_hint))
        if isinstance(n, c_ast.ArrayDecl):
            dim = None
            if n.dim is not None:
                try:
                    dim = s.const(n.dim)
                except CErr:
                    dim = None
            return TArr(s.ctype(n.type), dim)
        if isinstance(n, c_ast.FuncDecl):
            ps, names, var = [], [], False
            if n.args:
                for p in n.args.params:
                    if isinstance(p, c_ast.EllipsisParam):
                        var = True
                        continue
                    t = s.ctype(p.type)
                    if isinstance(t, TVoid):
                        continue
                    if isinstance(t, TArr):
                        t = TPtr(t.el)
                    if isinstance(t, TFunc):
                        t = TPtr(t)
                    ps.append(t)
                    names.append(getattr(p, 'name', None))
            return TFunc(s.ctype(n.type), ps, var, names)
        if isinstance(n, c_ast.IdentifierType):
            return s.ident_type(n.names)
        if isinstance(n, (c_ast.Struct, c_ast.Union)):
            tag = n.name
            if tag is None:
                tag = s.anontags.get(id(n))
                if tag is None:
                    s.anon += 1
                    tag = anon_hint or ('anon%d' % s.anon)
                    if tag in s.structs:
                        tag = 'anon%d' % s.anon
                    s.anontags[id(n)] = tag
            if isinstance(n, c_ast.Union):
                s.unions.add(tag)
            if n.decls is not None and s.structs.get(tag) is None:
                s.structs[tag] = None
                fs = []
                for d in n.decls:
                    if isinstance(d, c_ast.Pragma):
                        continue
                    ft = s.ctype(d.type, anon_hint='%s__%s' % (tag, d.name))
                    bits = s.const(d.bitsize) if d.bitsize is not None else None
                    fs.append(Field(d.name, ft, bits))
                s.structs[tag] = fs
            else:
                s.structs.setdefault(tag, None)
            return TStruct(tag, tag in s.unions)
        if isinstance(n, c_ast.Enum):
            if n.values:
                v = -1
                for e in n.values.enumerators:
                    v = s.const(e.value) if e.value is not None else v + 1
                    s.enums[e.name] = v
            return UINT if not any(
                s.enums.get(e.name, 0) < 0 for e in (n.values.enumerators if n.values else [])) else INT
        raise CErr('type %s' % type(n).__name__)

    def ident_type(s, names):
        if len(names) == 1 and names[0] in s.typedefs:
            return s.typedefs[names[0]]
        k = sorted(names)
        ns = set(names)
        if 'void' in ns: return VOID
        if '_Bool' in ns: return BOOL
        if 'char' in ns:
            return UCHAR if 'unsigned' in ns else (SCHAR if 'signed' in ns else CHAR)
        if 'short' in ns: return USHORT if 'unsigned' in ns else SHORT
        if 'long' in ns:
            if 'double' in ns: return DOUBLE
            return ULONG if 'unsigned' in ns else LONG
        if 'double' in ns or 'float' in ns: return DOUBLE
        if 'int' in ns or 'unsigned' in ns or 'signed' in ns:
            return UINT if 'unsigned' in ns else INT
        raise CErr('type name %r' % (names,))

    # -------- layout
    def sizeof(s, t):
        return s.layout(t)[0]

    def layout(s, t):
        if isinstance(t, TInt): return (t.bits // 8, t.bits // 8)
        if isinstance(t, TPtr): return (8, 8)
        if isinstance(t, TFunc): return (1, 1)
        if isinstance(t, TVoid): return (1, 1)
        if isinstance(t, TArr):
            z, a = s.layout(t.el)
            if t.n is None: return (0, a)     # flexible array member
            return (z * t.n, a)
        if isinstance(t, TStruct):
            fs = s.structs.get(t.tag)
            if fs is None: raise CErr('sizeof incomplete struct %s' % t.tag)
            if t.tag in s.unions:
                sz = al = 1
                for f in fs:
                    z, a = s.layout(f.ty)
                    sz, al = max(sz, z), max(al, a)
                return ((sz + al - 1) // al * al, al)
            off = 0   # bits
            al = 1
            for f in fs:
                z, a = s.layout(f.ty)
                if f.bits is not None:
                    w = z * 8
                    al = max(al, a)
                    if f.bits == 0:
                        off = (off + w - 1) // w * w
                        continue
                    if off // w != (off + f.bits - 1) // w:
                        off = (off + w - 1) // w * w
                    off += f.bits
                else:
                    al = max(al, a)
                    off = (off + 7) // 8
                    off = (off + a - 1) // a * a
                    off = (off + z) * 8
            off = (off + 7) // 8
            return ((off + al - 1) // al * al, al)
        raise CErr('sizeof %r' % t)

    # -------- constant expressions
    def const(s, e):
        if isinstance(e, c_ast.Constant):
            if e.type == 'char':
                return charconst(e.value)
            if e.type == 'string':
                raise CErr('string const')
            return intconst(e.value)[0]
        if isinstance(e, c_ast.ID):
            if e.name in s.enums: return s.enums[e.name]
            raise CErr('not const: %s' % e.name)
        if isinstance(e, c_ast.UnaryOp):
            if e.op == 'sizeof':
                if isinstance(e.expr, c_ast.Typename):
                    return s.sizeof(s.ctype(e.expr))
                raise CErr('sizeof expr const')
            v = s.const(e.expr)
            return {'-': -v, '+': v, '~': ~v, '!': int(not v)}[e.op]
        if isinstance(e, c_ast.BinaryOp):
            a, b = s.const(e.left), s.const(e.right)
            op = e.op
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/': return int(a / b) if b else 0
            if op == '%': return a % b
            if op == '<<': return a << b
            if op == '>>': return a >> b
            if op == '&': return a & b
            if op == '|': return a | b
            if op == '^': return a ^ b
            return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b,
                        '&&': bool(a and b), '||': bool(a or b)}[op])
        if isinstance(e, c_ast.Cast):
            v = s.const(e.expr)
            t = s.ctype(e.to_type)
            if isinstance(t, TInt):
                return wrapc(v, t)
            raise CErr('const cast')
        if isinstance(e, c_ast.TernaryOp):
            return s.const(e.iftrue) if s.const(e.cond) else s.const(e.iffalse)
        raise CErr('const expr %s' % type(e).__name__)


def wrapc(v, t):
    if t.lo <= v <= t.hi: return v
    if t.name == '_Bool': return int(v != 0)
    v %= (1 << t.bits)
    if t.signed and v > t.hi: v -= 1 << t.bits
    return v


ESC = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, "'": 39, '"': 34, 'a': 7, 'b': 8, 'f': 12, 'v': 11, 'e': 27, '?': 63}


def cstr(v):
    """bytes of a C string literal token (with quotes)"""
    assert v[0] == '"'
    out, i, v = [], 0, v[1:-1]
    while i < len(v):
        c = v[i]
        if c == '\\':
            i += 1
            c = v[i]
            if c == 'x':
                j = i + 1
                while j < len(v) and v[j] in '0123456789abcdefABCDEF': j += 1
                out.append(int(v[i + 1:j], 16) & 255)
                i = j
                continue
            if c in '01234567':
                j = i
                while j < len(v) and j < i + 3 and v[j] in '01234567': j += 1
                out.append(int(v[i:j], 8) & 255)
                i = j
                continue
            out.append(ESC[c])
        else:
            out.extend(c.encode())
        i += 1
    return out


def charconst(v):
    b = cstr('"' + v[1:-1].replace('"', '\\"') + '"') if not v.startswith("'\\\"") else [34]
    x = b[0]
    return x if x < 128 else x - 256


def intconst(v):
    u = v.lower()
    suf = ''
    while u and u[-1] in 'ul' and not (u.startswith('0x') and False):
        suf += u[-1]
        u = u[:-1]
    if '.' in u or ('e' in u and not u.startswith('0x')):
        raise CErr('float constant')
    base = 16 if u.startswith('0x') else (8 if len(u) > 1 and u[0] == '0' else 10)
    n = int(u, base)
    uns, lng = 'u' in suf, 'l' in suf
    cands = []
    if not lng:
        cands += [UINT] if uns else ([INT] if base == 10 else [INT, UINT])
    cands += [ULONG] if uns else ([LONG] if base == 10 else [LONG, ULONG])
    for t in cands:
        if t.lo <= n <= t.hi: return n, t
    return n, ULONG


def preprocess(path, defines=()):
    cmd = ['gcc', '-E', '-P' if False else '-E', '-std=c99', '-nostdinc', '-D__attribute__(x)=', '-D__inline__=inline',
           '-D__builtin_va_list=int', '-I' + os.path.join(HERE, 'fakelibc'), '-I' + REPO + '/include', '-I' + REPO + '/src',
           '-I' + REPO + '/src/libfsm', '-I' + os.path.dirname(path)] + ['-D' + d for d in defines] + [path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise CErr('preprocess %s: %s' % (path, p.stderr[:300]))
    return p.stdout


_cache = {}


def load(rel, defines=()):
    k = (rel, tuple(defines))
    if k not in _cache:
        path = os.path.join(REPO, rel)
        if not os.path.exists(path):
            raise CErr('no such file %s' % rel)
        try:
            _cache[k] = TU(path, defines)
        except CErr:
            raise
        except Exception as e:
            raise CErr('parse %s: %s' % (rel, str(e)[:200]))
    return _cache[k]
