"""Contracts of the C tool chain, the dynamic linker and the file system.

Trusted (what sympy's C code generator, the compiler, the dynamic linker and the file
functions do); everything between them - the text of the C sources, which file is
compiled, copied, loaded and called, with which argument - is executed by the verifier
from shgpy's source.

- CCodeGen().routine(name, expr) describes the C function of that name returning the
  value of expr; .write(routines, prefix) yields the text of prefix.c and prefix.h with
  these functions.  In that text complex conjugation is called 'conjugate' (C: conj, from
  <complex.h>) and a function of an integer constant is declared int.
- '<compiler> -c SRC -o OBJ' compiles the C text of SRC; '<compiler> -shared OBJ -o LIB'
  makes a library of it.
- a library loaded from a path already loaded in this process is the one loaded before.
- calling a function with restype c_double and a pointer to the contiguous float array x
  returns the real part of its expression at xs = x (C converts complex to double so).
"""
import ast
import re
from . import terms as TM
from .terms import T, ZERO, ONE
from .core import Unsupported, PyRaise, mkbool
from .values import *
from .values import mut, Obj
from . import stubs
from .interp import BreakEx, ContinueEx
from .loops import hashable, unhash
from .stubs import Text, mktext, Meth, ext, TAB, is_text, PyType, num, to_str


def ghost(I):
    g = I.__dict__.get('ghost')
    if g is None:
        raise Unsupported('files, compiler and libraries are outside this contract')
    return g


class Ghost(Obj):
    """the file system and the loaded libraries"""

    def __init__(self):
        super().__init__()
        self.files, self.loaded, self.dirs = {}, {}, ()
        self.count = 0
        self.at = None          # (I, expression, argument array) -> value
        self.ops = ()

    def get_state(self):
        return (dict(self.files), dict(self.loaded), self.dirs, self.ops)

    def set_state(self, s):
        self.files, self.loaded, self.dirs, self.ops = dict(s[0]), dict(s[1]), s[2], s[3]

    def tmp(self):
        mut(self)
        self.count += 1
        p = PathV((Text([('tmp', self.count)]),))
        self.dirs = self.dirs+(p.key,)
        return p

    def under_tmp(self, key):
        return any(key[:len(d)] == d for d in self.dirs if isinstance(d[0], Text) and d[0].parts[0][0] == 'tmp')

    def write(self, key, content):
        mut(self)
        self.files = dict(self.files)
        self.files[key] = content
        self.ops = self.ops+(('write', key),)


# -- paths -----------------------------------------------------------------------------
class PathV:
    def __init__(self, comps):
        self.key = tuple(comps)

    def vsub(self, sub):
        return PathV([vsub(c, sub) for c in self.key])

    def vdepends(self, atoms):
        return any(vdepends(c, atoms) for c in self.key)

    def __eq__(self, o):
        return isinstance(o, PathV) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def vequal(self, I, a, b):
        if isinstance(a, PathV) and isinstance(b, PathV):
            return True if a.key == b.key else mkbool(('p', 'streq', repr(a), repr(b)))
        return False

    def vstr(self):
        return Text([self])

    def vbinop(self, I, op, a, b):
        if op != 'Div':
            raise PyRaise(TypeError('operation on a path'))
        return PathV(canon(I, a)+canon(I, b))

    def vattr(self, I, n):
        if n == 'exists':
            return Meth(n, lambda I, a, k: exists(I, self.key))
        if n == 'is_file':
            return Meth(n, lambda I, a, k: exists(I, self.key))
        if n == 'unlink':
            return Meth(n, lambda I, a, k: unlink(I, self.key))
        if n in ('absolute', 'resolve', 'expanduser'):
            return Meth(n, lambda I, a, k: self)
        if n == 'mkdir':
            def mk(I, a, k):
                g = ghost(I)
                mut(g)
                g.dirs = g.dirs+(self.key,)
            return Meth(n, mk)
        if n == 'parent':
            if len(self.key) < 2:
                raise Unsupported('parent of a path')
            return PathV(self.key[:-1])
        if n == 'name':
            return mktext([self.key[-1]])
        if n in ('write_text', 'write_bytes'):
            return Meth(n, lambda I, a, k: ghost(I).write(self.key, mktext([a[0]])))
        raise Unsupported('path attribute %s' % n)

    def __repr__(self):
        return 'Path(%s)' % '/'.join(map(str, self.key))


def canon(I, p):
    """components of a path given as text or path"""
    if isinstance(p, PathV):
        return p.key
    if isinstance(p, str):
        return tuple(c for c in p.split('/') if c) if not p.startswith('/') else ('/',)+tuple(c for c in p.split('/') if c)
    if isinstance(p, Text):
        parts = p.parts
        if len(parts) == 1 and isinstance(parts[0], PathV):
            return parts[0].key
        # text of a path followed by further components
        comps = [[]]
        for z in parts:
            if isinstance(z, str):
                q = z.split('/')
                comps[-1].append(q[0])
                for w in q[1:]:
                    comps.append([w])
            else:
                comps[-1].append(z)
        out = []
        for c in comps:
            c = [w for w in c if w != '']
            if len(c) == 1 and isinstance(c[0], PathV):
                out.extend(c[0].key)
            elif c and isinstance(c[0], PathV):
                out.extend(c[0].key[:-1])
                out.append(mktext([c[0].key[-1]]+c[1:]))
            elif c:
                out.append(mktext(c))
        return tuple(out)
    if is_text(p):
        return (p,)
    raise PyRaise(TypeError('expected str, bytes or os.PathLike object'))


def make_path(I, a, k):
    c = ()
    for z in a:
        c = c+canon(I, z)
    return PathV(c)


class PathType(PyType):
    def vattr(self, I, n):
        if n in ('exists', 'mkdir', 'unlink', 'absolute', 'resolve', 'is_file'):
            return Meth('Path.'+n, lambda I, a, k: I.call(I.getattr(a[0], n), list(a[1:]), k))
        return super().vattr(I, n)


TAB['pathlib.Path'] = PathType('pathlib.Path', make_path)


def exists(I, key):
    g = ghost(I)
    if key in g.files:
        return g.files[key] is not None
    if key in g.dirs:
        return True
    if g.under_tmp(key):
        return False
    h = getattr(g, 'exists', None)
    if h:
        r = h(I, key)
        if r is not None:
            return r
    return mkbool(('p', 'file', repr(key)))


def unlink(I, key):
    g = ghost(I)
    if key not in g.files and g.under_tmp(key):
        raise PyRaise(FileNotFoundError(repr(key)))
    g.write(key, None)


@ext('os.path.exists', 'os.path.isfile')
def os_exists(I, a, k):
    return exists(I, canon(I, a[0]))


@ext('os.path.join')
def os_join(I, a, k):
    return PathV(sum((canon(I, z) for z in a), ())).vstr()


@ext('os.path.basename')
def os_base(I, a, k):
    return mktext([canon(I, a[0])[-1]])


@ext('os.remove', 'os.unlink')
def os_remove(I, a, k):
    unlink(I, canon(I, a[0]))


@ext('tempfile.mkdtemp')
def mkdtemp(I, a, k):
    return ghost(I).tmp().vstr()


@ext('shutil.rmtree')
def rmtree(I, a, k):
    g = ghost(I)
    key = canon(I, a[0])
    mut(g)
    g.files = {f: (None if f[:len(key)] == key else c) for f, c in g.files.items()}
    g.ops = g.ops+(('rmtree', key),)


def content(I, key):
    g = ghost(I)
    c = g.files.get(key)
    if key not in g.files and not g.under_tmp(key):
        c = ('given', key)      # whatever the caller's file holds
    if c is None:
        raise PyRaise(FileNotFoundError(repr(key)))
    return c


@ext('shutil.copy', 'shutil.copyfile', 'shutil.copy2')
def copy(I, a, k):
    g = ghost(I)
    s, d = canon(I, a[0]), canon(I, a[1])
    c = content(I, s)
    if d in g.dirs:
        d = d+(s[-1],)
    g.write(d, c)
    return PathV(d) if isinstance(a[1], PathV) else PathV(d).vstr()


class FileV(Obj):
    def __init__(self, I, key, mode):
        super().__init__()
        self.I, self.key, self.mode = I, key, mode
        self.text = ''
        self.open = True
        if mode in ('r', 'rt', 'rb'):
            self.text = content(I, key)
        elif mode in ('w', 'wt', 'wb'):
            ghost(I).write(key, '')
        else:
            raise Unsupported('open mode %s' % mode)

    def get_state(self):
        return (self.text, self.open)

    def set_state(self, s):
        self.text, self.open = s

    def venter(self, I):
        return self

    def vleave(self, I):
        mut(self)
        self.open = False

    def vattr(self, I, n):
        if n == 'write' and self.mode.startswith('w'):
            def w(I, a, k):
                if not self.open:
                    raise PyRaise(ValueError('I/O operation on closed file'))
                if self.mode == 'wb' or not isinstance(a[0], str) and not is_text(a[0]):
                    raise PyRaise(TypeError('write() argument'))
                mut(self)
                self.text = mktext([self.text, a[0]])
                ghost(I).write(self.key, self.text)
            return Meth(n, w)
        if n == 'close':
            return Meth(n, lambda I, a, k: self.vleave(I))
        if n == 'name':
            return PathV(self.key).vstr()
        raise Unsupported('file.%s' % n)


@ext('builtins.open')
def b_open(I, a, k):
    mode = k.get('mode', a[1] if len(a) > 1 else 'r')
    return FileV(I, canon(I, a[0]), mode)


# -- code generation --------------------------------------------------------------------
class Routine:
    def __init__(self, name, expr, args):
        self.name, self.expr, self.args = name, expr, args

    def vsub(self, sub):
        return Routine(vsub(self.name, sub), vsub(self.expr, sub), self.args)

    def vdepends(self, atoms):
        return vdepends(self.name, atoms) or vdepends(self.expr, atoms)

    def __repr__(self):
        return 'routine %r' % (self.name,)


class Code:
    """the text written by the code generator, after textual replacements"""

    def __init__(self, routines, prefix, kind, repl=()):
        self.routines, self.prefix, self.kind, self.repl = routines, prefix, kind, tuple(repl)

    def replace(self, a, b):
        return Code(self.routines, self.prefix, self.kind, self.repl+((a, b),))

    def apply(self, s):
        for a, b in self.repl:
            s = s.replace(a, b)
        return s

    def __repr__(self):
        return '<C code>'


class Gen:
    def vattr(self, I, n):
        if n == 'routine':
            def routine(I, a, k):
                k = dict(k)
                args = k.pop('argument_sequence', a[2] if len(a) > 2 else None)
                if k or len(a) > 3:
                    raise Unsupported('options of routine')
                if args is not None:
                    args = I.iterate(args)
                    if not isinstance(args, list):
                        raise Unsupported('arguments of a routine')
                e = a[1]
                if not isinstance(e, T):
                    e = num(e)
                return Routine(mktext([a[0]]), e, args)
            return Meth(n, routine)
        if n == 'write':
            def write(I, a, k):
                if len(a) != 2 or k:
                    raise Unsupported('options of write')
                r, p = a[0], mktext([a[1]])
                if not isinstance(r, PList):
                    r = PList(I.iterate(r))
                r = PList(r.items)
                return PList([(mktext([p, '.c']), Text([Code(r, p, 'c')])), (mktext([p, '.h']), Text([Code(r, p, 'h')]))])
            return Meth(n, write)
        raise Unsupported('code generator %s' % n)


TAB['sympy.utilities.codegen.CCodeGen'] = PyType('sympy.utilities.codegen.CCodeGen', lambda I, a, k: Gen())


class MatSym:
    """MatrixSymbol(name, n, 1)"""

    def __init__(self, name, n, m):
        self.name, self.n, self.m = name, dim(n), dim(m)

    def __eq__(self, o):
        return isinstance(o, MatSym) and (self.name, T.const(self.n), T.const(self.m)) == (o.name, T.const(o.n), T.const(o.m))

    def __hash__(self):
        return hash(self.name)

    def vequal(self, I, a, b):
        return a == b

    def vgetitem(self, I, i):
        if isinstance(i, tuple):
            if len(i) != 2:
                raise PyRaise(IndexError('matrix index'))
            if num(i[1]) != ZERO:
                raise PyRaise(IndexError('matrix index'))
            i = i[0]
        elif self.m != 1:
            raise Unsupported('linear index of a matrix')
        j = T.const(i)
        if not I.truth(mkbool(('and', ('ge', j), ('gt', T.const(self.n)-j)))):
            raise PyRaise(IndexError('matrix index'))
        return T.atom(('r', 'xs:'+self.name, j))

    def vattr(self, I, n):
        if n == 'shape':
            return (self.n, self.m)
        if n in ('rows', 'cols'):
            return self.n if n == 'rows' else self.m
        if n == 'name':
            return self.name
        raise Unsupported('attribute %s of a matrix symbol' % n)

    def __repr__(self):
        return 'MatrixSymbol(%s)' % self.name


@ext('sympy.MatrixSymbol')
def matsym(I, a, k):
    if not isinstance(a[0], str):
        raise Unsupported('name of a matrix symbol')
    return MatSym(a[0], num(a[1]), num(a[2]))


class Join:
    """sep.join(texts) for symbolically many texts"""

    def __init__(self, sep, items):
        self.sep, self.items = sep, items

    def __repr__(self):
        return '<%r.join>' % (self.sep,)


stubs.Join = Join


def text_replace(I, o, a, b):
    out = []
    if not isinstance(a, str) or not isinstance(b, str):
        raise Unsupported('replacement of a symbolic text')
    for p in o.parts:
        if isinstance(p, str):
            out.append(p.replace(a, b))
        elif isinstance(p, Code):
            out.append(p.replace(a, b))
        elif isinstance(p, Join):
            f = family(p.items)
            t = f.body
            if any(isinstance(z, str) and a in z for z in [p.sep]+list(t.parts if isinstance(t, Text) else [t])):
                raise Unsupported('replacement in a joined text')
            out.append(p)
        else:
            raise Unsupported('replacement in %r' % (p,))
    return mktext(out)


def family(items):
    if len(items) == 1 and isinstance(items[0], Splice) and items[0].cond is True and isinstance(items[0].fam, Family):
        return items[0].fam
    raise Unsupported('texts %r' % (items,))


# -- compiling ----------------------------------------------------------------------------
FN = re.compile(r'\s*double\s+(\w+)\s*\(\s*double\s*\*\s*(\w+)\s*\)\s*\{(?:\s*double\s+(\w+)\s*;\s*\3\s*=\s*(\x00\d+\x00|[^;]*?)\s*;\s*return\s+\3\s*;|\s*return\s+(\x00\d+\x00|[^;]*?)\s*;)\s*\}', re.S)


class Lib:
    """a compiled library: functions name -> what they return"""

    def __init__(self, fns):
        self.fns = fns


def compile_c(I, key):
    g = ghost(I)
    t = content(I, key)
    parts = t.parts if isinstance(t, Text) else (t,)
    holes, s = [], ''
    codes = []
    for p in parts:
        if isinstance(p, str):
            s += p
        elif isinstance(p, Code):
            if p.kind != 'c':
                raise Unsupported('compiling a header')
            codes.append((p, s))
        elif isinstance(p, (Join, Text, SStr, stubs.NameOf)):
            s += '\x00%d\x00' % len(holes)
            holes.append(p)
        else:
            raise Unsupported('compiling %r' % (p,))
    if len(codes) != 1:
        raise Unsupported('compiling %r' % (t,))
    code, before = codes[0]
    inc = re.findall(r'^\s*#\s*include\s*<([^>\n]*)>[ \t]*$', before, re.M)
    if re.sub(r'^\s*#\s*include\s*<[^>\n]*>[ \t]*$', '', before, flags=re.M).strip():
        raise Unsupported('C text %r' % before)
    # the header next to it, with the same declarations
    hk = key[:-1]+(mktext([code.prefix, '.h']),)
    if hk not in g.files or g.files[hk] is None:
        raise Unsupported('compilation fails: no header %r' % (hk,))
    hp = g.files[hk].parts if isinstance(g.files[hk], Text) else ()
    hc = [z for z in hp if isinstance(z, Code)]
    if len(hc) != 1 or hc[0].kind != 'h' or hc[0].routines is not code.routines:
        raise Unsupported('header %r' % (g.files[hk],))
    fns = {}

    def problem(name, e):
        """what the C text does with this function, as far as it is not the expression"""
        d, c = code.apply('int %s(double *xs)' % name), 'double %s(double *xs)' % name
        if d not in (c, 'int %s(double *xs)' % name) or code.apply(c) != c:
            return 'declaration'
        if hc[0].apply('int %s(double *xs);' % name) != d+';':
            return 'conflicting declarations'
        if code.apply('conjugate(') != 'conj(' or 'complex.h' not in inc:
            return 'conjugate'
        return None if d == c else 'int'
    items = code.routines.items
    fns['routines'] = (items, problem)
    rest = s[len(before):]
    texts = {}
    pos = 0
    while True:
        m = FN.match(rest, pos)
        if not m:
            break
        body = m.group(4) if m.group(3) else m.group(5)
        h = re.fullmatch(r'\x00(\d+)\x00', body)
        texts[m.group(1)] = (m.group(2), holes[int(h.group(1))] if h else body)
        pos = m.end()
    if rest[pos:].strip():
        raise Unsupported('C text %r' % rest[pos:])
    return Lib({'routines': items, 'problem': problem, 'texts': texts})


@ext('os.system')
def os_system(I, a, k):
    return run_command(I, a[0])


def run_command(I, cmd):
    g = ghost(I)
    parts = cmd.parts if isinstance(cmd, Text) else (cmd,)
    toks, cur = [], []
    for p in parts:
        if isinstance(p, str):
            q = re.split(r'( +)', p)
            for w in q:
                if w.strip() == '' and w:
                    if cur:
                        toks.append(cur)
                    cur = []
                elif w:
                    cur.append(w)
        else:
            cur.append(p)
    if cur:
        toks.append(cur)
    toks = [mktext(t) if not (len(t) == 1 and not isinstance(t[0], str)) else t[0] for t in toks]
    if not toks:
        raise Unsupported('command')
    if g.__dict__.get('compiler') is not None and toks[0] != g.compiler:
        raise Unsupported('command %r' % (toks[0],))
    flags, ins, out = set(), [], None
    it = iter(toks[1:])
    for t in it:
        if t == '-o':
            out = canon(I, next(it, ''))
        elif isinstance(t, str) and t.startswith('-'):
            flags.add(t)
        else:
            ins.append(canon(I, Text([t]) if isinstance(t, PathV) else t))
    if len(ins) != 1 or not out or not flags <= {'-w', '-c', '-lm', '-shared', '-fPIC', '-O0', '-O1', '-O2', '-O3'} or ('-c' in flags) == ('-shared' in flags):
        raise Unsupported('command %r' % (cmd,))
    if '-c' in flags:
        g.write(out, ('object', compile_c(I, ins[0])))
    else:
        o = content(I, ins[0])
        if not isinstance(o, tuple) or o[0] != 'object':
            raise Unsupported('linking %r' % (ins[0],))
        g.write(out, ('library', o[1]))
    return 0


# -- loading and calling -----------------------------------------------------------------
class Handle:
    """a loaded library"""

    def __init__(self, what):
        self.what = what
        self.fns = {}

    def vattr(self, I, n):
        if n not in self.fns:
            self.fns[n] = CFn(self, n)
        return self.fns[n]


class CFn(Obj):
    def __init__(self, lib, name):
        super().__init__()
        self.lib, self.name, self.restype = lib, name, 'int'

    def get_state(self):
        return self.restype

    def set_state(self, s):
        self.restype = s

    def vsetattr(self, I, n, v):
        if n == 'argtypes':
            return
        if n != 'restype':
            raise Unsupported('attribute %s of a library function' % n)
        mut(self)
        self.restype = v

    def vcall(self, I, a, k):
        if len(a) != 1 or k or not isinstance(a[0], Ptr):
            raise Unsupported('arguments of a library function')
        if self.restype is not TAB['ctypes.c_double']:
            return T.atom(('r', 'garbage#%d' % next(VL_oid)))
        ptr = a[0]
        if not ptr.good:
            return T.atom(('r', 'garbage#%d' % next(VL_oid)))
        w = self.lib.what
        if w[0] == 'library':
            return call_c(I, w[1], self.name, ptr.arr)
        h = getattr(ghost(I), 'call', None)
        if h:
            return h(I, w, self.name, ptr.arr)
        raise Unsupported('calling an unknown library')


from .values import _oid as VL_oid  # noqa: E402


def value_at(I, e, arr):
    g = ghost(I)
    if g.at is not None:
        e = g.at(I, e, arr)
    else:
        raise Unsupported('value of an expression')
    return e.real()


def same_name(a, b):
    return mktext([a]) == mktext([b])


def call_c(I, lib, name, arr):
    prob = lib.fns['problem']
    if name in lib.fns['texts']:
        arg, body = lib.fns['texts'][name]
        if isinstance(body, Join):
            if body.sep.strip() != '+':
                raise Unsupported('C expression')
            f = family(body.items)
            r = family(lib.fns['routines'])
            y = TM.fresh('y')
            if not I.same_dim(f.n, r.n):
                raise Unsupported('sum over part of the functions')
            t, ro = vsub(f.body, {f.x: y}), vsub(r.body, {r.x: y})
            if t != mktext([ro.name, '(%s)' % arg]):
                raise Unsupported('C expression %r' % (t,))
            ok_call(I, ro, arr, prob, 'expr0')
            lo = T.const(f.n)
            return TM.Sum(y, ZERO, lo, value_at(I, ro.expr, arr))
        tot = ZERO
        toks = re.split(r'\s*\+\s*', body)
        for t in toks:
            m = re.fullmatch(r'(\w+)\(%s\)' % arg, t.strip())
            if not m:
                raise Unsupported('C expression %r' % body)
            ro = find(lib, m.group(1))
            ok_call(I, ro, arr, prob, m.group(1))
            tot = tot+value_at(I, ro.expr, arr)
        return tot
    ro = find(lib, name)
    p = prob(name, ro.expr)
    if p is not None:
        if p == 'conjugate':
            raise Unsupported('C text without conj')
        # an integer constant is returned as int
        I.ctx.oblige('library function is called with the type it is declared with', False, 'path', '%s: %s' % (name, p), concl=False)
    return value_at(I, ro.expr, arr)


def ok_call(I, ro, arr, prob, name):
    p = prob(name, ro.expr)
    if p not in (None, 'int'):
        raise Unsupported('C text: %s' % p)
    if ro.args is None or len(ro.args) != 1 or not isinstance(ro.args[0], MatSym):
        I.ctx.oblige('functions are declared with the argument they are called with', False, 'path', repr(ro.args), concl=False)


def find(lib, name):
    for z in lib.fns['routines']:
        if isinstance(z, Splice):
            raise Unsupported('one of symbolically many functions')
        if same_name(z.name, name):
            return z
    raise PyRaise(AttributeError('undefined symbol: %s' % name))


class Ptr:
    def __init__(self, arr, good):
        self.arr, self.good = arr, good


class CTypes:
    def __init__(self, arr):
        self.arr = arr

    def vattr(self, I, n):
        if n == 'data_as':
            def f(I, a, k):
                good = a[0] == ('pointer', 'c_double') and self.arr.dtype == 'float' and self.arr.ndim == 1 and getattr(self.arr, 'contig', False)
                return Ptr(self.arr, good)
            return Meth(n, f)
        raise Unsupported('ctypes.%s' % n)


TAB['ctypes.c_double'] = PyType('ctypes.c_double', lambda I, a, k: a[0])


@ext('ctypes.POINTER')
def pointer(I, a, k):
    return ('pointer', 'c_double' if a[0] is TAB['ctypes.c_double'] else repr(a[0]))


@ext('ctypes.PyDLL', 'ctypes.CDLL')
def dll(I, a, k):
    g = ghost(I)
    key = canon(I, a[0])
    if key in g.loaded:
        return g.loaded[key]
    c = content(I, key)
    if not isinstance(c, tuple) or c[0] not in ('library', 'given'):
        raise Unsupported('loading %r' % (c,))
    mut(g)
    if not g.under_tmp(key) and I.truth(mkbool(('p', 'loaded before', repr(key)))):
        h = Handle(('old', key))
    else:
        h = Handle(c)
    g.loaded = dict(g.loaded)
    g.loaded[key] = h
    return h


@ext('numpy.ascontiguousarray')
def contiguous(I, a, k):
    d = k.get('dtype', a[1] if len(a) > 1 else None)
    x = a[0] if isinstance(a[0], Arr) else stubs.np_array(I, [a[0]], {})
    r = I.call(I.getattr(x, 'astype'), [d], {}) if d is not None else x.copy()
    if r.ndim == 0:
        r = stubs.reshape(I, r, (1,))
    r.contig = True
    return r


# -- loops counting up to a given number ---------------------------------------------------
def counting(I, st, env, n):
    """while loop with a counter: verified with the invariant that the counter is the number
    of iterations done, running n times without leaving and leaving in the next iteration"""
    cs = [z.target.id for z in ast.walk(st) if isinstance(z, ast.AugAssign) and isinstance(z.target, ast.Name) and isinstance(z.op, ast.Add) and isinstance(z.value, ast.Constant) and z.value.value == 1]
    if len(set(cs)) != 1 or st.orelse:
        return False
    v = cs[0]
    if v not in env.vars or not isinstance(env.vars[v], (int, T)) or num(env.vars[v]) != ZERO:
        return False
    init = env.vars[v]
    del env.vars[v]
    test = I.eval

    def step(x):
        env.vars[v] = x
        if not I.truth(I.eval(st.test, env)):
            raise Unsupported('the loop ends early')
        try:
            I.exec_block(st.body, env)
        except BreakEx:
            raise Unsupported('the loop ends early')
        except ContinueEx:
            pass
        if num(env.vars[v]) != num(x)+1:
            raise Unsupported('loop counter')
    fake = ast.For(target=ast.Name(id=v, ctx=ast.Store()), iter=None, body=st.body, orelse=[])
    I.sym_loop(Seq(n, lambda i: i), step, env, fake)
    env.vars[v] = T.const(n)
    if not I.truth(I.eval(st.test, env)):
        return True
    try:
        I.exec_block(st.body, env)
    except BreakEx:
        return True
    raise Unsupported('the loop goes on')


stubs.counting = counting


# -- derivatives ---------------------------------------------------------------------------
def diff(I, t, x):
    """derivative of an expression with respect to a component of the vector: D@xs(e, i),
    e the number of the expression"""
    t = num(t)
    try:
        a = TM.single_atom(num(x))
    except (AssertionError, ValueError):
        raise Unsupported('derivative with respect to an expression')
    l = I.__dict__.setdefault('diffs', [])
    if not a[1].startswith('xs:') or not t.is_real():
        raise Unsupported('derivative')
    if t not in l:
        l.append(t)
    return T.atom(('r', 'D@xs', T.const(l.index(t)), a[2]))


stubs.diff = diff


@ext('sympy.diff')
def sp_diff(I, a, k):
    if len(a) != 2 or k:
        raise Unsupported('derivative')
    return diff(I, a[0], a[1])


# -- simultaneous substitution --------------------------------------------------------------
def xreplace(I, t, a):
    m = a[0]
    if not isinstance(m, PDict):
        raise Unsupported('xreplace')
    ex = dict(m.extra)
    if m.d is not None:
        pairs = [(unhash(k), v) for k, v in m.d.items()]
    else:
        pairs = None
    for k, v in list(ex.items()):
        if not (isinstance(k, T) and k == TM.I and num(v) == TM.I):
            raise Unsupported('xreplace of %r' % (k,))
    h = getattr(I, 'xreplace_hook', None)
    if h:
        r = h(I, t, m, pairs)
        if r is not None:
            return r
    if pairs is None:
        raise Unsupported('xreplace of a symbolic mapping')
    d = {}
    for k, v in pairs:
        k, v = num(k), num(v)
        if k == TM.I and v == TM.I:
            continue
        try:
            at = TM.single_atom(k)
        except (AssertionError, ValueError):
            raise Unsupported('xreplace of an expression')
        d[at] = v
        if at[0] == 'c':
            d[('cj',)+at[1:]] = v.conj()
    for z in t.atoms():
        if z[0] in ('r', 'c', 'cj') and len(z) > 2 and stubs.fun_args(z) is None and z not in d:
            raise Unsupported('substitution in an opaque expression')
    return t.subst(lambda y: d.get(y))


stubs.xreplace = xreplace


# -- optimizers -------------------------------------------------------------------------
SIG = {
    'least_squares': ('fun', 'x0', 'jac', 'bounds', 'method', 'ftol', 'xtol', 'gtol', 'x_scale', 'loss', 'f_scale', 'diff_step', 'tr_solver', 'tr_options', 'jac_sparsity', 'max_nfev', 'verbose', 'args', 'kwargs'),
    'basinhopping': ('func', 'x0', 'niter', 'T', 'stepsize', 'minimizer_kwargs', 'take_step', 'accept_test', 'callback', 'interval', 'disp', 'niter_success', 'seed'),
    'dual_annealing': ('func', 'bounds', 'args', 'maxiter', 'minimizer_kwargs', 'initial_temp', 'restart_temp_ratio', 'visit', 'accept', 'maxfun', 'seed', 'no_local_search', 'callback', 'x0'),
}


def optimizer(name):
    def run(I, a, k):
        h = getattr(I, 'optimizer', None)
        if h is None:
            raise Unsupported('optimization')
        if len(a) > len(SIG[name]) or not set(k) <= set(SIG[name]) or set(k) & set(SIG[name][:len(a)]):
            raise PyRaise(TypeError('arguments of %s' % name))
        return h(I, name, dict(zip(SIG[name], a), **k))
    ext('scipy.optimize.'+name)(run)


for _n in SIG:
    optimizer(_n)


class OptRes(Obj):
    """scipy.optimize.OptimizeResult"""

    def __init__(self, attrs):
        super().__init__()
        self.attrs = dict(attrs)

    def get_state(self):
        return dict(self.attrs)

    def set_state(self, s):
        self.attrs = dict(s)

    def vattr(self, I, n):
        if n not in self.attrs:
            raise PyRaise(AttributeError(n))
        return self.attrs[n]

    def vsetattr(self, I, n, v):
        mut(self)
        self.attrs[n] = v

    def vgetitem(self, I, i):
        return self.vattr(I, i)

    def vsetitem(self, I, i, v):
        self.vsetattr(I, i, v)

    def truth(self, I):
        return bool(self.attrs)


TAB['scipy.optimize.OptimizeResult'] = PyType('scipy.optimize.OptimizeResult', lambda I, a, k: OptRes(k))


# -- delimited files ------------------------------------------------------------------------
class CsvField:
    """text of column col of row r of a file read with a delimiter; float() of it is the
    number csvnum(file, delimiter, row, column)"""

    def __init__(self, src, row, col):
        self.src, self.row, self.col = src, T.const(row), T.const(col)

    def vsub(self, sub):
        return CsvField(self.src.vsub(sub), vsub(self.row, sub), vsub(self.col, sub))

    def vdepends(self, atoms):
        return self.src.vdepends(atoms) or vdepends(self.row, atoms) or vdepends(self.col, atoms)

    def to_float(self, I):
        return self.src.number(self.row, self.col)

    def vattr(self, I, n):
        if n in ('strip', 'lstrip', 'rstrip'):
            return Meth(n, lambda I, a, k: self if not a and not k else unsupported('strip'))
        raise Unsupported('text of a field: %s' % n)

    def __repr__(self):
        return 'field %r' % (self.col,)


def unsupported(s):
    raise Unsupported(s)


class CsvSource:
    """the content of file `name`, number `idx`, split at `delim`: any number of rows,
    every row with at least two columns, which are numbers"""

    def __init__(self, name, idx, delim):
        self.name, self.idx, self.delim = name, tuple(T.const(i) for i in idx), delim

    def vsub(self, sub):
        return CsvSource(self.name, [vsub(i, sub) for i in self.idx], self.delim)

    def vdepends(self, atoms):
        return any(vdepends(i, atoms) for i in self.idx)

    def rows(self):
        return T.atom(('i', '+rows:%s:%r' % (self.name, self.delim))+self.idx)

    def number(self, r, c):
        return T.atom(('r', 'csv:%s:%r' % (self.name, self.delim))+self.idx+(T.const(r), T.const(c)))

    def width(self, r):
        return 2+T.atom(('i', '+cols:%s:%r' % (self.name, self.delim))+self.idx+(T.const(r),))


class CsvRow:
    def __init__(self, src, row):
        self.src, self.row = src, T.const(row)

    def vsub(self, sub):
        return CsvRow(self.src.vsub(sub), vsub(self.row, sub))

    def vdepends(self, atoms):
        return self.src.vdepends(atoms) or vdepends(self.row, atoms)

    def vgetitem(self, I, i):
        w = self.src.width(self.row)
        if isinstance(i, slice):
            a, b, s = i.start or 0, i.stop, i.step
            if isinstance(a, int) and isinstance(b, int) and 0 <= a <= b <= 2 and s in (None, 1):
                return PList([CsvField(self.src, self.row, c) for c in range(a, b)])
            raise Unsupported('slice of a row')
        c = num(i)
        if not I.truth(mkbool(('and', ('gt', w-c), ('ge', c+w)))):
            raise PyRaise(IndexError('list index out of range'))
        if I.truth(mkbool(('gt', -c))):
            c = c+w
        return CsvField(self.src, self.row, c)

    def vlen(self, I):
        return self.src.width(self.row)

    def __repr__(self):
        return 'row %r' % (self.row,)


class FileName:
    """the name of the idx-th file of a family of files given by the caller"""
    sym_text = True

    def __init__(self, name, idx=()):
        self.name, self.idx = name, tuple(T.const(i) for i in idx)

    def vsub(self, sub):
        return FileName(self.name, [vsub(i, sub) for i in self.idx])

    def vdepends(self, atoms):
        return any(vdepends(i, atoms) for i in self.idx)

    def __eq__(self, o):
        return isinstance(o, FileName) and (self.name, self.idx) == (o.name, o.idx)

    def __hash__(self):
        return hash((self.name, self.idx))

    def __repr__(self):
        return 'file %s%r' % (self.name, list(self.idx))


def source(f, delim):
    if not isinstance(delim, str):
        raise Unsupported('delimiter %r' % (delim,))
    t = f.text
    if not isinstance(f, FileV) or not isinstance(t, tuple) or t[0] != 'given':
        raise Unsupported('reading %r' % (f,))
    n, = t[1]
    n = n.parts[0] if isinstance(n, Text) and len(n.parts) == 1 else n
    if not isinstance(n, FileName):
        raise Unsupported('reading %r' % (n,))
    return CsvSource(n.name, n.idx, delim)


@ext('csv.reader')
def csv_reader(I, a, k):
    k = dict(k)
    d = k.pop('delimiter', ',')
    if len(a) != 1 or k:
        raise Unsupported('options of csv.reader')
    f = a[0]
    if not isinstance(f, FileV) or f.mode not in ('r', 'rt'):
        raise Unsupported('csv.reader of %r' % (f,))
    return CsvReader(f, source(f, d))


class CsvReader(Obj):
    """yields every row once, as long as the file is open"""

    def __init__(self, f, src):
        super().__init__()
        self.f, self.src, self.done = f, src, False

    def get_state(self):
        return self.done

    def set_state(self, s):
        self.done = s

    def viter(self, I):
        if not self.f.open:
            raise PyRaise(ValueError('I/O operation on closed file.'))
        if self.done:
            return []
        mut(self)
        self.done = True
        s = self.src
        return Seq(s.rows(), lambda i: CsvRow(s, i))


# -- pickled objects --------------------------------------------------------------------------
class Srepr:
    """srepr(e): a text which sympify turns into e again, symbols with their assumptions"""
    sym_text = True

    def __init__(self, e):
        self.e = e

    def vsub(self, sub):
        return Srepr(vsub(self.e, sub))

    def vdepends(self, atoms):
        return vdepends(self.e, atoms)

    def sympify(self, I):
        return TM.TObj(self.e.m) if isinstance(self.e, T) else self.e

    def __eq__(self, o):
        return isinstance(o, Srepr) and o.e == self.e

    def __hash__(self):
        return hash(('srepr', self.e))

    def __repr__(self):
        return 'srepr(%r)' % (self.e,)


@ext('sympy.srepr', 'sympy.printing.repr.srepr')
def srepr(I, a, k):
    if len(a) != 1 or k:
        raise Unsupported('options of srepr')
    e = a[0]
    if isinstance(e, bool) or not isinstance(e, (T, int)) and not hasattr(e, 'sym_expr'):
        raise Unsupported('srepr of %r' % (e,))
    return Srepr(num(e) if isinstance(e, int) else e)


@ext('pickle.dump')
def pickle_dump(I, a, k):
    if len(a) not in (2, 3) or not set(k) <= {'protocol'}:
        raise Unsupported('options of pickle.dump')
    f = a[1]
    if not isinstance(f, FileV):
        raise Unsupported('pickling into %r' % (f,))
    if f.mode != 'wb':
        raise PyRaise(TypeError('file opened with mode %s' % f.mode))
    if not f.open:
        raise PyRaise(ValueError('write to closed file'))
    if f.text != '':
        raise Unsupported('several objects in a file')
    mut(f)
    f.text = ('pickle', stubs.deep(I, a[0]))
    ghost(I).write(f.key, f.text)


@ext('pickle.load')
def pickle_load(I, a, k):
    f = a[0]
    if len(a) != 1 or k or not isinstance(f, FileV):
        raise Unsupported('unpickling')
    if f.mode != 'rb':
        raise PyRaise(TypeError('file opened with mode %s' % f.mode))
    if not f.open:
        raise PyRaise(ValueError('read of closed file'))
    c = f.text
    if not isinstance(c, tuple) or c[0] != 'pickle':
        raise Unsupported('unpickling %r' % (c,))
    if getattr(f, 'read', False):
        raise PyRaise(EOFError('end of file'))
    f.read = True
    return stubs.deep(I, c[1])


# -- iterators ---------------------------------------------------------------------------------
class Iter(Obj):
    """iter(v): v and the position"""

    def __init__(self, it):
        super().__init__()
        self.it, self.pos = it, 0

    def get_state(self):
        return self.pos

    def set_state(self, s):
        self.pos = s

    def viter(self, I):
        if isinstance(self.it, list):
            r = self.it[self.pos:]
            mut(self)
            self.pos = len(self.it)
            return r
        if self.pos:
            raise Unsupported('rest of an iterator')
        mut(self)
        self.pos = None
        return self.it


@ext('builtins.iter')
def b_iter(I, a, k):
    if len(a) != 1 or k:
        raise Unsupported('options of iter')
    if isinstance(a[0], Iter):
        return a[0]
    return Iter(I.iterate(a[0]))


@ext('builtins.next')
def b_next(I, a, k):
    it = a[0]
    if not isinstance(it, Iter) or it.pos is None or getattr(it.it, 'cond', True) is not True:
        raise Unsupported('next of %r' % (it,))
    s = it.it
    n = len(s) if isinstance(s, list) else T.const(s.n)
    if I.truth(mkbool(('gt', T.const(n)-it.pos))):
        mut(it)
        it.pos += 1
        return s[it.pos-1] if isinstance(s, list) else s.at(T.const(it.pos-1))
    if len(a) > 1:
        return a[1]
    raise PyRaise(StopIteration())


@ext('itertools.count')
def it_count(I, a, k):
    if len(a) > 2 or k:
        raise Unsupported('options of itertools.count')
    lo, st = (num(a[0]) if a else ZERO), (num(a[1]) if len(a) > 1 else ONE)
    s = Seq(TM.T.atom(('i', '+endless:%d' % next(VL_oid))), lambda i: lo+st*i)
    s.endless = True
    return s


def rounding(name):
    def f(I, a, k):
        t = num(a[0])
        q = t.as_frac()
        if q is not None:
            return int(q.__ceil__() if name == 'ceil' else q.__floor__())
        if TM.is_int_term(t):
            return t
        den = None
        for (p, mon), c in t.m.items():
            for at, e in mon:
                if e < 0:
                    d = T.atom(TM._atoms[at], -e)
                    if den is not None and den != d:
                        raise Unsupported('rounding %r' % (t,))
                    den = d
        if den is None:
            den = T.const(1)
            for (p, mon), c in t.m.items():
                from fractions import Fraction
                den = den*Fraction(c[0]).denominator
        nu = t*den
        if not (TM.is_int_term(nu) and TM.is_int_term(den) and I.ctx.entails(('gt', den))):
            raise Unsupported('rounding %r' % (t,))
        z = T.atom(('i', name+'div', nu, den))
        r = nu-z*den
        if name == 'ceil':
            for c in (('ge', -r), ('gt', den+r)):
                I.ctx.assume(c)
            if I.ctx.entails(('ge', nu)):
                I.ctx.assume(('ge', z))
        else:
            for c in (('ge', r), ('gt', den-r)):
                I.ctx.assume(c)
        return z
    ext('math.'+name)(f)


rounding('ceil')
rounding('floor')
