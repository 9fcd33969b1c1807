"""Assumed contracts of the Python built-ins and of numpy / sympy / ... as used by
shgpy.  Everything in this file is trusted (reported in the evidence)."""
import itertools
import numpy as np
from fractions import Fraction
from . import terms as TM
from .terms import T, iv, cnorm, Sum, ZERO, ONE, PI
from .core import Unsupported, Infeasible, PyRaise, SBool, mkbool
from .values import *
from .values import mut
from .loops import hashable, Nested, extreme, extreme_index
from . import values as VL

TAB = {}
METHODS = {}
INF = (float('inf'), float('-inf'))


def _I():
    from . import interp
    return interp


def ext(*names):
    def d(f):
        for n in names:
            TAB[n] = _I().Builtin(n, f)
        return f
    return d


def method(*names):
    def d(f):
        for n in names:
            METHODS[n] = f
        return f
    return d


def lookup(full):
    return TAB.get(full)


def builtin(n):
    return TAB.get('builtins.'+n)


# ---------------------------------------------------------------------------------
# text

class Text:
    """an opaque string built from known and unknown parts"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Text):
                out.extend(p.parts)
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, Text) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def vsub(self, sub):
        return Text([vsub(p, sub) for p in self.parts])

    def vdepends(self, atoms):
        return any(vdepends(p, atoms) for p in self.parts)

    def __repr__(self):
        return 'Text%r' % (self.parts,)


def mktext(parts):
    t = Text(parts)
    if all(isinstance(p, str) for p in t.parts):
        return ''.join(t.parts)
    return t


def is_text(v):
    return isinstance(v, (SStr, Text, NameOf)) or getattr(type(v), 'sym_text', False)


class NameOf:
    """str(symbol)"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, NameOf) and o.t == self.t

    def __hash__(self):
        return hash(('NameOf', self.t))

    def vsub(self, sub):
        return NameOf(vsub(self.t, sub))

    def vdepends(self, atoms):
        return vdepends(self.t, atoms)

    def __repr__(self):
        return 'str(%s)' % self.t


def to_str(I, x):
    if isinstance(x, (str, SStr, Text, NameOf)):
        return x
    if hasattr(x, 'vstr'):
        return x.vstr()
    if isinstance(x, (bool, int, float, complex, type(None))):
        return str(x)
    if isinstance(x, T):
        k = x.as_int()
        if k is not None:
            return str(k)
        try:
            a = TM.single_atom(x)
        except Exception:
            return Text([NameOf(x)])
        if a[0] in ('r', 'c') and len(a) == 2:
            return a[1]
        return Text([NameOf(x)])
    if isinstance(x, (Arr, PList, PDict, PSet, tuple, BaseException)) or x is None:
        return Text([('repr', id(x))])
    return Text([('repr', repr(x))])


def concat_str(parts):
    return mktext(parts)


def format_str(I, a, b):
    if not isinstance(a, str):
        return Text([('fmt', id(a))])
    bs = b if isinstance(b, tuple) else (b,)
    out = []
    rest = a
    import re
    pos = 0
    k = 0
    for m in re.finditer(r'%(?:%|\.?\d*[sdifgr])', a):
        out.append(a[pos:m.start()])
        pos = m.end()
        if m.group() == '%%':
            out.append('%')
            continue
        v = to_str(I, bs[k])
        k += 1
        if m.group() not in ('%s', '%d') or (m.group() == '%d' and not isinstance(bs[k-1], (int, T))):
            v = Text([('fmt', m.group(), v)])
        out.append(v)
    out.append(a[pos:])
    return mktext(out)


# ---------------------------------------------------------------------------------
# dtype and arrays

ORDER = ['bool', 'int', 'float', 'complex', 'object']


def dt_of(v):
    if isinstance(v, Arr):
        return v.dtype
    if isinstance(v, (bool, np.bool_, SBool)):
        return 'bool'
    if isinstance(v, (int, np.integer)):
        return 'int'
    if isinstance(v, (float, np.floating)):
        return 'float'
    if isinstance(v, (complex, np.complexfloating)):
        return 'complex'
    if isinstance(v, T):
        if isinstance(v, TM.TObj):
            return 'object'
        if any(a[0] in ('r', 'c', 'cj') and str(a[1]).startswith('sym') for a in v.atoms()):
            return 'object'
        if v.is_real():
            return 'int' if TM.is_int_term(v) else 'float'
        return 'complex'
    if is_text(v) or isinstance(v, str):
        return 'str'
    return 'object'


def promote(ds, op=None):
    if any(d in ('complex64',) for d in ds):
        if all(d in ('complex64', 'bool') for d in ds):
            return 'complex64'
        ds = ['complex' if d == 'complex64' else d for d in ds]
    if any(d not in ORDER for d in ds):
        if len(set(ds)) == 1:
            return ds[0]
        return 'object'
    k = max([ORDER.index(d) for d in ds] or [2])
    if op == 'Div' and k < 2:
        k = 2
    if op in ('Add', 'Sub', 'Mult', 'Pow', 'Mod', 'FloorDiv') and k == 0:
        k = 1
    return ORDER[k]


def dtype_name(d):
    n = getattr(d, 'name', d)
    m = {'float': 'float', 'int': 'int', 'complex': 'complex', 'object': 'object', 'bool': 'bool', 'str': 'str',
         'numpy.complex64': 'complex64', 'numpy.complex128': 'complex', 'numpy.float64': 'float', 'numpy.float32': 'float32',
         'numpy.int64': 'int', 'builtins.float': 'float', 'builtins.int': 'int', 'builtins.complex': 'complex', 'builtins.object': 'object',
         'builtins.bool': 'bool', 'builtins.str': 'str', 'numpy.integer': 'integer'}
    if isinstance(d, DType):
        return d.n
    if isinstance(d, type):
        n = d.__name__
    if isinstance(n, str) and n in m:
        return m[n]
    raise Unsupported('dtype %r' % (d,))


class DType:
    """value of array.dtype"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'dtype(%s)' % self.n


class PyType:
    """a Python type object"""

    def __init__(self, n, call=None):
        self.name = n
        self.call = call

    def vcall(self, I, args, kw):
        I.trusted.add(self.name)
        return self.call(I, args, kw)

    def vattr(self, I, n):
        if n == '__name__':
            return self.name
        raise Unsupported('attribute %s of type %s' % (n, self.name))

    def __repr__(self):
        return '<type %s>' % self.name


def cast(I, v, d):
    if isinstance(v, str) or is_text(v) or d in ('object', 'str'):
        return v
    if v is None or isinstance(v, (tuple, PList, PDict)):
        if d == 'object':
            return v
        raise PyRaise(TypeError('float() argument'))
    if d in ('complex', 'complex64'):
        return num(v)
    if d in ('float', 'float32'):
        x = v if isinstance(v, float) and v in INF else num(v)
        if isinstance(x, T) and not x.is_real():
            raise PyRaise(TypeError('cannot convert complex to float'))
        return x
    if d == 'int':
        x = num(v)
        q = x.as_frac()
        if q is not None and q.denominator == 1 or TM.is_int_term(x):
            return x
        raise Unsupported('conversion to integer')
    if d == 'bool':
        if isinstance(v, (bool, SBool)):
            return v
        return mkbool(('not', ('eq', num(v))))
    raise Unsupported('cast to %s' % d)


def as_arr(I, v):
    return v if isinstance(v, Arr) else np_array(I, [v], {})


def np_array(I, args, kw):
    v = args[0]
    d = kw.get('dtype', args[1] if len(args) > 1 else None)
    d = dtype_name(d) if d is not None else None
    a = build(I, v)
    if not isinstance(a, Arr):
        if not (isinstance(a, (T, int, float, complex, str, bool, SBool, np.generic, type(None))) or is_text(a) or hasattr(a, 'sym_expr')):
            raise Unsupported('array of %r' % (a,))
        c = np.empty((), dtype=object)
        c[()] = a
        a = Arr((), c, dt_of(a))
    if d is not None and d != a.dtype:
        a = astype(I, a, d)
    return a


TAB_arr = np_array


def astype(I, a, d):
    c = a.cells
    r = np.empty(c.shape, dtype=object)
    if d in ('float', 'float32', 'int') and a.dtype in ('complex', 'complex64'):
        # numpy discards the imaginary part with a warning
        for i in np.ndindex(c.shape):
            r[i] = num(c[i]).real()
        return Arr(a.shape, r, d)
    for i in np.ndindex(c.shape):
        r[i] = cast(I, c[i], d)
    return Arr(a.shape, r, d)


def build(I, v):
    """nested sequences -> Arr (or a scalar)"""
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, LProd):
        return v
    if isinstance(v, (list, tuple, PList)):
        items = v.items if isinstance(v, PList) else list(v)
        if len(items) == 1 and isinstance(items[0], Splice):
            s = items[0]
            if s.cond is not True:
                return filtered(I, s)
            if isinstance(s.fam, Nested):
                raise Unsupported('array of a nested comprehension')
            fam = s.fam
            x = TM.fresh('x')
            b = build(I, fam.at(x))
            n = fam.n
            return axis0(I, b, x, n)
        if any(isinstance(z, (Splice, OldMark)) for z in items):
            raise Unsupported('array of a list with symbolic parts')
        els = [build(I, z) for z in items]
        if not els:
            return Arr((0,), np.empty((0,), dtype=object), 'float')
        if not any(isinstance(z, Arr) for z in els):
            c = np.empty((len(els),), dtype=object)
            for i, z in enumerate(els):
                c[i] = conv(z)
            return Arr((len(els),), c, promote([dt_of(z) for z in els]))
        if not all(isinstance(z, Arr) for z in els) or len(set(z.ndim for z in els)) != 1:
            raise PyRaise(ValueError('inhomogeneous array'))
        s0 = els[0].shape
        for z in els[1:]:
            for p, q in zip(z.shape, s0):
                if not I.same_dim(p, q):
                    c = I.ctx.entails(('not', ('eq', T.const(p)-T.const(q))))
                    if c:
                        raise PyRaise(ValueError('inhomogeneous array'))
                    if not I.decide(('eq', T.const(p)-T.const(q))):
                        raise PyRaise(ValueError('inhomogeneous array'))
        d = promote([z.dtype for z in els])
        els = [shift_axes(z, 1) for z in els]
        c = np.empty((len(els),)+els[0][1].shape, dtype=object)
        for i, z in enumerate(els):
            c[i] = z[1] if z[1].ndim else z[1][()]
        return Arr((len(els),)+s0, c, d)
    if isinstance(v, _I().Star):
        raise Unsupported('symbolic arguments')
    if hasattr(v, 'as_array'):
        return v.as_array(I)
    if isinstance(v, (PDict, PSet)):
        return v
    it = None
    if isinstance(v, Seq):
        x = TM.fresh('x')
        return axis0(I, build(I, v.at(x)), x, v.n)
    return v


def conv(z):
    if isinstance(z, (bool, SBool)):
        return z
    if isinstance(z, float) and z in INF:
        return z
    if isinstance(z, (int, float, complex, np.generic)) or hasattr(z, 'vnum'):
        return num(z)
    return z


def filtered(I, s):
    from .order import compress
    if isinstance(s.fam, Nested):
        raise Unsupported('array of a nested comprehension')
    return build(I, PList(fam=compress(s.fam, s.cond)))


def shift_axes(a, k, start=0):
    """cells of `a` with its symbolic axes renumbered by +k"""
    sub = {bxatom(d): bx(d+k) for d in a.symaxes() if d >= start}
    c = a.cells
    if not sub:
        return a, c
    r = np.empty(c.shape, dtype=object)
    tmp = {bxatom(d): T.atom(('i', '@t%d' % d)) for d in a.symaxes()}
    for i in np.ndindex(c.shape):
        r[i] = vsub(c[i], sub)
    return a, r


def axis0(I, b, x, n):
    """stack the value b (in atom x) along a new first axis of size n"""
    xa = TM.single_atom(x)
    k = dim(n)
    if isinstance(b, Arr):
        if isinstance(k, int):
            return build(I, [Arr(b.shape, b.cells, b.dtype)]) if k == 1 else build(I, [inst(b, {xa: T.const(j)}) for j in range(k)])
        _, c = shift_axes(b, 1)
        r = np.empty(c.shape, dtype=object)
        for i in np.ndindex(c.shape):
            r[i] = vsub(c[i], {xa: bx(0)})
        return Arr((k,)+b.shape, r, b.dtype)
    if isinstance(k, int):
        c = np.empty((k,), dtype=object)
        for j in range(k):
            c[j] = conv(vsub(b, {xa: T.const(j)}))
        return Arr((k,), c, dt_of(b))
    c = np.empty((), dtype=object)
    c[()] = conv(vsub(b, {xa: bx(0)}))
    return Arr((k,), c, dt_of(b))


def same_shape(I, a, b):
    return len(a) == len(b) and all(I.same_dim(x, y) for x, y in zip(a, b))


def struct_same(a, b):
    return len(a) == len(b) and all((isinstance(x, int) and isinstance(y, int) and x == y) or (isinstance(x, T) and isinstance(y, T) and x == y) for x, y in zip(a, b))


def ufunc(I, f, args, dtype=None, op=None):
    arrs = [a for a in args if isinstance(a, Arr)]
    if any(isinstance(a, (PList, tuple)) for a in args):
        args = [build(I, a) if isinstance(a, (PList, tuple)) else a for a in args]
        arrs = [a for a in args if isinstance(a, Arr)]
    if any(isinstance(a, (str, type(None), PDict, Inst)) or is_text(a) for a in args):
        if op is None:
            # comparison with a non-number
            pass
        else:
            raise PyRaise(TypeError('ufunc operand'))
    d = dtype or promote([dt_of(a) if isinstance(a, Arr) else scalar_dt(a) for a in args], op)
    s0 = arrs[0].shape
    if all(struct_same(a.shape, s0) for a in arrs[1:]):
        cs = [a.cells if isinstance(a, Arr) else None for a in args]
        r = np.empty(arrs[0].cells.shape, dtype=object)
        sav = list(I.ctx.assump)
        if op == 'Mod':
            # the indices are within the array
            for k, n in enumerate(s0):
                if isinstance(n, T):
                    I.ctx.assump += [('ge', bx(k)), cnorm(('ge', n-1-bx(k)))]
        try:
            for i in np.ndindex(r.shape):
                r[i] = f(*[c[i] if c is not None else a for c, a in zip(cs, args)])
        finally:
            if op == 'Mod':
                I.ctx.assump[:] = sav
        return Arr(s0, r, d)
    nd = max(a.ndim for a in arrs)
    shape = []
    for k in range(nd):
        n = 1
        for a in arrs:
            j = k-(nd-a.ndim)
            if j < 0:
                continue
            m = a.shape[j]
            if isinstance(m, int) and m == 1:
                continue
            if isinstance(n, int) and n == 1:
                n = m
            elif not I.same_dim(n, m):
                if I.decide(('eq', T.const(n)-T.const(m))):
                    if isinstance(n, T) and isinstance(m, int):
                        n = m
                elif isinstance(m, T) and I.decide(('eq', T.const(m)-1)) or isinstance(n, T) and I.decide(('eq', T.const(n)-1)):
                    raise Unsupported('broadcasting of a symbolic axis')
                else:
                    raise PyRaise(ValueError('operands could not be broadcast together'))
        shape.append(n)

    def at(a, idx):
        if not isinstance(a, Arr):
            return a
        sub = idx[nd-a.ndim:]
        return a.get(tuple(0 if (isinstance(m, int) and m == 1) else i for m, i in zip(a.shape, sub)))
    return mkarr(shape, lambda idx: f(*[at(a, idx) for a in args]), d)


def scalar_dt(v):
    d = dt_of(v)
    return d


def norm_index(I, i, n, what='index'):
    """python index -> in-range index (int or T)"""
    if isinstance(i, (bool, SBool)):
        raise Unsupported('boolean index')
    if isinstance(i, (float,)):
        raise PyRaise(IndexError('only integers are valid indices'))
    if not isinstance(i, (int, np.integer, T)):
        if isinstance(i, (str,)) or is_text(i) or i is None:
            raise PyRaise(IndexError('only integers are valid indices'))
        raise Unsupported('index %r' % (i,))
    i = dim(num(i))
    if isinstance(i, T) and not TM.is_int_term(i):
        raise Unsupported('index %s not known to be an integer' % i)
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise PyRaise(IndexError('index %d is out of bounds for axis of size %d' % (i, n)))
        return i+n if i < 0 else i
    ti, tn = T.const(i), T.const(n)
    if not I.ctx.entails(('ge', ti)):
        if not I.decide(('ge', ti)):
            ti = ti+tn
            if not I.ctx.entails(('ge', ti)) and not I.decide(('ge', ti)):
                raise PyRaise(IndexError('index out of bounds'))
            return dim(ti)
    if not I.ctx.entails(('ge', tn-1-ti)) and not I.decide(('ge', tn-1-ti)):
        raise PyRaise(IndexError('index out of bounds'))
    return dim(ti)


def norm_slice(I, s, n):
    """slice with step 1 or None -> (lo, length)"""
    if s.step is not None and dim(s.step) != 1:
        if dim(s.step) == -1 and s.start is None and s.stop is None:
            return 'rev', n
        raise Unsupported('slice step')

    def clip(v, dflt):
        if v is None:
            return T.const(dflt)
        v = num(v)
        k = v.as_int()
        if k is not None and isinstance(n, int):
            if k < 0:
                k = max(0, k+n)
            return T.const(min(k, n))
        if not I.ctx.entails(('ge', v)) and not I.decide(('ge', v)):
            v = v+T.const(n)
            if not I.ctx.entails(('ge', v)) and not I.decide(('ge', v)):
                v = ZERO
            return v
        if not I.ctx.entails(('ge', T.const(n)-v)) and not I.decide(('ge', T.const(n)-v)):
            v = T.const(n)
        return v
    lo, hi = clip(s.start, 0), clip(s.stop, n)
    ln = hi-lo
    if not I.ctx.entails(('ge', ln)) and not I.decide(('ge', ln)):
        ln = ZERO
    return dim(lo), dim(ln)


def mksel(I, o, i, checked=False):
    idx = i if isinstance(i, tuple) else (i,)
    if any(z is Ellipsis for z in idx):
        k = idx.index(Ellipsis)
        idx = idx[:k]+(slice(None),)*(o.ndim-len(idx)+1)+idx[k+1:]
    if len(idx) > o.ndim:
        raise PyRaise(IndexError('too many indices for array'))
    sel = []
    for d, n in enumerate(o.shape):
        if d >= len(idx):
            sel.append(('all',))
            continue
        z = idx[d]
        if isinstance(z, slice):
            lo, ln = norm_slice(I, z, n)
            if lo == 'rev':
                raise Unsupported('reversed slice')
            if isinstance(lo, int) and lo == 0 and ((isinstance(ln, int) and ln == n) or (isinstance(ln, T) and isinstance(n, T) and ln == n)):
                sel.append(('all',))
            else:
                if isinstance(n, int) and (isinstance(lo, T) or isinstance(ln, T)):
                    raise Unsupported('symbolic slice of a concrete axis')
                sel.append(('range', lo, ln))
        elif isinstance(z, (Arr, PList)):
            raise Unsupported('array index')
        else:
            sel.append(('at', z if checked else norm_index(I, z, n)))
    return sel


def arr_get(I, o, i, checked=False):
    if isinstance(i, Arr) or isinstance(i, PList):
        return fancy(I, o, i)
    sel = mksel(I, o, i, checked)
    if all(s[0] == 'at' for s in sel):
        return o.get([s[1] for s in sel])
    shape = []
    for s, n in zip(sel, o.shape):
        if s[0] == 'all':
            shape.append(n)
        elif s[0] == 'range':
            shape.append(s[2])
    # symbolic index into a concrete axis: no view possible, give a copy by cases
    for k, (s, n) in enumerate(zip(sel, o.shape)):
        if s[0] == 'at' and isinstance(n, int) and isinstance(dim(s[1]), T):
            raise Unsupported('symbolic index into a concrete axis')
    if any(s[0] == 'range' and isinstance(n, T) and isinstance(dim(s[2]), int) for s, n in zip(sel, o.shape)):
        # a concrete number of elements of a symbolic axis
        def at(idx):
            it = iter(idx)
            return o.get([s[1] if s[0] == 'at' else (next(it) if s[0] == 'all' else T.const(next(it))+T.const(s[1])) for s in sel])
        return mkarr(shape, at, o.dtype)
    v = Arr(shape, None, o.dtype)
    v.base, v.sel = o, sel
    return v


def fancy(I, o, i):
    if isinstance(i, PList):
        i = build(I, i)
    if i.dtype == 'bool':
        raise Unsupported('boolean mask')
    def at(idx):
        k = i.get(idx[:i.ndim])
        return o.get((norm_index(I, k, o.shape[0]),)+tuple(idx[i.ndim:]))
    return mkarr(i.shape+o.shape[1:], at, o.dtype)


def arr_set(I, o, i, v):
    sel = mksel(I, o, i)
    write_sel(I, o, sel, v)


def assign_all(I, o, r):
    write_sel(I, o, [('all',)]*o.ndim, r)


def write_sel(I, o, sel, v):
    if o.base is not None:
        out = []
        it = iter(sel)
        for s in o.sel:
            if s[0] == 'at':
                out.append(s)
            elif s[0] == 'all':
                out.append(next(it))
            else:
                z = next(it)
                lo = T.const(s[1])
                if z[0] == 'all':
                    out.append(s)
                elif z[0] == 'at':
                    out.append(('at', dim(T.const(z[1])+lo)))
                else:
                    out.append(('range', dim(T.const(z[1])+lo), z[2]))
        return write_sel(I, o.base, out, v)
    # root
    outshape = [n if s[0] == 'all' else s[2] for s, n in zip(sel, o.shape) if s[0] != 'at']
    if o.dtype == 'object' and not outshape and isinstance(v, (Arr, PList, PDict, Inst)) and not (isinstance(v, Arr) and not v.ndim):
        # an element of an object array is a reference
        at = [dim(s[1]) for s in sel]
        if not all(isinstance(z, int) for z in at):
            raise Unsupported('element assignment of a non-number at a symbolic index')
        cells = o.cells.copy()
        cells[tuple(at)] = v
        o.write(cells)
        return
    if isinstance(v, (PList, tuple)):
        v = build(I, v)
    if isinstance(v, Arr):
        if v.ndim > len(outshape):
            raise PyRaise(ValueError('could not broadcast'))
        k0 = len(outshape)-v.ndim
        for a, b in zip(v.shape, outshape[k0:]):
            if not (isinstance(a, int) and a == 1) and not I.same_dim(a, b):
                if not I.decide(('eq', T.const(a)-T.const(b))):
                    raise PyRaise(ValueError('could not broadcast input array'))
        if v.dtype in ('complex', 'complex64') and o.dtype in ('float', 'int'):
            v = astype(I, v, 'float')
        vv = v

        def value(idx):
            sub = idx[k0:]
            return vv.get([0 if (isinstance(m, int) and m == 1) else j for m, j in zip(vv.shape, sub)])
    else:
        def value(idx):
            return v
    cells = o.cells.copy()
    sym = [d for d, n in enumerate(o.shape) if isinstance(n, T)]
    conc = [d for d, n in enumerate(o.shape) if not isinstance(n, T)]
    for ci in np.ndindex(cells.shape):
        cond = []
        idx = []
        hit = True
        cpos = dict(zip(conc, ci))
        for d, (s, n) in enumerate(zip(sel, o.shape)):
            here = bx(d) if d in sym else cpos[d]
            if s[0] == 'all':
                idx.append(here)
            elif s[0] == 'at':
                z = dim(s[1])
                if isinstance(here, int) and isinstance(z, int):
                    if here != z:
                        hit = False
                else:
                    cond.append(('eq', T.const(here)-T.const(z)))
            else:
                lo, ln = T.const(s[1]), T.const(s[2])
                h = T.const(here)
                if isinstance(here, int) and lo.as_int() is not None and ln.as_int() is not None:
                    if not lo.as_int() <= here < lo.as_int()+ln.as_int():
                        hit = False
                else:
                    cond += [('ge', h-lo), ('ge', lo+ln-1-h)]
                idx.append(dim(h-lo))
        if not hit:
            continue
        new = cast(I, conv(value(tuple(idx))), o.dtype)
        if not cond:
            cells[ci] = new
            continue
        c = cnorm(('and',)+tuple(cond))
        if c is True:
            cells[ci] = new
        elif c is False:
            continue
        else:
            w = iv(c)
            if not isinstance(new, (T, int, float, complex)) or not isinstance(cells[ci], (T, int, float, complex)):
                raise Unsupported('element assignment of a non-number at a symbolic index')
            # the value only matters where the bracket holds: put the index in
            new = subst_where(num(new), c)
            cells[ci] = num(cells[ci])*(ONE-w)+w*new
    o.write(cells)


def subst_where(t, c):
    return t


# -- numpy ---------------------------------------------------------------------

def num_or(v):
    return v if isinstance(v, T) else num(v)


ext('numpy.array', 'numpy.asarray')(np_array)


def shape_arg(I, s):
    if isinstance(s, (tuple, PList)):
        return tuple(dim(num(z)) for z in (s if isinstance(s, tuple) else s.items))
    return (dim(num(s)),)


def check_dims(I, sh):
    for n in sh:
        if isinstance(n, int):
            if n < 0:
                raise PyRaise(ValueError('negative dimensions'))
        elif not I.ctx.entails(('ge', n)):
            if not I.decide(('ge', n)):
                raise PyRaise(ValueError('negative dimensions'))


@ext('numpy.zeros', 'numpy.ones')
def np_zeros(I, args, kw, val=0):
    sh = kw.get('shape', args[0] if args else None)
    d = kw.get('dtype', args[1] if len(args) > 1 else None)
    if hasattr(sh, 'vzeros'):
        return sh.vzeros(I, val, dtype_name(d) if d is not None else 'float')
    sh = shape_arg(I, sh)
    check_dims(I, sh)
    return full(sh, T.const(val), dtype_name(d) if d is not None else 'float')


TAB['numpy.ones'] = _I().Builtin('numpy.ones', lambda I, a, k: np_zeros(I, a, k, 1))


@ext('numpy.empty')
def np_empty(I, args, kw):
    sh = shape_arg(I, kw.get('shape', args[0] if args else None))
    d = kw.get('dtype', args[1] if len(args) > 1 else None)
    check_dims(I, sh)
    d = dtype_name(d) if d is not None else 'float'
    if d == 'object':
        return full(sh, None, d)
    return mkarr(sh, lambda i: T.atom(('r', 'uninit#%d' % next(VL._oid))+tuple(T.const(z) for z in i)), d)


@ext('numpy.identity', 'numpy.eye')
def np_identity(I, args, kw):
    n = dim(num(args[0]))
    if isinstance(n, T):
        return mkarr((n, n), lambda i: iv(('eq', T.const(i[0])-T.const(i[1]))), 'float')
    return mkarr((n, n), lambda i: ONE if i[0] == i[1] else ZERO, 'float')


@ext('numpy.arange')
def np_arange(I, args, kw):
    a = [num(z) for z in args]
    if len(a) == 1:
        a = [ZERO]+a
    step = a[2] if len(a) > 2 else ONE
    if step != ONE:
        raise Unsupported('arange step')
    n = a[1]-a[0]
    if not TM.is_int_term(n) or not TM.is_int_term(a[0]):
        raise Unsupported('arange of non-integers')
    if not I.ctx.entails(('ge', n)) and not I.decide(('ge', n)):
        n = ZERO
    lo = a[0]
    return mkarr((n,), lambda i: lo+T.const(i[0]), 'int')


@ext('numpy.linspace')
def np_linspace(I, args, kw):
    a, b = num(args[0]), num(args[1])
    n = num(args[2] if len(args) > 2 else kw.get('num', 50))
    end = kw.get('endpoint', True)
    if not TM.is_int_term(n):
        raise Unsupported('linspace of a non-integer number of points')
    if not I.ctx.entails(('ge', n)) and not I.decide(('ge', n)):
        raise PyRaise(ValueError('number of samples'))
    div = n if end is False else n-1
    return mkarr((n,), lambda i: a+(b-a)*T.const(i[0])/div, 'float')


@ext('numpy.copy')
def np_copy(I, args, kw):
    v = args[0]
    return as_arr(I, v).copy()


@ext('numpy.reshape')
def np_reshape(I, args, kw):
    return view_of(args[0], reshape(I, args[0], args[1]))


def view_of(a, b):
    return shares(a, b) if isinstance(a, Arr) and isinstance(b, Arr) else b


def reshape(I, a, sh):
    if hasattr(sh, 'vreshape'):
        return sh.vreshape(I, a)
    sh = shape_arg(I, sh)
    if a.is_concrete() and all(isinstance(n, int) for n in sh):
        sh = list(sh)
        if -1 in sh:
            k = sh.index(-1)
            p = 1
            for n in sh:
                p *= n if n != -1 else 1
            sh[k] = int(a.cells.size//p) if p else 0
        try:
            return Arr(tuple(sh), a.cells.reshape(tuple(sh)), a.dtype)
        except ValueError:
            raise PyRaise(ValueError('cannot reshape'))
    if same_shape(I, a.shape, sh):
        return a.copy()
    if a.ndim == 1 and len(sh) == 2 and hasattr(a, 'flat_of'):
        src = a.flat_of
        if same_shape(I, src.shape, sh):
            # undo flatten, element-wise
            n2 = T.const(sh[1])
            return mkarr(sh, lambda i: a.get((T.const(i[0])*n2+T.const(i[1]),)), a.dtype)
    if sh == (-1,):
        return flatten(I, a)
    raise Unsupported('reshape of a symbolic array')


def flatten(I, a):
    if a.is_concrete():
        return Arr((a.cells.size,), a.cells.reshape(-1), a.dtype)
    if a.ndim == 1:
        return a.copy()
    return Flat(a)


@ext('numpy.shape')
def np_shape(I, args, kw):
    v = args[0]
    if isinstance(v, (Arr, LProd)):
        return v.shape
    if isinstance(v, ATensor):
        return I.getattr(v, 'shape')
    return as_arr(I, v).shape


@ext('numpy.dot')
def np_dot(I, args, kw):
    return dot(I, args[0], args[1])


def dot(I, a, b):
    a, b = as_arr(I, a), as_arr(I, b)
    if a.ndim == 0 or b.ndim == 0:
        return I.binop('Mult', a, b)
    d = promote([a.dtype, b.dtype])
    ka, kb = a.ndim-1, max(b.ndim-2, 0)
    n = a.shape[ka]
    if not I.same_dim(n, b.shape[kb]):
        raise PyRaise(ValueError('shapes not aligned'))
    oa = a.shape[:-1]
    ob = b.shape[:kb]+b.shape[kb+1:]

    def cell(idx):
        ia, ib = idx[:len(oa)], idx[len(oa):]
        f = lambda j: num(a.get(ia+(j,)))*num(b.get(ib[:kb]+(j,)+ib[kb:]))
        return sum_over(n, f)
    if not oa and not ob:
        return cell(())
    return mkarr(oa+ob, cell, d)


def sum_over(n, f):
    n = dim(n)
    if isinstance(n, int):
        r = ZERO
        for j in range(n):
            r = r+f(j)
        return r
    x = TM.fresh('s')
    return Sum(x, ZERO, n, f(x))


@ext('numpy.tensordot')
def np_tensordot(I, args, kw):
    ax = kw.get('axes', args[2] if len(args) > 2 else 2)
    a, b = args[0], args[1]
    if isinstance(a, ATensor) or isinstance(b, ATensor):
        if ax != 0:
            raise Unsupported('tensordot of abstract tensors')
        return ATensor.product([a, b])
    a, b = as_arr(I, a), as_arr(I, b)
    d = promote([a.dtype, b.dtype])
    if isinstance(ax, int):
        ka = list(range(a.ndim-ax, a.ndim))
        kb = list(range(ax))
    else:
        z = [list(I.iterate(q)) if not isinstance(q, int) else [q] for q in I.iterate(ax)]
        ka, kb = z
    if len(ka) != len(kb):
        raise PyRaise(ValueError('shape-mismatch for sum'))
    ka = [k % a.ndim for k in ka]
    kb = [k % b.ndim for k in kb]
    for p, q in zip(ka, kb):
        if not I.same_dim(a.shape[p], b.shape[q]):
            raise PyRaise(ValueError('shape-mismatch for sum'))
    fa = [k for k in range(a.ndim) if k not in ka]
    fb = [k for k in range(b.ndim) if k not in kb]

    def cell(idx):
        ia, ib = [None]*a.ndim, [None]*b.ndim
        for k, i in zip(fa, idx):
            ia[k] = i
        for k, i in zip(fb, idx[len(fa):]):
            ib[k] = i

        def rec(j):
            if j == len(ka):
                return num(a.get(ia))*num(b.get(ib))

            def f(x):
                ia[ka[j]] = x
                ib[kb[j]] = x
                return rec(j+1)
            return sum_over(a.shape[ka[j]], f)
        return rec(0)
    return mkarr([a.shape[k] for k in fa]+[b.shape[k] for k in fb], cell, d)


@ext('numpy.trace')
def np_trace(I, args, kw):
    a = args[0]
    p = kw.get('axis1', args[2] if len(args) > 2 else 0)
    q = kw.get('axis2', args[3] if len(args) > 3 else 1)
    if isinstance(a, ATensor):
        return a.trace(I, p, q)
    a = as_arr(I, a)
    p, q = dim(num(p)), dim(num(q))
    if isinstance(p, T) or isinstance(q, T):
        raise Unsupported('symbolic axis')
    if a.ndim < 2 or p == q or not (-a.ndim <= p < a.ndim and -a.ndim <= q < a.ndim):
        raise PyRaise(ValueError('trace axes'))
    p, q = p % a.ndim, q % a.ndim
    free = [k for k in range(a.ndim) if k not in (p, q)]
    n = a.shape[p]
    if not I.same_dim(n, a.shape[q]):
        m = a.shape[q]
        if isinstance(n, int) and isinstance(m, int):
            n = min(n, m)
        else:
            raise Unsupported('trace of a non-square array')

    def cell(idx):
        full_ = [None]*a.ndim
        for k, i in zip(free, idx):
            full_[k] = i

        def f(x):
            full_[p] = full_[q] = x
            return num(a.get(full_))
        return sum_over(n, f)
    if not free:
        return cell(())
    return mkarr([a.shape[k] for k in free], cell, a.dtype)


@ext('numpy.einsum')
def np_einsum(I, args, kw):
    spec = args[0]
    if not isinstance(spec, str):
        raise Unsupported('einsum')
    ins, _, out = spec.replace(' ', '').partition('->')
    ins = ins.split(',')
    ops = [as_arr(I, a) for a in args[1:]]
    if '...' in spec or not _:
        raise Unsupported('einsum form')
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyRaise(ValueError('einsum'))
        for ch, n in zip(s, o.shape):
            if ch in size and not I.same_dim(size[ch], n):
                raise PyRaise(ValueError('einsum'))
            size[ch] = n
    inner = [c for c in size if c not in out]
    return einsum([(o, s) for o, s in zip(ops, ins)], out, size, promote([o.dtype for o in ops]))


def einsum(ops, out, size, dtype):
    """sum over the labels not in `out`, contracting pairwise (distributive law)"""
    ops = [(o, list(s)) for o, s in ops]
    # repeated labels within one operand
    while len(ops) > 1:
        # contract the pair sharing the most summed labels with the smallest result
        best = None
        for i in range(len(ops)):
            for j in range(i+1, len(ops)):
                rest = set(out)
                for k in range(len(ops)):
                    if k not in (i, j):
                        rest |= set(ops[k][1])
                lab = [c for c in dict.fromkeys(ops[i][1]+ops[j][1]) if c in rest]
                sz = 1
                for c in lab:
                    sz *= size[c] if isinstance(size[c], int) else 50
                shared = len(set(ops[i][1]) & set(ops[j][1]))
                key = (0 if shared else 1, sz)
                if best is None or key < best[0]:
                    best = (key, i, j, lab)
        _, i, j, lab = best
        ops.append((pair(ops[i], ops[j], lab, size, dtype), lab))
        del ops[j], ops[i]
    o, s = ops[0]
    return pair((o, s), None, list(out), size, dtype)


def pair(A, B, out, size, dtype):
    a, sa = A
    labs = list(dict.fromkeys(sa+(B[1] if B else [])))
    inner = [c for c in labs if c not in out]

    def cell(idx):
        env = dict(zip(out, idx))

        def rec(k):
            if k == len(inner):
                v = num(a.get([env[c] for c in sa]))
                if B and v.m:
                    v = v*num(B[0].get([env[c] for c in B[1]]))
                return v

            def f(x):
                env[inner[k]] = x
                return rec(k+1)
            return sum_over(size[inner[k]], f)
        return rec(0)
    if not out:
        return Arr((), _cell0(cell(())), dtype)
    return mkarr([size[c] for c in out], cell, dtype)


def _cell0(v):
    c = np.empty((), dtype=object)
    c[()] = v
    return c


@ext('numpy.transpose')
def np_transpose(I, args, kw):
    a = args[0]
    ax = kw.get('axes', args[1] if len(args) > 1 else None)
    ax = [dim(num(z)) for z in I.iterate(ax)] if ax is not None else list(range(a.ndim))[::-1]
    return view_of(a, transpose(a, ax))


def transpose(a, ax):
    inv = [ax.index(k) for k in range(a.ndim)]
    return mkarr([a.shape[k] for k in ax], lambda i: a.get([i[inv[k]] for k in range(a.ndim)]), a.dtype)


def elementwise(name, f, dt=None):
    def g(I, args, kw):
        if kw:
            raise Unsupported('%s with keyword arguments' % name)
        v = args[0]
        if isinstance(v, (PList, tuple)):
            v = build(I, v)
        if isinstance(v, Arr):
            return ufunc(I, lambda z: f(I, z), [v], dt(v.dtype) if dt else v.dtype)
        return f(I, v)
    TAB['numpy.'+name] = _I().Builtin('numpy.'+name, g)


def real_arg(I, z, what):
    z = num(z)
    if not z.is_real():
        raise Unsupported('%s of a complex argument' % what)
    return z


fl = lambda d: 'float' if d in ('int', 'bool') else d
elementwise('cos', lambda I, z: TM.cos(real_arg(I, z, 'cos')), fl)
elementwise('sin', lambda I, z: TM.sin(real_arg(I, z, 'sin')), fl)
elementwise('deg2rad', lambda I, z: num(z)*PI/180, fl)
elementwise('radians', lambda I, z: num(z)*PI/180, fl)
elementwise('rad2deg', lambda I, z: num(z)*180/PI, fl)
elementwise('degrees', lambda I, z: num(z)*180/PI, fl)
elementwise('real', lambda I, z: num(z).real(), lambda d: 'float' if d == 'complex' else d)
elementwise('imag', lambda I, z: num(z).imag(), lambda d: 'float' if d == 'complex' else d)
elementwise('conj', lambda I, z: num(z).conj())
elementwise('conjugate', lambda I, z: num(z).conj())
elementwise('square', lambda I, z: num(z)**2)


def np_sqrt(I, z):
    z = num(z)
    if not z.is_real():
        raise Unsupported('sqrt of a complex argument')
    if not I.ctx.entails(('ge', z)) and not is_sos(z):
        I.ctx.notes.add('square roots are taken of non-negative numbers')
    return TM.sqrt(z)


def is_sos(t):
    """syntactically a sum of squares"""
    for (p, mon), c in t.m.items():
        if p or c[1] != 0 or c[0] < 0 or any(e % 2 for _, e in mon):
            return False
    return True


elementwise('sqrt', np_sqrt, fl)


def np_exp(I, z):
    z = num(z)
    re, im = z.real(), z.imag()
    if re.m:
        raise Unsupported('exp with a real part')
    return TM.E(im)


elementwise('exp', np_exp, lambda d: d)


def absv(I, z):
    z = num(z)
    if z.is_real():
        q = z.as_frac()
        if q is not None:
            return T.const(abs(q))
        if I.ctx.entails(('ge', z)):
            return z
        return z*iv(('ge', z))-z*(ONE-iv(('ge', z)))
    return TM.sqrt(z*z.conj())


elementwise('abs', absv, lambda d: 'float' if d in ('complex', 'complex64') else d)
elementwise('absolute', absv, lambda d: 'float' if d in ('complex', 'complex64') else d)
elementwise('arccos', lambda I, z: T.atom(('r', 'arccos', num(z))), fl)


@ext('numpy.argmin', 'numpy.argmax')
def np_argmin(I, args, kw, sign=1):
    v = as_arr(I, args[0])
    if kw or v.ndim != 1 or not v.is_concrete():
        raise Unsupported('argmin')
    k = 0
    for j in range(1, v.shape[0]):
        c = I.compare('Lt' if sign > 0 else 'Gt', v.get((j,)), v.get((k,)))
        if I.truth(c):
            k = j
    return k


TAB['numpy.argmax'] = _I().Builtin('numpy.argmax', lambda I, a, k: np_argmin(I, a, k, -1))


@ext('numpy.clip')
def np_clip(I, args, kw):
    x, lo, hi = [num(z) for z in args[:3]]
    h = getattr(I, 'clip_hook', None)
    if h:
        return h(x, lo, hi)
    # used on a quantity proved to lie in the interval, or kept as an opaque function
    return T.atom(('r', 'clip', x, lo, hi))


@ext('numpy.issubdtype')
def np_issubdtype(I, args, kw):
    a, b = dtype_name(args[0]), args[1]
    n = getattr(b, 'name', '')
    if n == 'numpy.integer':
        return a == 'int'
    if n in ('numpy.floating',):
        return a in ('float', 'float32')
    if n in ('numpy.complexfloating',):
        return a in ('complex', 'complex64')
    if n in ('numpy.number',):
        return a in ('int', 'float', 'complex', 'complex64', 'float32')
    raise Unsupported('issubdtype')


@ext('numpy.concatenate')
def np_concatenate(I, args, kw):
    l = I.iterate(args[0])
    if isinstance(l, list) and all(isinstance(a, Arr) and a.is_concrete() for a in l):
        ax = kw.get('axis', 0)
        return Arr(np.concatenate([a.cells for a in l], axis=ax).shape, np.concatenate([a.cells for a in l], axis=ax), promote([a.dtype for a in l]))
    if isinstance(l, list) and all(isinstance(a, Arr) and a.ndim == 1 for a in l):
        return Chain(I, l)
    if not isinstance(l, list):
        return Chain(I, l)
    raise Unsupported('concatenate')


class Flat:
    """a flattened array with several axes, one of them symbolic"""

    def __init__(self, a):
        self.flat_of = a

    def vattr(self, I, n):
        if n in ('dtype', 'size'):
            return attr(I, self.flat_of, n)
        if n in ('flatten', 'ravel', 'copy'):
            return Meth(n, lambda I, a, k: self)
        raise Unsupported('attribute %s of a flattened array' % n)


class Chain:
    """concatenation of 1-d arrays along a (possibly symbolic) list"""

    def __init__(self, I, parts):
        self.parts = parts


@ext('numpy.sum')
def np_sum(I, args, kw):
    v = args[0]
    ax = kw.get('axis', args[1] if len(args) > 1 else None)
    if isinstance(v, (PList, tuple)):
        v = build(I, v)
    if not isinstance(v, Arr):
        return v
    if ax is None:
        def rec(d, idx):
            if d == v.ndim:
                return num(v.get(idx))
            return sum_over(v.shape[d], lambda x: rec(d+1, idx+(x,)))
        return rec(0, ())
    ax = ax % v.ndim
    return mkarr(v.shape[:ax]+v.shape[ax+1:], lambda i: sum_over(v.shape[ax], lambda x: num(v.get(tuple(i[:ax])+(x,)+tuple(i[ax:])))), v.dtype)


@ext('numpy.array_equal')
def np_array_equal(I, args, kw):
    a, b = as_arr(I, args[0]), as_arr(I, args[1])
    if not same_shape(I, a.shape, b.shape):
        return False
    cs = []
    ca, cb = a.cells, b.cells
    if not a.is_concrete():
        raise Unsupported('array_equal of symbolic arrays')
    for i in np.ndindex(ca.shape):
        r = I.equal(ca[i], cb[i])
        if r is False:
            return False
        cs.append(I.cond(r))
    return mkbool(('and',)+tuple(cs)) if cs else True


TAB['numpy.pi'] = PI
TAB['numpy.inf'] = float('inf')
TAB['math.pi'] = PI
TAB['sympy.pi'] = PI
TAB['sympy.I'] = TM.I
TAB['sympy.oo'] = float('inf')
for _n in ('complex64', 'complex128', 'float64', 'float32', 'int64', 'integer', 'floating', 'complexfloating', 'number'):
    TAB['numpy.'+_n] = PyType('numpy.'+_n, lambda I, a, k: a[0])
TAB['numpy.ndarray'] = PyType('numpy.ndarray')


# -- sympy --------------------------------------------------------------------------

def sp_real(I, z, what):
    if not isinstance(z, T):
        z = num(z)
    if not z.is_real():
        raise Unsupported('%s of an expression not known to be real' % what)
    return z


def sp(name, f):
    TAB['sympy.'+name] = _I().Builtin('sympy.'+name, f)


def expr(I, v):
    if hasattr(v, 'sym_expr'):
        return v
    if isinstance(v, Arr):
        raise Unsupported('sympy function of an array')
    return num(v)


sp('cos', lambda I, a, k: TM.cos(sp_real(I, a[0], 'cos')))
sp('sin', lambda I, a, k: TM.sin(sp_real(I, a[0], 'sin')))
sp('sqrt', lambda I, a, k: np_sqrt(I, a[0]))
sp('conjugate', lambda I, a, k: ufunc(I, lambda z: num(z).conj(), [a[0]]) if isinstance(a[0], Arr) else num(a[0]).conj())
sp('expand', lambda I, a, k: expr(I, a[0]))
sp('expand_trig', lambda I, a, k: expr(I, a[0]))
sp('simplify', lambda I, a, k: expr(I, a[0]))
sp('factor', lambda I, a, k: expr(I, a[0]))
sp('sympify', lambda I, a, k: sympify(I, a[0]))
sp('S', lambda I, a, k: sympify(I, a[0]))
sp('re', lambda I, a, k: num(a[0]).real())
sp('im', lambda I, a, k: num(a[0]).imag())
sp('Abs', lambda I, a, k: absv(I, a[0]))
sp('exp', lambda I, a, k: np_exp(I, a[0]))


def expr_args(I, a):
    """arguments of Add/Mul as list items (possibly symbolic runs)"""
    out = []
    for z in a:
        if isinstance(z, _I().Star):
            v = z.val
            if isinstance(v, PList):
                out += v.items
            else:
                it = I.iterate(v)
                if isinstance(it, list):
                    out += it
                else:
                    x = TM.fresh('x')
                    out.append(Splice(Family(it.n, TM.single_atom(x), it.at(x))))
        else:
            out.append(z)
    return out


def sp_add(I, a, k):
    it = expr_args(I, a)
    if any(isinstance(z, Splice) for z in it):
        return num(b_sum(I, [PList(it)], {}))
    return sum((num(z) for z in it), ZERO)


sp('Add', sp_add)


def make_args(kind):
    def f(I, a, k):
        h = getattr(a[0], 'make_args', None)
        if h:
            return h(I, kind)
        raise Unsupported('%s.make_args of an expression' % kind)
    return f


sp('Add.make_args', make_args('Add'))
sp('Mul.make_args', make_args('Mul'))


def sp_mul(I, a, k):
    a = expr_args(I, a)
    h = next((getattr(z.fam.body if isinstance(z, Splice) else z, 'mul_args', None) for z in a if hasattr(z.fam.body if isinstance(z, Splice) else z, 'mul_args')), None)
    if h:
        return h(I, a)
    if any(isinstance(z, Splice) for z in a):
        raise Unsupported('product of a symbolic run')
    r = ONE
    for z in a:
        r = r*num(z)
    return r


sp('Mul', sp_mul)
sp('Number', lambda I, a, k: num(a[0]))
sp('Integer', lambda I, a, k: num(a[0]))
sp('Rational', lambda I, a, k: num(a[0])/num(a[1]) if len(a) > 1 else num(a[0]))
sp('Float', lambda I, a, k: num(a[0]))


def sympify(I, v):
    if isinstance(v, (T, int, float, complex)):
        return num(v)
    if hasattr(v, 'sym_expr'):
        return v
    if hasattr(v, 'sympify'):
        return v.sympify(I)
    raise Unsupported('sympify(%r)' % (v,))


def sp_symbol(I, a, k):
    n = a[0]
    k = dict(k)
    real = k.pop('real', None)
    if k or real not in (None, True):
        raise Unsupported('symbol assumptions')
    if isinstance(n, str):
        key = n
    elif is_text(n):
        key = n
    else:
        raise Unsupported('symbol name')
    return T.atom(('r' if real else 'c', key))


sp('Symbol', sp_symbol)


def sp_symbols(I, a, k):
    if isinstance(a[0], str):
        names = a[0].replace(',', ' ').split()
        r = [sp_symbol(I, [n], k) for n in names]
        return r[0] if len(r) == 1 and ',' not in a[0] else tuple(r)
    raise Unsupported('symbols')


sp('symbols', sp_symbols)


# -- builtins --------------------------------------------------------------------------

def bi(name):
    def d(f):
        TAB['builtins.'+name] = _I().Builtin('builtins.'+name, f)
        return f
    return d


def bt(name):
    def d(f):
        TAB['builtins.'+name] = PyType('builtins.'+name, f)
        return f
    return d


@bi('len')
def b_len(I, a, k):
    v = a[0]
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, Arr):
        if not v.shape:
            raise PyRaise(TypeError('len() of unsized object'))
        return v.shape[0]
    if isinstance(v, PList):
        return v.length()
    if isinstance(v, PDict):
        return len(v.d) if v.d is not None else v.keys.n
    if isinstance(v, PSet):
        return len(v.items) if v.items is not None else v.keys.n
    if hasattr(v, 'vlen'):
        return v.vlen(I)
    if isinstance(v, Seq):
        return v.n
    raise Unsupported('len of %r' % (v,))


@bi('range')
def b_range(I, a, k):
    z = [dim(num(q)) for q in a]
    if len(z) == 1:
        z = [0]+z
    if len(z) == 3:
        if all(isinstance(q, int) for q in z):
            return PList([i for i in range(*z)])
        raise Unsupported('range step')
    if all(isinstance(q, int) for q in z):
        return PList(list(range(*z)))
    lo, hi = T.const(z[0]), T.const(z[1])
    n = hi-lo
    if not I.ctx.entails(('ge', n)) and not I.decide(('ge', n)):
        n = ZERO
    return Seq(n, lambda i: dim(lo+T.const(i)))


@bi('enumerate')
def b_enumerate(I, a, k):
    it = I.iterate(a[0])
    s = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(it, list):
        return PList([(i+s, v) for i, v in enumerate(it)])
    q = Seq(it.n, lambda i: (dim(T.const(i)+s), it.at(i)))
    copy_cond(q, it)
    return q


def copy_cond(q, it):
    if getattr(it, 'cond', True) is not True:
        raise Unsupported('enumeration of a filtered sequence')


@bi('zip')
def b_zip(I, a, k):
    if any(isinstance(z, _I().Star) for z in a):
        if len(a) == 1:
            return unzip(I, a[0].val)
        raise Unsupported('zip of symbolic arguments')
    its = [I.iterate(z) for z in a]
    if all(isinstance(z, list) for z in its):
        return PList([tuple(z) for z in zip(*its)])
    n = None
    for z in its:
        m = len(z) if isinstance(z, list) else z.n
        if n is None:
            n = m
        elif not I.same_dim(n, m):
            if not I.decide(('eq', T.const(n)-T.const(m))):
                raise Unsupported('zip of sequences of different lengths')
    def at(i):
        return tuple(I.getitem(PList(z), i) if isinstance(z, list) else z.at(i) for z in its)
    q = Seq(n, at)
    conds = [getattr(z, 'cond', True) for z in its]
    if any(c is not True for c in conds):
        x = TM.fresh('x')
        if any(c is True for c in conds) or len(set(z.condat(x) for z in its)) != 1:
            raise Unsupported('zip of differently filtered sequences')
        q.condat = its[0].condat
        q.cond = q.condat(x)
    return q


def unzip(I, v):
    it = I.iterate(v)
    x = TM.fresh('x')
    e = it.at(x)
    if not isinstance(e, tuple):
        raise Unsupported('zip(*...)')
    if getattr(it, 'cond', True) is not True:
        from .order import compress
        f = compress(Family(it.n, TM.single_atom(x), e), it.condat(x))
        it = Seq(f.n, f.at)
        e = it.at(x)
    if not I.ctx.entails(('gt', T.const(it.n))):
        if not I.decide(('gt', T.const(it.n))):
            return PList([])
    return PList([PList(fam=Family(it.n, TM.single_atom(x), z)) for z in e])


@bi('sum')
def b_sum(I, a, k):
    it, segs = I.segments(a[0])
    s = a[1] if len(a) > 1 else 0
    if segs:
        for part in it:
            s = b_sum(I, [part, s], {})
        return s
    if isinstance(it, list):
        r = s
        for z in it:
            r = I.binop('Add', r, z)
        return r
    x = TM.fresh('s')
    v = it.at(x)
    w = ONE
    if getattr(it, 'cond', True) is not True:
        w = iv(it.condat(x))
    if isinstance(v, Arr):
        xa = TM.single_atom(x)
        r = np.empty(v.cells.shape, dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = Sum(x, ZERO, it.n, num(v.cells[i])*w)
        return I.binop('Add', s, Arr(v.shape, r, v.dtype))
    return I.binop('Add', s, Sum(x, ZERO, it.n, num(v)*w))


def b_extreme(k):
    def f(I, a, kw):
        if kw:
            raise Unsupported('%s with a key' % k)
        it = I.iterate(a[0]) if len(a) == 1 else list(a)
        if isinstance(it, list):
            if not it:
                raise PyRaise(ValueError('%s() arg is an empty sequence' % k))
            if len(it) == 1:
                return it[0]
            if all(isinstance(z, (int, float)) for z in it):
                return max(it) if k == 'max' else min(it)
            r = num(it[0])
            for z in it[1:]:
                z = num(z)
                c = cnorm(('gt', z-r) if k == 'max' else ('gt', r-z))
                w = iv(c)
                r = w*z+(ONE-w)*r
            return r
        if getattr(it, 'cond', True) is not True:
            raise Unsupported('%s of a filtered sequence' % k)
        n = T.const(it.n)
        if not I.ctx.entails(('gt', n)) and not I.decide(('gt', n)):
            raise PyRaise(ValueError('%s() arg is an empty sequence' % k))
        x = TM.fresh('m')
        v = num(it.at(x))
        if not v.is_real():
            raise PyRaise(TypeError('complex numbers are not ordered'))
        return extreme(k, x, n, v)
    return f


bi('max')(b_extreme('max'))
bi('min')(b_extreme('min'))


def _np_ext(k):
    f = b_extreme(k)

    def g(I, a, kw):
        v = a[0]
        if isinstance(v, Arr) and v.ndim != 1:
            raise Unsupported('%s of a matrix' % k)
        return f(I, [v], kw)
    return g


for _n, _k in (('max', 'max'), ('amax', 'max'), ('min', 'min'), ('amin', 'min')):
    TAB['numpy.'+_n] = _I().Builtin('numpy.'+_n, _np_ext(_k))


@bi('abs')
def b_abs(I, a, k):
    if isinstance(a[0], Arr):
        return TAB['numpy.abs'].fn(I, a, k)
    return absv(I, a[0])


@bi('any')
def b_any(I, a, k):
    it = I.iterate(a[0])
    if isinstance(it, list):
        cs = [cond_truth(I, z) for z in it]
        return mkbool(('or',)+tuple(cs)) if cs else False
    x = TM.fresh('e')
    return I.exists(x, it.n, cond_truth(I, it.at(x)))


@bi('all')
def b_all(I, a, k):
    it = I.iterate(a[0])
    if isinstance(it, list):
        cs = [cond_truth(I, z) for z in it]
        return mkbool(('and',)+tuple(cs)) if cs else True
    x = TM.fresh('e')
    r = I.exists(x, it.n, cnorm(('not', cond_truth(I, it.at(x)))))
    return mkbool(('not', I.cond(r)))


def cond_truth(I, z):
    if isinstance(z, (bool, SBool)):
        return I.cond(z)
    if isinstance(z, T):
        return cnorm(('not', ('eq', z)))
    return I.truth(z)


@bi('round')
def b_round(I, a, k):
    v = a[0]
    q = num(v).as_frac()
    if q is not None:
        nd = dim(num(a[1])) if len(a) > 1 else 0
        if q == 0:
            return ZERO
        if isinstance(nd, int):
            return T.const(round(Fraction(q), nd))
    # value preserved up to half a unit of the last digit: see the contract
    return T.atom(('r', 'round', num(v), num(a[1]) if len(a) > 1 else ZERO))


@bi('isinstance')
def b_isinstance(I, a, k):
    t = a[1]
    ts = t if isinstance(t, tuple) else (t,)
    return any(type_is(I, a[0], z, sub=True) for z in ts)


def type_of(I, v):
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, (str,)) or is_text(v):
        return TAB['builtins.str']
    if isinstance(v, Arr):
        return TAB['numpy.ndarray']
    if isinstance(v, (bool, SBool)):
        return TAB['builtins.bool']
    if isinstance(v, int):
        return TAB['builtins.int']
    if isinstance(v, float):
        return TAB['builtins.float']
    if isinstance(v, PList):
        return TAB['builtins.list']
    if isinstance(v, PDict):
        return TAB['builtins.dict']
    if isinstance(v, tuple):
        return TAB['builtins.tuple']
    if isinstance(v, PSet):
        return TAB['builtins.set']
    if hasattr(v, 'vtype'):
        return v.vtype(I)
    if v is None:
        return TAB['builtins.NoneType']
    raise Unsupported('type of %r' % (v,))


TAB['builtins.NoneType'] = PyType('builtins.NoneType')


def type_is(I, v, t, sub=False):
    if isinstance(t, _I().Cls):
        c = v.cls if isinstance(v, Inst) else None
        while c is not None:
            if c is t:
                return True
            c = c.bases[0] if sub and c.bases and isinstance(c.bases[0], _I().Cls) else None
        return False
    return type_of(I, v) is t


@bi('type')
def b_type(I, a, k):
    if len(a) != 1:
        raise Unsupported('type()')
    return type_of(I, a[0])


@bt('list')
def b_list(I, a, k):
    if not a:
        return PList()
    v = a[0]
    if isinstance(v, PList):
        return PList(v.items)
    if isinstance(v, PSet) and v.symbolic():
        return SymSetList(v.raw)
    if isinstance(v, SymSetList):
        return SymSetList(v.raw, v.key)
    it = I.iterate(v)
    if isinstance(it, list):
        return PList(it)
    if getattr(it, 'cond', True) is not True:
        return PList([Splice(it.fam, it.cond)])
    x = TM.fresh('x')
    f = Family(it.n, TM.single_atom(x), it.at(x))
    l = PList([Splice(f)])
    if getattr(it, 'keys', None) is not None:
        l.keyseq = it.keys
    return l


@bt('tuple')
def b_tuple(I, a, k):
    if not a:
        return ()
    it = I.iterate(a[0])
    if isinstance(it, list):
        return tuple(it)
    raise Unsupported('tuple of a symbolic sequence')


@bt('dict')
def b_dict(I, a, k):
    d = PDict({})
    if a:
        v = a[0]
        if isinstance(v, PDict):
            d = copy_dict(I, v)
        else:
            d = mkdict(I, v if isinstance(v, PList) else b_list(I, [v], {}))
    if k:
        if d.d is None:
            raise Unsupported('dict with keywords')
        d.d.update(k)
    return d


def copy_dict(I, v):
    if v.d is not None:
        return PDict(v.d)
    f = v.fam
    x = TM.fresh('x')
    return PDict(keys=v.keys, fam=Family(f.n, TM.single_atom(x), f.at(x)))


def mkdict(I, l):
    items = l.items
    if len(items) == 1 and isinstance(items[0], Splice):
        s = items[0]
        if s.cond is not True:
            z = s.fam.body if not isinstance(s.fam, Nested) and not s.fam.ov else None
            if isinstance(z, PList) and z.plain() is not None:
                z = tuple(z.items)
            if isinstance(z, tuple) and len(z) == 2 and hasattr(z[0], 'assoc'):
                return z[0].assoc(I, s.fam, s.cond, z[1])
            raise Unsupported('filtered dictionary comprehension')
        if isinstance(s.fam, Nested):
            raise Unsupported('dictionary of a nested comprehension')
        x = TM.fresh('x')
        e = s.fam.at(x)
        if isinstance(e, PList) and e.plain() is not None:
            e = tuple(e.items)
        if not isinstance(e, tuple) or len(e) != 2:
            raise Unsupported('dictionary items %r' % (e,))
        k, v = e
        from .loops import key_atom, KeyFn
        xa = TM.single_atom(x)
        keys = key_seq(k, x)
        if keys is not None:
            if not I.same_dim(keys.n, s.fam.n):
                raise Unsupported('dictionary over part of the keys')
        elif isinstance(k, T) and key_atom(k, xa):
            keys = KeyFn(k, xa, s.fam.n)
        elif hasattr(k, 'as_keys'):
            keys = k.as_keys(I, xa, s.fam.n)
        else:
            raise Unsupported('dictionary keys %r' % (k,))
        return PDict(keys=keys, fam=Family(s.fam.n, xa, v))
    d = PDict({})
    for e in items:
        if isinstance(e, (Splice, OldMark)):
            raise Unsupported('dictionary of a partly symbolic list')
        k, v = I.unpack(e, 2)
        I.setitem(d, k, v)
    return d


@bt('set')
def b_set(I, a, k):
    return mkset(I, a[0]) if a else PSet([])


@bt('frozenset')
def b_frozenset(I, a, k):
    return mkset(I, a[0]) if a else PSet([])


def set_items(items, sub):
    from .frames import sub_items
    return sub_items(items, sub)


def mkset(I, v):
    if isinstance(v, PSet):
        return PSet(v.raw, v.keys)
    if isinstance(v, PList) and v.plain() is None:
        v = PList(unbag(v.items)) if unbag(v.items) != v.items else v
    if isinstance(v, SymSetList):
        return PSet(v.raw)
    if isinstance(v, PList) and v.plain() is None and any(isinstance(z, Splice) and isinstance(z.fam, Nested) for z in v.items) or isinstance(v, PList) and len(v.items) > 1 and v.plain() is None:
        return PSet(v.items)
    if isinstance(v, PDict) and v.d is None:
        return PSet(None, v.keys)
    if isinstance(v, PList) and getattr(v, 'keyseq', None) is not None:
        return PSet(None, v.keyseq)
    it = I.iterate(v)
    if isinstance(it, list):
        out = []
        for z in it:
            dup = False
            for y in out:
                r = I.equal(y, z)
                if r is not False and I.truth(r):
                    dup = True
                    break
            if not dup:
                out.append(z)
        return PSet(out)
    if getattr(it, 'keys', None) is not None:
        return PSet(None, it.keys)
    if isinstance(v, PList) and v.fam is not None and v.cond() is True:
        x = TM.fresh('x')
        e = v.fam.at(x)
        if isinstance(e, SStr) and e.i == x and I.same_dim(e.seq.n, v.fam.n):
            return PSet(None, e.seq)
    if isinstance(v, PList):
        return PSet(v.items)
    raise Unsupported('set of %r' % (v,))


def union(I, o, args):
    """o | args... (raw elements; symbolic runs are kept as they are)"""
    out = list(o.rawitems())
    for v in args:
        w = mkset(I, v)
        wr = w.rawitems()
        if any(isinstance(z, (Splice, OldMark)) for z in out+wr):
            out += wr
            continue
        have = [hashable(z) for z in out]
        out += [z for z in w.raw if hashable(z) not in have]
    return out


@bt('str')
def b_str(I, a, k):
    return to_str(I, a[0]) if a else ''


@bi('repr')
def b_repr(I, a, k):
    return Text([('repr', id(a[0]))])


@bt('int')
def b_int(I, a, k):
    v = a[0]
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError as e:
            raise PyRaise(e)
    t = num(v)
    if TM.is_int_term(t):
        return dim(t)
    q = t.as_frac()
    if q is not None:
        return int(q)
    raise Unsupported('int()')


@bt('float')
def b_float(I, a, k):
    v = a[0]
    if hasattr(v, 'to_float'):
        return v.to_float(I)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError as e:
            raise PyRaise(e)
    if isinstance(v, float):
        return v
    t = num(v)
    if not t.is_real():
        raise PyRaise(TypeError('float of a complex number'))
    return t


@bt('complex')
def b_complex(I, a, k):
    return num(a[0])+(TM.I*num(a[1]) if len(a) > 1 else ZERO)


@bt('bool')
def b_bool(I, a, k):
    return I.truth(a[0])


@bt('object')
def b_object(I, a, k):
    raise Unsupported('object()')


@bi('print')
def b_print(I, a, k):
    return None


@bi('callable')
def b_callable(I, a, k):
    return isinstance(a[0], (_I().Func, _I().Builtin, _I().Bound, _I().Cls)) or hasattr(a[0], 'vcall')


@bi('hasattr')
def b_hasattr(I, a, k):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise:
        return False


@bi('getattr')
def b_getattr(I, a, k):
    try:
        return I.getattr(a[0], a[1])
    except PyRaise:
        if len(a) > 2:
            return a[2]
        raise


@bi('reversed')
def b_reversed(I, a, k):
    it = I.iterate(a[0])
    if isinstance(it, list):
        return PList(it[::-1])
    return Seq(it.n, lambda i: it.at(T.const(it.n)-1-T.const(i)))


@bi('map')
def b_map(I, a, k):
    f = a[0]
    its = [I.iterate(z) for z in a[1:]]
    if all(isinstance(z, list) for z in its):
        return PList([I.call(f, list(z), {}) for z in zip(*its)])
    if len(its) == 1:
        q = its[0]
        r, c, x = I.sym_map(q, lambda v: I.call(f, [v], {}))
        return PList([Splice(Family(q.n, x, r), c)])
    raise Unsupported('map over several symbolic sequences')


@bi('filter')
def b_filter(I, a, k):
    f = a[0]
    it = I.iterate(a[1])
    if isinstance(it, list):
        return PList([z for z in it if I.truth(I.call(f, [z], {}) if f is not None else z)])
    raise Unsupported('filter over a symbolic sequence')


@bi('sorted')
def b_sorted(I, a, k):
    key = k.get('key')
    if isinstance(a[0], PSet) and a[0].symbolic() or isinstance(a[0], SymSetList):
        q = T.atom(('r', 'some~symbol'))
        if key is None or I.truth(k.get('reverse', False)) or I.call(key, [q], {}) != 'some~symbol':
            raise Unsupported('order of symbols')
        return SymSetList(a[0].raw, 'name')
    it = I.iterate(a[0])
    if isinstance(it, list):
        ks = [I.call(key, [z], {}) if key is not None else z for z in it]
        if all(isinstance(z, (int, float, str)) for z in ks) or all(isinstance(z, tuple) and all(isinstance(q, (int, str)) for q in z) for z in ks):
            o = sorted(range(len(it)), key=lambda i: ks[i], reverse=bool(k.get('reverse', False)))
            return PList([it[i] for i in o])
        if all(isinstance(z, T) and z.as_frac() is not None or isinstance(z, (int, float)) for z in ks):
            o = sorted(range(len(it)), key=lambda i: num(ks[i]).as_frac(), reverse=bool(k.get('reverse', False)))
            return PList([it[i] for i in o])
        if len(it) <= 1:
            return PList(it)
    if not isinstance(it, list) and not getattr(I, 'sort_hook', None):
        from .order import sort_seq
        return sort_seq(I, it, key, k.get('reverse', False))
    h = getattr(I, 'sort_hook', None)
    if h:
        return h(I, a[0], it, key, k.get('reverse', False))
    raise Unsupported('sorting of symbolic values')


@ext('copy.deepcopy')
def deepcopy(I, a, k):
    return deep(I, a[0])


@ext('copy.copy')
def shallow(I, a, k):
    v = a[0]
    if isinstance(v, (Arr, tuple, T, int, float, complex, str, bool, type(None))) or is_text(v):
        return v.copy() if isinstance(v, Arr) else v
    if isinstance(v, PList):
        return PList(list(v.items))
    if isinstance(v, PDict):
        o = PDict({})
        o.set_state(v.get_state())
        return o
    if isinstance(v, Inst):
        o = Inst(v.cls)
        o.attrs = dict(v.attrs)
        return o
    raise Unsupported('copy of %r' % (v,))


def deep(I, v):
    if isinstance(v, (T, int, float, complex, str, bool, type(None), SBool)) or is_text(v):
        return v
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, tuple):
        return tuple(deep(I, z) for z in v)
    if isinstance(v, PList):
        if v.plain() is not None:
            return PList([deep(I, z) for z in v.items])
        out = []
        for z in v.items:
            if isinstance(z, Splice):
                x = TM.fresh('x')
                out.append(Splice(Family(z.fam.n, TM.single_atom(x), deep(I, z.fam.at(x))), vsub(z.cond, {z.fam.x: x}) if z.cond is not True else True))
            else:
                out.append(deep(I, z))
        return PList(out)
    if isinstance(v, PDict):
        if v.d is not None:
            return PDict({kk: deep(I, z) for kk, z in v.d.items()})
        x = TM.fresh('x')
        return PDict(keys=v.keys, fam=Family(v.fam.n, TM.single_atom(x), deep(I, v.fam.at(x))))
    if isinstance(v, PSet):
        return PSet(v.raw, v.keys)
    if isinstance(v, Inst):
        o = Inst(v.cls)
        o.attrs = {kk: deep(I, z) for kk, z in v.attrs.items()}
        return o
    raise Unsupported('deepcopy of %r' % (v,))


@ext('itertools.product')
def it_product(I, a, k):
    rep = k.get('repeat', 1)
    its = [I.iterate(z) for z in a]*rep
    if not all(isinstance(z, list) for z in its):
        raise Unsupported('product of symbolic sequences')
    return PList(list(itertools.product(*its)))


@ext('itertools.combinations_with_replacement')
def it_cwr(I, a, k):
    return PList(list(itertools.combinations_with_replacement(I.iterate(a[0]), a[1])))


@ext('itertools.combinations')
def it_comb(I, a, k):
    return PList(list(itertools.combinations(I.iterate(a[0]), a[1])))


@ext('itertools.permutations')
def it_perm(I, a, k):
    l = I.iterate(a[0])
    return PList(list(itertools.permutations(l, *a[1:])))


@ext('itertools.chain')
def it_chain(I, a, k):
    r = PList([])
    for z in a:
        I.list_extend(r, z)
    return r


@ext('warnings.warn', 'logging.getLogger', 'warnings.simplefilter', 'warnings.filterwarnings')
def quiet(I, a, k):
    return Quiet()


class Quiet:
    """loggers and the like: no effect on the result"""

    def vattr(self, I, n):
        return self

    def vcall(self, I, a, k):
        return self

    def __repr__(self):
        return '<logging>'


@ext('time.time', 'time.perf_counter')
def t_time(I, a, k):
    return T.atom(('r', 'clock#%d' % next(VL._oid)))


@ext('inspect.stack')
def i_stack(I, a, k):
    return PList([('frame', 'file', 0, 'function', None, 0)]*3)


# -- attributes and methods -----------------------------------------------------------------

class Meth:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def vcall(self, I, a, k):
        return self.f(I, a, k)

    def __repr__(self):
        return '<method %s>' % self.name


def attr(I, o, n):
    if isinstance(o, Arr):
        return arr_attr(I, o, n)
    if isinstance(o, PList):
        return list_attr(I, o, n)
    if isinstance(o, PDict):
        return dict_attr(I, o, n)
    if isinstance(o, PSet):
        return set_attr(I, o, n)
    if isinstance(o, SymSetList):
        def ssort(I, a, k):
            r = b_sorted(I, [o], k)
            mut(o)
            o.key = r.key
        if n == 'sort':
            return Meth('list.sort', ssort)
        if n == 'copy':
            return Meth('list.copy', lambda I, a, k: SymSetList(o.raw, o.key))
        raise Unsupported('list.%s of symbolically many symbols' % n)
    if isinstance(o, str):
        return str_attr(I, o, n)
    if isinstance(o, (T, int, float, complex)) and not isinstance(o, bool):
        return num_attr(I, o, n)
    if isinstance(o, _I().Builtin) and TAB.get(o.name+'.'+n) is not None:
        return TAB[o.name+'.'+n]
    if isinstance(o, DType) and n == 'name':
        return o.n
    if isinstance(o, _I().Func):
        if hasattr(o, 'user_'+n):
            return getattr(o, 'user_'+n)
        if n == '__name__':
            return o.name
    if isinstance(o, _I().Bound) and n == '__func__':
        return o.fn
    if isinstance(o, SStr) or isinstance(o, (Text, NameOf)):
        h = getattr(I, 'text_attr', None)
        if h:
            r = h(I, o, n)
            if r is not None:
                return r
        if isinstance(o, Text) and n == 'replace':
            return Meth(n, lambda I, a, k: native.text_replace(I, o, a[0], a[1]))
    if isinstance(o, OMap) and n in ('keys', 'items', 'get', 'values'):
        if n == 'get':
            return Meth('get', lambda I, a, k: o.get(a[0]))
        raise Unsupported('%s of an input mapping' % n)
    if isinstance(o, BaseException) and n == 'args':
        return o.args
    if isinstance(o, tuple) and n in ('index', 'count'):
        return list_attr(I, PList(list(o)), n)
    if isinstance(o, (bool, type(None))):
        raise PyRaise(AttributeError(n))
    raise Unsupported('attribute %s of %r' % (n, o))


def arr_attr(I, o, n):
    if n == 'shape':
        return o.shape
    if n == 'ndim':
        return o.ndim
    if n == 'size':
        return o.size()
    if n == 'dtype':
        return DType(o.dtype)
    if n == 'T':
        return view_of(o, transpose(o, list(range(o.ndim))[::-1]))
    if n == 'real':
        return ufunc(I, lambda z: num(z).real(), [o], 'float' if o.dtype in ('complex', 'complex64') else o.dtype)
    if n == 'imag':
        return ufunc(I, lambda z: num(z).imag(), [o], 'float' if o.dtype in ('complex', 'complex64') else o.dtype)
    if n in ('flatten', 'ravel'):
        return Meth(n, lambda I, a, k: flatten(I, o) if n == 'flatten' else view_of(o, flatten(I, o)))
    if n == 'copy':
        return Meth(n, lambda I, a, k: o.copy())
    if n == 'reshape':
        return Meth(n, lambda I, a, k: view_of(o, reshape(I, o, a[0] if len(a) == 1 else tuple(a))))
    if n == 'astype':
        def conv(I, a, k):
            r = astype(I, o, dtype_name(a[0]))
            if k:
                raise Unsupported('options of astype')
            if o.ndim == 1 and r is not o:
                r.contig = True
            return r
        return Meth(n, conv)
    if n == 'ctypes':
        return native.CTypes(o)
    if n in ('conj', 'conjugate'):
        return Meth(n, lambda I, a, k: ufunc(I, lambda z: num(z).conj(), [o]))
    if n == 'sum':
        return Meth(n, lambda I, a, k: np_sum(I, [o]+list(a), k))
    if n in ('max', 'min'):
        return Meth(n, lambda I, a, k: TAB['numpy.'+n].fn(I, [o], {}))
    if n == 'dot':
        return Meth(n, lambda I, a, k: dot(I, o, a[0]))
    if n == 'tolist':
        return Meth(n, lambda I, a, k: tolist(I, o))
    if n == 'transpose':
        return Meth(n, lambda I, a, k: view_of(o, transpose(o, [dim(num(z)) for z in (a[0] if len(a) == 1 and isinstance(a[0], tuple) else a)] or list(range(o.ndim))[::-1])))
    if n == 'item':
        return Meth(n, lambda I, a, k: o.cells.flat[0])
    if n == 'trace':
        return Meth(n, lambda I, a, k: np_trace(I, [o]+list(a), k))
    if n == 'fill':
        return Meth(n, lambda I, a, k: assign_all(I, o, a[0]))
    if n == 'append':
        raise PyRaise(AttributeError(n))
    raise Unsupported('attribute %s of an array' % n)


def tolist(I, o):
    if o.ndim == 0:
        return o.cells.flat[0]
    if isinstance(o.shape[0], T):
        x = TM.fresh('x')
        return PList(fam=Family(o.shape[0], TM.single_atom(x), o.get((x,)) if o.ndim == 1 else tolist(I, arr_get(I, o, x, True))))
    return PList([o.get((i,)) if o.ndim == 1 else tolist(I, arr_get(I, o, i)) for i in range(o.shape[0])])


def list_attr(I, o, n):
    def append(I, a, k):
        mut(o)
        o.keyseq = None
        o.items.append(a[0])

    def pop(I, a, k):
        i = dim(num(a[0])) if a else -1
        p = o.plain()
        if p is None or isinstance(i, T):
            raise Unsupported('pop from a symbolic list')
        mut(o)
        try:
            return o.items.pop(i)
        except IndexError as e:
            raise PyRaise(e)

    def index(I, a, k):
        p = o.plain()
        if p is None:
            raise Unsupported('index in a symbolic list')
        for i, z in enumerate(p):
            r = I.equal(z, a[0])
            if r is not False and I.truth(r):
                return i
        raise PyRaise(ValueError('%r is not in list' % (a[0],)))

    def remove(I, a, k):
        i = index(I, a, k)
        mut(o)
        del o.items[i]

    def insert(I, a, k):
        if o.plain() is None:
            raise Unsupported('insert into a symbolic list')
        mut(o)
        o.items.insert(dim(num(a[0])), a[1])

    def sort(I, a, k):
        r = b_sorted(I, [PList(o.items)], k)
        mut(o)
        if isinstance(r, PList):
            o.items = r.items
            for q in ('sorted_syms', 'keyseq'):
                if hasattr(r, q):
                    setattr(o, q, getattr(r, q))
        else:
            raise Unsupported('sort')

    def extend(I, a, k):
        I.list_extend(o, a[0])

    def count(I, a, k):
        p = o.plain()
        if p is None:
            raise Unsupported('count in a symbolic list')
        return sum(1 for z in p if I.truth(I.equal(z, a[0])))

    def copy(I, a, k):
        return PList(o.items)

    def reverse(I, a, k):
        if o.plain() is None:
            raise Unsupported('reverse of a symbolic list')
        mut(o)
        o.items.reverse()

    def clear(I, a, k):
        mut(o)
        o.items = []
    f = {'append': append, 'pop': pop, 'index': index, 'remove': remove, 'insert': insert, 'sort': sort, 'extend': extend,
         'count': count, 'copy': copy, 'reverse': reverse, 'clear': clear}.get(n)
    if f is None:
        raise PyRaise(AttributeError('list has no attribute %s' % n))
    return Meth('list.'+n, f)


def dict_attr(I, o, n):
    def keys(I, a, k):
        if o.d is not None:
            return PList(list(o.d))
        s = Seq(o.keys.n, o.keys.at)
        s.keys = o.keys
        return DictView(o, 'keys')

    def values(I, a, k):
        return DictView(o, 'values') if o.d is None else PList(list(o.d.values()))

    def items(I, a, k):
        return DictView(o, 'items') if o.d is None else PList([(kk, v) for kk, v in o.d.items()])

    def get(I, a, k):
        c = I.contains(o, a[0])
        if I.truth(c):
            return I.getitem(o, a[0])
        return a[1] if len(a) > 1 else None

    def copy(I, a, k):
        return copy_dict(I, o)

    def update(I, a, k):
        if a:
            v = a[0] if isinstance(a[0], PDict) else b_dict(I, a, {})
            if v.d is None or o.d is None:
                raise Unsupported('update with a symbolic dictionary')
            for kk, z in v.d.items():
                I.setitem(o, kk, z)
        for kk, z in k.items():
            I.setitem(o, kk, z)

    def pop(I, a, k):
        if o.d is None:
            raise Unsupported('pop from a symbolic dictionary')
        kk = hashable(a[0])
        if kk in o.d:
            mut(o)
            return o.d.pop(kk)
        if len(a) > 1:
            return a[1]
        raise PyRaise(KeyError(a[0]))

    def setdefault(I, a, k):
        if I.truth(I.contains(o, a[0])):
            return I.getitem(o, a[0])
        v = a[1] if len(a) > 1 else None
        I.setitem(o, a[0], v)
        return v
    f = {'keys': keys, 'values': values, 'items': items, 'get': get, 'copy': copy, 'update': update, 'pop': pop, 'setdefault': setdefault}.get(n)
    if f is None:
        raise PyRaise(AttributeError('dict has no attribute %s' % n))
    return Meth('dict.'+n, f)


class DictView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def viter(self, I):
        d = self.d
        if d.d is not None:
            return {'keys': list(d.d), 'values': list(d.d.values()), 'items': list(d.d.items())}[self.kind]
        if self.kind == 'keys':
            s = Seq(d.keys.n, d.keys.at)
            s.keys = d.keys
        elif self.kind == 'values':
            s = Seq(d.keys.n, lambda i: d.fam.at(i))
        else:
            s = Seq(d.keys.n, lambda i: (d.keys.at(i), d.fam.at(i)))
        return s

    def vlen(self, I):
        return b_len(I, [self.d], {})

    def truth(self, I):
        return I.truth(self.d)


def star_list(I, args):
    """arguments, with *(symbolically many sets) turned into one nested set"""
    out = []
    for v in args:
        if isinstance(v, _I().Star):
            l = v.val
            if not isinstance(l, PList):
                raise Unsupported('* of %r' % (l,))
            for z in l.items:
                out.append(nested_set(I, z))
        else:
            out.append(v)
    return out


def nested_set(I, z):
    if isinstance(z, Splice):
        f = z.fam
        items = f.items if isinstance(f, Nested) else [f.at(T.atom(f.x))]
        return PSet([Splice(Nested(f.n, f.x, sum([nested_set(I, q).raw for q in items], [])), z.cond)])
    return PSet(mkset(I, z).rawitems())


def set_attr(I, o, n):
    def add(I, a, k):
        if o.raw is None:
            raise Unsupported('add to a symbolic set')
        if o.symbolic():
            mut(o)
            o.raw = o.raw+[a[0]]
            return
        c = I.contains(o, a[0])
        if not I.truth(c):
            mut(o)
            o.items = o.items+[a[0]]

    def update(I, a, k):
        r = union(I, o, star_list(I, a))
        mut(o)
        o.raw = r

    def issubset(I, a, k):
        return I.compare('LtE', o, mkset(I, a[0]))
    f = {'add': add, 'issubset': issubset, 'union': lambda I, a, k: PSet(union(I, o, star_list(I, a))), 'update': update,
         'difference': lambda I, a, k: I.binop('Sub', o, mkset(I, a[0])), 'copy': lambda I, a, k: PSet(o.raw, o.keys)}.get(n)
    if f is None:
        raise Unsupported('set.%s' % n)
    return Meth('set.'+n, f)


def str_attr(I, o, n):
    if n in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'isdigit', 'isnumeric', 'title', 'capitalize', 'isidentifier', 'casefold'):
        return Meth(n, lambda I, a, k: getattr(o, n)(*a))
    if n in ('split', 'rsplit', 'splitlines'):
        return Meth(n, lambda I, a, k: PList(getattr(o, n)(*a)))
    if n in ('startswith', 'endswith', 'replace', 'find', 'count', 'index', 'zfill', 'encode', 'rjust', 'ljust'):
        def f(I, a, k):
            if any(is_text(z) for z in a):
                return mktext([('strop', n, o)+tuple(a)])
            return getattr(o, n)(*a)
        return Meth(n, f)
    if n == 'join':
        def join(I, a, k):
            it = I.iterate(a[0])
            if not isinstance(it, list):
                if isinstance(a[0], PList) and isinstance(o, str):
                    return Text([Join(o, list(a[0].items))])
                return Text([('join', o, id(a[0]))])
            out = []
            for i, z in enumerate(it):
                if i:
                    out.append(o)
                if not (isinstance(z, str) or is_text(z)):
                    raise PyRaise(TypeError('sequence item: expected str'))
                out.append(z)
            return mktext(out)
        return Meth(n, join)
    if n == 'format':
        def fmt(I, a, k):
            return Text([('format', o)+tuple(to_str(I, z) for z in a)])
        return Meth(n, fmt)
    raise Unsupported('str.%s' % n)


def num_attr(I, o, n):
    t = num(o) if not isinstance(o, T) else o
    if n == 'free_symbols':
        h = getattr(I, 'fs_hook', None)
        r = h(I, t) if h else None
        return r if r is not None else PSet(free_symbols(t))
    if n in ('is_real', 'is_complex', 'is_number', 'is_Symbol', 'is_zero', 'is_integer'):
        if n == 'is_real':
            try:
                a = TM.single_atom(t)
                if a[0] == 'c' and len(a) == 2:
                    return None
            except Exception:
                pass
            if t.is_real():
                return True
            if any(a[0] in ('c', 'cj') for a in t.atoms()):
                return None
            return False
        raise Unsupported(n)
    if n == 'subs':
        return Meth('subs', lambda I, a, k: subs(I, t, a))
    if n in ('expand', 'simplify', 'doit', 'evalf', 'n'):
        return Meth(n, lambda I, a, k: t)
    if n == 'conjugate':
        return Meth(n, lambda I, a, k: t.conj())
    if n == 'has':
        return Meth(n, lambda I, a, k: any(TM.single_atom(num(z)) in t.atoms() for z in a))
    if n == 'real':
        return t.real()
    if n == 'imag':
        return t.imag()
    if n == 'as_real_imag':
        return Meth(n, lambda I, a, k: (t.real(), t.imag()))
    if n == 'item':
        return Meth(n, lambda I, a, k: o)
    if n == 'shape':
        return ()
    if n == 'ndim':
        return 0
    if n == 'flatten':
        raise PyRaise(AttributeError(n))
    if n == 'astype':
        return Meth(n, lambda I, a, k: cast(I, o, dtype_name(a[0])))
    if n == 'diff':
        return Meth(n, lambda I, a, k: diff(I, t, num(a[0])))
    if n == 'name':
        return to_str(I, t)
    if n == 'xreplace':
        return Meth(n, lambda I, a, k: xreplace(I, t, a))
    raise Unsupported('attribute %s of a number' % n)


def fun_args(a):
    """the arguments of an atom that stands for an arbitrary function of them"""
    return a[2:] if len(a) > 2 and isinstance(a[1], str) and a[1].startswith('fn:') else None


def is_symbol(a):
    return a[0] in ('r', 'c') and len(a) == 2 and a != TM.PI_ATOM and not str(a[1]).startswith('@')


def free_symbols(t):
    out = []
    for a in sorted((a for a in t.atoms() if a[0] in ('r', 'c', 'cj')), key=lambda a: str(a)):
        if a == TM.PI_ATOM:
            continue
        if a[0] == 'cj':
            a = ('c',)+a[1:]
        if len(a) > 2 or not is_symbol(a):
            raise Unsupported('free symbols of an opaque expression')
        b = T.atom(a)
        if b not in out:
            out.append(b)
    return out


def subs(I, t, a):
    if len(a) == 2:
        pairs = [(a[0], a[1])]
    else:
        v = a[0]
        if hasattr(v, 'vapply'):
            return v.vapply(I, t)
        if isinstance(v, PDict) and v.d is not None:
            pairs = list(v.d.items())
        else:
            l = I.iterate(v)
            if not isinstance(l, list):
                h = getattr(I, 'subs_hook', None)
                if h:
                    return h(I, t, v)
                raise Unsupported('substitution of a symbolic list')
            pairs = [I.unpack(z, 2) for z in l]
    if not pairs:
        return t
    h = getattr(I, 'subs_hook', None)
    for p, q in pairs:
        try:
            at = TM.single_atom(num(p))
        except (AssertionError, ValueError):
            raise Unsupported('substitution of an expression')
        val = num(q)
        for z in t.atoms():
            if z[0] in ('r', 'c', 'cj') and len(z) > 2 and h is None and fun_args(z) is None:
                raise Unsupported('substitution in an opaque expression')
        cjv = val.conj() if at[0] == 'c' else None
        t = t.subst(lambda y: val if y == at else (cjv if at[0] == 'c' and y == ('cj',)+at[1:] else None))
    return t


def diff(I, t, x):
    raise Unsupported('derivative')


def enter(I, v):
    h = getattr(v, 'venter', None)
    if h:
        return h(I)
    raise Unsupported('with %r' % (v,))


def leave(I, v):
    h = getattr(v, 'vleave', None)
    if h:
        h(I)


def binop(I, op, a, b):
    for v in (a, b):
        h = getattr(v, 'vbinop', None)
        if h:
            r = h(I, op, a, b)
            if r is not None:
                return r
    if a is None or b is None or isinstance(a, (PDict, str)) or isinstance(b, (PDict, str)):
        raise PyRaise(TypeError('unsupported operand'))
    return None


def power(I, x, y):
    raise Unsupported('symbolic exponent')


def floordiv(I, x, y):
    q = y.as_int()
    if q is not None and q > 0 and TM.is_int_term(x):
        m = all(int(c[0]) % q == 0 for c in x.m.values())
        if m:
            return dim(x/q)
        k = x.m.get(TM.ONEMON, (0, 0))[0]
        rest = x-T.const(k)
        if all(int(c[0]) % q == 0 for c in rest.m.values()):
            return dim(rest/q+(int(k)//q))
        z = TM.fresh('fd')
        I.ctx.assume(('ge', x-z*q))
        I.ctx.assume(('ge', z*q+(q-1)-x))
        return z
    raise Unsupported('floor division')


def compare(I, op, a, b):
    for v in (a, b):
        h = getattr(v, 'vcompare', None)
        if h:
            return h(I, op, a, b)
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, PSet) and isinstance(b, PSet):
        if a.items is None and b.items is None and a.keys is b.keys:
            return op in ('LtE', 'GtE')
        raise Unsupported('comparison of sets')
    if a is None or b is None or isinstance(a, (PList, PDict, str)) or isinstance(b, (PList, PDict, str)):
        raise PyRaise(TypeError('not comparable'))
    return None


def equal(I, a, b):
    for v in (a, b):
        h = getattr(v, 'vequal', None)
        if h:
            r = h(I, a, b)
            if r is not None:
                return r
    if isinstance(a, DType) or isinstance(b, DType):
        try:
            return dtype_name(a) == dtype_name(b)
        except Unsupported:
            return False
    if isinstance(a, (PyType, _I().Cls)) or isinstance(b, (PyType, _I().Cls)):
        return a is b
    if isinstance(a, (Text, NameOf)) or isinstance(b, (Text, NameOf)):
        if a == b:
            return True
        if isinstance(a, (str, SStr, Text, NameOf)) and isinstance(b, (str, SStr, Text, NameOf)):
            return mkbool(('p', 'streq', repr(a), repr(b)))
        return False
    if isinstance(a, LProd) or isinstance(b, LProd):
        raise Unsupported('comparison of tensors')
    return None


def contains(I, c, x):
    h = getattr(c, 'vcontains', None)
    if h:
        return h(I, x)
    if isinstance(c, PSet) and c.raw is not None and any(isinstance(z, OldMark) for z in c.raw):
        o, = [z for z in c.raw if isinstance(z, OldMark)]
        for z in c.raw:
            if not isinstance(z, OldMark):
                raise Unsupported('membership in a growing set after an addition')
        if not isinstance(x, T):
            raise Unsupported('membership of %r in a growing set' % (x,))
        return I.ctx.decide(('p', 'seen', o.oid, x))
    if isinstance(c, PSet) and c.items is None and c.keys is not None:
        if c.keys.index_of(x) is not None:
            return True
        return mkbool(('p', 'in', c.keys.name, repr(x)))
    if isinstance(c, DictView) and c.kind == 'keys':
        return I.contains(c.d, x)
    if isinstance(c, Arr):
        if c.is_concrete():
            cs = [I.cond(I.equal(x, z)) for z in c.cells.flat]
            return mkbool(('or',)+tuple(cs)) if cs else False
        if c.ndim == 1:
            i = TM.fresh('e')
            if isinstance(x, bool):
                v = c.get((i,))
                r = I.cond(v) if isinstance(v, (bool, SBool)) else cnorm(('not', ('eq', num(v))))
                return I.exists(i, c.shape[0], r if x else cnorm(('not', r)))
            return I.exists(i, c.shape[0], I.cond(I.equal(x, c.get((i,)))))
        raise Unsupported('membership in a symbolic matrix')
    return None


def list_get(I, o, i):
    p = o.plain()
    if isinstance(i, slice):
        if p is not None:
            f = lambda x: None if x is None else dim(num(x))
            s = slice(f(i.start), f(i.stop), f(i.step))
            if any(isinstance(x, T) for x in (s.start, s.stop, s.step)):
                raise Unsupported('symbolic slice')
            return PList(p[s])
        if i.start is None and i.stop is None and i.step is None:
            return PList(o.items)
        if o.fam is not None and o.cond() is True:
            lo, n = norm_slice(I, i, o.fam.n)
            if lo == 'rev':
                x = TM.fresh('x')
                return PList(fam=Family(n, TM.single_atom(x), o.fam.at(T.const(n)-1-x)))
            x = TM.fresh('x')
            return PList(fam=Family(n, TM.single_atom(x), o.fam.at(x+T.const(lo))))
        raise Unsupported('slice of a symbolic list')
    if p is not None:
        if not isinstance(i, (int, T, np.integer)):
            raise PyRaise(TypeError('list indices must be integers'))
        j = dim(num(i))
        if isinstance(j, int):
            try:
                return p[j]
            except IndexError as e:
                raise PyRaise(e)
        if all(isinstance(z, (T, int, float, complex)) and not isinstance(z, bool) for z in p):
            r = ZERO
            norm_index(I, j, len(p))
            for n, z in enumerate(p):
                r = r+iv(('eq', j-n))*num(z)
            return r
        raise Unsupported('symbolic index into a list')
    # leading plain items
    j = dim(num(i))
    if isinstance(j, int) and j >= 0 and j < len(o.items) and not any(isinstance(z, (Splice, OldMark)) for z in o.items[:j+1]):
        return o.items[j]
    if isinstance(j, int) and j < 0 and not any(isinstance(z, (Splice, OldMark)) for z in o.items[j:]) and -j <= len(o.items):
        return o.items[j]
    if o.fam is not None and o.cond() is True:
        return o.fam.at(norm_index(I, j, o.fam.n))
    raise Unsupported('element of a symbolic list')


def foreign_key(I, o, k):
    h = getattr(I, 'foreign', None)
    if h:
        r = h(I, o, k)
        if r is not None:
            return r
    if isinstance(k, str) and isinstance(o.keys, KeySeq):
        raise Unsupported('key %r of a symbolic dictionary' % (k,))
    raise Unsupported('key %r of a symbolic dictionary' % (k,))


def while_rule(I, st, env):
    h = getattr(I, 'while_hook', None)
    return h(I, st, env) if h else False


# -- abstract tensors (any rank) ------------------------------------------------------------

class LProd:
    """lazy tensor product of concrete arrays (Einstein notation): entries are
    prod_k f_k[block_k]"""

    def __init__(self, factors):
        self.factors = factors
        self.shape = tuple(n for f in factors for n in f.shape)
        self.ndim = len(self.shape)
        self.dtype = promote([f.dtype for f in factors])

    def vattr(self, I, n):
        if n == 'shape':
            return self.shape
        if n == 'ndim':
            return self.ndim
        raise Unsupported('attribute %s of a tensor product' % n)

    def force(self, I):
        return self.contract(I, [])

    def contract(self, I, pairs):
        labs = list(range(self.ndim))
        for p, q in pairs:
            labs[q] = labs[p] = ('s', min(p, q))
        size = {}
        for l, n in zip(labs, self.shape):
            if l in size and not I.same_dim(size[l], n):
                raise PyRaise(ValueError('contraction of axes of different sizes'))
            size[l] = n
        out = [l for l in labs if not isinstance(l, tuple)]
        ops = []
        k = 0
        for f in self.factors:
            ops.append((f, labs[k:k+f.ndim]))
            k += f.ndim
        r = einsum(ops, out, size, self.dtype)
        return r if out else r.cells[()]


class ATensor:
    """a tensor of unknown rank, see contracts/c06.py"""

    @staticmethod
    def product(fs):
        out = []
        for f in fs:
            out += f.factors if isinstance(f, ATensor) else [f]
        r = ATensor()
        r.factors = out
        return r

    def trace(self, I, p, q):
        raise Unsupported('trace of an abstract tensor')



@ext('sympy.lambdify')
def lambdify(I, a, k):
    """the function of the given symbols computed by the expression"""
    vs, e = a[0], a[1]
    one = isinstance(vs, T)
    vs = [vs] if one else I.iterate(vs)
    if not isinstance(vs, list) or isinstance(e, (PList, tuple, Arr)):
        raise Unsupported('lambdify of several expressions or of a symbolic list of variables')
    e = num(e)
    left = [s for s in fs_of(e) if s not in [num(v) for v in vs]]

    def call(I, b, kw):
        if kw or len(b) != len(vs):
            raise PyRaise(TypeError('arguments of a lambdified function'))
        if left:
            raise PyRaise(NameError('%r' % left))
        b = [x if isinstance(x, Arr) else num(x) for x in b]

        def at(*xs):
            return simul(e, vs, xs)
        if any(isinstance(x, Arr) for x in b):
            return ufunc(I, at, b)
        return at(*b)
    return Meth('lambdified', call)


def simul(e, vs, xs):
    d = {TM.single_atom(num(v)): num(x) for v, x in zip(vs, xs)}
    if any(a[0] in ('r', 'c', 'cj') and len(a) > 2 and fun_args(a) is None for a in e.atoms()) or any(a[0] == 'c' for a in d):
        raise Unsupported('lambdify of an opaque expression')
    return e.subst(lambda a: d.get(a))


def fs_of(e):
    """free symbols of an expression, arguments of unknown functions included"""
    return [T.atom(a) for a in sorted(e.atoms(), key=str) if a[0] in ('r', 'c') and a != TM.PI_ATOM and is_symbol(a)]


@ext('scipy.interpolate.interp1d')
def interp1d(I, a, k):
    raise Unsupported('interp1d')


from . import frames  # noqa: E402,F401
from . import native  # noqa: E402,F401


@ext('numpy.isclose')
def np_isclose(I, a, k):
    k = dict(k)
    rt = k.pop('rtol', a[2] if len(a) > 2 else T.const(1)/10**5)
    at = k.pop('atol', a[3] if len(a) > 3 else T.const(1)/10**8)
    if k:
        raise Unsupported('isclose(%s)' % sorted(k))
    rt, at = num(rt), num(at)

    def close(x, y):
        x, y = num(x), num(y)
        d = x-y
        if d == ZERO:
            return True
        if not d.is_real() or not y.is_real():
            raise Unsupported('isclose of complex numbers')

        def within(b):
            return ('and', ('ge', at+rt*b-d), ('ge', at+rt*b+d))
        return mkbool(('or', ('and', ('ge', y), within(y)), ('and', ('not', ('ge', y)), within(-y))))
    if not any(isinstance(z, Arr) for z in a[:2]):
        return close(a[0], a[1])
    return ufunc(I, close, list(a[:2]), 'bool')


@ext('numpy.allclose')
def np_allclose(I, a, k):
    r = np_isclose(I, a, k)
    if not isinstance(r, Arr):
        return r
    return mkbool(('not', I.cond(contains(I, r, False))))
