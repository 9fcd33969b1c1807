"""Symbolic containers: any number of combinations, any M, any number of points.

The containers are built by running the real constructors on symbolic iterables and
read back through the real accessors, so nothing here depends on private names."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE, iv
from pyvc.core import Unsupported, PyRaise
from pyvc.values import *
from pyvc import stubs
from pyvc.stubs import Meth

D = 'shgpy.core.data_handler:'


class Opaque:
    """an arbitrary sympy expression, identified by a tuple of index terms"""
    sym_expr = True

    def __init__(self, name, idx=()):
        self.name, self.idx = name, tuple(T.const(i) for i in idx)

    def vsub(self, sub):
        return Opaque(self.name, [vsub(i, sub) for i in self.idx])

    def vdepends(self, atoms):
        return any(vdepends(i, atoms) for i in self.idx)

    def __eq__(self, o):
        return isinstance(o, Opaque) and (self.name, self.idx) == (o.name, o.idx)

    def __hash__(self):
        return hash((self.name, self.idx))

    def __repr__(self):
        return '%s%s' % (self.name, list(self.idx))


def method(I, o, name, *args, **kw):
    return I.call(I.getattr(o, name), list(args), dict(kw))


def construct(I, cls, *args, **kw):
    return I.call(I.get(D+cls), list(args), dict(kw))


def keyed(name, n, val):
    """a dictionary with n arbitrary distinct keys and val(i) as i-th value"""
    ks = KeySeq(name, n)
    x = TM.fresh('k')
    return PDict(keys=ks, fam=Family(n, TM.single_atom(x), val(x)))


def length(I, v):
    return num(stubs.TAB['builtins.len'].fn(I, [v], {}))


# -- data containers -------------------------------------------------------------------
from pyvc.order import normal_form
DEG = TM.PI/180


def npts(k):
    """number of points of combination k: any positive integer"""
    return 1+T.atom(('i', '+N', T.const(k)))


def xin(k, i):
    return T.atom(('r', 'x', T.const(k), T.const(i)))


def yin(k, i):
    return T.atom(('r', 'y', T.const(k), T.const(i)))


def ang(k, i):
    """strictly increasing angles in [0, 2*pi)"""
    return T.atom(('r', 'ang:x', T.const(k), T.const(i)))


def table(k, X=xin, Y=yin, n=npts, dtype='float'):
    return mkarr((2, n(k)), lambda i: (X, Y)[i[0]](k, i[1]), dtype)


def datacont(I, K, X=xin, Y=yin, units='radians', n=npts, dtype='float', name='pc'):
    return construct(I, 'DataContainer', keyed(name, K, lambda k: table(k, X, Y, n, dtype)), units)


def nf(k, X, Y, n=npts):
    return normal_form(n(k), lambda i: X(k, i), lambda i: Y(k, i))


def check_dc(p, I, c, K, j, form, what, scale=ONE, offset=ZERO, phase=ZERO, key=None, deg=True):
    """every accessor of the container reports the points `form` for combination j"""
    n, X, Y = form
    keys = method(I, c, 'get_keys')
    p.eq(what+': number of combinations', length(I, keys), K)
    kj = I.getitem(keys, j) if key is None else key
    if key is None:
        p.true(what+': combination names', isinstance(kj, SStr) and kj.seq.name == 'pc' and kj.i == j, repr(kj))
    for u, f in (('radians', ONE),)+((('Degrees', 1/DEG),) if deg else ()):
        w = lambda i, f=f: f*X(i[1]) if i[0] == 0 else Y(i[1])
        p.arr_eq(what+': points, '+u, method(I, c, 'get_pc', kj, u), (2, n), w)
        if key is None:
            p.arr_eq(what+': points (get_values), '+u, I.getitem(method(I, c, 'get_values', u), j), (2, n), w)
            it = I.getitem(method(I, c, 'get_items', u), j)
            p.true(what+': name (get_items), '+u, I.equal(I.getitem(it, 0), kj) is True)
            p.arr_eq(what+': points (get_items), '+u, I.getitem(it, 1), (2, n), w)
        if phase is not None:
            p.eq(what+': reported phase shift, '+u, method(I, c, 'get_phase_shift', u), f*phase)
    if scale is not None:
        p.eq(what+': reported scale', method(I, c, 'get_scale'), scale)
    if offset is not None:
        p.eq(what+': reported offset', method(I, c, 'get_offset'), offset)


# -- tables --------------------------------------------------------------------------
def check_frame(p, I, f, what, K, j, kj, n, coord, value, names, cols):
    """the rows of a table are, for every combination in order and every one of its n
    positions in order, (combination, coordinate, value), and nothing else.
    n None: one row per combination (no coordinate)."""
    from pyvc.frames import Frame
    from pyvc.loops import Nested
    if not isinstance(f, Frame):
        p.true(what+': a table', False, repr(f))
        return
    if names is not None:
        p.true(what+': names of the labels', f.index is not None and f.index.names == names, '%r' % (f.index and f.index.names,))
        p.true(what+': columns', f.columns == cols[-1:], repr(f.columns))
        pairs = [(f.index.items, lambda r: list(r)), (f.items, None)]
    else:
        p.true(what+': columns', sorted(map(str, f.columns)) == sorted(cols+['POLARIZATION']), repr(f.columns))
        order = [f.columns.index(c) for c in ['POLARIZATION']+cols] if len(f.columns) == len(cols)+1 else []
        pairs = [(f.items, None)]

    def runs(items):
        """-> row of combination j at position i"""
        items = [z for z in items]
        if len(items) != 1 or not isinstance(items[0], Splice) or items[0].cond is not True:
            raise Unsupported('structure of the table')
        a = items[0].fam
        p.eq(what+': number of combinations', T.const(a.n), K)
        from pyvc.frames import sub_items
        if n is None:
            if isinstance(a, Nested):
                inner = sub_items(a.items, {a.x: j})
                if len(inner) != 1 or isinstance(inner[0], Splice):
                    raise Unsupported('structure of the table')
                return lambda i: inner[0]
            return lambda i: vsub(a.body, {a.x: j})
        if not isinstance(a, Nested):
            raise Unsupported('structure of the table')
        inner = sub_items(a.items, {a.x: j})
        if len(inner) == 1 and isinstance(inner[0], Splice) and inner[0].cond is True and not isinstance(inner[0].fam, Nested):
            b = inner[0].fam
            p.eq(what+': number of rows of a combination', T.const(b.n), n)
            return lambda i: vsub(b.body, {b.x: i})
        raise Unsupported('structure of the table')
    i = TM.fresh('pos')
    if n is not None:
        I.ctx.assume(('ge', i))
        I.ctx.assume(('gt', T.const(n)-i))
    if names is not None:
        lab, dat = runs(f.index.items)(i), runs(f.items)(i)
        row = list(lab)+list(dat)
        if len(dat) != 1:
            p.true(what+': one value per row', False, repr(dat))
    else:
        r = runs(f.items)(i)
        row = [r[o] for o in order]
    want = [kj]+([] if coord is None else [coord(i)])+[value(i)]
    p.true(what+': entries of a row', len(row) == len(want), repr(row))
    for w, g, t in zip(['combination', 'coordinate', 'value'] if coord is not None else ['combination', 'value'], row, want):
        if isinstance(t, (T, int)):
            p.eq(what+': '+w, g, num(t))
        else:
            p.true(what+': '+w, I.equal(g, t) is True, '%r, expected %r' % (g, t))
