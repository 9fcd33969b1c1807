"""Assumed contracts of pandas (building tables) and matplotlib (drawing), as used by
shgpy.  A table is the sequence of its rows; an axes object records what is drawn."""
import numpy as np
from . import terms as TM
from .terms import T, ZERO
from .core import Unsupported, PyRaise
from .values import *
from .values import mut
from .loops import Nested, close_list
from . import stubs as ST
from .stubs import ext, Meth, TAB


class Index:
    """rows (tuples of labels) as list items, with their names"""

    def __init__(self, items, names):
        self.items, self.names = items, names


class Frame:
    """a table: column names and rows (tuples) as list items; labels optional"""

    def __init__(self, columns, items, index=None):
        self.columns, self.items, self.index = columns, items, index

    def vsetattr(self, I, n, v):
        if n == 'columns':
            v = v.plain() if isinstance(v, PList) else list(v)
            if self.columns is None or v is None or len(v) != len(self.columns):
                raise Unsupported('renaming the columns')
            self.columns = list(v)
            return
        raise Unsupported('attribute %s of a table' % n)

    def vattr(self, I, n):
        if n == 'columns' and self.columns is not None:
            return PList(self.columns)
        raise Unsupported('attribute %s of a table' % n)

    # a table extended in a loop
    def fold_marker(self, tag):
        m = OldMark(tag)
        return Frame(None if not self.columns else list(self.columns), [m], self.index)

    def fold_close(self, I, cases, x, xa, n):
        if len(cases) != 1 or not isinstance(cases[0][1], Frame):
            raise Unsupported('table built in a loop')
        c, f = cases[0]
        oid = f.items[0].oid if f.items and isinstance(f.items[0], OldMark) else None
        if f.columns is None or vdep_names(f.columns) or oid is None:
            raise Unsupported('table built in a loop')
        if not self.columns and not I.ctx.entails(('gt', T.const(n))):
            raise Unsupported('columns of a possibly empty table')
        return Frame(f.columns, close_list(I, self.items, [(c, f.items)], oid, x, xa, n))


def vdep_names(cols):
    return not all(isinstance(c, str) for c in cols)


def scalar(v):
    return isinstance(v, (str, int, float, complex, T)) or ST.is_text(v) or hasattr(v, 'sym_expr')


def index_items(I, v):
    """the elements of a list or 1-d array, as list items"""
    if isinstance(v, PList):
        return v.items
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Arr) and v.ndim == 1:
        if isinstance(v.shape[0], int):
            return [I.getitem(v, i) for i in range(v.shape[0])]
        x = TM.fresh('x')
        return [Splice(Family(v.shape[0], TM.single_atom(x), v.get((x,))))]
    it = I.iterate(v)
    if isinstance(it, list):
        return it
    if getattr(it, 'cond', True) is not True:
        raise Unsupported('filtered labels')
    x = TM.fresh('x')
    return [Splice(Family(it.n, TM.single_atom(x), it.at(x)))]


def product(items, f):
    """rows of the product of two runs: for every element a, f(a)"""
    out = []
    for z in items:
        if isinstance(z, Splice):
            if isinstance(z.fam, Nested) or z.cond is not True or z.fam.ov:
                raise Unsupported('product of labels')
            out.append(Splice(Nested(z.fam.n, z.fam.x, f(z.fam.body))))
        elif isinstance(z, OldMark):
            raise Unsupported('product of labels')
        else:
            out += f(z)
    return out


def prefix(a, items):
    """rows (a, b) for every b"""
    out = []
    for z in items:
        if isinstance(z, Splice):
            if isinstance(z.fam, Nested) or z.cond is not True or z.fam.ov:
                raise Unsupported('product of labels')
            y = TM.fresh('x')
            out.append(Splice(Family(z.fam.n, TM.single_atom(y), (a, vsub(z.fam.body, {z.fam.x: y})))))
        else:
            out.append((a, z))
    return out


def names_of(v):
    if v is None:
        return None
    return tuple(v.plain()) if isinstance(v, PList) else tuple(v)


@ext('pandas.MultiIndex.from_product')
def from_product(I, a, k):
    l = a[0].plain() if isinstance(a[0], PList) else list(a[0])
    if len(l) != 2:
        raise Unsupported('product of %d levels' % len(l))
    inner = index_items(I, l[1])
    return Index(product(index_items(I, l[0]), lambda z: prefix(z, inner)), names_of(k.get('names', a[1] if len(a) > 1 else None)))


@ext('pandas.MultiIndex.from_tuples')
def from_tuples(I, a, k):
    if not isinstance(a[0], PList):
        raise Unsupported('from_tuples of %r' % (a[0],))
    return Index(list(a[0].items), names_of(k.get('names', a[1] if len(a) > 1 else None)))


@ext('pandas.MultiIndex.from_arrays')
def from_arrays(I, a, k):
    l = a[0].plain() if isinstance(a[0], PList) else list(a[0])
    items = rows(I, l[0], lambda v: (v,))
    for z in l[1:]:
        items = attach(I, items, z)
    return Index(items, names_of(k.get('names')))


@ext('pandas.Index')
def pd_index(I, a, k):
    items = []
    for z in index_items(I, a[0]):
        if isinstance(z, Splice):
            if isinstance(z.fam, Nested) or z.fam.ov:
                raise Unsupported('labels')
            items.append(Splice(Family(z.fam.n, z.fam.x, (z.fam.body,)), z.cond))
        else:
            items.append((z,))
    return Index(items, (k.get('name'),))


def rows(I, v, f):
    """one row per element of the data"""
    if isinstance(v, ST.Chain):
        return rows_parts(I, v.parts, f)
    if isinstance(v, ST.Flat):
        src = v.flat_of
        if src.ndim != 2:
            raise Unsupported('flattened array')
        n, m = src.shape
        x, y = TM.fresh('x'), TM.fresh('x')

        def inner(i):
            if isinstance(m, int):
                return [f(src.get((i, z))) for z in range(m)]
            return [Splice(Family(m, TM.single_atom(y), f(src.get((i, y)))))]
        if isinstance(n, int):
            return [z for i in range(n) for z in inner(i)]
        return [Splice(Nested(n, TM.single_atom(x), inner(x)))]
    if isinstance(v, (Arr, PList, tuple)):
        if isinstance(v, Arr) and v.ndim == 2 and v.shape[1] == 1:
            v = I.getitem(v, (slice(None), 0))
        if isinstance(v, Arr) and v.ndim != 1:
            raise Unsupported('table of an array of %d dimensions' % v.ndim)
        out = []
        for z in index_items(I, v):
            if isinstance(z, Splice):
                if isinstance(z.fam, Nested) or z.cond is not True or z.fam.ov:
                    raise Unsupported('table data')
                out.append(Splice(Family(z.fam.n, z.fam.x, f(z.fam.body))))
            else:
                out.append(f(z))
        return out
    raise Unsupported('table of %r' % (v,))


def rows_parts(I, parts, f):
    if isinstance(parts, list):
        return [z for p in parts for z in rows(I, p, f)]
    if getattr(parts, 'cond', True) is not True:
        raise Unsupported('filtered parts')
    x = TM.fresh('x')
    return [Splice(Nested(parts.n, TM.single_atom(x), rows(I, parts.at(x), f)))]


def zip_rows(I, A, B):
    """rows of A extended by the rows of B; both must have the same structure"""
    if len(A) != len(B):
        raise Unsupported('tables of different structure')
    out = []
    for a, b in zip(A, B):
        if isinstance(a, Splice) != isinstance(b, Splice):
            raise Unsupported('tables of different structure')
        if not isinstance(a, Splice):
            out.append(tuple(a)+tuple(b))
            continue
        if a.cond is not True or b.cond is not True:
            raise Unsupported('filtered rows')
        if not I.same_dim(a.fam.n, b.fam.n):
            if I.ctx.entails(('not', ('eq', T.const(a.fam.n)-T.const(b.fam.n)))):
                raise PyRaise(ValueError('lengths do not match'))
            raise Unsupported('table with columns of different lengths')
        if isinstance(a.fam, Nested) != isinstance(b.fam, Nested):
            raise Unsupported('tables of different structure')
        y = TM.fresh('x')
        ya = TM.single_atom(y)
        if isinstance(a.fam, Nested):
            out.append(Splice(Nested(a.fam.n, ya, within(I, y, a.fam.n, lambda: zip_rows(I, sub_items(a.fam.items, {a.fam.x: y}), sub_items(b.fam.items, {b.fam.x: y}))))))
        else:
            if a.fam.ov or b.fam.ov:
                raise Unsupported('modified rows')
            out.append(Splice(Family(a.fam.n, ya, tuple(vsub(a.fam.body, {a.fam.x: y}))+tuple(vsub(b.fam.body, {b.fam.x: y})))))
    return out


def within(I, y, n, f):
    s = list(I.ctx.assump)
    try:
        I.ctx.assume(('ge', y))
        I.ctx.assume(('gt', T.const(n)-y))
        return f()
    finally:
        I.ctx.assump[:] = s


def sub_items(items, sub):
    out = []
    for z in items:
        if isinstance(z, Splice):
            if z.cond is not True:
                raise Unsupported('filtered rows')
            n = vsub(T.const(z.fam.n), sub)
            if isinstance(z.fam, Nested):
                out.append(Splice(Nested(n, z.fam.x, sub_items(z.fam.items, sub))))
            else:
                if z.fam.ov:
                    raise Unsupported('modified rows')
                out.append(Splice(Family(n, z.fam.x, vsub(z.fam.body, sub))))
        elif isinstance(z, OldMark):
            raise Unsupported('rows')
        else:
            out.append(vsub(z, sub))
    return out


def attach(I, items, v):
    return zip_rows(I, items, rows(I, v, lambda z: (z,)))


@ext('pandas.DataFrame')
def dataframe(I, a, k):
    data = a[0] if a else k.get('data')
    index = k.get('index')
    cols = k.get('columns')
    if set(k)-{'data', 'index', 'columns'}:
        raise Unsupported('DataFrame options')
    if data is None:
        if index is not None or cols is not None:
            raise Unsupported('empty table with labels')
        return Frame([], [])
    if isinstance(data, PDict):
        if data.d is None or cols is not None:
            raise Unsupported('table of a symbolic dictionary')
        names = list(data.d)
        if not all(isinstance(n, str) for n in names):
            raise Unsupported('column names')
        vals = list(data.d.values())
        base = None
        for v in vals:
            if not scalar(v):
                r = rows(I, v, lambda z: (z,))
                base = r if base is None else zip_rows(I, base, r)
        if base is None:
            if index is None:
                raise PyRaise(ValueError('If using all scalar values, you must pass an index'))
            base = [() for z in index.items] if not any(isinstance(z, Splice) for z in index.items) else None
            if base is None:
                raise Unsupported('table of scalars')
        order = []
        c = 0
        for v in vals:
            if scalar(v):
                order.append(None)
            else:
                order.append(c)
                c += 1

        def fill(items):
            out = []
            for z in items:
                if isinstance(z, Splice):
                    if isinstance(z.fam, Nested):
                        out.append(Splice(Nested(z.fam.n, z.fam.x, fill(z.fam.items))))
                    else:
                        out.append(Splice(Family(z.fam.n, z.fam.x, tuple(vals[i] if o is None else z.fam.body[o] for i, o in enumerate(order)))))
                else:
                    out.append(tuple(vals[i] if o is None else z[o] for i, o in enumerate(order)))
            return out
        f = Frame(names, fill(base))
    else:
        f = Frame([0], rows(I, data, lambda z: (z,)))
        if cols is not None:
            f.vsetattr(I, 'columns', cols)
    if index is not None:
        if not isinstance(index, Index):
            raise Unsupported('labels %r' % (index,))
        zip_rows(I, index.items, f.items)      # lengths agree
        f.index = index
    return f


@ext('pandas.concat')
def concat(I, a, k):
    if set(k)-{'ignore_index', 'axis'} or k.get('axis', 0) != 0:
        raise Unsupported('concat options')
    l = a[0].plain() if isinstance(a[0], PList) else list(a[0]) if isinstance(a[0], tuple) else None
    if l is None:
        s = a[0].items if isinstance(a[0], PList) else []
        if len(s) == 1 and isinstance(s[0], Splice) and s[0].cond is True and not isinstance(s[0].fam, Nested):
            x = TM.fresh('x')
            f = s[0].fam.at(x)
            if isinstance(f, Frame) and f.columns and f.index is None and I.ctx.entails(('gt', T.const(s[0].fam.n))):
                return Frame(list(f.columns), [Splice(Nested(s[0].fam.n, TM.single_atom(x), f.items))])
        raise Unsupported('concat of %r' % (a[0],))
    if not l or not all(isinstance(f, Frame) for f in l):
        raise Unsupported('concat')
    if any(f.index is not None for f in l):
        raise Unsupported('concat of labelled tables')
    cols = None
    items = []
    for f in l:
        if f.columns == []:
            continue
        if f.columns is None:
            items += f.items
            continue
        if cols is None:
            cols = list(f.columns)
        if set(cols) != set(f.columns) or len(cols) != len(f.columns):
            raise Unsupported('tables with different columns')
        p = [f.columns.index(c) for c in cols]
        items += f.items if p == list(range(len(p))) else permute(f.items, p)
    if cols is None:
        cols = []
    return Frame(cols, items)


def permute(items, p):
    out = []
    for z in items:
        if isinstance(z, OldMark):
            raise Unsupported('columns')
        if isinstance(z, Splice):
            if isinstance(z.fam, Nested):
                out.append(Splice(Nested(z.fam.n, z.fam.x, permute(z.fam.items, p))))
            else:
                out.append(Splice(Family(z.fam.n, z.fam.x, tuple(z.fam.body[i] for i in p))))
        else:
            out.append(tuple(z[i] for i in p))
    return out


# -- matplotlib ------------------------------------------------------------------------
# attributes and methods of axes and figures that only affect the appearance
STYLE = {'set_title', 'legend', 'set_xlabel', 'set_ylabel', 'set_yticklabels', 'set_xticks', 'set_xticklabels', 'set_rticks', 'set_rmin', 'set_facecolor',
         'set_visible', 'grid', 'tick_params', 'set_yticks', 'set_xlim', 'set_ylim', 'set_rmax', 'set_rlim', 'set_theta_zero_location', 'set_theta_offset'}


class Axes(Obj):
    """a panel: the curves drawn in it, its title"""

    def __init__(self, pos, projection=None):
        super().__init__()
        self.pos, self.projection = pos, projection
        self.lines = PList([])
        self.title = None

    def get_state(self):
        return (self.title,)

    def set_state(self, s):
        self.title, = s

    def vattr(self, I, n):
        if n == 'plot':
            def plot(I, a, k):
                if len(a) != 2 or not all(isinstance(z, Arr) and z.ndim == 1 for z in a):
                    raise Unsupported('plot arguments')
                if not I.same_dim(a[0].shape[0], a[1].shape[0]):
                    raise Unsupported('curves with coordinates of different lengths')
                kw = k if isinstance(k, PDict) else PDict(dict(k))
                I.list_extend(self.lines, PList([(a[0].copy(), a[1].copy(), kw)]))
                return PList([ST.Quiet()])
            return Meth('plot', plot)
        if n == 'set_title':
            def title(I, a, k):
                mut(self)
                self.title = a[0]
            return Meth('set_title', title)
        if n == 'spines':
            return Spines()
        if n in STYLE:
            return Meth(n, lambda I, a, k: None)
        raise Unsupported('axes.%s' % n)


class Spines:
    def vgetitem(self, I, i):
        return self

    def vattr(self, I, n):
        if n in STYLE or n == 'values':
            return Meth(n, lambda I, a, k: None)
        raise Unsupported('spines.%s' % n)


class Figure:
    def vattr(self, I, n):
        if n in ('tight_layout', 'suptitle', 'set_size_inches', 'savefig', 'set_facecolor', 'subplots_adjust'):
            return Meth(n, lambda I, a, k: None)
        raise Unsupported('figure.%s' % n)


@ext('matplotlib.pyplot.subplots')
def subplots(I, a, k):
    k = dict(k)
    nr = a[0] if a else k.pop('nrows', 1)
    nc = a[1] if len(a) > 1 else k.pop('ncols', 1)
    sq = k.pop('squeeze', True)
    kw = k.pop('subplot_kw', None)
    pr = None
    if isinstance(kw, PDict) and kw.d is not None:
        pr = kw.d.get('projection')
    if set(k)-{'sharex', 'sharey', 'figsize', 'gridspec_kw'}:
        raise Unsupported('subplots options')
    nr, nc = dim(num(nr)), dim(num(nc))
    if not isinstance(nr, int) or not isinstance(nc, int):
        raise Unsupported('symbolic number of panels')
    c = np.empty((nr, nc), dtype=object)
    made = I.__dict__.setdefault('panels', [])
    for i in range(nr):
        for j in range(nc):
            c[i, j] = Axes((i, j), pr)
            made.append(c[i, j])
    r = Arr((nr, nc), c, 'object')
    if sq is not False:
        if nr == nc == 1:
            return (Figure(), c[0, 0])
        if nr == 1 or nc == 1:
            return (Figure(), Arr((nr*nc,), c.reshape(-1), 'object'))
    return (Figure(), r)


@ext('matplotlib.pyplot.setp', 'matplotlib.pyplot.savefig', 'matplotlib.pyplot.show', 'matplotlib.pyplot.tight_layout', 'matplotlib.pyplot.draw')
def plt_quiet(I, a, k):
    return None
