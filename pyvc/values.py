"""Heap objects of the verifier: arrays, lists, dictionaries, instances."""
import itertools
import weakref
import numpy as np
from . import terms as TM
from .terms import T, iv, cnorm, ZERO, ONE
from .core import Unsupported, PyRaise, SBool, mkbool, cond_of

_oid = itertools.count(1)


def bx(d):
    """the canonical bound index of symbolic axis d"""
    return T.atom(('i', '@%d' % d))


def bxatom(d):
    return ('i', '@%d' % d)


def dim(n):
    """normalise a dimension to int or T"""
    if isinstance(n, T):
        k = n.as_int()
        return n if k is None else k
    if isinstance(n, bool):
        return int(n)
    if isinstance(n, (int, np.integer)):
        return int(n)
    raise Unsupported('dimension %r' % (n,))


def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, int, float, complex)):
        return T.const(x)
    if isinstance(x, np.generic):
        return T.const(x.item())
    if isinstance(x, SBool):
        return iv(x.c)
    if hasattr(x, 'vnum'):
        return x.vnum()
    raise Unsupported('number expected: %r' % (x,))


class Journal:
    """undo log of the heap objects that existed before a generic iteration"""
    stack = []

    def __init__(self):
        self.start = next(_oid)
        self.log = {}

    def __enter__(self):
        Journal.stack.append(self)
        return self

    def __exit__(self, *a):
        assert Journal.stack.pop() is self

    def restore(self):
        for o, s in self.log.values():
            o.set_state(s)


def mut(o):
    """to be called before every mutation of a heap object"""
    if getattr(o, 'frozen', False):
        raise Unsupported('write to an element of a symbolic list')
    if isinstance(o, Arr):
        o = o.root()
        if o.stale:
            raise Unsupported('use of a superseded array handle')
        if o.twins is not None and any(z() is not None and z() is not o for z in o.twins):
            raise Unsupported('write to an array that shares its elements with another one')
        if o.home is not None:
            o.home.dirty(o)
    if Journal.stack:
        j = Journal.stack[-1]
        if o.oid < j.start and o.oid not in j.log:
            j.log[o.oid] = (o, o.get_state())


class Obj:
    """a mutable heap object"""

    def __init__(self):
        self.oid = next(_oid)

    def get_state(self):
        raise NotImplementedError

    def set_state(self, s):
        raise NotImplementedError


def shares(a, b):
    """b is a view of all of a"""
    a, r = a.root(), b.root()
    if a is not r:
        g = a.twins if a.twins is not None else [weakref.ref(a)]
        g.append(weakref.ref(r))
        a.twins = r.twins = g
    return b


class Arr(Obj):
    """ndarray: `cells` has one entry per concrete index combination, each a T in
    the bound indices of the symbolic axes (or any value for nested arrays)"""

    def __init__(self, shape, cells, dtype='object'):
        super().__init__()
        self.shape = tuple(dim(s) for s in shape)
        self._cells = cells
        self.dtype = dtype
        self.base = None
        self.sel = None
        self.home = None
        self.stale = False
        self.twins = None       # other arrays on the same memory (reshape, ravel, transpose)

    # state -----------------------------------------------------------------
    def get_state(self):
        return (self._cells, self.shape, self.dtype)

    def set_state(self, s):
        self._cells, self.shape, self.dtype = s

    def write(self, cells):
        """replace the contents (cells are never modified in place)"""
        mut(self)
        assert self.base is None
        self._cells = cells

    @property
    def cells(self):
        if self.stale:
            raise Unsupported('use of a superseded array handle')
        if self.base is None:
            return self._cells
        return select(self.base.cells, self.base.shape, self.sel)

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    @property
    def ndim(self):
        return len(self.shape)

    def symaxes(self):
        return [d for d, s in enumerate(self.shape) if isinstance(s, T)]

    def is_concrete(self):
        return not self.symaxes()

    def size(self):
        r = T.const(1)
        for s in self.shape:
            r = r*T.const(s)
        return dim(r)

    def get(self, idx):
        """element at a full index (ints or T, assumed in range)"""
        return cell_at(self.cells, self.shape, idx)

    def copy(self, dtype=None):
        return Arr(self.shape, self.cells.copy(), dtype or self.dtype)

    def __repr__(self):
        return 'Arr%s' % (self.shape,)


def cell_at(cells, shape, idx):
    cidx = []
    sub = {}
    picks = []
    for d, (s, i) in enumerate(zip(shape, idx)):
        if isinstance(s, T):
            sub[bxatom(d)] = T.const(i)
        else:
            j = T.const(i).as_int() if isinstance(i, T) else int(i)
            if j is None:
                picks.append((len(cidx), s, i))
            cidx.append(j)
    if not picks:
        c = cells[tuple(cidx)]
        return vsub(c, sub) if sub else c
    r = ZERO
    for combo in itertools.product(*[range(p[1]) for p in picks]):
        w = ONE
        ci = list(cidx)
        for (pos, s, i), j in zip(picks, combo):
            w = w*iv(('eq', T.const(i)-j))
            ci[pos] = j
        c = cells[tuple(ci)]
        r = r+w*(vsub(num(c), sub) if sub else num(c))
    return r


def select(cells, shape, sel):
    """sel: per source axis either ('at', i) or ('all',) or ('range', lo, n);
    result cells"""
    out_axis = 0
    sub = {}
    cidx = []
    ranges = []
    for d, (s, x) in enumerate(zip(shape, sel)):
        if x[0] == 'at':
            if isinstance(s, T):
                sub[bxatom(d)] = T.const(x[1])
            else:
                j = T.const(x[1]).as_int()
                if j is None:
                    raise Unsupported('symbolic index into a concrete axis (view)')
                cidx.append(j)
        else:
            if isinstance(s, T):
                lo = T.const(x[1]) if x[0] == 'range' else ZERO
                sub[bxatom(d)] = bx(out_axis)+lo
            else:
                if x[0] == 'range':
                    n = x[2]
                    cidx.append(slice(x[1], x[1]+n))
                else:
                    cidx.append(slice(None))
            out_axis += 1
    c = cells[tuple(cidx)]
    ident = all(k[1] == v_name(v) for k, v in sub.items())
    if not isinstance(c, np.ndarray):
        r = np.empty((), dtype=object)
        r[()] = c if ident else vsub(c, sub)
        return r
    if ident:
        return c
    r = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        r[i] = vsub(c[i], sub)
    return r


def v_name(t):
    if len(t.m) == 1:
        ((p, mon), c), = t.m.items()
        if p == 0 and c == (1, 0) and len(mon) == 1 and mon[0][1] == 1:
            return TM._atoms[mon[0][0]][1]
    return None


class Sub(dict):
    """substitution shared by the parts of a value"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.f = TM.SubF(self)


def vsub(v, sub):
    """substitute atoms (dict atom -> T) in a value"""
    if not sub:
        return v
    if type(sub) is not Sub:
        sub = Sub(sub)
    if isinstance(v, T):
        if not v.m:
            return v
        return v.subst(sub.f)
    if isinstance(v, SBool):
        return mkbool(TM.subst_any(v.c, sub.f))
    if isinstance(v, tuple):
        return tuple(vsub(x, sub) for x in v)
    if isinstance(v, Arr):
        if v.home is not None and hasattr(v.home, 'resub'):
            return v.home.resub(v, sub)
        c = v.cells
        # do not touch the array's own bound indices
        own = set(bxatom(d) for d in v.symaxes())
        if any(k in own for k in sub):
            raise Unsupported('capture')
        r = np.empty(c.shape, dtype=object)
        for i in np.ndindex(c.shape):
            r[i] = vsub(c[i], sub)
        return Arr([vsub(s, sub) if isinstance(s, T) else s for s in v.shape], r, v.dtype)
    if hasattr(v, 'vsub'):
        return v.vsub(sub)
    if isinstance(v, (PList, PDict, PSet, Inst)):
        if not vdepends(v, set(sub)):
            return v
        r = None
        if isinstance(v, PList) and v.plain() is not None:
            r = PList([vsub(z, sub) for z in v.items])
        elif isinstance(v, PDict) and v.d is not None and not any(vdepends(k, set(sub)) for k in v.d):
            r = PDict({k: vsub(z, sub) for k, z in v.d.items()})
        elif isinstance(v, Inst):
            r = Inst(v.cls)
            r.attrs = {k: vsub(z, sub) for k, z in v.attrs.items()}
        if r is None:
            raise Unsupported('instance of %r' % (v,))
        # each element of the family is its own object: no writes through copies
        r.frozen = True
        return r
    return v


def vdepends(v, atoms):
    """does the value mention any of the atoms"""
    if isinstance(v, T):
        return any(a in atoms for a in v.atoms())
    if isinstance(v, SBool):
        s = set()
        TM._walk(v.c, s)
        return any(a in atoms for a in s)
    if isinstance(v, (tuple, list)):
        return any(vdepends(x, atoms) for x in v)
    if isinstance(v, Arr):
        return any(vdepends(x, atoms) for x in v.cells.flat) or any(vdepends(s, atoms) for s in v.shape if isinstance(s, T))
    if hasattr(v, 'vdepends'):
        return v.vdepends(atoms)
    if isinstance(v, PList):
        return any(vdepends(x.fam, atoms) or vdepends(x.cond, atoms) if isinstance(x, Splice) else vdepends(x, atoms) for x in v.items)
    if isinstance(v, PDict):
        return any(vdepends(x, atoms) for x in v.d.values()) or any(vdepends(x, atoms) for x in v.d) if v.d is not None else vdepends(v.fam, atoms)
    if isinstance(v, Inst):
        return any(vdepends(x, atoms) for x in v.attrs.values())
    return False


def mkarr(shape, fn, dtype='object'):
    """fn(idx) with idx ints on concrete axes and bound indices on symbolic ones"""
    shape = tuple(dim(s) for s in shape)
    conc = tuple(s for s in shape if not isinstance(s, T))
    cells = np.empty(conc, dtype=object)
    for ci in np.ndindex(conc):
        it = iter(ci)
        idx = tuple(bx(d) if isinstance(s, T) else next(it) for d, s in enumerate(shape))
        cells[ci] = fn(idx)
    return Arr(shape, cells, dtype)


def full(shape, v, dtype='float'):
    return mkarr(shape, lambda i: v, dtype)


class SStr:
    """an opaque string: key number i of a key sequence"""
    __slots__ = ('seq', 'i')

    def __init__(self, seq, i):
        self.seq, self.i = seq, T.const(i)

    def __eq__(self, o):
        return isinstance(o, SStr) and o.seq is self.seq and o.i == self.i

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((id(self.seq), self.i))

    def vsub(self, sub):
        return SStr(self.seq, vsub(self.i, sub))

    def vdepends(self, atoms):
        return vdepends(self.i, atoms)

    def __repr__(self):
        return 'key(%s,%s)' % (self.seq.name, self.i)


class KeySeq:
    """a sequence of n distinct keys (strings, or symbols when sym=True)"""

    def __init__(self, name, n, sym=False):
        self.name, self.n, self.sym = name, dim(n), sym

    def at(self, i):
        if self.sym:
            return T.atom(('r', 'sym:'+self.name, T.const(i)))
        return SStr(self, i)

    def index_of(self, k):
        if isinstance(k, SStr) and k.seq is self:
            return k.i
        if self.sym and isinstance(k, T) and len(k.m) == 1:
            try:
                a = TM.single_atom(k)
            except (AssertionError, ValueError):
                return None
            if a[1] == 'sym:'+self.name:
                return a[2]
        return None

    def __repr__(self):
        return 'KeySeq(%s)' % self.name


class PermSeq(KeySeq):
    """the keys of `base` in another order: the q-th one is the P(q)-th of base, where
    P ('P:s') is an arbitrary permutation with inverse 'Q:s'"""

    def __init__(self, base):
        self.base, self.name, self.n, self.sym, self.setof = base, base.name+"'", base.n, False, base

    def at(self, i):
        return SStr(self.base, TM.mk(('i', 'P:s', T.const(i))))

    def index_of(self, k):
        if isinstance(k, SStr) and k.seq is self.base:
            return TM.mk(('i', 'Q:s', T.const(k.i)))
        return None


def key_seq(k, x):
    """the key sequence whose x-th key is k"""
    if isinstance(k, SStr):
        if k.i == x:
            return k.seq
        if k.i == TM.mk(('i', 'P:s', T.const(x))):
            k.seq.__dict__.setdefault('_perm', PermSeq(k.seq))
            return k.seq._perm
    return None


FX = 'fx'


class Family(Obj):
    """the values of a symbolic dictionary / symbolic list: value(i) = body[x:=i],
    except for the entries in `ov` (handles given out, values written)."""

    def __init__(self, n, x, body):
        super().__init__()
        self.n = dim(n)
        self.x = x              # atom
        self.body = body        # value in x (arrays in it are never written)
        self.ov = {}            # index T -> value
        self.dirt = set()

    def get_state(self):
        return (self.n, self.x, self.body, dict(self.ov), set(self.dirt))

    def set_state(self, s):
        self.n, self.x, self.body = s[:3]
        self.ov, self.dirt = dict(s[3]), set(s[4])

    def at(self, i):
        i = T.const(i)
        if i in self.ov:
            return self.ov[i]
        if self.dirt:
            from .core import Ctx
            for j in self.dirt:
                if not Ctx.cur.entails(('not', ('eq', i-j))):
                    raise Unsupported('access to an element that may alias a modified one')
        v = self.pristine(i)
        if isinstance(v, Arr) and v.home is None:
            v.home = Home(self, i)
            if Journal.stack:
                j = Journal.stack[-1]
                if self.oid < j.start and self.oid not in j.log:
                    j.log[self.oid] = (self, self.get_state())
            self.ov[i] = v
        return v

    def pristine(self, i):
        b = self.body
        sub = {self.x: T.const(i)}
        if isinstance(b, Arr):
            if b.home is not None:
                return b.home.fam.at(vsub(b.home.i, sub))
            return inst(b, sub)
        return vsub(b, sub)

    def set(self, i, v):
        i = T.const(i)
        mut(self)
        for j in self.dirt:
            from .core import Ctx
            if j != i and not Ctx.cur.entails(('not', ('eq', i-j))):
                raise Unsupported('write to an element that may alias a modified one')
        old = self.ov.get(i)
        if isinstance(old, Arr) and old is not v and old.home is not None and old.home.fam is self:
            if i in self.dirt:
                # the array itself lives on, detached
                old.home = None
            else:
                old.home = None
        self.ov[i] = v
        self.dirt.add(i)

    def vdepends(self, atoms):
        return vdepends(self.body, atoms) or any(vdepends(v, atoms) or vdepends(k, atoms) for k, v in self.ov.items())


def inst(b, sub):
    c = b.cells
    sub = Sub(sub)
    r = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        r[i] = vsub(c[i], sub)
    return Arr([vsub(s, sub) if isinstance(s, T) else s for s in b.shape], r, b.dtype)


class Home:
    """link of a handle to (family, index)"""
    __slots__ = ('fam', 'i')

    def __init__(self, fam, i):
        self.fam, self.i = fam, i

    def dirty(self, a):
        mut(self.fam)
        if self.fam.ov.get(self.i) is not a:
            raise Unsupported('write through an old handle')
        self.fam.dirt.add(self.i)

    def resub(self, a, sub):
        return self.fam.at(vsub(self.i, sub))


class Splice:
    """a symbolic run of list elements: the family, or the sub-sequence of it
    where cond (in the family's index) holds"""
    __slots__ = ('fam', 'cond')

    def __init__(self, fam, cond=True):
        self.fam, self.cond = fam, cond


class BagRun(Splice):
    """list elements which are those of a set (`items`), in unknown order"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items, self.cond = list(items), True

    @property
    def fam(self):
        raise Unsupported('use of elements in unknown order')


def unbag(items):
    """the same elements, the order of which no longer matters"""
    out = []
    for z in items:
        if isinstance(z, BagRun):
            out += unbag(z.items)
        elif isinstance(z, Splice) and hasattr(z.fam, 'items'):
            out.append(Splice(type(z.fam)(z.fam.n, z.fam.x, unbag(z.fam.items)), z.cond))
        else:
            out.append(z)
    return out


class OldMark:
    """the unknown contents of a list at the start of an iteration"""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


class PList(Obj):
    """list: python list of values and Splices"""

    def __init__(self, items=(), fam=None):
        super().__init__()
        self.items = list(items) if fam is None else [Splice(fam)]

    def get_state(self):
        return list(self.items)

    def set_state(self, s):
        self.items = list(s)

    def plain(self):
        """python list of the elements, or None when symbolic"""
        for i in self.items:
            if isinstance(i, (Splice, OldMark)):
                return None
        return self.items

    @property
    def fam(self):
        if len(self.items) == 1 and isinstance(self.items[0], Splice):
            return self.items[0].fam
        return None

    def cond(self):
        return self.items[0].cond

    def length(self):
        n = ZERO
        for i in self.items:
            if isinstance(i, OldMark):
                raise Unsupported('length of a list that grows in a loop')
            if isinstance(i, Splice):
                if i.cond is True:
                    n = n+T.const(i.fam.n)
                else:
                    x = TM.fresh('f')
                    n = n+TM.Sum(x, ZERO, i.fam.n, vsub(iv(i.cond), {i.fam.x: x}))
            else:
                n = n+1
        return dim(n)

    def __repr__(self):
        return 'PList(%r)' % (self.items,)


class PDict(Obj):
    """dict: concrete `d` (insertion ordered python dict), or symbolic (keys, fam)"""

    def __init__(self, d=None, keys=None, fam=None):
        super().__init__()
        self.d = dict(d) if d is not None else ({} if keys is None else None)
        self.extra = ()         # entries of a symbolic dictionary with other keys
        self._keys = keys
        self.fam = fam

    @property
    def keys(self):
        if self.extra:
            raise Unsupported('symbolic dictionary with other keys')
        return self._keys

    @keys.setter
    def keys(self, v):
        self._keys = v

    def get_state(self):
        return (dict(self.d) if self.d is not None else None, self._keys, self.fam, self.extra)

    def set_state(self, s):
        self.d = dict(s[0]) if s[0] is not None else None
        self._keys, self.fam, self.extra = s[1], s[2], s[3]

    def __repr__(self):
        return 'PDict(%r)' % (self.d if self.d is not None else self._keys,)


class OMap:
    """an input mapping of arbitrary content: value of key k is the atom name[k]"""

    def __init__(self, name, kind='r', mk=None):
        self.name, self.kind = name, kind
        self.mk = mk

    def get(self, k):
        if self.mk:
            return self.mk(k)
        kk = k if isinstance(k, T) else (T.atom(('i', 'key:'+k.seq.name, k.i)) if isinstance(k, SStr) else k)
        return T.atom((self.kind, self.name, kk))


class PSet(Obj):
    """set: concrete python set of hashables, or opaque ('keys', KeySeq)"""

    def __init__(self, items=None, keys=None):
        super().__init__()
        self.raw = list(items) if items is not None else None
        self.keys = keys

    def rawitems(self):
        """the elements, as values and symbolic runs"""
        if self.raw is not None:
            return self.raw
        x = TM.fresh('x')
        return [Splice(Family(self.keys.n, TM.single_atom(x), self.keys.at(x)))]

    def symbolic(self):
        return self.raw is not None and any(isinstance(z, (Splice, OldMark)) for z in self.raw)

    @property
    def items(self):
        """the elements, of a set given by its elements"""
        if self.symbolic():
            raise Unsupported('operation on a set of symbolically many elements')
        return self.raw

    @items.setter
    def items(self, v):
        self.raw = v

    def get_state(self):
        return (list(self.raw) if self.raw is not None else None, self.keys)

    def set_state(self, s):
        self.raw = list(s[0]) if s[0] is not None else None
        self.keys = s[1]


class SymSetList(Obj):
    """the elements of a symbolic set as a list, in unknown order (key None) or
    sorted by name"""

    def __init__(self, raw, key=None):
        super().__init__()
        self.raw, self.key = list(raw), key

    def get_state(self):
        return (list(self.raw), self.key)

    def set_state(self, s):
        self.raw, self.key = list(s[0]), s[1]


def generators(items):
    """canonical description of the set of elements: {(element, conditions, ranges)}"""
    out = set()

    def rec(items, binders, conds):
        for z in items:
            if isinstance(z, OldMark):
                raise Unsupported('set that grows in a loop')
            if isinstance(z, Splice):
                f = z.fam
                b = binders+[(f.x, f.n)]
                c = conds+([z.cond] if z.cond is not True else [])
                if hasattr(f, 'items'):
                    rec(f.items, b, c)
                else:
                    if f.ov:
                        raise Unsupported('set of modified elements')
                    rec([f.body], b, c)
            else:
                best = None
                for perm in itertools.permutations(range(len(binders))):
                    sub = {binders[q][0]: T.atom(('i', '#%d' % r)) for r, q in enumerate(perm)}
                    d = (vsub(z, sub), tuple(sorted((TM.show_any(TM.subst_any(c, lambda a: sub.get(a))) for c in conds))),
                         tuple(repr(vsub(T.const(binders[q][1]), sub)) for q in perm))
                    if best is None or repr(d) < repr(best):
                        best = d
                out.add((repr(best[0]),)+best[1:])
    rec(items, [], [])
    return out


class Inst(Obj):
    def __init__(self, cls):
        super().__init__()
        self.cls = cls
        self.attrs = {}

    def get_state(self):
        return dict(self.attrs)

    def set_state(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return '<%s>' % self.cls.name


class Seq:
    """an immutable symbolic sequence (range, zip, items(), ...)"""

    def __init__(self, n, at):
        self.n, self.at = dim(n), at


class Poison:
    """a value the verifier does not track; using it is outside its reach"""

    def __init__(self, why):
        self.why = why
