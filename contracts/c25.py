"""Merging, adding and subtracting containers."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc.loops import Nested
from pyvc.stubs import Meth
from .cont import *

K, j, i0 = TM.var('K', 'i'), TM.var('j', 'i'), TM.var('i0', 'i')


def P(q):
    return TM.mk(('i', 'P:s', T.const(q)))


def two(name):
    return (lambda k, i: T.atom(('r', name, T.const(k), T.const(i))))


def prove(p):
    def start(I):
        for c in (('ge', j), ('gt', K-j), ('gt', K)):
            I.ctx.assume(c)

    def first(I, ks, X=ang, Y=yin, n=npts):
        x = TM.fresh('k')
        return construct(I, 'DataContainer', PDict(keys=ks, fam=Family(K, TM.single_atom(x), table(x, X, Y, n))), 'radians')

    def second(I, ks, X, Y, n):
        """another container with the same combinations, listed in another order"""
        q = TM.fresh('q')
        pq = key_seq(SStr(ks, P(q)), q)
        return construct(I, 'DataContainer', PDict(keys=pq, fam=Family(K, TM.single_atom(q), table(P(q), X, Y, n))), 'radians')

    SIGN = {'dat_add': 1, 'dat_subtract': -1}
    for fn, s in SIGN.items():
        for order in ('same order', 'other order'):
            def body(I, fn=fn, s=s, order=order):
                start(I)
                ks = KeySeq('pc', K)
                y2 = two('y2')
                a = first(I, ks)
                b = first(I, ks, ang, y2) if order == 'same order' else second(I, ks, ang, y2, npts)
                method(I, a, 'scale_data', 2)
                before = p.snap(a, b)
                r = p.run(D+fn, [a, b])
                p.unchanged('the given containers', before)
                p.true('class', isinstance(r, Inst) and r.cls.name == 'DataContainer')
                check_dc(p, I, r, K, j, (npts(j), lambda i: ang(j, i), lambda i: 2*yin(j, i)+s*y2(j, i)), 'result')
            p.verify(D+fn, body, 'same angles, combinations in the %s' % order)

            def differ(I, fn=fn, order=order, what=None):
                """at position i0 of combination j the angles differ"""
                start(I)
                ks = KeySeq('pc', K)
                n2 = npts if what == 'angle' else (lambda k: 1+T.atom(('i', '+N2', T.const(k))))
                x2 = (lambda k, i: T.atom(('r', 'ang:x2', T.const(k), T.const(i)))) if what == 'angle' else ang
                a = first(I, ks)
                b = first(I, ks, x2, two('y2'), n2) if order == 'same order' else second(I, ks, x2, two('y2'), n2)
                if what == 'angle':
                    for c in (('ge', i0), ('gt', npts(j)-i0)):
                        I.ctx.assume(c)
                    d, tol = ang(j, i0)-x2(j, i0), 2*TM.PI/10**4
                    I.ctx.assume(('or', ('gt', d-tol), ('gt', -d-tol)))
                else:
                    I.ctx.assume(('not', ('eq', npts(j)-n2(j))))

                def go():
                    p.run(D+fn, [a, b])
                    p.instantiate(j, i0)
                p.expect_raise(ValueError, go, 'refused')
            for what in ('angle', 'number of points'):
                p.verify(D+fn, lambda I, what=what, differ=differ: differ(I, what=what), '%s differ, combinations in the %s' % (what, order))

        def keys(I, fn=fn):
            start(I)
            a = first(I, KeySeq('pc', K))
            b = first(I, KeySeq('qc', K))
            I.ctx.assume(('not', ('p', 'sameset', 'pc', 'qc')))
            p.expect_raise(ValueError, lambda: p.run(D+fn, [a, b]), 'refused')
        p.verify(D+fn, keys, 'different combinations')
        A = lambda: mkarr((2, npts(0)), lambda i: ang(0, i[1]) if i[0] == 0 else yin(0, i[1]), 'float')
        for ka, kb in ((['PP'], ['PS']), (['PP'], ['PP', 'PS']), (['PP', 'SS'], ['PP']), (['PP', 'SS'], ['SS', 'PS'])):
            def keys2(I, fn=fn, ka=ka, kb=kb):
                a, b = [construct(I, 'DataContainer', PDict({k: A() for k in kk}), 'radians') for kk in (ka, kb)]
                p.expect_raise(ValueError, lambda: p.run(D+fn, [a, b]), 'refused')
            p.verify(D+fn, keys2, 'combinations %s and %s' % (ka, kb))

    merges(p)


# -- merging -------------------------------------------------------------------------
C, i, k = TM.var('C', 'i'), TM.var('i', 'i'), TM.var('k', 'i')
KINDS = ('DataContainer', 'fDataContainer', 'FormContainer', 'fFormContainer')
M0 = TM.var('M', 'i')


class Cont:
    """a container given by the contracts of its accessors (discharged under C12-C17):
    the i-th container has nk(i) combinations; combination k is named name(i, k) and
    holds value(i, k)"""

    def __init__(self, kind, idx):
        self.kind, self.idx = kind, T.const(idx)

    def vsub(self, sub):
        return Cont(self.kind, vsub(self.idx, sub))

    def vdepends(self, atoms):
        return vdepends(self.idx, atoms)

    def vtype(self, I):
        return I.get(D+self.kind)

    def items(self):
        x = TM.fresh('x')
        return PList([Splice(Family(nk(self.idx), TM.single_atom(x), (name(self.idx, x), value(self.kind, self.idx, x))))])

    def vattr(self, I, n):
        def m(I, a, kw):
            if n == 'get_M' and self.kind in ('fDataContainer', 'fFormContainer'):
                return M0
            if n in ('get_items', 'get_values', 'get_pc'):
                units = list(a)+list(kw.values()) if n != 'get_pc' else list(a[1:])+list(kw.values())
                if (self.kind == 'DataContainer') != bool(units):
                    raise PyRaise(TypeError('number of arguments of %s' % n))
                if units and units != ['radians']:
                    raise Unsupported('values in the units given')
            if n == 'get_items':
                return self.items()
            if n in ('get_keys', 'get_values'):
                x = TM.fresh('x')
                return PList([Splice(Family(nk(self.idx), TM.single_atom(x), name(self.idx, x) if n == 'get_keys' else value(self.kind, self.idx, x)))])
            if n == 'get_pc' and isinstance(a[0], Opaque) and a[0].name == 'name' and a[0].idx[0] == self.idx:
                return value(self.kind, self.idx, a[0].idx[1])
            raise Unsupported('method %s of a container' % n)
        return Meth(n, m)

    def __repr__(self):
        return '%s %r' % (self.kind, self.idx)


def nk(i):
    return 1+T.atom(('i', '+nk', T.const(i)))


def name(i, k):
    return Opaque('name', (i, k))


def value(kind, i, k):
    if kind == 'FormContainer':
        return T.atom(('c', 'formula', T.const(i), T.const(k)))
    if kind == 'DataContainer':
        n = 1+T.atom(('i', '+np', T.const(i), T.const(k)))
        return mkarr((2, n), lambda z: T.atom(('r', ('x', 'y')[z[0]], T.const(i), T.const(k), z[1])), 'float')
    return mkarr((2*M0+1,), lambda z: T.atom(('c', 'v', T.const(i), T.const(k), z[0])), 'complex' if kind == 'fDataContainer' else 'object')


class Log:
    """a dictionary seen as the assignments made to it, in order (a later assignment to
    the same key replaces the value)"""

    def __init__(self):
        self.log = PList([])

    def vsetitem(self, I, key, val):
        I.call(I.getattr(self.log, 'append'), [(key, val)], {})

    def __repr__(self):
        return 'assignments %r' % (self.log,)


def merges(p):
    p.assume_note('merge_containers is verified against the contracts of the container accessors and constructors (C12-C17): a container built from a dictionary holds its items, the last assignment to a key counting')

    def key_ok(key, a, b):
        return isinstance(key, Opaque) and key.name == 'mapped' and list(key.idx) == [T.const(a), T.const(b)]

    def mapping(I, a, kw):
        if len(a) != 2 or kw or not isinstance(a[0], Opaque) or a[0].name != 'name':
            raise Unsupported('call of the mapping')
        # name(i, k) mapped with container index a[1]
        p.true('the mapping gets the index of the container', num(a[1]) == a[0].idx[0], repr(a))
        return Opaque('mapped', a[0].idx)

    def run(I, conts, kind):
        made = []

        def new(I, a, kw):
            made.append((a, kw))
            return None
        logs = []

        def fresh():
            logs.append(Log())
            return logs[-1]
        I.dict_hook = fresh
        I.contracts = {D+q+'.__init__': (lambda I, a, kw, q=q: new(I, (q,)+tuple(a[1:]), kw)) for q in KINDS}
        r = p.run(D+'merge_containers', [conts, Meth('mapping', mapping)])
        return r, made, logs

    def value_ok(what, got, kind, a, b):
        want = value(kind, a, b)
        if isinstance(want, T):
            p.true(what+': value', isinstance(got, T) and got == want, repr(got))
        else:
            p.arr_eq(what+': value', got, want.shape, lambda z: want.get(tuple(z)))

    def made_ok(I, r, made, kind):
        p.true('class of the result', isinstance(r, Inst) and r.cls.name == kind, repr(r))
        p.true('one container is built', len(made) == 1 and made[0][0][0] == kind, repr(made))
        a, kw = list(made[0][0][1:]), dict(made[0][1])
        it = a[0] if a else kw.pop('iterable', None)
        if kind == 'DataContainer':
            u = a[1] if len(a) > 1 else kw.pop('input_angle_units', None)
            p.true('angles are in radians', u == 'radians', repr(u))
            p.true('no other options', len(a) <= 2 and all(v is False for v in kw.values()), repr(kw))
        elif kind != 'FormContainer':
            m = a[1] if len(a) > 1 else kw.pop('M', 16)
            p.eq('M of the result', m, M0)
            p.true('no other options', len(a) <= 2 and not kw, repr(kw))
        else:
            p.true('no other options', len(a) <= 1 and not kw, repr(kw))
        return it

    for kind in KINDS:
        def body(I, kind=kind):
            for c in (('ge', i), ('gt', C-i), ('ge', k), ('gt', nk(i)-k), ('ge', M0), ('gt', C)):
                I.ctx.assume(c)
            x = TM.fresh('c')
            conts = PList([Splice(Family(C, TM.single_atom(x), Cont(kind, x)))])
            before = p.snap(conts)
            r, made, logs = run(I, conts, kind)
            p.unchanged('list of containers', before)
            it = made_ok(I, r, made, kind)
            if not isinstance(it, Log):
                raise Unsupported('dictionary %r' % (it,))
            items = it.log.items
            if len(items) != 1 or not isinstance(items[0], Splice) or items[0].cond is not True or not isinstance(items[0].fam, Nested):
                raise Unsupported('assignments %r' % (items,))
            o = items[0].fam
            p.eq('every container is used', T.const(o.n), C)
            from pyvc.frames import sub_items
            inner = sub_items(o.items, {o.x: i})
            if len(inner) != 1 or not isinstance(inner[0], Splice) or inner[0].cond is not True or isinstance(inner[0].fam, Nested):
                raise Unsupported('assignments %r' % (inner,))
            f = inner[0].fam
            p.eq('every combination of it is used, in order', T.const(f.n), nk(i))
            key, val = vsub(f.body, {f.x: k})
            p.true('mapped name', key_ok(key, i, k), repr(key))
            value_ok('combination', val, kind, i, k)
        p.verify(D+'merge_containers', body, 'any number of %ss' % kind)

        for n in (1, 2, 3):
            for other in KINDS:
                if other == kind:
                    continue
                for pos in range(1, n):
                    def mixed(I, kind=kind, other=other, n=n, pos=pos):
                        I.ctx.assume(('ge', M0))
                        conts = PList([Cont(other if z == pos else kind, z) for z in range(n)])
                        p.expect_raise(TypeError, lambda: run(I, conts, kind), 'refused')
                    p.verify(D+'merge_containers', mixed, '%s as number %d of %d with %ss' % (other, pos, n, kind))
    for what, v in (('dictionary', PDict({'PP': 1})), ('number', 3), ('text', 'PP')):
        p.verify(D+'merge_containers', lambda I, v=v: p.expect_raise(TypeError, lambda: run(I, PList([v]), ''), 'refused'), '%s instead of a container' % what)

    # concretely many containers and names which collide
    def concrete(kind, names, mp):
        """names: names of the combinations of each container; mp: mapping"""
        def body(I):
            I.ctx.assume(('ge', M0))
            mk = lambda a, b: value(kind, a, b)
            args = {'DataContainer': (['radians'], {}), 'FormContainer': ([], {})}.get(kind, ([], {'M': M0}))
            vals = {}

            def arr(a, b):
                v = mk(a, b)
                if kind == 'DataContainer':
                    v = mkarr(v.shape, lambda z: T.atom(('r', 'ang:x', T.const(a), T.const(b), T.const(z[1]))) if z[0] == 0 else T.atom(('r', 'y', T.const(a), T.const(b), T.const(z[1]))), 'float')
                return v
            conts = PList([construct(I, kind, PDict({nm: arr(a, b) for b, nm in enumerate(ns)}), *args[0], **args[1]) for a, ns in enumerate(names)])
            want = {}
            for a, ns in enumerate(names):
                for b, nm in enumerate(ns):
                    want[mp(nm, a)] = (a, b)
            before = p.snap(conts)
            r = p.run(D+'merge_containers', [conts, Meth('mapping', lambda I, a, kw: mp(a[0], int(num(a[1]).as_int())))])
            p.unchanged('the given containers', before)
            p.true('class', isinstance(r, Inst) and r.cls.name == kind)
            keys = method(I, r, 'get_keys')
            p.true('names', list(keys.items) == list(want), repr(keys))
            for q, (a, b) in want.items():
                g, w = method(I, r, 'get_pc', q, *(['radians'] if kind == 'DataContainer' else [])), arr(a, b)
                if isinstance(w, T):
                    p.eq('value of '+q, g, w)
                else:
                    p.arr_eq('value of '+q, g, w.shape, lambda z: w.get(tuple(z)))
            if kind in ('fDataContainer', 'fFormContainer'):
                p.eq('M', method(I, r, 'get_M'), M0)
        return body
    MAPS = {'key+index': lambda s, n: s+str(n), 'key': lambda s, n: s, 'constant': lambda s, n: 'all', 'index': lambda s, n: str(n)}
    for kind in KINDS:
        for mn, mp in MAPS.items():
            p.verify(D+'merge_containers', concrete(kind, [['PP', 'PS'], ['PS', 'SS'], ['PP']], mp), '%s, mapping %s' % (kind, mn))
