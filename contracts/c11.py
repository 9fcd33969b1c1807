"""Making tensors real or complex: every parameter of unknown status is substituted.

An entry is an arbitrary sympy expression with any number of free symbols, every one of
which sympy knows to be real, knows not to be real, or knows nothing about."""
import itertools
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE, cnorm
from pyvc.core import Unsupported, PyRaise, mkbool
from pyvc.values import *
from pyvc.stubs import Meth, TAB, Text, mktext
from .cont import *

U = 'shgpy.core.utilities:'
N = TM.var('+n', 'i')


def nfs(idx):
    return T.atom(('i', '+nfs')+idx)


class Param:
    """free symbol number i of entry idx"""
    distinct = True
    sym = True

    def __init__(self, idx, i, known=None):
        self.idx, self.i, self.known = tuple(T.const(z) for z in idx), T.const(i), known

    def key(self):
        return self.idx+(self.i,)

    def vsub(self, sub):
        return Param([vsub(z, sub) for z in self.idx], vsub(self.i, sub), self.known)

    def vdepends(self, atoms):
        return vdepends(self.i, atoms) or any(vdepends(z, atoms) for z in self.idx)

    def __eq__(self, o):
        return isinstance(o, Param) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def unknown(self):
        return ('p', 'unknown status')+self.key()

    def isreal(self):
        return ('p', 'known real')+self.key()

    def vstr(self):
        return ParamName(self)

    def vattr(self, I, n):
        if n == 'is_real':
            if self.known == 'real':
                return True
            if I.truth(mkbool(self.unknown())):
                return None
            return I.truth(mkbool(self.isreal()))
        if n == 'name':
            return ParamName(self)
        if n == 'is_Symbol':
            return True
        raise Unsupported('attribute %s of a symbol' % n)

    def __repr__(self):
        return 'symbol%r' % (self.key(),)


class ParamName:
    sym_text = True

    def __init__(self, p):
        self.p = p

    def vsub(self, sub):
        return ParamName(self.p.vsub(sub))

    def vdepends(self, atoms):
        return self.p.vdepends(atoms)

    def __eq__(self, o):
        return isinstance(o, ParamName) and self.p == o.p

    def __hash__(self):
        return hash(('name', self.p))

    def __repr__(self):
        return 'name of %r' % self.p


class Comb:
    """combination of new symbols: {(name, assumptions): coefficient}"""

    def __init__(self, d):
        self.d = {k: T.const(v) for k, v in d.items() if T.const(v) != ZERO}

    def vsub(self, sub):
        return Comb({(vsub(n, sub), a): c for (n, a), c in self.d.items()})

    def vdepends(self, atoms):
        return any(vdepends(n, atoms) for n, _ in self.d)

    def __eq__(self, o):
        return isinstance(o, Comb) and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def vbinop(self, I, op, a, b):
        sc = lambda z: isinstance(z, (int, float, complex, T))
        if op in ('Add', 'Sub') and isinstance(a, Comb) and isinstance(b, Comb):
            d = dict(a.d)
            for k, c in b.d.items():
                d[k] = d.get(k, ZERO)+(c if op == 'Add' else -c)
            return Comb(d)
        if op == 'Mult' and (sc(a) or sc(b)):
            c, v = (num(a), b) if sc(a) else (num(b), a)
            return Comb({k: c*z for k, z in v.d.items()})
        raise Unsupported('operation on new symbols')

    def real(self):
        """all symbols are declared real"""
        return all(dict(a).get('real') is True for _, a in self.d)

    def __repr__(self):
        return ' + '.join('%s*%s%s' % (c, n, dict(a)) for (n, a), c in self.d.items())


def new_symbol(I, a, k):
    if len(a) != 1:
        raise Unsupported('arguments of Symbol')
    n = a[0] if isinstance(a[0], str) else mktext([a[0]])
    return Comb({(n, tuple(sorted((z, v) for z, v in k.items() if v is not None))): ONE})


def sub_name(n, sub):
    return n


class Entry:
    """expression idx, with substitutions made one after another: each is
    (n, atom x, condition, target): symbol x -> target for every x < n with the condition"""
    sym_expr = True

    def __init__(self, idx, repl=(), mark=None, known=None):
        self.idx, self.repl, self.mark, self.known = tuple(T.const(z) for z in idx), tuple(repl), mark, known

    def vsub(self, sub):
        return Entry([vsub(z, sub) for z in self.idx], [tuple(vsub(q, sub) if not isinstance(q, tuple) else TM.subst_any(q, lambda a: sub.get(a)) for q in z) for z in self.repl], self.mark, self.known)

    def vdepends(self, atoms):
        return any(vdepends(z, atoms) for z in self.idx) or any(vdepends(t, atoms) for r in self.repl for t in r[-1:])

    def sympify(self, I):
        return self

    def params(self):
        x = TM.fresh('x')
        return PSet([Splice(Family(nfs(self.idx), TM.single_atom(x), Param(self.idx, x, self.known)))])

    def one(self, I, s, t):
        if not isinstance(s, Param) or s.idx != self.idx or not isinstance(t, Comb):
            raise Unsupported('substitution of %r' % (s,))
        return Entry(self.idx, self.repl+((s.i, t),), self.mark, self.known)

    def vattr(self, I, n):
        if n == 'free_symbols':
            if self.repl or self.mark:
                raise Unsupported('free symbols after a substitution')
            return self.params()
        if n in ('subs', 'xreplace', 'replace'):
            def subs(I, a, k):
                k = dict(k)
                k.pop('simultaneous', None)
                if k:
                    raise Unsupported('options of subs')
                if len(a) == 2 and n != 'xreplace':
                    return self.one(I, a[0], a[1])
                if len(a) == 1 and isinstance(a[0], Assoc):
                    f, c, v = a[0].fam, a[0].cond, a[0].value
                    ok = I.same_dim(f.n, nfs(self.idx)) and a[0].key == Param(self.idx, T.atom(f.x), a[0].key.known)
                    if not ok or not isinstance(v, Comb):
                        raise Unsupported('substitution of %r' % (a[0].key,))
                    return Entry(self.idx, self.repl+((f.n, f.x, c, v),), self.mark, self.known)
                if len(a) == 1 and isinstance(a[0], PDict) and a[0].d == {}:
                    return self
                raise Unsupported('substitution %r' % (a,))
            return Meth(n, subs)
        raise Unsupported('attribute %s of an expression' % n)

    # substitutions made in a loop
    def fold_marker(self, tag):
        return Entry(self.idx, (), tag, self.known)

    def fold_close(self, I, cases, x, xa, n):
        hit, target = [], None
        for c, v in cases:
            if not isinstance(v, Entry) or v.idx != self.idx or len(v.repl) > 1 or v.mark is None:
                raise Unsupported('substitutions in a loop: %r' % (v,))
            if v.repl:
                (s, t), = v.repl
                if s != x:
                    raise Unsupported('substitutions in a loop: %r' % (v,))
                if target is not None and t != target:
                    raise Unsupported('different substitutions')
                target = t
                hit.append(('and',)+tuple(c) if c else True)
        if target is None:
            return self
        return Entry(self.idx, self.repl+((n, xa, cnorm(('or',)+tuple(hit)) if True not in hit else True, target),), self.mark, self.known)

    def __repr__(self):
        return 'entry%r with %r' % (self.idx, self.repl)


class Assoc:
    """{key: value for i in range(n) if cond}"""

    def __init__(self, key, fam, cond, value):
        self.key, self.fam, self.cond, self.value = key, fam, cond, value


Param.assoc = lambda self, I, fam, cond, value: Assoc(self, fam, cond, value)


def prove(p):
    p.assume_note('expr.subs(symbol, expression) substitutes; a symbol whose status is unknown differs from every symbol declared real, so substituting one after another is substituting simultaneously')
    TAB['sympy.Symbol'].fn = new_symbol

    def idxs(shape):
        return list(itertools.product(*[range(n) for n in shape]))

    def tensor(shape, numbers=(), known=None):
        if any(isinstance(n, T) for n in shape):
            return mkarr(shape, lambda i: Entry(i, known=known), 'object')
        return mkarr(shape, lambda i: {0: 0, 1: T.const(3)/2}[numbers.index(tuple(i))] if tuple(i) in numbers else Entry(i, known=known), 'object')

    def target(kind, prm, prefix, suffix):
        nm = lambda a, b: mktext([a, ParamName(prm), b])
        if kind == 'real':
            return Comb({(nm('', ''), (('real', True),)): ONE})
        return Comb({(nm(prefix[0], suffix[0]), (('real', True),)): ONE, (nm(prefix[1], suffix[1]), (('real', True),)): TM.I})

    def substituted(I, what, got, e, kind, prefix, suffix):
        if not isinstance(got, Entry) or got.mark is not None:
            p.true(what+': the entry, substituted', False, repr(got))
            return
        p.true(what+': the same entry', got.idx == e.idx, repr(got))
        i = TM.fresh('i')
        I.ctx.assume(('ge', i))
        I.ctx.assume(('gt', nfs(e.idx)-i))
        prm = Param(e.idx, i)
        hits = []
        for n, xa, cond, t in got.repl:
            p.eq(what+': every parameter is considered', T.const(n), nfs(e.idx))
            sub = lambda a: i if a == xa else None
            c = cond if cond is True else cnorm(TM.subst_any(cond, sub))
            t = vsub(t, {xa: i})
            hits.append(c)
            p.true(what+': what it is replaced by', t == target(kind, prm, prefix, suffix), repr(t))
            p.true(what+': the new parameters are real', t.real(), repr(t))
        if len(hits) != 1:
            p.true(what+': one substitution', False, repr(got))
            return
        for a, b, m in ((prm.unknown(), hits[0], 'parameters of unknown status are replaced'), (hits[0], prm.unknown(), 'only parameters of unknown status are replaced')):
            p.true('%s: %s' % (what, m), cnorm(('or', ('not', a), b)) if b is not True else True)

    def make(kind, shape, args, numbers=()):
        prefix, suffix = args.get('prefix', ('real_', 'imag_')), args.get('suffix', ('', ''))

        def body(I):
            t = tensor(shape, numbers)
            b = p.snap(t)
            r = p.run(U+'make_tensor_'+kind, [t], args)
            p.unchanged('the array given', b)
            p.true('another array', r is not t)
            p.true('shape', isinstance(r, Arr) and len(r.shape) == len(shape) and all(T.const(a) == T.const(z) for a, z in zip(r.shape, shape)), repr(r))
            for i in idxs(shape):
                g = I.getitem(r, i if i else ())
                if i in numbers:
                    p.eq('number %r' % (i,), num(g), (ZERO, T.const(3)/2)[numbers.index(i)])
                else:
                    substituted(I, 'entry %r' % (i,), g, Entry(i), kind, prefix, suffix)
        return body
    user = lambda n: Text([('user', n)])
    ARGS = [{}, {'prefix': (user('p0'), user('p1'))}, {'prefix': ('re', 'im'), 'suffix': (user('s0'), user('s1'))}, {'suffix': ('_r', '_i'), 'prefix': ('', '')}]
    for kind in ('complex', 'real'):
        for k, args in enumerate(ARGS if kind == 'complex' else [{}]):
            for shape, nb in (((3, 3, 3), ()), ((3, 3, 3, 3), ()), ((3, 3, 3), ((0, 0, 0), (1, 2, 0))), ((3,), ()), ((2, 3), ((1, 1),)), ((), ())):
                if k and shape != (3, 3, 3):
                    continue
                p.verify(U+'make_tensor_'+kind, make(kind, shape, args, list(nb)), 'shape %s%s%s' % ('x'.join(map(str, shape)), ', some numbers' if nb else '', ', options %d' % k if k else ''))

    # -- the check made by the generators ------------------------------------------------
    for shape in ((N,), (2, 2), (1,), ()):
        p.verify(U+'_assert_real_params', lambda I, shape=shape: p.true('accepted', p.run(U+'_assert_real_params', [tensor(shape, known='real')]) is None), 'all parameters real, shape %s' % (shape,))
        q = TM.var('q', 'i')
        i = TM.var('i', 'i')
        for at in (idxs(shape)[:3]+idxs(shape)[-1:] if N not in shape else [(q,)]):
            for st in ('unknown', 'not real'):
                def bad(I, shape=shape, at=at, st=st):
                    e = Entry(at)
                    for c in (('ge', i), ('gt', nfs(e.idx)-i))+((('ge', q), ('gt', N-q)) if N in shape else ()):
                        I.ctx.assume(c)
                    z = Param(e.idx, i)
                    if st == 'unknown':
                        I.ctx.assume(z.unknown())
                    else:
                        I.ctx.assume(('not', z.unknown()))
                        I.ctx.assume(('not', z.isreal()))

                    def go():
                        p.run(U+'_assert_real_params', [tensor(shape)])
                        p.instantiate(*[T.const(z) for z in at]+[i])
                    p.expect_raise(ValueError, go, 'refused')
                p.verify(U+'_assert_real_params', bad, 'a parameter of entry %s %s, shape %s' % (at, st, shape))
