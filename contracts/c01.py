"""_fourier_transform and form_to_fform: exact Fourier coefficients.

A formula is a sum of any number of terms; term i is the product of any number of
phi-free factors, of value coef[i], and of cos(phi)**a_i and sin(phi)**b_i (either
may be absent), in any order.  sympy's Add.make_args / Mul.make_args are assumed to
list exactly these terms and factors, and Mul of the phi factors to be equal to the
key cos(phi)**a*sin(phi)**b exactly when the exponents agree.

For all a_i + b_i <= 8 the returned coefficient is
    sum_i coef[i] * (1/2pi) int cos^a_i sin^b_i exp(-i n phi) dphi
for each n in -16..16 and, with symbolic n, for every |n| > 16.  The exact
integrals are computed here from the binomial expansion."""
from fractions import Fraction
from math import comb
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE, iv
from pyvc.core import Unsupported, PyRaise, SBool, mkbool
from pyvc.values import *
from pyvc import stubs

Q = 'shgpy.core._fourier_transform:_fourier_transform'
D = 'shgpy.core.data_handler:'
CODES = [(a, b) for a in range(9) for b in range(9-a)]
PHI = TM.var('phi')


def exact(a, b, n):
    """(1/2pi) int cos^a sin^b e^{-in phi}: coefficient of e^{in phi}"""
    c = ZERO
    for j in range(a+1):
        for k in range(b+1):
            # ((e+1/e)/2)^a ((e-1/e)/2i)^b
            if (a-2*j)+(b-2*k) == n:
                c = c+T.const(Fraction(comb(a, j)*comb(b, k)*(-1)**k, 2**(a+b)))
    return c*(T.const(-1j)**b)


class Sub:
    """opaque value indexed by the term index i"""
    def vsub(self, sub):
        i = self.i.subst(lambda a: sub.get(a))
        return self if i == self.i else type(self)(self.f, i, *self.rest)

    def vdepends(self, atoms):
        return bool(self.i.atoms() & set(atoms))

    rest = ()


class Formula:
    """the expression; `bad` optionally the position of a term with another
    dependence on phi"""

    def __init__(self, order, phi, bad=None):
        self.order, self.phi, self.bad = order, phi, bad
        self.n = TM.var('nterms', 'i')

    def coef(self, i):
        return T.atom(('c', 'coef', T.const(i)))

    def a(self, i):
        return T.atom(('i', 'a', T.const(i)))

    def b(self, i):
        return T.atom(('i', 'b', T.const(i)))

    sym_expr = True

    def vattr(self, I, n):
        if n == 'free_symbols':
            return FS(self)
        if n == 'has':
            return stubs.Meth('has', lambda I, a, k: FS(self).vcontains(I, a[0]))
        if n == 'args':
            raise Unsupported('args')
        raise Unsupported('attribute %s of the formula' % n)

    def make_args(self, I, kind):
        if kind != 'Add':
            raise Unsupported('Mul.make_args of the formula')
        x = TM.fresh('t')
        run = Splice(Family(self.n, TM.single_atom(x), Term(self, x)))
        if self.bad is None:
            return PList([run])
        return PList([run, BadTerm(self)])


class FS:
    def __init__(self, f):
        self.f = f

    def vcontains(self, I, x):
        if num(x) != PHI:
            raise Unsupported('membership of another symbol')
        return self.f.phi


class Term(Sub):
    sym_expr = True

    def __init__(self, f, i):
        self.f, self.i = f, i

    def make_args(self, I, kind):
        if kind != 'Mul':
            raise Unsupported('Add.make_args of a term')
        y = TM.fresh('u')
        free = Splice(Family(T.atom(('i', 'nf', self.i)), TM.single_atom(y), Free(self.f, self.i, y)))
        I.ctx.assume(('ge', T.atom(('i', 'nf', self.i))))
        ph = []
        if self.f.phi is not False:
            if I.decide(('gt', self.f.a(self.i))):
                ph.append(Trig(self.f, self.i, 'cos'))
            if I.decide(('gt', self.f.b(self.i))):
                ph.append(Trig(self.f, self.i, 'sin'))
        o = self.f.order
        return PList({0: [free]+ph, 1: ph+[free], 2: ph[:1]+[free]+ph[1:]}[o])


class Free(Sub):
    """the j-th phi-free factor of term i"""
    sym_expr = True

    def __init__(self, f, i, j):
        self.f, self.i, self.j = f, i, j
        self.rest = (j,)

    def vsub(self, sub):
        g = lambda a: sub.get(a)
        return Free(self.f, self.i.subst(g), self.j.subst(g))

    def vdepends(self, atoms):
        return bool((self.i.atoms() | self.j.atoms()) & set(atoms))

    def vattr(self, I, n):
        if n == 'has':
            return stubs.Meth('has', lambda I, a, k: False)
        if n == 'free_symbols':
            return FreeFS()
        raise Unsupported('attribute %s of a factor' % n)

    def mul_args(self, I, items):
        return mul(I, items)


class FreeFS:
    def vcontains(self, I, x):
        if num(x) != PHI:
            raise Unsupported('membership of another symbol')
        return False


class Trig(Sub):
    sym_expr = True

    def __init__(self, f, i, fn):
        self.f, self.i, self.fn = f, i, fn
        self.rest = (fn,)

    def vattr(self, I, n):
        if n == 'has':
            return stubs.Meth('has', lambda I, a, k: True)
        raise Unsupported('attribute %s of a factor' % n)

    def mul_args(self, I, items):
        return mul(I, items)


class BadTerm:
    sym_expr = True

    def __init__(self, f):
        self.f = f

    def make_args(self, I, kind):
        return PList([self])

    def vattr(self, I, n):
        if n == 'has':
            return stubs.Meth('has', lambda I, a, k: True)
        raise Unsupported('attribute %s' % n)

    def mul_args(self, I, items):
        if len(items) == 1:
            return items[0]
        raise Unsupported('product')

    def vlookup(self, I, d):
        raise PyRaise(KeyError('no such key'))


def mul(I, items):
    """product of factors of one term: the phi factors alone give the key, the
    complete run of phi-free factors gives coef[i]"""
    trig = [z for z in items if isinstance(z, Trig)]
    if trig:
        if len(trig) != len(items) or len(set(z.fn for z in trig)) != len(trig) or any(z.i != trig[0].i for z in trig):
            raise Unsupported('product of %r' % (items,))
        return Key(trig[0].f, trig[0].i, tuple(sorted(z.fn for z in trig)))
    r = ONE
    runs = 0
    for z in items:
        if isinstance(z, Splice):
            b = z.fam.body
            if not isinstance(b, Free) or z.cond is not True or z.fam.ov or b.j != T.atom(z.fam.x) or T.const(z.fam.n) != T.atom(('i', 'nf', b.i)):
                raise Unsupported('product of a partial run')
            runs += 1
            r = r*b.f.coef(b.i)
        else:
            r = r*num(z)
    if runs != 1:
        raise Unsupported('product of %d runs' % runs)
    return r


class Key(Sub):
    """cos(phi)**a_i * sin(phi)**b_i (those factors that are present)"""
    sym_expr = True

    def __init__(self, f, i, fns):
        self.f, self.i, self.fns = f, i, fns
        self.rest = (fns,)

    def vlookup(self, I, d):
        r = ZERO
        c, s = TM.cos(PHI), TM.sin(PHI)
        found = []
        for a, b in CODES:
            if ('cos' not in self.fns and a) or ('sin' not in self.fns and b):
                continue
            k = c**a*s**b
            if k in d.d:
                v = d.d[k]
            elif a+b == 0 and 1 in d.d:
                v = d.d[1]
            else:
                I.ctx.oblige('the mapping has the key cos**%d*sin**%d' % (a, b), False, 'evaluation', concl=False)
                raise Unsupported('missing key')
            w = ONE
            if 'cos' in self.fns:
                w = w*iv(('eq', self.f.a(self.i)-a))
            if 'sin' in self.fns:
                w = w*iv(('eq', self.f.b(self.i)-b))
            r = r+w*num(v)
        return r


def spec(f, n):
    """sum_i coef_i * exact(a_i, b_i, n)"""
    x = TM.fresh('t')
    r = ZERO
    for a, b in CODES:
        e = ZERO if n is None else exact(a, b, n)
        if e.m:
            r = r+iv(('eq', f.a(x)-a))*iv(('eq', f.b(x)-b))*e
    return TM.Sum(x, ZERO, f.n, f.coef(x)*r)


def case_value(t, ca, cb):
    """the addend at exponents (ca, cb)"""
    def g(a):
        if a[:2] == ('i', 'a'):
            return T.const(ca)
        if a[:2] == ('i', 'b'):
            return T.const(cb)
        return None
    return t.subst(g)


def prove(p):
    p.assume_note('sympy.Add.make_args and Mul.make_args list the terms and factors; products of powers of cos(phi) and sin(phi) are equal as keys iff their exponents agree')
    N = TM.var('n', 'i')

    def one(n, order, name):
        def body(I):
            I.structural_keys = True
            f = Formula(order, True)
            I.ctx.assume(('gt', f.n))
            if n is None:
                I.ctx.assume(('gt', N-16) if name.startswith('n >') else ('gt', -16-N))
            r = p.run(Q, [f, N if n is None else n, TM.var('M', 'i')])
            if not isinstance(r, T):
                raise Unsupported('result %r' % (r,))
            # the result is a sum over the terms; compare the addend for each pair of
            # exponents (the cases are exhaustive: 0 <= a, b and a+b <= 8)
            I.ctx.assume(('gt', f.n))
            for a, b in CODES:
                got = case_value(r, a, b)
                x = TM.fresh('t')
                e = ZERO if n is None else exact(a, b, n)
                p.eq('coefficient of cos**%d*sin**%d' % (a, b), got, TM.Sum(x, ZERO, f.n, f.coef(x)*e))
        p.verify(Q, body, name)
    for n in range(-16, 17):
        one(n, 0, 'n = %d' % n)
    one(None, 0, 'n > 16')
    one(None, 0, 'n < -16')
    for order in (1, 2):
        one(3, order, 'n = 3, factors in another order %d' % order)

    def free(n, name):
        def body(I):
            I.structural_keys = True
            f = Formula(0, False)
            if n is None:
                I.ctx.assume(('not', ('eq', N)))
            r = p.run(Q, [f, N if n is None else n, TM.var('M', 'i')])
            if n == 0:
                p.true('a phi-free formula is its own coefficient at n = 0', r is f, repr(r))
            else:
                p.eq('a phi-free formula has no other coefficient', r, ZERO)
        p.verify(Q, body, name)
    free(0, 'phi-free formula, n = 0')
    free(None, 'phi-free formula, n != 0')

    def bad(n):
        def body(I):
            I.structural_keys = True
            f = Formula(0, True, bad=True)
            I.ctx.assume(('ge', f.n))
            p.expect_raise(Exception, lambda: p.run(Q, [f, N if n is None else n, TM.var('M', 'i')]), 'another dependence on phi is refused')
        p.verify(Q, body, 'a term with another dependence on phi, n %s' % n)
    bad(0)
    bad(2)
    bad(None)

    # form_to_fform: any number of combinations with any names, any M >= 0
    def ft(I, args, kw):
        a = dict(zip(('expr', 'n', 'M'), args))
        a.update(kw)
        return T.atom(('c', 'FT', num(a['expr']), num(a['n'])))

    for M in (TM.var('M', 'i'), 16):
        def body(I, M=M):
            from .cont import construct, keyed, method
            I.ctx.assume(('ge', T.const(M)))
            K = TM.var('K', 'i')
            I.ctx.assume(('gt', K))
            form = construct(I, 'FormContainer', keyed('pc', K, lambda k: T.atom(('c', 'f', k))))
            before = p.snap(form)
            r = p.run(D+'form_to_fform', [form, M] if isinstance(M, T) else [form])
            p.unchanged('formula container', before)
            p.eq('M', method(I, r, 'get_M'), M)
            j = TM.var('j', 'i')
            I.ctx.assume(('ge', j))
            I.ctx.assume(('gt', K-j))
            keys = method(I, r, 'get_keys')
            p.eq('number of combinations', T.const(I.stubs.TAB['builtins.len'].fn(I, [keys], {})), K)
            kj = I.getitem(method(I, form, 'get_keys'), j)
            p.true('combinations in the same order', I.equal(I.getitem(keys, j), kj) is True)
            p.arr_eq('entry n+M is the coefficient n', method(I, r, 'get_pc', kj), (2*T.const(M)+1,), lambda i: T.atom(('c', 'FT', T.atom(('c', 'f', j)), T.const(i[0])-M)))
        p.verify(D+'form_to_fform', body, 'M = %s' % M, contracts={Q: ft})
