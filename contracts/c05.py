"""The Fourier-formula generator.

1. _convolve_ftensors computes, for tensors of any rank up to 7 and any size, the finite
   Cauchy sums of two series (any M).
2. generate_uncontracted_fourier_transforms[_symb] is run with symbolic M >= 8 and a
   symbolic angle against the contract of 1: if both arrays hold the Fourier coefficients
   of functions of degree a and b with a+b <= 8 (precondition, checked at every call), the
   result holds those of the product.  All elements of the sixteen saved tensors are the
   coefficients of A_ab f_c f_d f_e f_f (kappa_g) (kappa_h) of the statement's geometry.
3. generate_contracted_fourier_transforms, from such files and arbitrary tensors (every
   element its own complex number, given by real parameters), saves the coefficients of
   sum_ab A_ab X_a conj(X_b).
4. Lemma: that is |P+iQ|^2, i.e. formgen's intensity (C03) at phi+pi.
5. The helpers: substitution and rounding element by element, arrays of any shape."""
import itertools
import numpy as np
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE, iv
from pyvc.core import Unsupported, PyRaise
from pyvc.values import *
from pyvc import stubs
from pyvc.interp import Builtin
from pyvc.stubs import Meth, TAB
from . import einstein, c03

F = 'shgpy.fformgen:'
M = TM.var('M', 'i')
PHI = TM.var('phi')


U = 'shgpy.core.utilities:'
X = bx(0)
FV = {n: TM.var(n) for n in ('Fx', 'Fy', 'Fz')}
TH = TM.var('theta')


# -- Fourier series as functions of phi -------------------------------------------
#
# The n-th entry of an array is written coef(E, n): the n-th Fourier coefficient of the
# function E(phi), a trigonometric polynomial.  Recurring functions get a name.

class Names:
    def __init__(self):
        self.by, self.defs, self.deg = {}, {}, {}

    def name(self, e):
        """the function e as number * named functions"""
        if not e.m:
            return e
        if len(e.m) == 1 and not any(p for p, _ in e.m) and all(a[1] == 'fun' or a[1:2] == ('fun',) for a in e.atoms()):
            return e
        lead = e.m[min(e.m, key=TM._monkey)]
        c = T({TM.ONEMON: lead})
        u = e*TM.inv(c)
        if u not in self.by:
            a = TM.var('fun', 'c', len(self.by))
            self.by[u] = a
            self.defs[TM.single_atom(a)] = u
            self.deg[TM.single_atom(a)] = degree(self.expand(u))
        return c*self.by[u]

    def collapse(self, e):
        """number * one named function"""
        k = ('collapse', e)
        if k not in self.by:
            self.by[k] = self.name(self.expand(e))
        return self.by[k]

    def expand(self, e):
        for _ in range(20):
            n = e.subst(lambda a: self.defs.get(a))
            if n == e:
                return e
            e = n
        raise Unsupported('definitions')

    def degree(self, e):
        """bound of the degree in exp(i*phi)"""
        r = 0
        for (ph, mon), c in e.m.items():
            r = max(r, abs(phi_of(ph))+sum(self.deg.get(TM._atoms[i], 0)*abs(k) for i, k in mon))
        return r


def phi_of(ph):
    t = TM.phase(ph)
    c = ((t-t.subst(lambda a: ZERO if a == TM.single_atom(PHI) else None))*TM.inv(PHI)).as_int() if ph else 0
    if c is None:
        raise Unsupported('phase %s' % TM.show(t))
    return c


def degree(e):
    return max([abs(phi_of(ph)) for ph, _ in e.m] or [0])


def coef(e, n):
    return T.atom(('c', 'coef', e, n)) if e.m else ZERO


def function(t, n=None):
    """the function whose n-th coefficient is t, for every n = x-M with 0 <= x <= 2M"""
    n = X-M if n is None else n
    xs = [a for a in n.atoms() if a[0] == 'i' and a != TM.single_atom(M)]
    if len(xs) != 1 or (n-T.atom(xs[0])).depends(xs[0]):
        raise Unsupported('position %s' % TM.show(n))
    xa = xs[0]
    e, rest = ZERO, ZERO
    for (ph, mon), c in t.m.items():
        hit = [i for i, _ in mon if TM._atoms[i][:2] == ('c', 'coef')]
        if not hit:
            rest = rest+T({(ph, mon): c})
            continue
        a = TM._atoms[hit[0]]
        if len(hit) > 1 or dict(mon)[hit[0]] != 1 or a[3] != n:
            raise Unsupported('not a Fourier coefficient: %s' % TM.show(t))
        e = e+T({(ph, tuple(z for z in mon if z[0] != hit[0])): c})*a[2]
    if e.depends(xa):
        raise Unsupported('not a Fourier coefficient: %s' % TM.show(t))
    if rest.m:
        js = set()
        for a in rest.atoms(deep=False):
            if a[0] == 'iv' and a[1][0] == 'eq':
                for s in (1, -1):
                    j = (n-a[1][1]*s).as_int()
                    if j is not None:
                        js.add(j)
        for j in sorted(js):
            if abs(j) > 8:
                raise Unsupported('position of a coefficient')
            v = vsub(rest, {xa: T.atom(xa)-n+j})
            if v.depends(xa) or any(a[0] == 'iv' for a in v.atoms()):
                raise Unsupported('not a Fourier coefficient: %s' % TM.show(v))
            e = e+v*TM.E(PHI*j)
        z = rest.subst(lambda a: ZERO if a[0] == 'iv' and a[1][0] == 'eq' else None)
        if z.m:
            raise Unsupported('infinitely many coefficients: %s' % TM.show(z))
    return e


def functions(a):
    """array of functions of an array of Fourier coefficients"""
    r = np.empty(a.cells.shape, dtype=object)
    memo = {}
    for i in np.ndindex(r.shape):
        z = num(a.cells[i])
        if z not in memo:
            memo[z] = function(z)
        r[i] = memo[z]
    return r


def convolve(I, N):
    def f(_, args, kw):
        a, b = args[:2]
        m = args[2] if len(args) > 2 else kw.get('M')
        if not isinstance(a, Arr) or not isinstance(b, Arr) or any(z.symaxes() != [0] for z in (a, b)):
            raise Unsupported('convolution of %r and %r' % (a, b))
        for z in (a, b):
            I.ctx.oblige('precondition of _convolve_ftensors: 2M+1 coefficients', T.const(z.shape[0]) == 2*M+1 and (m is None or T.const(m) == M), 'evaluation')
        A, B = functions(a), functions(b)
        for z in (A, B):
            for e in set(z.flat):
                N.name(e)
        name = {e: N.name(e) for e in set(A.flat) | set(B.flat)}
        dA, dB = (max(N.degree(name[e]) for e in set(z.flat)) for z in (A, B))
        # M >= 8: with both factors of degree at most M the finite sums are complete, and
        # the product is a trigonometric polynomial of degree at most M again
        I.ctx.oblige('precondition of _convolve_ftensors: degree at most 8 <= M', dA+dB <= 8, 'evaluation', '%d + %d' % (dA, dB), concl=False)
        r = np.empty(A.shape+B.shape, dtype=object)
        memo = {}
        for i in np.ndindex(A.shape):
            for j in np.ndindex(B.shape):
                k = (A[i], B[j])
                if k not in memo:
                    memo[k] = coef(name[A[i]]*name[B[j]], X-M)
                r[i+j] = memo[k]
        return Arr((2*M+1,)+A.shape+B.shape, r, 'object')
    return f


def contracted(N):
    """tensor_contract (C06); the functions obtained are given a name"""
    def f(I, args, kw):
        r = einstein.contract(I, args, kw)
        cells = r.cells if isinstance(r, Arr) else np.array([r], dtype=object)
        c = np.empty(cells.shape, dtype=object)
        memo = {}
        for i in np.ndindex(c.shape):
            z = cells[i]
            c[i] = z
            if isinstance(z, T):
                at = [a for a in z.atoms(deep=False) if a[:2] == ('c', 'coef')]
                if at and len(set(a[3] for a in at)) == 1 and z not in memo:
                    memo[z] = coef(N.collapse(function(z, at[0][3])), at[0][3])
                c[i] = memo.get(z, z)
        return Arr(r.shape, c, r.dtype) if isinstance(r, Arr) else c[0]
    return f


def substitute(I, N):
    memo = {}

    def one(e, pairs):
        for s, v in pairs:
            e = e.subst(lambda a: v if a == s else None)
        return e

    def named(e, pairs):
        """named functions of the substituted definitions"""
        def f(a):
            if a not in N.defs:
                return None
            k = (a, pairs)
            if k not in memo:
                memo[k] = N.collapse(one(N.expand(T.atom(a)), pairs))
            return memo[k]
        return e.subst(f)

    def sub(t, pairs):
        r = ZERO
        for (ph, mon), c in t.m.items():
            hit = [i for i, _ in mon if TM._atoms[i][:2] == ('c', 'coef')]
            if not hit:
                r = r+one(T({(ph, mon): c}), pairs)
                continue
            a = TM._atoms[hit[0]]
            if len(hit) > 1 or dict(mon)[hit[0]] != 1:
                raise Unsupported('product of coefficients')
            r = r+one(T({(ph, tuple(z for z in mon if z[0] != hit[0])): c}), pairs)*coef(one(named(a[2], pairs), pairs), a[3])
        return r

    def f(_, args, kw):
        arr = args[0]
        pairs = []
        for q in args[1:]:
            s, v = I.unpack(q, 2)
            pairs.append((TM.single_atom(num(s)), num(v)))
        pairs = tuple(pairs)
        if kw or not isinstance(arr, Arr):
            raise Unsupported('_substitute_into_array(%r)' % (arr,))
        r = np.empty(arr.cells.shape, dtype=object)
        seen = {}
        for i in np.ndindex(r.shape):
            z = num(arr.cells[i])
            if z not in seen:
                seen[z] = sub(z, pairs)
            r[i] = seen[z]
        return Arr(arr.shape, r, 'object')
    return f


def zrot(I, args, kw):
    """contract of rotation_matrix3symb (C07) for the z axis"""
    ax = [num(z).as_frac() for z in I.iterate(args[0])]
    if ax != [0, 0, 1]:
        raise Unsupported('rotation about another axis')
    c, s = TM.cos(num(args[1])), TM.sin(num(args[1]))
    m = [[c, -s, ZERO], [s, c, ZERO], [ZERO, ZERO, ONE]]
    return mkarr((3, 3), lambda i: m[i[0]][i[1]])


def pieces(theta):
    """the functions of phi of the statement's geometry: the projected rotation for the
    two analysers, the field and wave vector in the frame of the crystal"""
    c, s = TM.cos(theta), TM.sin(theta)
    kin, kout = [-s, ZERO, c], [-s, ZERO, -c]
    R = zmat()
    r3 = range(3)
    proj = [[(ONE if i == j else ZERO)-kout[i]*kout[j] for j in r3] for i in r3]
    PR = [[sum((proj[i][a]*R[a][b] for a in r3), ZERO) for b in r3] for i in r3]
    A = {'P': [[sum((PR[i][a]*PR[i][b] for i in (0, 2)), ZERO) for b in r3] for a in r3],
         'S': [[PR[1][a]*PR[1][b] for b in r3] for a in r3]}
    fld = {'P': [c, ZERO, s], 'S': [ZERO, -ONE, ZERO]}
    f = {q: [sum((R[a][j]*fld[q][a] for a in r3), ZERO) for j in r3] for q in fld}
    k = [sum((R[a][j]*kin[a] for a in r3), ZERO)*T.const(-1j) for j in r3]
    return A, f, k


def zmat():
    c, s = TM.cos(PHI), TM.sin(PHI)
    return [[c, -s, ZERO], [s, c, ZERO], [ZERO, ZERO, ONE]]


TERMS = [(4, ()), (4, (1,)), (4, (-1,)), (4, (1, -1))]      # number of fields, signs of the wave vectors


def uncontracted(N, theta, pc):
    """the four tensors of functions to be saved for one combination (input, output)"""
    A, f, k = pieces(theta)
    A = [[N.collapse(z) for z in r] for r in A[pc[1]]]
    f = [N.collapse(z) for z in f[pc[0]]]
    k = [N.collapse(z) for z in k]
    for nf, ks in TERMS:
        r = np.empty((3,)*(2+nf+len(ks)), dtype=object)
        for i in np.ndindex(r.shape):
            z = A[i[0]][i[1]]
            for j in i[2:2+nf]:
                z = z*f[j]
            for j, s in zip(i[2+nf:], ks):
                z = z*k[j]*s
            r[i] = z
        yield r


class Shape:
    """the shape of an array of any rank with `size` elements"""

    def __init__(self, size):
        self.size = size

    def vzeros(self, I, v, d):
        return Any(self, mkarr((self.size,), lambda i: T.const(v), d))

    def vreshape(self, I, a):
        if a.ndim != 1 or not I.same_dim(a.shape[0], self.size):
            raise PyRaise(ValueError('cannot reshape'))
        return Any(self, a)


class Any:
    """an array of any shape: its elements in row-major order"""

    def __init__(self, shape, flat):
        self.shape, self.flat = shape, flat

    def vattr(self, I, n):
        if n == 'shape':
            return self.shape
        if n == 'dtype':
            return stubs.attr(I, self.flat, 'dtype')
        if n == 'flatten':
            return Meth(n, lambda I, a, k: self.flat.copy())
        if n == 'copy':
            return Meth(n, lambda I, a, k: Any(self.shape, self.flat.copy()))
        raise Unsupported('attribute %s of an array of any shape' % n)


class Elem:
    """an element that is either an expression or a plain number"""

    def __init__(self, i):
        self.i = T.const(i)

    def number(self, I):
        return I.decide(('p', 'number', self.i))

    def vsub(self, sub):
        return Elem(vsub(self.i, sub))

    def vdepends(self, atoms):
        return vdepends(self.i, atoms)

    def value(self):
        return T.atom(('c', 'elem', self.i))

    def vnum(self):
        return self.value()

    def vattr(self, I, n):
        if n in ('subs', 'expand', 'xreplace', 'atoms', 'has', 'free_symbols') and self.number(I):
            raise PyRaise(AttributeError(n))
        if n == 'subs':
            return Meth(n, lambda I, a, k: self.subs(I, a, k))
        if n == 'expand':
            return Meth(n, lambda I, a, k: self)
        raise Unsupported('attribute %s of an element' % n)

    def subs(self, I, a, k):
        l = a[0] if len(a) == 1 else tuple(a)
        ok = not k and isinstance(l, (tuple, PList)) and [tuple(I.unpack(z, 2)) for z in I.iterate(l)] == self.pairs
        I.ctx.oblige('the substitutions asked for, in order', ok, 'evaluation', repr(a), concl=False)
        return T.atom(('c', 'subst', self.i))


def compare(p, N, name, got, want):
    bad = [i for i in np.ndindex(want.shape) if got[i] != want[i]]
    for i in bad[:3]:
        p.eq(name+' %s' % (i,), N.expand(got[i]), N.expand(want[i]))
    if all(N.expand(got[i]) == N.expand(want[i]) for i in bad):
        p.true(name, True, '%d elements' % want.size, 'ring normaliser')


def series(name, shape):
    """an arbitrary array of Fourier series"""
    return mkarr((2*M+1,)+shape, lambda i: T.atom(('c', name, i[0]-M)+tuple(i[1:])))


def prove(p):
    p.assume_note('the n-th Fourier coefficient of a product of trigonometric polynomials is the Cauchy sum of the coefficients')
    p.assume_note('flatten and reshape are inverse to each other; round changes a number by at most half a unit of the last digit; expand keeps the value')
    def conv(sa, sb, explicit):
        def body(I):
            for z in (M,)+sa+sb:
                I.ctx.assume(('ge', z))
            a, b = series('a', sa), series('b', sb)
            before = p.snap(a, b)
            r = p.run(F+'_convolve_ftensors', [a, b]+([M] if explicit else []))
            p.unchanged('inputs', before)
            p.eq('number of coefficients', r.shape[0], 2*M+1)
            p.true('shape of a coefficient', all(I.same_dim(u, v) for u, v in zip(r.shape[1:], sa+sb)) and r.ndim == 1+len(sa+sb), repr(r.shape))
            x = TM.var('x', 'i')
            I.ctx.assume(('ge', x))
            I.ctx.assume(('ge', 2*M-x))
            i = tuple(TM.var('i%d' % d, 'i') for d in range(len(sa+sb)))
            for z, s in zip(i, sa+sb):
                I.ctx.assume(('ge', z))
                I.ctx.assume(('ge', s-1-z))
            m = TM.fresh('m')
            n = x-M
            w = TM.Sum(m, -M, M+1, T.atom(('c', 'a', m)+i[:len(sa)])*T.atom(('c', 'b', n-m)+i[len(sa):])*iv(('ge', M-n+m))*iv(('ge', M+n-m)))
            p.eq('coefficient of the product of the series, any element', r.get((x,)+i), w)
        p.verify(F+'_convolve_ftensors', body, 'ranks %d and %d%s' % (len(sa), len(sb), ', explicit M' if explicit else ''), contracts=einstein.contracts())
    d = [TM.var('d%d' % i, 'i') for i in range(8)]
    for ra in range(1, 8):
        for rb in (1, 2):
            if ra+rb <= 8:
                conv(tuple(d[:ra]), tuple(d[ra:ra+rb]), ra == rb)

    # -- the uncontracted tensors ----------------------------------------------------
    prefix = stubs.Text([('user', 'prefix')])

    def generate(symb):
        def body(I):
            I.ctx.assume(('ge', M-8))
            N = Names()
            files = {}

            def save(I, a, k):
                name = a[0]
                if k or not isinstance(a[1], Arr):
                    raise Unsupported('np.save')
                files[I.binop('Add', name, '.npy')] = a[1]
            stubs.TAB['numpy.save'] = Builtin('numpy.save', save)
            stubs.TAB['numpy.set_printoptions'] = Builtin('numpy.set_printoptions', lambda I, a, k: None)
            I.contracts.update(einstein.contracts())
            I.contracts[F+'_convolve_ftensors'] = convolve(I, N)
            I.contracts[U+'tensor_contract'] = contracted(N)
            I.contracts[F+'_substitute_into_array'] = substitute(I, N)
            I.contracts[U+'rotation_matrix3symb'] = zrot
            theta = TH if symb else TM.var('aoi')
            p.run(F+'generate_uncontracted_fourier_transforms'+('_symb' if symb else ''), ([] if symb else [theta])+[prefix, M])
            want = {I.binop('Add', prefix, '_'+a.lower()+b.lower()+'.npy'): (a, b) for a in 'PS' for b in 'PS'}
            p.true('the four files are written, no other', set(files) == set(want), repr(list(files)))
            for fn, pc in want.items():
                if fn not in files:
                    continue
                z = files[fn]
                pcn = pc[0]+pc[1]
                p.true('%s: four tensors' % pcn, z.shape == (4,), repr(z.shape))
                for t, w in enumerate(uncontracted(N, theta, pc)):
                    q = z.cells[t]
                    ok = isinstance(q, Arr) and I.same_dim(q.shape[0], 2*M+1) and q.shape[1:] == w.shape
                    p.true('%s, term %d: shape' % (pcn, t), ok, repr(q))
                    got = functions(q)
                    compare(p, N, '%s, term %d: every element is the Fourier series of its function' % (pcn, t), got, w)
        p.verify(F+'generate_uncontracted_fourier_transforms'+('_symb' if symb else ''), body, 'any M >= 8')
    generate(False)
    generate(True)

    # -- contraction with the tensors --------------------------------------------------
    def load(I, N, theta):
        """contract of the files written by generate_uncontracted_fourier_transforms*"""
        def f(I, a, k):
            for x in 'PS':
                for y in 'PS':
                    if a[0] == I.binop('Add', prefix, '_'+x.lower()+y.lower()+'.npy'):
                        r = np.empty(4, dtype=object)
                        for t, w in enumerate(uncontracted(N, theta, (x, y))):
                            r[t] = Arr((2*M+1,)+w.shape, np.vectorize(lambda e: coef(e, X-M), otypes=[object])(w), 'object')
                        return Arr((4,), r, 'object')
            raise PyRaise(FileNotFoundError('no such file'))
        return f

    def contracted_formula(nd):
      def body(I):
          I.ctx.assume(('ge', M-8))
          N = Names()
          theta = TM.var('aoi')
          stubs.TAB['numpy.load'] = Builtin('numpy.load', load(I, N, theta))
          saved = []
          rounded = {}
          I.contracts.update(einstein.contracts())
          I.contracts[U+'_assert_real_params'] = lambda I, a, k: None
          def rnd(I, a, k):
              """a new array; its elements are the rounded ones (see below)"""
              p.true('precondition of _round_complex_tensor: the digits asked for', nd is not None and len(a) == 2 and not k and num(a[1]) == nd, repr(a))
              r = mkarr(a[0].shape, lambda i: T.atom(('c', 'rounded', len(rounded))+tuple(i)))
              rounded[r.cells[()]] = a[0]
              return r
          I.contracts[F+'_round_complex_tensor'] = rnd
          I.contracts[F+'_save_fform_dict'] = lambda I, a, k: saved.append(a)
          d = mkarr((3,)*3, lambda i: T.atom(('c', 'd')+tuple(i)))
          q = mkarr((3,)*4, lambda i: T.atom(('c', 'q')+tuple(i)))
          before = p.snap(d, q)
          fn = stubs.Text([('user', 'file')])
          p.run(F+'generate_contracted_fourier_transforms', [fn, prefix, d, q, M]+([] if nd is None else [nd]))
          p.unchanged('susceptibility tensors', before)
          ok = len(saved) == 1 and len(saved[0]) == 2 and saved[0][0] == fn and isinstance(saved[0][1], PDict)
          p.true('one formula is saved under the name given', ok, repr(saved))
          if not ok:
              return
          ff = saved[0][1]
          keys = I.iterate(I.method(ff, 'keys', [], {})) if hasattr(I, 'method') else list(ff.d)
          p.true('four combinations', sorted(keys) == ['PP', 'PS', 'SP', 'SS'], repr(keys))
          r3 = range(3)
          for x in 'PS':
              for y in 'PS':
                  z = I.getitem(ff, x+y)
                  ok = isinstance(z, Arr) and z.ndim == 1 and I.same_dim(z.shape[0], 2*M+1)
                  p.true('%s%s: 2M+1 entries' % (x, y), ok, repr(z))
                  if nd is not None:
                      w = rounded.get(z.cells[()]) if ok else None
                      p.true('%s%s: the saved entries are rounded' % (x, y), w is not None, repr(z))
                      if w is None:
                          continue
                      z = w
                  A, f, k = pieces(theta)
                  A = [[N.collapse(u) for u in r] for r in A[y]]
                  f = [N.collapse(u) for u in f[x]]
                  k = [N.collapse(u) for u in k]
                  g = [sum((d.cells[a, b, c]*f[b]*f[c] for b in r3 for c in r3), ZERO)-sum((q.cells[a, e, b, c]*k[e]*f[b]*f[c] for e in r3 for b in r3 for c in r3), ZERO) for a in r3]
                  h = [sum((d.cells[a, b, c].conj()*f[b]*f[c] for b in r3 for c in r3), ZERO)+sum((q.cells[a, e, b, c].conj()*k[e]*f[b]*f[c] for e in r3 for b in r3 for c in r3), ZERO) for a in r3]
                  want = sum((A[a][b]*g[a]*h[b] for a in r3 for b in r3), ZERO)
                  p.eq('%s%s: the n-th entry is the n-th Fourier coefficient of sum_ab A_ab X_a conj(X_b)' % (x, y), function(num(z.cells[()])), want)
      p.verify(F+'generate_contracted_fourier_transforms', body, 'any tensors, any M >= 8'+('' if nd is None else ', rounded'))
    contracted_formula(None)
    contracted_formula(TM.var('ndigits', 'i'))

    def geometry(I):
        """sum_ab A_ab X_a conj(X_b) is |P+iQ|^2 of the statement's geometry, which is the
        geometry of formgen (C03) rotated by pi"""
        theta = TM.var('aoi')
        r3 = range(3)
        A, f, k = pieces(theta)
        Rz = zmat()
        c, s = TM.cos(theta), TM.sin(theta)
        kout = [-s, ZERO, -c]
        v = [T.atom(('c', 'X', a)) for a in r3]
        lab = [sum((Rz[i][a]*v[a] for a in r3), ZERO) for i in r3]
        along = sum((kout[i]*lab[i] for i in r3), ZERO)
        out = [lab[i]-along*kout[i] for i in r3]
        for y, comps in (('P', (0, 2)), ('S', (1,))):
            p.eq('analyser %s: squared modulus of the components of the source vector' % y, sum((A[y][a][b]*v[a]*v[b].conj() for a in r3 for b in r3), ZERO), sum((out[i]*out[i].conj() for i in comps), ZERO))
        d = lambda *i: T.atom(('c', 'd')+i)
        q = lambda *i: T.atom(('c', 'q')+i)
        pi = {TM.single_atom(PHI): PHI+TM.PI}
        for x, inp in (('P', 'p'), ('S', 's')):
            F_, K_ = f[x], k
            X_ = [sum((d(a, b, e)*F_[b]*F_[e] for b in r3 for e in r3), ZERO)-sum((q(a, g, b, e)*K_[g]*F_[b]*F_[e] for g in r3 for b in r3 for e in r3), ZERO) for a in r3]
            lab = [sum((Rz[i][a]*X_[a] for a in r3), ZERO) for i in r3]
            along = sum((kout[i]*lab[i] for i in r3), ZERO)
            want = c03.source(theta, inp, d, None, q)
            for i in r3:
                p.eq('input %s: component %d of P+iQ, rotated by pi' % (x, i), lab[i]-along*kout[i], vsub(want[i], pi)*(ONE if i == 2 else -ONE))
            h = [sum((d(a, b, e).conj()*F_[b]*F_[e] for b in r3 for e in r3), ZERO)+sum((q(a, g, b, e).conj()*K_[g]*F_[b]*F_[e] for g in r3 for b in r3 for e in r3), ZERO) for a in r3]
            for i in r3:
                p.eq('input %s: conjugate of component %d' % (x, i), h[i], X_[i].conj())
    p.verify('lemma', geometry, 'the intensity in the geometry of the generator', lemma=True)

    # -- the helpers ---------------------------------------------------------------------
    def substitution(I):
        n = TM.var('size', 'i')
        i = TM.var('i', 'i')
        for c in (('ge', n), ('ge', i), ('ge', n-1-i)):
            I.ctx.assume(c)
        pairs = [(TM.var('s%d' % j), TM.var('v%d' % j)) for j in range(3)]
        Elem.pairs = pairs
        a = Any(Shape(n), mkarr((n,), lambda j: Elem(j[0])))
        before = p.snap(a.flat)
        r = p.run(F+'_substitute_into_array', [a]+pairs)
        p.unchanged('array', before)
        ok = isinstance(r, Any) and r.shape is a.shape
        p.true('an array of the same shape', ok, repr(r))
        if ok:
            w = iv(('p', 'number', i))
            g = r.flat.get((i,))
            g = g.value() if isinstance(g, Elem) else g
            p.eq('every element is substituted into, numbers are kept', g, w*T.atom(('c', 'elem', i))+(ONE-w)*T.atom(('c', 'subst', i)))
    p.verify(F+'_substitute_into_array', substitution, 'any shape')

    def rounding(I):
        n = TM.var('size', 'i')
        i = TM.var('i', 'i')
        nd = TM.var('ndigits', 'i')
        for c in (('ge', n), ('ge', i), ('ge', n-1-i)):
            I.ctx.assume(c)

        def one(I, a, k):
            p.true('precondition of _round_expr: the number of digits asked for', len(a) == 2 and not k and num(a[1]) == nd, repr(a))
            return T.atom(('c', 'rounded', num(a[0])))
        I.contracts[F+'_round_expr'] = one
        a = Any(Shape(n), mkarr((n,), lambda j: T.atom(('c', 'elem', j[0]))))
        before = p.snap(a.flat)
        r = p.run(F+'_round_complex_tensor', [a, nd])
        p.unchanged('array', before)
        ok = isinstance(r, Any) and r.shape is a.shape
        p.true('an array of the same shape', ok, repr(r))
        if ok:
            p.eq('every element is rounded', r.flat.get((i,)), T.atom(('c', 'rounded', T.atom(('c', 'elem', i)))))
    p.verify(F+'_round_complex_tensor', rounding, 'any shape')

    class Expr:
        """an expression with the numeric factors num(0..J-1)"""

        def __init__(self, expanded=False):
            self.expanded = expanded

        def vattr(self, I, n):
            if n == 'expand':
                return Meth(n, lambda I, a, k: Expr(True))
            if n == 'atoms':
                return Meth(n, self.atoms)
            if n == 'xreplace':
                return Meth(n, self.xreplace)
            raise Unsupported('attribute %s of an expression' % n)

        def atoms(self, I, a, k):
            if len(a) != 1 or k or repr(a[0]) != '<ext sympy.Number>':
                raise Unsupported('atoms of %r' % (a,))
            x = TM.fresh('x')
            return PList(fam=Family(self.J, TM.single_atom(x), T.atom(('r', 'num', x))))

        def xreplace(self, I, a, k):
            return Replaced(a[0], self)

    class Replaced:
        def __init__(self, d, e):
            self.d, self.e = d, e

    def round_expr(I):
        J, nd, j = TM.var('J', 'i'), TM.var('ndigits', 'i'), TM.var('j', 'i')
        for c in (('ge', j), ('ge', J-1-j)):
            I.ctx.assume(c)
        Expr.J = J
        r = p.run(F+'_round_expr', [Expr(), nd])
        ok = isinstance(r, Replaced)
        p.true('the numeric factors are replaced', ok, repr(r))
        if ok:
            p.eq('every numeric factor is rounded', I.getitem(r.d, T.atom(('r', 'num', j))), T.atom(('r', 'round', T.atom(('r', 'num', j)), nd)))
            p.eq('nothing else is replaced', num(I.call(TAB['builtins.len'], [r.d], {})), J)
    p.verify(F+'_round_expr', round_expr, 'an expression with any number of numeric factors')

    def round_number(I):
        nd = TM.var('ndigits', 'i')
        z = T.atom(('c', 'z'))

        class Num:
            def vattr(self, I, n):
                raise PyRaise(AttributeError(n))

            def vnum(self):
                return z
        r = p.run(F+'_round_expr', [Num(), nd])
        R = lambda v: T.atom(('r', 'round', v, nd))
        p.eq('real and imaginary part are rounded', r, R(z.real())+T.const(1j)*R(z.imag()))
    p.verify(F+'_round_expr', round_number, 'a number')
