"""Input generators and mathematical oracles shared by the run-time contracts."""
import itertools
import math
from fractions import Fraction

import numpy as np
import sympy as sp


def trig_coeffs(a, b):
    """{n: complex} exact Fourier coefficients of cos^a sin^b (own binomial expansion)"""
    d = {0: (Fraction(1), Fraction(0))}

    def mul(p, q):
        r = {}
        for n, (x, y) in p.items():
            for m, (u, v) in q.items():
                o = r.get(n+m, (Fraction(0), Fraction(0)))
                r[n+m] = (o[0]+x*u-y*v, o[1]+x*v+y*u)
        return r
    h = Fraction(1, 2)
    c = {1: (h, Fraction(0)), -1: (h, Fraction(0))}
    s = {1: (Fraction(0), -h), -1: (Fraction(0), h)}
    for _ in range(a):
        d = mul(d, c)
    for _ in range(b):
        d = mul(d, s)
    return {n: complex(float(x), float(y)) for n, (x, y) in d.items() if x or y}


SYMS = [sp.Symbol('x'), sp.Symbol('yzx', real=True), sp.Symbol('a_1', positive=True), sp.Symbol('real_xxx', real=True),
        sp.Symbol('x', real=True), sp.Symbol('x10'), sp.Symbol('x2'), sp.Symbol('Zeta', complex=True),
        sp.Symbol('theta', real=True), sp.Symbol('psi', real=True), sp.Symbol('lambda_0', real=True)]


def coefficient(py, depth=0):
    """a random phi-independent sympy expression"""
    k = py.randrange(12)
    s = py.choice(SYMS)
    if k == 0:
        return sp.Integer(py.choice([-7, -3, -1, 1, 2, 5]))
    if k == 1:
        return sp.Rational(py.choice([-5, -1, 3, 7]), py.choice([2, 3, 8]))
    if k == 2:
        return sp.Float(py.choice([0.25, -1.5, 3.125]))
    if k == 3:
        return sp.I*py.choice([1, -2, sp.Rational(1, 3)])
    if k == 4:
        return s*py.choice(SYMS)
    if k == 5:
        return s**2+py.choice(SYMS)
    if k == 6:
        return sp.cos(SYMS[8])*s
    if k == 7:
        return sp.exp(sp.I*SYMS[9])*3
    if k == 8:
        return sp.sqrt(2)*s
    if k == 9:
        return (1+sp.I)*s
    if k == 10:
        return sp.pi/3
    return s


def values(exprs, rng, extra=()):
    """random positive numeric values for all free symbols"""
    fs = set(extra)
    for e in exprs:
        fs |= sp.sympify(e).free_symbols
    return {s: float(rng.uniform(0.3, 1.7)) for s in sorted(fs, key=lambda s: (str(s), repr(s.assumptions0)))}


def real_chi(py, rank, density=0.25, cplx=False, sym=0.6, tag='r'):
    """random susceptibility tensor with real parameters (entries sympy)"""
    t = np.zeros((3,)*rank, dtype=object)
    n = 0
    for i in itertools.product(range(3), repeat=rank):
        t[i] = sp.Integer(0)
        if py.random() < density:
            n += 1
            v = sp.Integer(py.choice([-2, -1, 1, 3]))
            if py.random() < sym:
                v = v*sp.Symbol('%s%s' % (tag, ''.join('xyz'[j] for j in i)), real=True)
            if cplx and py.random() < .6:
                v = v*(1+2*sp.I) if py.random() < .5 else v+sp.I*sp.Symbol('i%s%s' % (tag, ''.join('xyz'[j] for j in i)), real=True)
            t[i] = v
    if n == 0:
        t[(0,)*rank] = sp.Symbol(tag+'0', real=True)
    return t


def numtensor(t, vals):
    f = np.array([complex(sp.sympify(e).subs(vals).evalf(20)) if sp.sympify(e).free_symbols else complex(e) for e in t.flatten()])
    return f.reshape(t.shape)


def rz(phi):
    c, s = math.cos(phi), math.sin(phi)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def levi():
    e = np.zeros((3, 3, 3))
    for a, b, c in [(0, 1, 2), (1, 2, 0), (2, 0, 1)]:
        e[a, b, c] = 1
        e[a, c, b] = -1
    return e


def source(theta, phi, eee=None, mee=None, qee=None, pol='P'):
    """effective source of the statement of C03, transverse to kout, numeric"""
    c, s = math.cos(theta), math.sin(theta)
    kin, kout = np.array([s, 0, c]), np.array([s, 0, -c])
    F = np.array([-c, 0, s]) if pol == 'P' else np.array([0, 1.0, 0])
    Rm = rz(phi)
    S = np.zeros(3, dtype=complex)
    if eee is not None:
        S = S+np.einsum('ia,jb,kc,abc,j,k->i', Rm, Rm, Rm, eee, F, F, optimize=True)
    if mee is not None:
        m = np.einsum('ia,jb,kc,abc,j,k->i', Rm, Rm, Rm, mee, F, F, optimize=True)
        S = S+np.cross(kin, m)
    if qee is not None:
        S = S+1j*np.einsum('ia,jb,kc,ld,abcd,j,k,l->i', Rm, Rm, Rm, Rm, qee, kin, F, F, optimize=True)
    return S-kout*np.dot(kout, S)


def intensities(theta, phi, eee=None, mee=None, qee=None):
    P = source(theta, phi, eee, mee, qee, 'P')
    Q = source(theta, phi, eee, mee, qee, 'S')
    a = lambda z: abs(z)**2
    return {'PP': a(P[0])+a(P[2]), 'PS': a(P[1]), 'SP': a(Q[0])+a(Q[2]), 'SS': a(Q[1])}


def keysets(py):
    return py.choice([['PP', 'PS', 'SP', 'SS'], ['PP'], ['SS', 'PP'], ['PS', 'PP', 'extra key'], ['b', 'a', 'PP0', 'PP']])


def dat_dict(rng, py, keys=None, units='radians', clean=False, ragged=True, npts=None):
    """random angle/value arrays. clean: distinct angles in range"""
    keys = keys or keysets(py)
    out = {}
    n0 = npts or py.choice([1, 2, 5, 9, 24])
    for k in keys:
        n = n0 if not ragged else max(1, n0+py.choice([0, 0, 1, 3]))
        if clean:
            x = rng.permutation(40)[:n]*(2*math.pi/40)+.01
        else:
            x = rng.uniform(-9, 14, n)
        if units == 'degrees':
            x = np.rad2deg(x)
        out[k] = np.array([x, rng.normal(size=n)*py.choice([1e-6, 1, 1, 2e7])])
    return out


def fdat_dict(rng, py, M, keys=None, dtype=complex, real_signal=False):
    keys = keys or keysets(py)
    out = {}
    for k in keys:
        v = rng.normal(size=2*M+1)+1j*rng.normal(size=2*M+1)
        if real_signal:
            v = v+np.conj(v[::-1])
        out[k] = (v*py.choice([1, 1, 1e-5, 3e4])).astype(dtype)
    return out


def fexpr(py, syms, allow_const=True):
    """random coefficient expression over the given symbols"""
    k = py.randrange(9)
    s, t = py.choice(syms), py.choice(syms)
    c = py.choice([1, 2, -3, sp.Rational(1, 2), sp.I, 1-2*sp.I, sp.Float(0.75), 0.5j])
    if k == 0 and allow_const:
        return sp.Integer(0)
    if k == 1 and allow_const:
        return sp.sympify(c)
    if k == 2:
        return c*s*t
    if k == 3:
        return c*s**2+t-sp.I*s
    if k == 4:
        return c*sp.cos(s)+t
    if k == 5:
        return c*s+sp.Rational(1, 3)*t*s-1+sp.I*t**3
    if k == 6:
        return sp.sympify(c)*(s+sp.I*t)*(t-2)
    return c*s


def fform_dict(py, M, keys=None, syms=None, density=.7):
    keys = keys or keysets(py)
    syms = syms or SYMS[1:4]
    out = {}
    for k in keys:
        a = np.zeros(2*M+1, dtype=object)
        for i in range(2*M+1):
            a[i] = fexpr(py, syms) if py.random() < density else sp.Integer(0)
        out[k] = a
    return out
