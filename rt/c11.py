import common as K, gen as G
import numpy as np, sympy as sp, itertools


def known(s):
    return s.is_real is not None


def mapping(fs, prefix, suffix):
    out = {}
    for s in fs:
        if not known(s):
            out[s] = sp.Symbol(prefix[0]+str(s)+suffix[0], real=True)+sp.I*sp.Symbol(prefix[1]+str(s)+suffix[1], real=True)
    return out


def run(R):
    from shgpy import make_tensor_complex, make_tensor_real, tensor_definitions as td
    py = R.py
    syms = [sp.Symbol('x'), sp.Symbol('real_x', real=True), sp.Symbol('y', real=True), sp.Symbol('z', complex=True), sp.Symbol('x_1'), sp.Symbol('xyz'), sp.Symbol('xy'),
            sp.Symbol('p', positive=True), sp.Symbol('q', imaginary=True), sp.Symbol('lambda'), sp.Symbol('I'), sp.Symbol('beta'), sp.Symbol('n', integer=True), sp.Symbol('a', commutative=True),
            sp.Symbol('imag_x'), sp.Symbol('real_xy'), sp.Symbol('f', finite=True), sp.Symbol('S'), sp.Symbol('x y')]

    def entry():
        k = py.randrange(8)
        a, b = py.choice(syms), py.choice(syms)
        return [sp.Integer(0), a, -a, a+2*b, a*b, sp.Rational(1, 2)*a**2-sp.I*b, sp.cos(a)+b, sp.Integer(3)][k]

    def run_one(t, desc, prefix, suffix, default):
        for kind in ('complex', 'real'):
            with R.case('make_tensor_'+kind, desc) as c:
                b = np.copy(t)
                if kind == 'complex':
                    got = make_tensor_complex(t) if default else make_tensor_complex(t, prefix=prefix, suffix=suffix)
                else:
                    got = make_tensor_real(t)
                c.eq(np.shape(got), t.shape, 'shape')
                c.same(t, b, 'input array unchanged')
                for e, g in zip(b.flatten(), np.asarray(got, dtype=object).flatten()):
                    e = sp.sympify(e)
                    m = mapping(e.free_symbols, prefix, suffix) if kind == 'complex' else {s: sp.Symbol(str(s), real=True) for s in e.free_symbols if not known(s)}
                    want = e.subs(m, simultaneous=True)
                    vals = {s: float(R.rng.uniform(.3, 1.7)) for s in want.free_symbols | sp.sympify(g).free_symbols}
                    c.ok(sp.sympify(g).free_symbols == want.free_symbols, 'parameters of %s: got %s, expected %s' % (e, sp.sympify(g).free_symbols, want.free_symbols))
                    c.close(K.num(g, vals), K.num(want, vals), 'entry %s -> %s' % (e, g))
                    if all(s.is_real is not False for s in e.free_symbols):
                        c.ok(all(s.is_real for s in sp.sympify(g).free_symbols), 'entry %s still has non-real parameters' % g)

    for i in range(300 if R.thorough else 40):
        if i > 15 and not R.more():
            break
        rank = py.choice([1, 2, 3])
        t = np.zeros((3,)*rank, dtype=object)
        for j in itertools.product(range(3), repeat=rank):
            # entries of one tensor avoid clashing names (x next to real_x)
            t[j] = entry()
        fs = set().union(*[sp.sympify(e).free_symbols for e in t.flatten()])
        d = py.choice([None, (('re_', 'im_'), ('', '')), (('', ''), ('_r', '_i')), (('r', 'i'), ('1', '2'))])
        p, s = d or (('real_', 'imag_'), ('', ''))
        news = set(str(x) for v in mapping(fs, p, s).values() for x in v.free_symbols)
        t2 = t
        if news & set(str(x) for x in fs):
            bad = news & set(str(x) for x in fs)
            t2 = np.array([e if not any(str(x) in bad for x in sp.sympify(e).free_symbols) else sp.Integer(1) for e in t.flatten()], dtype=object).reshape(t.shape)
        run_one(t2, str(t2.tolist())+' '+str(d), p, s, d is None)
    for g in py.sample(sorted(td.dipole), 3)+['C_1', 'S_2']:
        run_one(td.dipole[g], 'dipole[%r]' % g, ('real_', 'imag_'), ('', ''), True)
    run_one(td.quadrupole['O'], "quadrupole['O']", ('real_', 'imag_'), ('', ''), True)
    with R.case('accepted by the generators', 'C_2v complex and real') as c:
        from shgpy.formgen import formgen_just_dipole
        formgen_just_dipole(make_tensor_complex(td.dipole['C_2v']), .3)
        formgen_just_dipole(make_tensor_real(td.dipole['C_2v']), .3)
        c.ok(True)


if __name__ == '__main__':
    K.main('C11', run)
