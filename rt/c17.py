import common as K, gen as G
import numpy as np, sympy as sp


def fvals(v, vals):
    return np.array(K.numv(list(v), vals))


def run(R):
    from shgpy import FormContainer, fFormContainer
    from shgpy.core.data_handler import form_to_fform, fform_to_form
    from shgpy import shg_symbols as S
    py, rng = R.py, R.rng
    # ---- Fourier formulas: random histories against an element-wise model
    for i in range(120 if R.thorough else 16):
        if i > 6 and not R.more():
            break
        M = py.choice([0, 1, 2, 3, 5, 16 if R.thorough else 4])
        d = G.fform_dict(py, M, syms=[G.SYMS[1], G.SYMS[2], G.SYMS[5], G.SYMS[8]])
        s0, s1, s2 = G.SYMS[1], G.SYMS[2], G.SYMS[9]
        ops = [py.choice(['subs', 'shift', 'scale', 'swap', 'copy', 'subsnum']) for _ in range(py.randint(1, 4))]
        arg = [py.choice([sp.pi/3, 1, -2, s2, s2/2, 0.3, sp.Rational(1, 7)]) for _ in ops]
        with R.case('Fourier formula operations', 'M=%d %s %s %s' % (M, {k: list(v) for k, v in d.items()}, ops, arg)) as c:
            f = fFormContainer(d, M=M)
            m = {k: [sp.sympify(x) for x in v] for k, v in d.items()}
            for o, a in zip(ops, arg):
                if o == 'subs':
                    sub = [(s0, a*s1), (s1, 3)]
                    f.subs(sub)
                    m = {k: [x.subs(sub) for x in v] for k, v in m.items()}
                elif o == 'subsnum':
                    f.subs(((s0, 2),))
                    m = {k: [x.subs(s0, 2) for x in v] for k, v in m.items()}
                elif o == 'swap':
                    sub = {s0: s0+1}
                    f.subs(sub)
                    m = {k: [x.subs(sub) for x in v] for k, v in m.items()}
                elif o == 'shift':
                    f.apply_phase_shift(a)
                    m = {k: [x*sp.exp(sp.I*n*a) for n, x in zip(range(-M, M+1), v)] for k, v in m.items()}
                elif o == 'scale':
                    f.apply_arbitrary_scale(a)
                    m = {k: [a*x for x in v] for k, v in m.items()}
                elif o == 'copy':
                    f = f.copy()
                c.eq(f.get_keys(), list(d), 'combinations')
                c.eq(f.get_M(), M, 'M')
            vals = G.values([e for v in m.values() for e in v]+[e for v in f.get_values() for e in v], rng, G.SYMS)
            for k in d:
                c.eq(np.shape(f.get_pc(k)), (2*M+1,), 'shape')
                c.close(fvals(f.get_pc(k), vals), np.array([K.num(e, vals) for e in m[k]]), 'entries of %r after %s' % (k, ops))
            want = sorted({s for v in f.get_values() for e in v for s in e.free_symbols}, key=str)
            got = f.get_free_symbols()
            c.eq([str(s) for s in got], [str(s) for s in want], 'free symbols, sorted by name')
            c.eq(set(got), set(want), 'free symbols')
    # ---- formulas
    X = S.phi
    for i in range(120 if R.thorough else 24):
        if i > 10 and not R.more():
            break
        keys = G.keysets(py)
        d = {}
        for k in keys:
            e = sp.Integer(0)
            for _ in range(py.randint(0, 3)):
                e += G.coefficient(py)*sp.cos(X)**py.randint(0, 3)*sp.sin(X)**py.randint(0, 3)
            d[k] = e
        s2 = G.SYMS[9]
        ops = [py.choice(['subs', 'shift', 'shift', 'scale', 'expand', 'shiftvar', 'copy']+(['simplify'] if i % 6 == 0 else [])) for _ in range(py.randint(1, 4))]
        arg = [py.choice([sp.pi/3, 1, -2, s2, s2/2, 0.3]) for _ in ops]
        with R.case('formula operations', '%s %s %s' % (d, ops, arg)) as c:
            f = FormContainer(d)
            m = dict(d)
            for o, a in zip(ops, arg):
                if o == 'subs':
                    sub = ((G.SYMS[0], G.SYMS[1]*a), (G.SYMS[1], 2))
                    f.subs(sub)
                    m = {k: v.subs(sub) for k, v in m.items()}
                elif o == 'shift':
                    f.apply_phase_shift(a, X)
                    m = {k: v.subs(X, X+a) for k, v in m.items()}
                elif o == 'shiftvar':
                    f.apply_phase_shift(a, G.SYMS[0])
                    m = {k: v.subs(G.SYMS[0], G.SYMS[0]+a) for k, v in m.items()}
                elif o == 'scale':
                    f.apply_arbitrary_scale(a)
                    m = {k: a*v for k, v in m.items()}
                elif o == 'expand':
                    f.expand()
                elif o == 'simplify':
                    f.simplify()
                elif o == 'copy':
                    f = f.copy()
                c.eq(f.get_keys(), keys, 'combinations')
            vals = G.values(list(m.values())+f.get_values(), rng, G.SYMS+[X])
            for k in keys:
                c.close(K.num(f.get_pc(k), vals), K.num(m[k], vals), 'formula %r after %s' % (k, ops))
            want = sorted({s for e in f.get_values() for s in e.free_symbols}, key=str)
            c.eq([str(s) for s in f.get_free_symbols()], [str(s) for s in want], 'free symbols, sorted by name')
            c.eq(set(f.get_free_symbols()), set(want), 'free symbols')
    for e in (0.123456789*G.SYMS[1]*sp.cos(X)+1234.56789, G.SYMS[1]**2*sp.sin(X)*3.3e-7+sp.Rational(1, 3)*sp.cos(X)+1.23456789e5*sp.sin(X)**2+1.23456789e5*sp.cos(X)**2, 0.3333333*G.SYMS[1]+sp.pi*sp.cos(X)):
        for op in ('simplify', 'expand'):
            with R.case('float coefficients', '%s of %s' % (op, e)) as c:
                f = FormContainer({'PP': e, 'SS': 2*e})
                getattr(f, op)()
                for ph in (0.3, 2.2):
                    v = {G.SYMS[1]: 1.7, X: ph}
                    c.close(K.num(f.get_pc('PP'), v), K.num(e, v), 'value at phi=%s' % ph, 1e-11)
                    c.close(K.num(f.get_pc('SS'), v), 2*K.num(e, v), 'value at phi=%s' % ph, 1e-11)
    # ---- commutation with conversion
    a, b, x0 = G.SYMS[1], G.SYMS[9], sp.Symbol('x0', real=True)
    for i in range(10 if R.thorough else 3):
        e = sum(G.coefficient(py)*sp.cos(X)**py.randint(0, 2)*sp.sin(X)**py.randint(0, 2) for _ in range(3))+a*sp.cos(X)
        M = 4
        with R.case('operations commute with conversion', str(e)) as c:
            form = FormContainer({'PP': e, 'PS': a*sp.sin(X)**2+x0})
            ff = form_to_fform(form, M=M)
            vals = G.values([e], rng, G.SYMS+[X, x0])
            for op in ('shift', 'subs', 'scale', 'shift expr'):
                f1, f2 = form.copy(), ff.copy()
                sh = b if op == 'shift' else 2*b+sp.pi/5
                if op.startswith('shift'):
                    f1.apply_phase_shift(sh, X)
                    f2.apply_phase_shift(sh)
                elif op == 'subs':
                    f1.subs([(a, 3*b), (x0, 2)])
                    f2.subs([(a, 3*b), (x0, 2)])
                else:
                    f1.apply_arbitrary_scale(b)
                    f2.apply_arbitrary_scale(b)
                back = fform_to_form(f2)
                for k in ('PP', 'PS'):
                    for ph in (0.3, 2.9, 5.1):
                        v = dict(vals)
                        v[X] = ph
                        c.close(K.num(back.get_pc(k), v), K.num(f1.get_pc(k), v), '%s of %r at phi=%s' % (op, k, ph))
    # symbols with equal names but different assumptions, and digits in names
    with R.case('free symbols reported once, sorted by name', 'x10 x2 zeta') as c:
        sy = [sp.Symbol('x10'), sp.Symbol('x2'), sp.Symbol('Zeta'), sp.Symbol('a', real=True), sp.Symbol('_b')]
        f = fFormContainer({'PP': np.array([sy[0]+sy[1], sy[2]*sy[3], sy[4]+sy[3]], dtype=object), 'SS': np.array([sy[1], 0, sy[0]], dtype=object)}, M=1)
        c.eq(f.get_free_symbols(), sorted(sy, key=str), 'Fourier formula')
        g = FormContainer({'PP': sy[0]+sy[1]*sy[2], 'SS': sy[3]+sy[4]*sy[1]})
        c.eq(g.get_free_symbols(), sorted(sy, key=str), 'formula')


if __name__ == '__main__':
    K.main('C17', run)
