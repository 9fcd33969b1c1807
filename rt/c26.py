import common as K, gen as G, dc
import numpy as np, sympy as sp, os


def state(x):
    """everything a container reports"""
    from shgpy import DataContainer, fDataContainer, FormContainer
    n = type(x).__name__
    if n == 'DataContainer':
        return {'keys': x.get_keys(), 'items': {k: np.array(v) for k, v in x.get_items('radians')}, 'deg': {k: x.get_pc(k, 'degrees') for k in x.get_keys()},
                'scale': x.get_scale(), 'offset': x.get_offset(), 'phase': x.get_phase_shift('radians'), 'max': x.get_maxval(), 'min': x.get_minval()}
    if n == 'fDataContainer':
        return {'keys': x.get_keys(), 'items': {k: np.array(v) for k, v in x.get_items()}, 'scale': x.get_scale(), 'phase': x.get_phase_shift('radians'), 'M': x.get_M(), 'max': x.get_maxval()}
    if n == 'fFormContainer':
        return {'keys': x.get_keys(), 'items': {k: np.array(v) for k, v in x.get_items()}, 'M': x.get_M(), 'free': x.get_free_symbols()}
    return {'keys': x.get_keys(), 'items': dict(x.get_items()), 'free': x.get_free_symbols()}


def run(R):
    from shgpy import DataContainer, fDataContainer, FormContainer, fFormContainer, formgen
    from shgpy.core import data_handler as D, utilities as U
    from shgpy import shg_symbols as S
    import shgpy
    py, rng = R.py, R.rng
    X = S.phi
    a, b = sp.Symbol('a', real=True), sp.Symbol('b', real=True)
    O = lambda *t: np.array(t, dtype=object)

    def mk(kind, M):
        keys = ['PP', 'PS', 'SS']
        if kind == 'dat':
            d = G.dat_dict(rng, py, keys=keys)
            return d, (lambda d: DataContainer(d, 'radians')), [lambda x: x.scale_data(2), lambda x: x.phase_shift_data(1, 'radians'), lambda x: x.subtract_min(), lambda x: x.filter(lambda y: y+5), lambda x: x.normalize_data(9.5)]
        if kind == 'dat degrees':
            d = G.dat_dict(rng, py, keys=keys, units='degrees')
            return d, (lambda d: DataContainer(d, 'degrees')), [lambda x: x.scale_data(2), lambda x: x.phase_shift_data(20, 'degrees'), lambda x: x.subtract_min()]
        if kind == 'dat normal':
            d = G.dat_dict(rng, py, keys=['PP', 'SP'])
            return d, (lambda d: DataContainer(d, 'radians', normal_to_oblique=True)), [lambda x: x.scale_data(2), lambda x: x.phase_shift_data(1, 'radians')]
        if kind == 'fdat':
            d = G.fdat_dict(rng, py, M, keys=keys)
            return d, (lambda d: fDataContainer(d, M=M)), [lambda x: x.scale_fdata(2), lambda x: x.phase_shift_fdata(1, 'radians'), lambda x: x.normalize_fdata(3)]
        if kind == 'fform':
            d = G.fform_dict(py, M, keys=keys, syms=[a, b])
            d['PP'][0] = a+b
            return d, (lambda d: fFormContainer(d, M=M)), [lambda x: x.subs([(a, 3)]), lambda x: x.apply_phase_shift(1), lambda x: x.apply_arbitrary_scale(b)]
        d = {k: a*sp.cos(X)+b*sp.sin(X)**2+i for i, k in enumerate(keys)}
        return d, (lambda d: FormContainer(d)), [lambda x: x.subs([(a, 3)]), lambda x: x.apply_phase_shift(1, X), lambda x: x.apply_arbitrary_scale(b), lambda x: x.expand()]
    for i in range(200 if R.thorough else 36):
        kind = ['dat', 'dat degrees', 'dat normal', 'fdat', 'fform', 'form'][i % 6]
        M = py.choice([0, 1, 4, 16, 17])
        d, con, ops = mk(kind, M)
        with R.case('containers own their data', '%s M=%d %s' % (kind, M, {k: v.tolist() if isinstance(v, np.ndarray) and v.dtype != object else str(v) for k, v in d.items()})) as c:
            d0 = K.snap(d)
            x = con(d)
            s0 = state(x)
            for k in d:
                c.same(d[k], d0[k], 'constructor argument unchanged')
            # changing the input afterwards
            for k in list(d):
                if isinstance(d[k], np.ndarray):
                    d[k][...] = 0
            d['new'] = d.pop('PP')
            c.ok(K.same(state(x), s0), 'container unchanged after changing what it was built from')
            # changing what the accessor returned
            for k in x.get_keys():
                for v in ([x.get_pc(k, 'radians'), x.get_pc(k, 'degrees')] if kind.startswith('dat') else [x.get_pc(k)]):
                    if isinstance(v, np.ndarray):
                        v[...] = 0
            c.ok(K.same(state(x), s0), 'container unchanged after changing arrays obtained from get_pc')
            x.get_keys().append('zz')
            c.ok(K.same(state(x), s0), 'container unchanged after changing the list of keys')
            # copies, also of manipulated containers
            for o in [None]+ops:
                if o:
                    o(x)
                s1 = state(x)
                y = x.copy()
                c.eq(type(y), type(x), 'type of the copy')
                c.ok(K.same(state(y), s1), lambda: 'copy equals the original: %s, %s' % (state(y), s1))
                for p in ops:
                    p(y)
                c.ok(K.same(state(x), s1), 'original unchanged by operations on the copy')
                y = x.copy()
                for p in ops[:2]:
                    p(x)
                c.ok(K.same(state(y), s1), 'copy unchanged by operations on the original')
                x = y
    # conversions leave their inputs alone
    for i in range(30 if R.thorough else 4):
        M = py.choice([2, 4, 5])
        fd, fm = fDataContainer(G.fdat_dict(rng, py, M), M=M), fFormContainer(G.fform_dict(py, M, syms=[a, b]), M=M)
        N = 2*M+5
        dat = DataContainer({k: np.array([2*np.pi*np.arange(N)/N, rng.normal(size=N)]) for k in ('PP', 'PS')}, 'radians')
        dat.scale_data(2.0)
        dat.phase_shift_data(.3, 'radians')
        form = FormContainer({'PP': a*sp.cos(X)+b*sp.sin(X)**2, 'PS': b+a*sp.I})
        sub = {b: 2.0, a: 1.0, X: .1}
        sub2 = {b: 2.0, a: 1.0}
        calls = {
            'fform_to_fdat': (lambda: D.fform_to_fdat(fm, sub), [fm, sub]), 'fdat_to_dat': (lambda: D.fdat_to_dat(fd, 9), [fd]), 'fform_to_dat': (lambda: D.fform_to_dat(fm, sub, 5), [fm, sub]),
            'fform_to_form': (lambda: D.fform_to_form(fm), [fm]), 'form_to_dat': (lambda: D.form_to_dat(FormContainer({'PP': a*sp.cos(X)}), sub2, 5), [sub2]), 'form_to_fform': (lambda: D.form_to_fform(form, M=M), [form]),
            'form_to_fdat': (lambda: D.form_to_fdat(form, sub2, M=M), [form, sub2]), 'dat_to_fdat': (lambda: D.dat_to_fdat(dat, M=M), [dat]), 'dat_add': (lambda: D.dat_add(dat, dat), [dat]),
            'dat_subtract': (lambda: D.dat_subtract(dat, dat), [dat]), 'merge': (lambda: D.merge_containers([dat, dat], lambda k, i: k+str(i)), [dat]),
            'merge fform': (lambda: D.merge_containers([fm, fm], lambda k, i: k+str(i)), [fm]), 'save': (lambda: D.save_fform(fm, os.path.join(R.scratch, 's')), [fm]),
            'as_pandas': (lambda: [z.as_pandas(index=j) for z in (fd, fm, form) for j in ('multi', 'none')]+[dat.as_pandas('degrees', j) for j in ('multi', 'none')], [fd, fm, form, dat]),
            'repr': (lambda: [repr(z) for z in (fd, fm, form, dat)], [fd, fm, form, dat]),
        }
        for n, (f, ins) in calls.items():
            with R.case('conversions leave their inputs alone', '%s M=%d' % (n, M)) as c:
                st = [state(z) if hasattr(z, 'get_keys') else dict(z) for z in ins]
                r = f()
                c.ok(all(K.same(state(z) if hasattr(z, 'get_keys') else dict(z), s) for z, s in zip(ins, st)), 'inputs unchanged')
                # and the result is independent of them
                if hasattr(r, 'get_keys') and hasattr(ins[0], 'get_keys'):
                    for m, arg in (('scale_data', (3,)), ('scale_fdata', (3,)), ('apply_arbitrary_scale', (3,))):
                        if hasattr(r, m):
                            getattr(r, m)(*arg)
                    for v in (r.get_values('radians') if isinstance(r, DataContainer) else r.get_values()):
                        if isinstance(v, np.ndarray):
                            v[...] = 0
                    c.ok(K.same(state(ins[0]), st[0]), 'input independent of the result')
    # formula generation and tensor helpers
    for i in range(20 if R.thorough else 4):
        t3, t4, m3 = G.real_chi(py, 3), G.real_chi(py, 4, .05), G.real_chi(py, 3, tag='m')
        op = np.array([[0, 1, 0], [-1, 0, 0], [0, 0, 1]], dtype=object)
        c3 = np.array([sp.Symbol('c%d' % py.randrange(30)) if py.random() < .5 else sp.Integer(0) for _ in range(27)], dtype=object).reshape(3, 3, 3)
        for n, f, ins in [
            ('transform', lambda: U.transform(t3, op), [t3, op]), ('tensor_product', lambda: U.tensor_product(t3, op), [t3, op]), ('particularize', lambda: U.particularize(c3), [c3]),
            ('particularize all', lambda: U.particularize(c3, permute_all_indices=True), [c3]), ('make_tensor_real', lambda: U.make_tensor_real(c3), [c3]), ('make_tensor_complex', lambda: U.make_tensor_complex(c3), [c3]),
            ('formgen_just_dipole', lambda: formgen.formgen_just_dipole(t3, .3), [t3]), ('formgen_dipole_quadrupole', lambda: formgen.formgen_dipole_quadrupole(t3, t4, .3), [t3, t4]),
            ('formgen', lambda: formgen.formgen(.3, t_eee=t3, t_mee=m3, t_qee=t4), [t3, m3, t4]),
        ]:
            with R.case('formula generation and tensor helpers leave their inputs alone', n) as c:
                st = [z.copy() for z in ins]
                f()
                for z, s in zip(ins, st):
                    c.same(z, s, 'input of '+n)
    with R.case('lists of index pairs are left alone', 'tensor_contract') as c:
        prs = [[0, 1], [2, 3]]
        U.tensor_contract(np.arange(81).reshape(3, 3, 3, 3), prs)
        c.eq(prs, [[0, 1], [2, 3]], 'index pairs')


if __name__ == '__main__':
    K.main('C26', run)
