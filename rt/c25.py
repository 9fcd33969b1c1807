import common as K, gen as G, dc
import numpy as np, sympy as sp


def run(R):
    from shgpy import DataContainer, fDataContainer, FormContainer, fFormContainer
    from shgpy.core.data_handler import merge_containers, dat_add, dat_subtract
    py, rng = R.py, R.rng
    X = sp.Symbol('phi')

    def make(kind, M, keys):
        if kind == 'dat':
            d = G.dat_dict(rng, py, keys=keys, clean=True)
            return DataContainer(d, 'radians')
        if kind == 'fdat':
            return fDataContainer(G.fdat_dict(rng, py, M, keys=keys), M=M)
        if kind == 'form':
            return FormContainer({k: G.coefficient(py)*sp.cos(X)**2+G.coefficient(py) for k in keys})
        return fFormContainer(G.fform_dict(py, M, keys=keys), M=M)

    def items(x):
        return x.get_items('radians') if isinstance(x, DataContainer) else x.get_items()

    def val(x, k):
        return x.get_pc(k, 'radians') if isinstance(x, DataContainer) else x.get_pc(k)

    def eqv(c, a, b, msg):
        if isinstance(b, np.ndarray):
            c.eq(type(a), np.ndarray, msg+' type')
            c.same(a, b, msg)
        else:
            c.ok(isinstance(a, sp.Basic) and a == b, '%s: got %r (%s), expected %r' % (msg, a, type(a), b))
    maps = {'index': lambda k, i: k+str(i), 'first only': lambda k, i: k, 'constant': lambda k, i: 'all', 'reversed': lambda k, i: '%d-%s' % (-i, k[::-1])}
    for i in range(200 if R.thorough else 48):
        if i > 24 and not R.more():
            break
        kind = ['dat', 'fdat', 'form', 'fform'][i % 4]
        M = py.choice([0, 1, 3, 16])
        n = py.choice([1, 2, 3])
        mn = py.choice(list(maps))
        cs = [make(kind, M, py.choice([['PP', 'PS'], ['SS'], ['PS', 'PP', 'SP']])) for _ in range(n)]
        with R.case('merge', '%s M=%d n=%d mapping=%s %s' % (kind, M, n, mn, [x.get_keys() for x in cs])) as c:
            before = [[(k, K.snap(v)) for k, v in items(x)] for x in cs]
            m = merge_containers(cs, maps[mn])
            c.eq(type(m), type(cs[0]), 'type')
            want = {}
            for j, its in enumerate(before):
                for k, v in its:
                    want[maps[mn](k, j)] = v
            c.eq(m.get_keys(), list(want), 'keys')
            if kind in ('fdat', 'fform'):
                c.eq(m.get_M(), M, 'M')
            for k, v in want.items():
                eqv(c, val(m, k), v, 'value of %r' % k)
            for x, b in zip(cs, before):
                c.eq(x.get_keys(), [k for k, _ in b], 'inputs unchanged')
                for k, v in b:
                    eqv(c, val(x, k), v, 'inputs unchanged')
            # independent of the inputs afterwards
            x = cs[0]
            {'dat': lambda: x.scale_data(7), 'fdat': lambda: x.scale_fdata(7), 'form': lambda: x.apply_arbitrary_scale(7), 'fform': lambda: x.apply_arbitrary_scale(7)}[kind]()
            for k, v in want.items():
                eqv(c, val(m, k), v, 'value of %r after scaling an input' % k)
    kinds = ['dat', 'fdat', 'form', 'fform']
    for a in kinds:
        for b in kinds:
            if a != b:
                with R.case('mixing kinds is refused', '%s + %s' % (a, b)) as c:
                    c.raises(Exception, lambda: merge_containers([make(a, 1, ['PP']), make(b, 1, ['SS'])], maps['index']), a+b)
                    c.raises(Exception, lambda: merge_containers([make(a, 1, ['PP']), make(a, 1, ['PP']), make(b, 1, ['SS'])], maps['index']), a+b)
    with R.case('mixing kinds is refused', 'not a container') as c:
        c.raises(Exception, lambda: merge_containers([{'PP': 1}], maps['index']), 'dict')
    # add / subtract
    for i in range(200 if R.thorough else 40):
        keys = py.choice([['PP', 'PS', 'SP', 'SS'], ['PP'], ['b', 'a']])
        n = py.choice([1, 2, 7])
        x = {k: np.sort(rng.permutation(60)[:n])*.1+.01 for k in keys}
        if py.random() < .3:
            x = {k: (v if k == keys[0] else np.append(v, 6.2)) for k, v in x.items()}
        d1 = {k: np.array([x[k], rng.normal(size=len(x[k]))]) for k in keys}
        d2 = {k: np.array([x[k], rng.normal(size=len(x[k]))]) for k in keys}
        k2 = list(keys)
        py.shuffle(k2)
        with R.case('sum and difference', '%s %s' % ({k: v.tolist() for k, v in d1.items()}, {k: d2[k].tolist() for k in k2})) as c:
            a = DataContainer(d1, 'radians')
            b = DataContainer({k: d2[k] for k in k2}, 'radians')
            for f, s in ((dat_add, 1), (dat_subtract, -1)):
                r = f(a, b)
                c.eq(set(r.get_keys()), set(keys), 'combinations')
                for k in keys:
                    v = r.get_pc(k, 'radians')
                    c.eq(np.shape(v), (2, len(x[k])), 'shape')
                    c.close(v[0], x[k], 'angles of %r' % k)
                    c.close(v[1], d1[k][1]+s*d2[k][1], 'values of %r' % k)
            for o, dd in ((a, d1), (b, d2)):
                for k in keys:
                    c.close(o.get_pc(k, 'radians'), dd[k], 'inputs unchanged')
    g = np.array([[.1, .2, .3], [1., 2, 3]])
    other = {'keys': ({'PP': g}, {'PS': g}), 'more keys': ({'PP': g}, {'PP': g, 'PS': g}), 'fewer keys': ({'PP': g, 'SS': g}, {'PP': g}),
             'angles': ({'PP': g}, {'PP': g+np.array([[.05], [0]])}), 'one angle': ({'PP': g}, {'PP': np.array([[.1, .2, .4], [1., 2, 3]])}),
             'last combination': ({'PP': g, 'SS': g}, {'PP': g, 'SS': np.array([[.1, .25, .3], [1., 2, 3]])}), 'number of angles': ({'PP': g}, {'PP': g[:, :2]}),
             'number of angles of the last': ({'PP': g, 'SS': g}, {'PP': g, 'SS': g[:, :2]}), 'single point': ({'PP': g, 'SS': g}, {'PP': g, 'SS': g[:, :1]}),
             'single point 2': ({'PP': g, 'SS': g[:, :1]}, {'PP': g, 'SS': g}), 'small angles': ({'PP': g*1e-3}, {'PP': g*2e-3})}
    for n, (p, q) in other.items():
        with R.case('differing keys or angles are refused', n) as c:
            for f in (dat_add, dat_subtract):
                c.raises(Exception, lambda: f(DataContainer(p, 'radians'), DataContainer(q, 'radians')), n)


if __name__ == '__main__':
    K.main('C25', run)
