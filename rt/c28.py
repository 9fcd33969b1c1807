import common as K, gen as G, dc
import numpy as np, sympy as sp, os


def rows(df, cols, level):
    """-> list of (pc, coordinate, value) of a frame in either index style"""
    out = []
    if level == 'multi':
        for idx, v in zip(df.index.tolist(), df.iloc[:, 0].tolist()):
            if isinstance(idx, tuple):
                out.append(tuple(idx)+(v,))
            else:
                out.append((idx, v))
    else:
        for _, r in df.reset_index(drop=True).iterrows():
            out.append(tuple(r[c] for c in ['POLARIZATION']+cols))
    return out


def run(R):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from shgpy import DataContainer, fDataContainer, FormContainer, fFormContainer
    from shgpy.plotter import easy_plot, easy_polar_plot
    py, rng = R.py, R.rng

    def table(c, x, want, cols, names, *a):
        for style in ('multi', 'none'):
            df = x.as_pandas(*a, index=style) if style == 'none' else x.as_pandas(*a)
            if style == 'multi':
                c.eq(list(df.index.names), names, 'index names')
                c.eq(list(df.columns), cols[-1:], 'columns')
            else:
                c.eq(set(df.columns), set(cols+['POLARIZATION']), 'columns')
            got = rows(df, cols, style)
            c.eq(len(got), len(want), style+': number of rows')
            c.eq([g[0] for g in got], [w[0] for w in want], style+': combinations')
            for g, w in zip(got, want):
                ok = g[:-1] == w[:-1] and (g[-1] == w[-1])
                c.ok(ok, lambda: '%s: row %s, expected %s' % (style, g, w))
        repr(x)
    for i in range(100 if R.thorough else 20):
        ragged = bool(i % 3)
        d = G.dat_dict(rng, py, clean=True, ragged=ragged)
        if i % 4 == 1:
            for k in d:
                d[k][0] = (d[k][0]+rng.uniform(0, 1)) % 6.28
        for u in ('radians', 'degrees'):
            with R.case('table of data', '%s %s' % (u, {k: v.tolist() for k, v in d.items()})) as c:
                x = DataContainer(d, 'radians')
                want = []
                for k in d:
                    o = np.argsort(d[k][0])
                    for a, b in zip(d[k][0][o], d[k][1][o]):
                        want.append((k, float(np.rad2deg(a)) if u == 'degrees' else float(a), float(b)))
                table(c, x, want, ['ANGLE', 'VALUE'], ['POLARIZATION', 'ANGLE'], u)
    for i in range(60 if R.thorough else 12):
        M = py.choice([0, 1, 2, 5, 16, 17])
        d = G.fdat_dict(rng, py, M)
        with R.case('table of Fourier data', 'M=%d %s' % (M, {k: v.tolist() for k, v in d.items()})) as c:
            table(c, fDataContainer(d, M=M), [(k, n, complex(d[k][n+M])) for k in d for n in range(-M, M+1)], ['N', 'VALUE'], ['POLARIZATION', 'N'])
        f = G.fform_dict(py, M)
        with R.case('table of a Fourier formula', 'M=%d %s' % (M, {k: [str(e) for e in v] for k, v in f.items()})) as c:
            table(c, fFormContainer(f, M=M), [(k, n, sp.sympify(f[k][n+M])) for k in f for n in range(-M, M+1)], ['N', 'EXPRESSION'], ['POLARIZATION', 'N'])
        g = {k: G.coefficient(py)*sp.cos(sp.Symbol('phi')) for k in G.keysets(py)}
        with R.case('table of a formula', str(g)) as c:
            table(c, FormContainer(g), [(k, e) for k, e in g.items()], ['EXPRESSION'], ['POLARIZATION'])
    # plots
    for i in range(30 if R.thorough else 8):
        n = [1, 2, 3, 4][i % 4]
        pcs = py.sample(['PP', 'PS', 'SP', 'SS'], n)
        nd = py.choice([1, 2, 3])
        ds = [{k: v for k, v in G.dat_dict(rng, py, keys=py.sample(['PP', 'PS', 'SP', 'SS'], 4), clean=True).items()} for _ in range(nd)]
        dats = [DataContainer(d, 'radians') for d in ds]
        ps = [{'color': 'C%d' % j, 'label': 'l%d' % j} for j in range(nd)]
        for fun in (easy_plot, easy_polar_plot):
            with R.case(fun.__name__, '%s %s' % (pcs, [{k: v.tolist() for k, v in d.items()} for d in ds])) as c:
                plt.close('all')
                fn = os.path.join(R.scratch, 'p.png') if i == 0 else None
                kw = {'show_plot': False, 'show_legend': bool(i % 2), 'filename': fn}
                if fun is easy_plot and i % 3 == 0:
                    kw.update(xlabel='x', ylabel='y')
                before = [{k: v.get_pc(k, 'radians') for k in v.get_keys()} for v in dats]
                fun(dats, ps, list(pcs), **kw)
                axs = [a for f in map(plt.figure, plt.get_fignums()) for a in f.axes if a.lines]
                c.eq([a.get_title() for a in axs], pcs, 'panels')
                for a, pc in zip(axs, pcs):
                    c.eq(len(a.lines), nd, 'curves in panel '+pc)
                    for l, d, p in zip(a.lines, ds, ps):
                        o = np.argsort(d[pc][0])
                        c.close(np.asarray(l.get_xdata(), float), d[pc][0][o], 'angles in panel '+pc)
                        c.close(np.asarray(l.get_ydata(), float), d[pc][1][o], 'values in panel '+pc)
                        c.eq((l.get_color(), l.get_label()), (p['color'], p['label']), 'style in panel '+pc)
                c.ok(all(K.same({k: v.get_pc(k, 'radians') for k in v.get_keys()}, b) for v, b in zip(dats, before)), 'containers unchanged')
                if fn:
                    c.ok(os.path.getsize(fn) > 0, 'file written')
                plt.close('all')


if __name__ == '__main__':
    K.main('C28', run)
