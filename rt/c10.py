import common as K, groups
import numpy as np, sympy as sp, itertools, math


def act(g, t):
    for k in range(t.ndim):
        t = np.moveaxis(np.tensordot(g, t, axes=(1, k)), 0, k)
    return t


def invariant_dim(gs, rank):
    n = 3**rank
    M = [np.eye(n)*0]
    for g in gs:
        m = np.array([[1.0]])
        for _ in range(rank):
            m = np.kron(m, g)
        M.append(m-np.eye(n))
    s = np.linalg.svd(np.concatenate(M), compute_uv=False)
    return n-int(np.sum(s > 1e-9))


def run(R):
    import importlib
    from shgpy import tensor_definitions as td
    from shgpy import shg_symbols as S
    G = {k: np.array(v, dtype=float) for k, v in groups.gens(math.sqrt(3), half=0.5).items()}
    names = {v for v in vars(S).values() if isinstance(v, sp.Symbol)}
    dims = {}
    tables = [('dipole', td.dipole, groups.GROUPS, 3), ('surface', td.surface, groups.GROUPS, 3), ('quadrupole', td.quadrupole, groups.QUAD, 4)]
    for tn, tab, grp, rank in tables:
        with R.case('groups tabulated', tn) as c:
            c.eq(sorted(set(tab)-{'S_2'}), sorted(set(grp)-{'S_2'}), 'point groups in the table')
        for g, t in tab.items():
            with R.case('entries', '%s[%r]' % (tn, g)) as c:
                c.eq(np.shape(t), (3,)*rank, 'shape')
                for e in np.asarray(t, dtype=object).flatten():
                    c.ok(isinstance(e, sp.Basic), 'entry %r is not a sympy expression' % (e,))
                    for s in e.free_symbols:
                        c.ok(s in names, 'nonstandard parameter %r' % s)
                        c.ok(len(str(s)) == rank+(tn == 'surface') and (tn != 'surface' or str(s)[0] == 's'), 'parameter %s in table %s' % (s, tn))
            if g not in grp:
                continue
            with R.case('invariant and complete', '%s[%r]' % (tn, g)) as c:
                P = sorted(set().union(*[sp.sympify(e).free_symbols for e in t.flatten()]), key=str)
                A = np.zeros((3**rank, len(P)))
                for i, e in enumerate(t.flatten()):
                    co = {p: e.diff(p) for p in e.free_symbols}
                    c.ok(sp.expand(e-sum(v*p for p, v in co.items())) == 0, 'entry %s is not linear in its parameters' % e)
                    for p, v in co.items():
                        A[i, P.index(p)] = float(v)
                for name in grp[g]:
                    for k, p in enumerate(P):
                        u = A[:, k].reshape((3,)*rank)
                        c.close(act(G[name], u), u, 'not invariant under %s (parameter %s)' % (name, p), 1e-12)
                key = (tuple(grp[g]), rank)
                if key not in dims:
                    dims[key] = invariant_dim([G[n] for n in grp[g]], rank)
                c.eq(int(np.linalg.matrix_rank(A)) if A.size else 0, len(P), 'independent parameters')
                c.eq(len(P), dims[key], 'number of parameters against the dimension of the invariant tensors')
    with R.case('surface mirrors dipole', 'all groups') as c:
        for g in td.dipole:
            for a, b in zip(td.dipole[g].flatten(), td.surface[g].flatten()):
                m = {s: sp.Symbol('s'+str(s)) for s in a.free_symbols}
                c.ok(a.xreplace(m) == b, 'surface[%r] is not the renamed dipole[%r]: %s, %s' % (g, g, b, a))


if __name__ == '__main__':
    K.main('C10', run)
