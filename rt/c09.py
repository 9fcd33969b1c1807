import common as K, gen as G
import numpy as np, sympy as sp, itertools


def matrix(t, params):
    """coefficients of the (linear) entries: t.flatten() = A p"""
    rows = []
    for e in t.flatten():
        e = sp.expand(sp.sympify(e))
        rows.append([e.coeff(p) for p in params])
        assert sp.expand(e-sum(e.coeff(p)*p for p in params)) == 0, 'not linear: %s' % e
    return np.array(rows, dtype=object)


def sym_pairs(rank, full):
    out = []
    for i in itertools.product(range(3), repeat=rank):
        if full:
            out.append((i, tuple(sorted(i))))
        elif i[-1] > i[-2]:
            out.append((i, i[:-2]+(i[-1], i[-2])))
    return [(a, b) for a, b in out if a != b]


def nullspace(A):
    m = sp.Matrix(A)
    return m.nullspace()


def check(R, name, t, desc, **kw):
    from shgpy import particularize
    with R.case(name, desc) as c:
        before = np.copy(t)
        full = kw.get('permute_all_indices', False)
        res = particularize(t, **kw)
        c.eq(np.shape(res), t.shape, 'shape')
        c.ok(all(sp.sympify(a) == sp.sympify(b) for a, b in zip(t.flatten(), before.flatten())), 'input unchanged')
        idx = {i: n for n, i in enumerate(itertools.product(range(3), repeat=t.ndim))}
        pairs = sym_pairs(t.ndim, full)
        for a, b in pairs:
            c.ok(sp.expand(sp.sympify(res[a])-sp.sympify(res[b])) == 0, 'entries %s and %s differ: %s, %s' % (a, b, res[a], res[b]))
        P = sorted(set().union(*[sp.sympify(e).free_symbols for e in before.flatten()]), key=str)
        Q = sorted(set().union(*[sp.sympify(e).free_symbols for e in res.flatten()]), key=str)
        c.ok(set(Q) <= set(P), 'new parameters %s' % (set(Q)-set(P)))
        if not P:
            return
        A = matrix(before, P)
        C = np.array([A[idx[a]]-A[idx[b]] for a, b in pairs], dtype=object).reshape(len(pairs), len(P))
        if not any(x != 0 for x in C.flatten()):
            c.ok(all(sp.expand(sp.sympify(a)-sp.sympify(b)) == 0 for a, b in zip(res.flatten(), before.flatten())), 'already symmetric tensor changed')
        ns = [np.array(A.dot(np.array(v).flatten()), dtype=float) for v in nullspace(C)]
        W = np.array(ns, dtype=float).reshape(len(ns), A.shape[0])      # specializations with the symmetry
        B = np.array(matrix(res, Q), dtype=float) if Q else np.zeros((A.shape[0], 0))
        rk = lambda m: int(np.linalg.matrix_rank(m, tol=1e-8)) if m.size else 0
        rW, rB = rk(W), rk(B.T)
        c.eq(rk(np.concatenate([W, B.T])), rW, 'result is not a specialization of the input (rank)')
        c.eq(rB, rW, 'generality (dimension of the family of results)')
        for e in kw.get('exclude', []):
            for i, v in zip(range(A.shape[0]), before.flatten()):
                if v == e:
                    c.ok(res.flatten()[i] == e, 'excluded parameter %s was solved for' % e)


def run(R):
    from shgpy import tensor_definitions as td
    py = R.py
    for g in py.sample(sorted(td.dipole), 6)+['C_1', 'D_3', 'S_2']:
        check(R, 'tabulated dipole', td.dipole[g], 'dipole[%r]' % g)
        check(R, 'tabulated dipole, all indices', td.dipole[g], 'dipole[%r], permute_all_indices' % g, permute_all_indices=True)
    for g in ['O', 'C_4v', 'Isotropic']+([] if not R.thorough else py.sample(sorted(td.quadrupole), 8)):
        if g in td.quadrupole:
            check(R, 'tabulated quadrupole', td.quadrupole[g], 'quadrupole[%r]' % g)
    ps = sp.symbols('p0:9')
    for i in range(60 if R.thorough else 14):
        if i > 6 and not R.more():
            break
        rank = py.choice([2, 3, 3])
        t = np.zeros((3,)*rank, dtype=object)
        use = ps[:py.choice([3, 6, 9])]
        for j in itertools.product(range(3), repeat=rank):
            k = py.random()
            t[j] = sp.Integer(0) if k < .3 else py.choice(use)*py.choice([1, -1, 1, 2]) if k < .8 else py.choice(use)-2*py.choice(use)
        check(R, 'random linear tensor', t, str(t.tolist()))
        if rank == 3 and i % 3 == 0:
            check(R, 'random linear tensor, all indices', t, str(t.tolist()), permute_all_indices=True)
    # already symmetric
    t = np.zeros((3, 3, 3), dtype=object)
    for j in itertools.product(range(3), repeat=3):
        t[j] = ps[sum(j)]
    check(R, 'already symmetric', t, 'totally symmetric')
    check(R, 'already symmetric', t, 'totally symmetric, all indices', permute_all_indices=True)
    t = np.zeros((3, 3, 3), dtype=object)
    for j in itertools.product(range(3), repeat=3):
        t[j] = ps[j[0]]*(1+j[1]+j[2])
    check(R, 'already symmetric', t, 'symmetric in the last two')
    # equal entries written differently; plain numbers
    x, y = ps[:2]
    for full in (False, True):
        t = np.zeros((3, 3, 3), dtype=object)
        t[:] = sp.Integer(0)
        for j in set(itertools.permutations((0, 0, 1))):
            t[j] = sp.sqrt(2)*(x+y) if j[2] == 1 else sp.sqrt(2)*x+sp.sqrt(2)*y
        check(R, 'already symmetric', t, 'written differently: %s' % t.tolist(), permute_all_indices=full)
        t = np.copy(t)
        t[2, 2, 1], t[2, 1, 2] = sp.sqrt(3)*(x-y), sp.sqrt(3)*y+x
        check(R, 'random linear tensor', t, 'written differently: %s' % t.tolist(), permute_all_indices=full)
        t = np.zeros((3, 3, 3), dtype=object)
        t[0, 0, 1], t[0, 1, 0], t[1, 1, 2] = x, 2*y, ps[2]
        check(R, 'plain numbers', t, str(t.tolist()), permute_all_indices=full)
    # excluded parameters
    for full in (False, True):
        t = np.zeros((3, 3, 3), dtype=object)
        ex = []
        for n, j in enumerate(itertools.product(range(3), repeat=3)):
            t[j] = sp.Symbol('s%d%d%d' % j)
            if (full and list(j) == sorted(j)) or (not full and (j[1] > j[2]) == (j[0] == 1) and j[1] != j[2]):
                ex.append(t[j])
        check(R, 'excluded parameters', t, 'exclude=%s all=%s' % (ex, full), exclude=ex, permute_all_indices=full)


if __name__ == '__main__':
    K.main('C09', run)
