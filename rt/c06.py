import common as K, gen as G
import numpy as np, sympy as sp, itertools


def run(R):
    from shgpy import tensor_product, tensor_contract, transform
    py, rng = R.py, R.rng

    def arr(shape, kind):
        if kind == 'f':
            return rng.normal(size=shape)
        if kind == 'c':
            return rng.normal(size=shape)+1j*rng.normal(size=shape)
        if kind == 'i':
            return rng.integers(-4, 5, size=shape)
        a = np.zeros(shape, dtype=object)
        for i in itertools.product(*map(range, shape)):
            a[i] = G.coefficient(py)
        return a

    def ev(a, vals):
        a = np.asarray(a)
        if a.dtype != object:
            return a
        return np.array([K.num(e, vals) for e in a.flatten()], dtype=complex).reshape(a.shape)
    vals = {s: float(rng.uniform(.3, 1.7)) for s in G.SYMS}

    def product(args, desc):
        with R.case('tensor_product', desc) as c:
            before = [np.copy(a) for a in args]
            got = tensor_product(*args)
            n = 0
            op = []
            for a in args:
                op += [ev(a, vals), list(range(n, n+np.ndim(a)))]
                n += np.ndim(a)
            c.close(ev(got, vals), np.einsum(*op, list(range(n))), 'product')
            for a, b in zip(args, before):
                c.same(np.asarray(a), np.asarray(b), 'argument unchanged')
    for i in range(300 if R.thorough else 40):
        if i > 20 and not R.more():
            break
        kind = py.choice('ffcio')
        k = py.choice([2, 2, 3, 4, 5])
        args = []
        for _ in range(k):
            rank = py.choice([1, 1, 2, 3]) if k < 4 else py.choice([1, 1, 2])
            args.append(arr(tuple(py.choice([1, 2, 3] if kind != 'o' else [1, 2]) for _ in range(rank)), py.choice([kind, 'f']) if kind != 'o' else 'o'))
        product(args, 'shapes %s %s' % ([a.shape for a in args], kind))

    def contract(t, pairs, desc):
        with R.case('tensor_contract', desc) as c:
            b, pb = np.copy(t), [list(p) for p in pairs]
            got = tensor_contract(t, pairs)
            sub = list(range(t.ndim))
            for p, q in pairs:
                sub[q] = sub[p]
            used = set(x for p in pairs for x in p)
            keep = [i for i in range(t.ndim) if i not in used]
            c.close(ev(got, vals), np.einsum(ev(t, vals), sub, [sub[i] for i in keep]), 'contraction %s' % (pairs,))
            c.same(t, b, 'tensor unchanged')
            c.eq([list(p) for p in pairs], pb, 'index list unchanged')
    for i in range(600 if R.thorough else 120):
        if i > 40 and not R.more():
            break
        kind = py.choice('fffcio')
        npairs = py.choice([0, 1, 1, 2, 2, 3, 4])
        free = py.choice([0, 1, 2, 3])
        if kind == 'o':
            npairs, free = min(npairs, 2), min(free, 1)
        rank = 2*npairs+free
        if rank == 0:
            continue
        pos = py.sample(range(rank), rank)
        dims = [0]*rank
        pairs = []
        for j in range(npairs):
            d = py.choice([1, 2, 3]) if kind != 'o' else 2
            p, q = pos[2*j], pos[2*j+1]
            dims[p] = dims[q] = d
            pairs.append([p, q])
        for p in pos[2*npairs:]:
            dims[p] = py.choice([1, 2, 3])
        contract(arr(tuple(dims), kind), pairs, 'shape %s pairs %s %s' % (dims, pairs, kind))
    vals[sp.Symbol('x')] = 1.7

    def tr(c, rank, t, op):
        b, ob = np.copy(t), np.copy(op)
        got = transform(t, op)
        low = list(range(rank))
        ops = []
        for a in range(rank):
            ops += [ev(op, vals), [rank+a, a]]
        c.close(ev(got, vals), np.einsum(*ops, ev(t, vals), low, [rank+a for a in range(rank)], optimize=True), 'transform')
        c.same(t, b, 'tensor unchanged')
        c.same(op, ob, 'operation unchanged')
    for rank in (1, 2, 3, 4, 5):
        for kind in ('f', 'c', 'o'):
            if kind == 'o' and rank > 3 or rank == 5 and kind != 'f':
                continue
            with R.case('transform', 'rank %d %s' % (rank, kind)) as c:
                t = arr((3,)*rank, kind)
                op = arr((3, 3), 'f' if kind != 'o' or rank == 3 else 'o')
                tr(c, rank, t, op)
    ops = [('mirror z', np.diag([1, 1, -1])), ('rotation by pi about x', np.diag([1., -1, -1])), ('inversion', -np.identity(3)), ('identity', np.identity(3, dtype=int)),
           ('quarter turn', np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]])), ('permutation', np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]])), ('projector', np.diag([1, 0, 0])),
           ('zero', np.zeros((3, 3))), ('scaling', 2*np.identity(3)), ('shear', np.array([[1, 2, 0], [0, 1, 0], [0, 0, 1.]])), ('symbolic diagonal', np.diag([sp.Symbol('x'), sp.Integer(1), sp.Integer(2)])),
           ('symmetric', np.array([[1, 2, 3], [2, 4, 5], [3, 5, 6.]])), ('antisymmetric', np.array([[0, 2, 3], [-2, 0, 5], [-3, -5, 0.]]))]
    for rank in (1, 2, 3, 4):
        for name, op in ops:
            with R.case('transform', 'rank %d by %s' % (rank, name)) as c:
                tr(c, rank, arr((3,)*rank, 'f'), op)


if __name__ == '__main__':
    K.main('C06', run)
