import common as K, gen as G
import numpy as np, sympy as sp, math


def rot(n, t):
    n = np.asarray(n, dtype=float)/np.linalg.norm(np.asarray(n, dtype=float))
    k = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.cos(t)*np.eye(3)+(1-np.cos(t))*np.outer(n, n)+np.sin(t)*k


def run(R):
    from shgpy import rotation_matrix3, rotation_matrix3symb
    py, rng = R.py, R.rng
    axes = [[0, 0, 1], [1, 0, 0], (0, 1, 0), [0, 0, -1], np.array([1, 1, 1]), np.array([0, 0, 2]), np.array([3, -4, 12]), np.array([1e-7, 2e-7, -3e-7]),
            np.array([1e8, 0, 1e8]), np.array([0.0, 5.0, 0.0]), np.array([1, 2, 3], dtype=np.float32), np.array([2, 0, 1], dtype=np.int8), [0.3, -0.2, 0.1]]
    axes += [rng.normal(size=3)*py.choice([1e-3, 1, 50]) for _ in range(200 if R.thorough else 20)]
    angles = [0, 0.0, math.pi, -math.pi/2, 1, 2, -3, 7.5, 100.25, np.float64(.3)]
    for i, n in enumerate(axes):
        for t in [angles[i % len(angles)], float(rng.uniform(-8, 8)), py.choice(angles)]:
            tol = 1e-5 if getattr(n, 'dtype', None) in (np.float32, np.int8) else 1e-10
            with R.case('rotation_matrix3', '%r %r' % (n, t)) as c:
                b = np.array(n, copy=True) if isinstance(n, np.ndarray) else type(n)(n)
                m = rotation_matrix3(n, t)
                c.eq(np.shape(m), (3, 3), 'shape')
                c.close(m, rot(n, t), 'matrix', tol)
                c.close(np.dot(m, np.transpose(m)), np.eye(3), 'orthogonal', tol)
                c.same(n, b, 'axis unchanged')
            with R.case('rotation_matrix3symb', '%r %r' % (n, t)) as c:
                b = np.array(n, copy=True) if isinstance(n, np.ndarray) else type(n)(n)
                m = rotation_matrix3symb(n, t)
                c.eq(np.shape(m), (3, 3), 'shape')
                c.close([[complex(sp.sympify(e)) for e in r] for r in m], rot(n, t), 'matrix', tol)
                c.same(n, b, 'axis unchanged')
    for n in axes[:7]:
        x = sp.Symbol('x', real=True)
        with R.case('rotation_matrix3symb, symbolic angle', repr(n)) as c:
            for ang in (x, 2*x, x-sp.pi/3):
                m = rotation_matrix3symb(n, ang)
                for v in (0.0, 1.2, -2.9):
                    c.close([[K.num(e, {x: v}) for e in r] for r in m], rot(n, float(ang.subs(x, v))), 'matrix at %s=%g' % (ang, v))
    with R.case('rotation_matrix3symb, symbolic axis', '[a, b, c]') as c:
        a, b, d, t = sp.symbols('a b d t', real=True)
        for ax in ([a, b, d], np.array([a, 0, d]), [sp.Rational(1, 2), sp.sqrt(3), a]):
            m = rotation_matrix3symb(ax, t)
            vals = {a: .3, b: -1.7, d: .9, t: 2.2}
            c.close([[K.num(e, vals) for e in r] for r in m], rot([K.num(e, vals).real for e in ax], 2.2), 'matrix')


if __name__ == '__main__':
    K.main('C07', run)
