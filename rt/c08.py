import common as K, gen as G
import numpy as np, math


def run(R):
    from shgpy import rotation_matrix_from_two_vectors as f
    py, rng = R.py, R.rng
    e = np.eye(3)
    pairs = []
    for i in range(3):
        for j in range(3):
            for s in (1, -1):
                pairs.append((e[i], s*e[j], 'axes'))
    u = [np.array([1, 1, 1]), np.array([0, 0, 1]), np.array([1, -2, 3.0]), np.array([3e5, 1, 2]), np.array([1e-5, 2e-5, -1e-5]), np.array([1, 1, 0])]
    for a in u:
        for s in (1, -1, 2.5, -1e-3, 7, -4):
            pairs.append((a, s*a, 'parallel/antiparallel'))
    for _ in range(2000 if R.thorough else 200):
        pairs.append((rng.normal(size=3)*py.choice([1e-4, 1, 1e4]), rng.normal(size=3)*py.choice([1e-4, 1, 1e4]), 'random'))
    for _ in range(400 if R.thorough else 40):
        a = rng.normal(size=3)
        pairs.append((a, -a*py.choice([1, 3.7])+rng.normal(size=3)*py.choice([1e-3, 1e-2, .1]), 'nearly antiparallel'))
        pairs.append((a, a*py.choice([1, 3.7])+rng.normal(size=3)*py.choice([1e-3, 1e-2, .1]), 'nearly parallel'))
    for _ in range(40):
        pairs.append((rng.integers(-3, 4, 3), rng.integers(-3, 4, 3), 'integers'))
    for a, b, kind in pairs:
        if not np.any(a) or not np.any(b):
            continue
        with R.case('maps direction onto direction: '+kind, '%r -> %r' % (a, b)) as c:
            a0, b0 = np.copy(a), np.copy(b)
            m = f(a, b)
            c.eq(np.shape(m), (3, 3), 'shape')
            c.close(np.dot(m, m.T), np.eye(3), 'orthogonal', 1e-7)
            c.close(np.linalg.det(m), 1, 'determinant', 1e-7)
            c.close(np.dot(m, a/np.linalg.norm(a)), b/np.linalg.norm(b), 'image of the first direction', 1e-6)
            c.same(a, a0, 'first vector unchanged')
            c.same(b, b0, 'second vector unchanged')


if __name__ == '__main__':
    K.main('C08', run)
