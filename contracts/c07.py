"""rotation_matrix3 / rotation_matrix3symb against Rodrigues' formula, for an
arbitrary nonzero real axis (array or list, any number type) and angle."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.values import *

U = 'shgpy.core.utilities:'
EPS = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (1, 0, 2): -1, (0, 2, 1): -1, (2, 1, 0): -1}


def rodrigues(n, t):
    """cos*1 + (1-cos)*nn^T + sin*[n]x with the unit axis"""
    m = TM.sqrt(n[0]**2+n[1]**2+n[2]**2)
    u = [x/m for x in n]
    c, s = TM.cos(t), TM.sin(t)
    def f(idx):
        i, j = idx
        r = u[i]*u[j]*(ONE-c)
        if i == j:
            r = r+c
        for k in range(3):
            e = EPS.get((i, k, j), 0)      # ([n]x)_ij = eps_ikj n_k
            if e:
                r = r+s*u[k]*e
        return r
    return f


def proper_rotation(p, get):
    for i in range(3):
        for j in range(3):
            p.eq('orthogonal[%d,%d]' % (i, j), sum((get((k, i))*get((k, j)) for k in range(3)), ZERO), ONE if i == j else ZERO)
    det = ZERO
    for (i, j, k), e in EPS.items():
        det = det+get((0, i))*get((1, j))*get((2, k))*e
    p.eq('determinant 1', det, ONE)


def contracts():
    def c(I, args, kw):
        """rotation_matrix3(n, t): Rodrigues' matrix (proved in C07)"""
        n = [num(I.getitem(args[0], i)) for i in range(3)]
        t = num(args[1])
        n2 = n[0]**2+n[1]**2+n[2]**2
        I.ctx.notes.add('rotation axes are nonzero')
        return mkarr((3, 3), rodrigues(n, t), 'float')
    return {U+'rotation_matrix3': c, U+'rotation_matrix3symb': c}


def prove(p):
    p.assume_note('the axis is nonzero (its norm is divided by)')
    for fn in ('rotation_matrix3', 'rotation_matrix3symb'):
        for kind in ('array', 'list', 'integer array'):
            def body(I, fn=fn, kind=kind):
                n = [TM.var('n%d' % i, 'i' if kind == 'integer array' else 'r') for i in range(3)]
                t = TM.var('t')
                if kind == 'list':
                    v = PList(n)
                else:
                    v = mkarr((3,), lambda i: n[i[0]], 'int' if kind == 'integer array' else 'float')
                before = p.snap(v)
                r = p.run(U+fn, [v, t])
                p.arr_eq('Rodrigues', r, (3, 3), rodrigues(n, t))
                p.unchanged('axis', before)
                if kind == 'array' and isinstance(r, Arr) and r.shape == (3, 3):
                    get = lambda i: num(r.get(i))
                    proper_rotation(p, get)
                    for i in range(3):
                        p.eq('fixes the axis[%d]' % i, sum((get((i, j))*n[j] for j in range(3)), ZERO), n[i])
            p.verify(U+fn, body, kind)
        # concrete axes as used by the tables: exact numbers
        def bodyn(I, fn=fn):
            t = TM.var('t')
            for ax in ([1, 1, 1], [0, 0, 2], [1, -1, 0]):
                r = p.run(U+fn, [PList(ax), t])
                p.arr_eq('axis %s' % ax, r, (3, 3), rodrigues([T.const(z) for z in ax], t))
        p.verify(U+fn, bodyn, 'numeric axes')
