"""rotation_matrix_from_two_vectors: a proper rotation taking one direction onto the
other, for every pair of nonzero real vectors.

On the general branch the equality is exact; on the two degenerate branches (the
cross product of the unit vectors is shorter than 1e-12) the image differs from the
target by at most 2e-12, which is proved from the identity |u x v|^2 = 1-(u.v)^2."""
import z3
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from . import c07

U = 'shgpy.core.utilities:'


def prove(p):
    p.assume_note('both vectors are nonzero (their norms are divided by)')
    p.assume_note('round(x, n) differs from x by at most half a unit of the n-th decimal; the matrix is compared before rounding')
    p.assume_note('arccos(x) for -1 <= x <= 1 has cosine x and sine sqrt(1-x^2)')

    def go(same):
        def body(I):
            u = [TM.var('u%d' % i) for i in range(3)]
            v = [TM.var('v%d' % i) for i in range(3)]
            nu, nv = TM.sqrt(sum((x**2 for x in u), ZERO)), TM.sqrt(sum((x**2 for x in v), ZERO))
            uh, vh = [x/nu for x in u], [x/nv for x in v]
            cth = sum((a*b for a, b in zip(uh, vh)), ZERO)
            s2 = ONE-cth**2
            A = TM.sqrt(s2)
            Aat = TM.single_atom(A)
            known = {Aat[1]: A}

            def canon(t):
                """|u x v| and sqrt(1-(u.v)^2) are the same number"""
                def f(a):
                    if a[0] == 'sq' and a != Aat:
                        if a[1] not in known:
                            known[a[1]] = A if TM.equal(a[1], s2) else None
                        return known[a[1]]
                    if a[:2] == ('r', 'round'):
                        return canon(a[2])
                    return None
                return t.subst(f)

            def zero(t):
                if t.is_const():
                    return t
                try:
                    t2 = canon(t)
                    if TM.equal(t2, ZERO):
                        return ZERO
                except TM.TermError:
                    pass
                return t

            def clip(x, lo, hi):
                # lo <= x <= hi is needed: 1 - x^2 is a sum of squares (Lagrange)
                p.eq('the clipped cosine', x, cth)
                axis = [uh[1]*vh[2]-uh[2]*vh[1], uh[2]*vh[0]-uh[0]*vh[2], uh[0]*vh[1]-uh[1]*vh[0]]
                p.eq('the cosine lies in [-1, 1]: 1-x^2 is |u x v|^2', s2, sum((z**2 for z in axis), ZERO))
                p.true('clipping to [-1, 1]', lo == -ONE and hi == ONE)
                return x
            I.clip_hook = clip
            I.zero_hook = zero
            a, b = [mkarr((3,), lambda i, w=w: w[i[0]], 'float') for w in (u, v)]
            before = p.snap(a, b)
            r = p.run(U+'rotation_matrix_from_two_vectors', [a, b])
            p.unchanged('vectors', before)
            if not (isinstance(r, Arr) and r.shape == (3, 3)):
                p.true('a 3x3 matrix is returned', False, repr(r))
                return
            get = lambda i: canon(num(r.get(i)))
            c07.proper_rotation(p, get)
            img = [sum((get((i, j))*uh[j] for j in range(3)), ZERO) for i in range(3)]
            kind = None
            for k in I.ctx.assump:
                # |u x v| < 1e-12 on this path?
                if k[0] == 'gt':
                    ats = [z for z in k[1].atoms(deep=False) if z[0] == 'sq' and TM.equal(z[1], s2)]
                    if len(ats) == 1 and TM.equal(k[1], T.const(10)**-12-T.atom(ats[0])):
                        kind = 'degenerate'
            if kind is None:
                for i in range(3):
                    p.eq('R u = v [%d]' % i, img[i], vh[i])
                return
            sgn = 0
            for k in I.ctx.assump:
                if k[0] in ('ge', 'gt'):
                    if TM.equal(k[1], cth):
                        sgn = 1
                    elif TM.equal(k[1], -cth):
                        sgn = -1
            p.true('the sign of the cosine is decided on the degenerate branch', sgn != 0, str([TM.show_any(z) for z in I.ctx.assump]))
            for i in range(3):
                p.eq('degenerate: R u = %su [%d]' % ('-' if sgn < 0 else '', i), img[i], uh[i]*sgn)
            dist = sum(((x*sgn-y)**2 for x, y in zip(uh, vh)), ZERO)
            p.eq('|R u - v|^2 = 2 - 2|cos|', dist, 2-2*cth*sgn)
        p.verify(U+'rotation_matrix_from_two_vectors', body, 'any nonzero vectors', contracts=c07.contracts())
    go(False)

    def lemma(I):
        c = TM.var('c')
        s2 = TM.var('s2')
        for x in (('ge', c), ('eq', s2+c**2-1), ('gt', T.const(10)**-24-s2), ('ge', s2)):
            I.ctx.assume(x)
        p.true('2-2c <= (2e-12)^2 when c >= 0, s^2 < 1e-24', TM.cnorm(('ge', 4*T.const(10)**-24-(2-2*c))))
    p.verify('lemma', lemma, 'small angle', lemma=True)
