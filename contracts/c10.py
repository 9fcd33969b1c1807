"""The tabulated tensors: invariant under every operation of the point group, linear
in independent standard parameters, and as many of these as the invariant tensors
have dimensions.

The tables are obtained by executing the module body (with sympify of the real
source).  Invariance is checked exactly, for the generators of the group, on the
tensor with free parameters: t'_{ijk} = g_ia g_jb g_kc t_abc equals t_ijk as linear
forms over Q(sqrt 3).  Completeness: the number of parameters equals the dimension
of the space of tensors fixed by all generators.  The dimension is bounded from
above by the nullity over a prime field in which 3 is a square (the rank can only
drop there) and from below by the independent parameters themselves."""
import os
from fractions import Fraction
import sys
import numpy as np
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc.stubs import einsum

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'rt'))
import groups

MOD = 'shgpy.tensor_definitions'
P = 999983
while pow(3, (P-1)//2, P) != 1:
    P += 2
    while any(P % d == 0 for d in range(3, int(P**.5)+1, 2)):
        P += 2
S3 = next(x for x in range(P) if x*x % P == 3)
HALF = pow(2, P-2, P)


def rank_mod(M):
    M = M.copy() % P
    r = 0
    for c in range(M.shape[1]):
        k = next((i for i in range(r, M.shape[0]) if M[i, c]), None)
        if k is None:
            continue
        M[[r, k]] = M[[k, r]]
        M[r] = M[r]*pow(int(M[r, c]), P-2, P) % P
        for i in np.nonzero(M[:, c])[0]:
            if i != r:
                M[i] = (M[i]-M[i, c]*M[r]) % P
        r += 1
    return r


def nullity(gs, rank):
    n = 3**rank
    if not gs:
        return n
    rows = []
    for g in gs:
        m = np.array([[1]], dtype=np.int64)
        for _ in range(rank):
            m = np.kron(m, np.array(g, dtype=np.int64) % P) % P
        rows.append((m-np.eye(n, dtype=np.int64)) % P)
    return n-rank_mod(np.concatenate(rows))


def prove(p):
    p.assume_note('the point groups are generated by the operations listed in rt/groups.py; invariance under generators is invariance under the group')
    exact = {k: mkarr((3, 3), lambda i, v=v: T.const(v[i[0]][i[1]])) for k, v in groups.gens(TM.sqrt(3), half=T.const(1)/2).items()}
    modp = groups.gens(S3, half=HALF)
    dims = {}
    for name, grp, rank in (('dipole', groups.GROUPS, 3), ('surface', groups.GROUPS, 3), ('quadrupole', groups.QUAD, 4)):
        def whole(I, name=name, grp=grp):
            tab = I.module(MOD).vars[name]
            if not isinstance(tab, PDict) or tab.d is None:
                raise Unsupported('table %r' % (tab,))
            p.true('%s: the tabulated groups' % name, set(tab.d)-{'S_2'} == set(grp)-{'S_2'}, str(set(tab.d) ^ set(grp)), concl=True)
        p.verify(MOD+':'+name, whole, 'groups', lemma=True)
        for g in grp:
            def body(I, name=name, grp=grp, rank=rank, g=g):
                tab = I.module(MOD).vars[name]
                S = I.module('shgpy.shg_symbols').vars
                if g not in tab.d:
                    I.ctx.oblige('%s[%s]: absent' % (name, g), g == 'S_2', 'evaluation')
                    return
                t = tab.d[g]
                if not isinstance(t, Arr) or t.shape != (3,)*rank:
                    p.true('%s[%s]: an array of shape %s' % (name, g, (3,)*rank), False, repr(t))
                    return
                ents = list(t.cells.flat)
                p.true('%s[%s]: entries are sympy expressions' % (name, g), all(isinstance(e, T) for e in ents))
                std = {}
                for k, v in S.items():
                    if isinstance(v, T) and len(k) == rank+(name == 'surface') and (name != 'surface' or k[0] == 's'):
                        std[TM.single_atom(v)] = k
                rows, used = [], {}
                for e in ents:
                    e = num(e)
                    co = {}
                    for (ph, mon), c in e.m.items():
                        t1 = T({(ph, mon): (1, 0)})
                        try:
                            a = TM.single_atom(t1)
                        except (AssertionError, ValueError):
                            a = None
                        if a not in std or c[1] != 0:
                            p.true('%s[%s]: linear in the standard parameters' % (name, g), False, str(e), concl=True)
                            return
                        co[used.setdefault(a, len(used))] = c[0]
                    rows.append(co)
                p.true('%s[%s]: linear in the standard parameters' % (name, g), True)
                M = np.zeros((len(rows), len(used)), dtype=np.int64)
                for i, co in enumerate(rows):
                    for k, c in co.items():
                        c = Fraction(c)
                        M[i, k] = c.numerator*pow(c.denominator, P-2, P) % P
                n = len(used)
                p.true('%s[%s]: independent parameters' % (name, g), n == 0 or rank_mod(M) == n)
                for op in grp[g]:
                    lab = list('abcd')[:rank]
                    out = list('ijkl')[:rank]
                    r = einsum([(exact[op], [o, l]) for o, l in zip(out, lab)]+[(t, lab)], out, {z: 3 for z in lab+out}, 'object')
                    bad = [i for i in np.ndindex(*(3,)*rank) if not TM.equal(r.get(i), num(t.get(i)))]
                    I.ctx.oblige('%s[%s]: invariant under %s' % (name, g, op), not bad, 'ring normaliser',
                                 '' if not bad else 'entry %s becomes %s, is %s' % (bad[0], r.get(bad[0]), t.get(bad[0])))
                key = (tuple(grp[g]), rank)
                if key not in dims:
                    dims[key] = nullity([modp[z] for z in grp[g]], rank)
                p.true('%s[%s]: the parameters exhaust the invariant tensors' % (name, g), n == dims[key], '%d parameters, %d dimensions' % (n, dims[key]), how='linear algebra mod p', concl=n < dims[key])
            p.verify(MOD+':'+name, body, g, lemma=True)

    def mirror(I):
        """surface is dipole with every parameter renamed"""
        M = I.module(MOD).vars
        S = I.module('shgpy.shg_symbols').vars
        for g, t in M['dipole'].d.items():
            s = M['surface'].d.get(g)
            ok = isinstance(s, Arr) and s.shape == t.shape
            if ok:
                ren = {}
                for e in t.cells.flat:
                    for a in num(e).atoms():
                        ren[a] = T.atom((a[0], 's'+str(a[1])))
                ok = all(num(y) == num(x).subst(lambda a: ren.get(a)) for x, y in zip(t.cells.flat, s.cells.flat))
            p.true('surface[%s] is the renamed dipole[%s]' % (g, g), ok, concl=True)
    p.verify(MOD+':surface', mirror, 'renaming', lemma=True)
