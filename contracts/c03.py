"""gen_S and formgen against the multipole intensities.

gen_S is verified, for every combination of given tensors with arbitrary complex
entries and every real angle of incidence, against the physical definition written
here independently of the code (source vector, outgoing component removed).
formgen is verified against the contract of gen_S: the four entries are the squared
moduli of the p and s parts of whatever vectors gen_S returns."""
import itertools
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from . import einstein

F = 'shgpy.formgen:'
D = 'shgpy.core.data_handler:'
EPS = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (1, 0, 2): -1, (0, 2, 1): -1, (2, 1, 0): -1}
ASSERT = {'shgpy.core.utilities:_assert_real_params': lambda I, a, k: None}
PHI = TM.var('phi')


def geometry(theta):
    c, s = TM.cos(theta), TM.sin(theta)
    return {'kin': [s, ZERO, c], 'kout': [s, ZERO, -c], 'p': [-c, ZERO, s], 's': [ZERO, ONE, ZERO]}


def rot():
    c, s = TM.cos(PHI), TM.sin(PHI)
    return [[c, -s, ZERO], [s, c, ZERO], [ZERO, ZERO, ONE]]


def source(theta, inp, eee=None, mee=None, qee=None):
    """the source vector without its component along kout, in the lab frame.
    The tensor is rotated by applying R to the lab-frame source and R^T to the
    lab-frame fields."""
    g = geometry(theta)
    R = rot()
    f = [sum((R[a][i]*g[inp][a] for a in range(3)), ZERO) for i in range(3)]      # R^T field
    k = [sum((R[a][i]*g['kin'][a] for a in range(3)), ZERO) for i in range(3)]
    lab = lambda v: [sum((R[i][a]*v[a] for a in range(3)), ZERO) for i in range(3)]
    S = [ZERO]*3
    r3 = range(3)
    if eee is not None:
        P = lab([sum((eee(a, b, c)*f[b]*f[c] for b in r3 for c in r3), ZERO) for a in r3])
        S = [x+y for x, y in zip(S, P)]
    if mee is not None:
        M = lab([sum((mee(a, b, c)*f[b]*f[c] for b in r3 for c in r3), ZERO) for a in r3])
        kin = g['kin']
        for (i, j, l), e in EPS.items():
            S[i] = S[i]+kin[j]*M[l]*e
    if qee is not None:
        Q = lab([sum((qee(a, b, c, d)*k[b]*f[c]*f[d] for b in r3 for c in r3 for d in r3), ZERO) for a in r3])
        S = [x+y*T.const(1j) for x, y in zip(S, Q)]
    ko = g['kout']
    along = sum((ko[i]*S[i] for i in r3), ZERO)
    return [S[i]-along*ko[i] for i in r3]


def generic(name, rank):
    return lambda *i: T.atom(('c', name)+i)


def tensor(name, rank):
    return mkarr((3,)*rank, lambda i: T.atom(('c', name)+tuple(i)))


def split(v):
    """(PP, PS, SP, SS) of the p- and s-input vectors"""
    P, S = v
    m = lambda z: num(z)*num(z).conj()
    return {'PP': m(P[0])+m(P[2]), 'PS': m(P[1]), 'SP': m(S[0])+m(S[2]), 'SS': m(S[1])}


class Form:
    """a formula container holding the given dictionary (contract of the constructor)"""

    def __init__(self, d):
        self.d = d


def form_contract(I, args, kw):
    d = args[0]
    if not isinstance(d, PDict) or d.d is None:
        raise Unsupported('formula container of %r' % (d,))
    return Form(dict(d.d))


FORM = {D+'FormContainer': form_contract}


def check_form(p, r, want):
    if not isinstance(r, Form):
        raise Unsupported('result %r' % (r,))
    p.true('the four polarization combinations', sorted(map(str, r.d)) == ['PP', 'PS', 'SP', 'SS'], str(sorted(map(str, r.d))))
    for k in want:
        if k in r.d:
            p.eq('%s intensity' % k, num(r.d[k]), want[k])


SEL = [z for z in itertools.product((0, 1), repeat=3) if any(z)]


def prove(p):
    p.assume_note('expand, expand_trig and simplify of sympy do not change the value of an expression')
    p.assume_note('the contract of _assert_real_params is proved in C11')
    theta = TM.var('theta_in')
    for sel in SEL:
        names = [n for n, s in zip(('t_eee', 't_mee', 't_qee'), sel) if s]

        def body(I, sel=sel):
            arg = {}
            for n, s, r in zip(('t_eee', 't_mee', 't_qee'), sel, (3, 3, 4)):
                if s:
                    arg[n] = tensor(n, r)
            before = p.snap(*arg.values())
            r = p.run(F+'gen_S', [theta], dict(arg))
            p.unchanged('tensors', before)
            r = I.unpack(r, 2)
            for v, inp in zip(r, 'ps'):
                w = source(theta, inp, *[generic(n, k) if s else None for n, s, k in zip(('t_eee', 't_mee', 't_qee'), sel, (3, 3, 4))])
                p.arr_eq('source for %s input' % inp, v, (3,), lambda i: w[i[0]])
        p.verify(F+'gen_S', body, '+'.join(names), contracts=dict(einstein.contracts(), **ASSERT))

    def none(I):
        p.expect_raise(ValueError, lambda: p.run(F+'gen_S', [theta]), 'no tensor is refused')
    p.verify(F+'gen_S', none, 'no tensor', contracts=dict(einstein.contracts(), **ASSERT))

    for sel in SEL:
        def body(I, sel=sel):
            arg = [tensor(n, r) if s else None for n, s, r in zip(('t_eee', 't_mee', 't_qee'), sel, (3, 3, 4))]
            before = p.snap(*[a for a in arg if a is not None])
            calls = []
            V = [[T.atom(('c', 'S', q, i)) for i in range(3)] for q in 'ps']

            def gen_S(I, args, kw):
                full = list(args)+[None]*(4-len(args))
                for n, v in kw.items():
                    full[('theta', 't_eee', 't_mee', 't_qee').index(n)] = v
                calls.append(full)
                return tuple(mkarr((3,), lambda i, v=v: v[i[0]]) for v in V)
            I.contracts[F+'gen_S'] = gen_S
            r = p.run(F+'formgen', [theta]+arg)
            p.true('gen_S is called with the arguments of formgen', all(len(c) == 4 and c[0] is theta and all(x is y for x, y in zip(c[1:], arg)) for c in calls) and calls, str(calls))
            p.unchanged('tensors', before)
            check_form(p, r, split(V))
        p.verify(F+'formgen', body, str(sel), contracts=dict(ASSERT, **FORM))
