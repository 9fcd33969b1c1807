"""The deprecated generators against the same intensities as formgen (C03)."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.values import *
from . import einstein
from .c03 import F, ASSERT, FORM, generic, tensor, source, split, check_form

CT = dict(einstein.contracts(), **ASSERT)


def prove(p):
    p.assume_note('expand, expand_trig and simplify of sympy do not change the value of an expression')
    p.assume_note('the contracts of tensor_product, tensor_contract, _assert_real_params and FormContainer are proved in C06, C11 and C17')
    p.assume_note('the angle of incidence is real')
    theta = TM.var('theta_in')
    e3, q4 = generic('t1', 3), generic('t2', 4)
    sI = T.const(-1j)

    def vec(name, v, w):
        p.arr_eq(name, v, (3,), lambda i: w[i[0]])

    def two(I):
        t1 = tensor('t1', 3)
        before = p.snap(t1)
        r = I.unpack(p.run(F+'gen_P_just_dipole', [t1, theta]), 4)
        p.unchanged('tensors', before)
        for k, inp in enumerate('ps'):
            vec('dipole source, %s input' % inp, r[k], source(theta, inp, e3))
            vec('no quadrupole source, %s input' % inp, r[2+k], [ZERO]*3)
    p.verify(F+'gen_P_just_dipole', two, contracts=CT)

    def twoq(I):
        t1, t2 = tensor('t1', 3), tensor('t2', 4)
        before = p.snap(t1, t2)
        r = I.unpack(p.run(F+'gen_P_dipole_quadrupole', [t1, t2, theta]), 4)
        p.unchanged('tensors', before)
        for k, inp in enumerate('ps'):
            vec('dipole source, %s input' % inp, r[k], source(theta, inp, e3))
            vec('quadrupole source, %s input' % inp, r[2+k], [z*sI for z in source(theta, inp, qee=q4)])
    p.verify(F+'gen_P_dipole_quadrupole', twoq, contracts=CT)

    def mk(I):
        V = [[T.atom(('c', n, i)) for i in range(3)] for n in ('Pp', 'Ps', 'Qp', 'Qs')]
        a = [mkarr((3,), lambda i, v=v: v[i[0]]) for v in V]
        before = p.snap(*a)
        r = p.run(F+'make_form_from_P_and_Q', a)
        p.unchanged('vectors', before)
        j = T.const(1j)
        check_form(p, r, split([[x+j*y for x, y in zip(V[0], V[2])], [x+j*y for x, y in zip(V[1], V[3])]]))
    p.verify(F+'make_form_from_P_and_Q', mk, contracts=dict(CT, **FORM))

    def one(I):
        t1 = tensor('t1', 3)
        before = p.snap(t1)
        r = p.run(F+'formgen_just_dipole', [t1, theta])
        p.unchanged('tensors', before)
        check_form(p, r, split([source(theta, 'p', e3), source(theta, 's', e3)]))
    p.verify(F+'formgen_just_dipole', one, contracts=dict(CT, **FORM))

    def oneq(I):
        t1, t2 = tensor('t1', 3), tensor('t2', 4)
        before = p.snap(t1, t2)
        r = p.run(F+'formgen_dipole_quadrupole', [t1, t2, theta])
        p.unchanged('tensors', before)
        check_form(p, r, split([source(theta, 'p', e3, None, q4), source(theta, 's', e3, None, q4)]))
    p.verify(F+'formgen_dipole_quadrupole', oneq, contracts=dict(CT, **FORM))
