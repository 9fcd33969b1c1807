"""Callee contracts proved in C06, for callers: tensor_product and tensor_contract as
Einstein sums (the product is kept lazy until it is contracted or indexed)."""
from pyvc import terms as TM
from pyvc.terms import T
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc import stubs
from pyvc.stubs import LProd
from pyvc.interp import Star

U = 'shgpy.core.utilities:'


def product(I, args, kw):
    fs = []
    for a in args:
        if isinstance(a, Star):
            if isinstance(a.val, PList) and a.val.plain() is not None:
                fs += a.val.plain()
                continue
            raise Unsupported('tensor_product of a symbolic list')
        fs.append(a)
    if kw:
        raise Unsupported('keywords of tensor_product')
    I.ctx.oblige('precondition of tensor_product: at least two tensors', len(fs) >= 2, 'evaluation')
    out = []
    for f in fs:
        if isinstance(f, LProd):
            out += f.factors
        else:
            f = stubs.as_arr(I, f)
            out.append(Arr(f.shape, f.cells, f.dtype))      # the value at this moment
    return LProd(out)


def contract(I, args, kw):
    t = args[0]
    pairs = args[1] if len(args) > 1 else kw['index_pairs']
    if not isinstance(t, LProd):
        t = LProd([stubs.as_arr(I, t)])
    ps = []
    for q in I.iterate(pairs):
        a, b = I.unpack(q, 2)
        ps.append((stubs.dim(num(a)), stubs.dim(num(b))))
    flat = [z for q in ps for z in q]
    ok = all(isinstance(z, int) and 0 <= z < t.ndim for z in flat) and len(set(flat)) == len(flat)
    I.ctx.oblige('precondition of tensor_contract: distinct positions in range', ok, 'evaluation', '%s of rank %d' % (flat, t.ndim))
    if not ok:
        raise Unsupported('contraction of %s' % (flat,))
    return t.contract(I, ps)


def contracts():
    return {U+'tensor_product': product, U+'tensor_contract': contract}
