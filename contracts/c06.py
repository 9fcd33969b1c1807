"""tensor_product, tensor_contract, transform: Einstein sums at every rank.

Abstract tensors: an ATensor is a list of runs of factors; a run (name, lo, n)
stands for the n tensors name[lo], ..., name[lo+n-1] in that order.  The entry of
the product at the concatenated index is the product of the entries (this is the
assumed contract of numpy.tensordot(a, b, axes=0)).

tensor_contract is verified against the inductive invariant of its loop: after k
of the n pairs, `ans` is the contraction of the first k pairs and its axes are the
original axes with those pairs removed, in order (assumed contract of numpy.trace:
axis1/axis2 are summed over, the remaining axes keep their order)."""
import ast
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported, PyRaise
from pyvc.values import *
from pyvc.values import mut
from pyvc import stubs
from pyvc.stubs import LProd, ATensor, TAB
from pyvc.interp import Star, Func

U = 'shgpy.core.utilities:'


class Run:
    def __init__(self, name, lo, n):
        self.name, self.lo, self.n = name, T.const(lo), T.const(n)

    def same(self, o):
        return self.name == o.name and self.lo == o.lo and self.n == o.n

    def __repr__(self):
        return '%s[%s:+%s]' % (self.name, self.lo, self.n)


def norm(rs):
    out = []
    for r in rs:
        if out and out[-1].name == r.name and out[-1].lo+out[-1].n == r.lo:
            out[-1] = Run(r.name, out[-1].lo, out[-1].n+r.n)
        elif out and out[-1].name == r.name and r.name == 'op':
            out[-1] = Run('op', ZERO, out[-1].n+r.n)
        else:
            out.append(r)
    return [r for r in out if r.n.as_int() != 0]


class Tens(ATensor):
    """abstract tensor with a list of factors; `rank` when known"""

    def __init__(self, factors, rank=None):
        self.factors = norm(factors)
        self.rank = rank

    def vattr(self, I, n):
        if n == 'shape':
            return AShape(self.rank)
        if n == 'ndim' and self.rank is not None:
            return self.rank
        raise Unsupported('attribute %s of an abstract tensor' % n)

    def fold_marker(self, tag):
        return Tens([Run(tag, 0, 1)])

    def fold_close(self, I, cases, x, xa, n):
        if len(cases) != 1:
            return None
        v = cases[0][1]
        return None

    def __repr__(self):
        return 'Tens(%r)' % (self.factors,)


class AShape:
    def __init__(self, rank):
        self.rank = rank

    def vlen(self, I):
        if self.rank is None:
            raise Unsupported('rank of an abstract tensor')
        return self.rank


def _product(fs):
    out = []
    for f in fs:
        if not isinstance(f, Tens):
            raise Unsupported('product of %r' % (f,))
        out += f.factors
    return Tens(out)


class FoldT:
    """marker pair used for iterative products"""


class ATup:
    """the argument tuple (t[lo], ..., t[lo+n-1])"""

    def __init__(self, lo, n):
        self.lo, self.n = T.const(lo), T.const(n)

    def vlen(self, I):
        return dim(self.n)

    def elem(self, i):
        return Tens([Run('t', self.lo+T.const(i), 1)])

    def vgetitem(self, I, i):
        if isinstance(i, slice):
            lo, n = stubs.norm_slice(I, i, dim(self.n))
            if lo == 'rev':
                raise Unsupported('reversed arguments')
            return ATup(self.lo+T.const(lo), n)
        return self.elem(stubs.norm_index(I, i, dim(self.n)))

    def viter(self, I):
        return Seq(self.n, self.elem)


def prod_contract(I, args, kw):
    """tensor_product(*ts) with at least two tensors: all the factors in order"""
    fs = []
    cnt = ZERO
    for a in args:
        if isinstance(a, Star):
            v = a.val
            if isinstance(v, ATup):
                fs.append(Run('t', v.lo, v.n))
                cnt = cnt+v.n
                continue
            if isinstance(v, PList):
                for it in v.items:
                    if isinstance(it, Splice):
                        b = it.fam.body
                        if it.cond is not True or not isinstance(b, Tens) or it.fam.ov:
                            raise Unsupported('arguments %r' % (v,))
                        if len(b.factors) == 1 and b.factors[0].name == 'op':
                            fs.append(Run('op', 0, it.fam.n))
                        else:
                            raise Unsupported('arguments %r' % (v,))
                        cnt = cnt+T.const(it.fam.n)
                    elif isinstance(it, Tens):
                        fs += it.factors
                        cnt = cnt+1
                    else:
                        raise Unsupported('arguments %r' % (v,))
                continue
            raise Unsupported('arguments %r' % (v,))
        if isinstance(a, Tens):
            fs += a.factors
            cnt = cnt+1
        else:
            raise Unsupported('arguments %r' % (a,))
    I.ctx.prove_cond('precondition of tensor_product: at least two tensors', ('ge', cnt-2))
    return Tens(fs)


# -- tensor_contract ---------------------------------------------------------------

def pairlab(k, j):
    return T.atom(('i', 'pair', T.const(k), j))


class Labels(Obj):
    """axes 0..R-1 without those of the first k pairs and the extra ones removed"""

    def __init__(self, R, k):
        super().__init__()
        self.R, self.k, self.extra = R, T.const(k), ()

    def get_state(self):
        return (self.k, self.extra)

    def set_state(self, s):
        self.k, self.extra = s

    def position(self, lab):
        return T.atom(('i', 'pos', self.k, tuple(sorted(self.extra)), lab))

    def vattr(self, I, n):
        def which(a):
            for j in (0, 1):
                if num(a) == pairlab(self.k, j) and j not in self.extra:
                    return j
            raise Unsupported('label %s' % (a,))
        if n == 'index':
            return stubs.Meth('index', lambda I, a, k: self.position(pairlab(self.k, which(a[0]))))
        if n == 'remove':
            def rm(I, a, k):
                j = which(a[0])
                mut(self)
                self.extra = tuple(sorted(self.extra+(j,)))
                if self.extra == (0, 1):
                    self.k, self.extra = self.k+1, ()
            return stubs.Meth('remove', rm)
        if n == 'pop':
            def pop(I, a, k):
                for j in (0, 1):
                    if num(a[0]) == self.position(pairlab(self.k, j)) and j not in self.extra:
                        return rm_(j)
                raise Unsupported('pop of a label')

            def rm_(j):
                mut(self)
                self.extra = tuple(sorted(self.extra+(j,)))
                if self.extra == (0, 1):
                    self.k, self.extra = self.k+1, ()
                return pairlab(self.k, j)
            return stubs.Meth('pop', pop)
        raise Unsupported('list.%s of labels' % n)

    def vlen(self, I):
        return dim(self.R-self.k*2-len(self.extra))


class Contr(ATensor):
    """`tensor` contracted over the first k pairs"""

    def __init__(self, R, k):
        self.R, self.k = R, T.const(k)

    def vattr(self, I, n):
        if n == 'shape':
            return AShape(self.R-self.k*2)
        if n == 'ndim':
            return dim(self.R-self.k*2)
        if n == 'trace':
            raise Unsupported('method trace')
        raise Unsupported('attribute %s' % n)

    def trace(self, I, p, q):
        want = [T.atom(('i', 'pos', self.k, (), pairlab(self.k, j))) for j in (0, 1)]
        got = [num(p), num(q)]
        # the trace is symmetric in its two axes
        if got == want or got == want[::-1]:
            I.ctx.oblige('the traced axes are the current positions of the pair', True, 'evaluation')
            return Contr(self.R, self.k+1)
        I.ctx.oblige('the traced axes are the current positions of the pair', False, 'evaluation', 'axes %s, expected %s' % (got, want), concl=False)
        raise Unsupported('trace over other axes')

    def __repr__(self):
        return 'Contr(%s)' % self.k


class Pairs(Obj):
    """the list of pairs k, k+1, ..., n-1"""

    def __init__(self, n, k, given=False):
        super().__init__()
        self.n, self.k, self.given = n, T.const(k), given

    def get_state(self):
        return self.k

    def set_state(self, s):
        self.k = s

    def pair(self, k):
        return PList([pairlab(k, 0), pairlab(k, 1)])

    def vlen(self, I):
        return dim(self.n-self.k)

    def truth(self, I):
        return I.decide(('gt', self.n-self.k))

    def viter(self, I):
        return Seq(self.n-self.k, lambda i: self.pair(self.k+T.const(i)))

    def copy(self):
        return Pairs(self.n, self.k)

    def vgetitem(self, I, i):
        if isinstance(i, slice):
            if i == slice(None):
                return self.copy()
            raise Unsupported('slice of the pairs')
        return self.pair(self.k+T.const(stubs.norm_index(I, i, dim(self.n-self.k))))

    def vattr(self, I, n):
        if n == 'pop':
            def pop(I, a, k):
                if not a or num(a[0]) != ZERO:
                    raise Unsupported('pop of another pair than the first')
                if not I.decide(('gt', self.n-self.k)):
                    raise PyRaise(IndexError('pop from empty list'))
                mut(self)
                self.k = self.k+1
                return self.pair(self.k-1)
            return stubs.Meth('pop', pop)
        if n == 'copy':
            return stubs.Meth('copy', lambda I, a, k: self.copy())
        raise Unsupported('list.%s of the pairs' % n)


def prove_contract(p):
    R, n = TM.var('R', 'i'), TM.var('npairs', 'i')

    def body(I):
        c = I.ctx
        c.assume(('ge', n))
        c.assume(('ge', R-2*n))
        ten = Contr(R, 0)
        given = Pairs(n, 0, given=True)

        def frame_objs(env):
            pr, lb, an, other = [], [], [], []
            for k, v in env.vars.items():
                if isinstance(v, Pairs) and v is not given:
                    pr.append(k)
                elif isinstance(v, PList) and v.fam is not None and is_identity(v.fam, R):
                    lb.append(k)
                elif isinstance(v, Labels):
                    lb.append(k)
                elif isinstance(v, Contr):
                    an.append(k)
            return pr, lb, an

        def start(env, k):
            """install the invariant at k processed pairs"""
            pr, lb, an = frame_objs(env)
            for v in pr:
                env.vars[v] = Pairs(n, k)
            labs = {}
            for v in lb:
                env.vars[v] = labs.setdefault(id(env.vars[v]), Labels(R, k))
            for v in an:
                if env.vars[v] is not ten or v in stored:
                    env.vars[v] = Contr(R, k)
            return pr, lb, an

        stored = set()

        def hook(I, st, env):
            from pyvc.loops import stored_names
            stored.clear()
            stored.update(stored_names(st.body))
            pr, lb, an = frame_objs(env)
            an = [v for v in an if v in stored]
            if not lb or not an:
                return False
            # the invariant holds on entry, with k = 0
            ok = all(env.vars[v].k == ZERO for v in pr+an)
            I.ctx.oblige('loop invariant holds on entry', ok, 'evaluation', concl=False)
            init = dict(env.vars)
            # preservation
            k = TM.var('k', 'i')

            def step():
                I.ctx.assume(('ge', k))
                I.ctx.assume(('ge', n-k))
                env.vars.clear()
                env.vars.update(init)
                start(env, k)
                if not I.truth(I.eval(st.test, env)):
                    I.ctx.prove_cond('the loop ends when every pair is processed', ('eq', k-n))
                    return 'exit'
                I.ctx.prove_cond('the loop body runs for unprocessed pairs', ('gt', n-k))
                I.exec_block(st.body, env)
                good = all(env.vars[v].k == k+1 for v in pr+an) and all(isinstance(env.vars[v], Labels) and env.vars[v].k == k+1 and env.vars[v].extra == () for v in lb)
                I.ctx.oblige('loop invariant is preserved', good, 'evaluation', '%s' % {v: getattr(env.vars[v], 'k', None) for v in pr+an+lb}, concl=False)
                return 'step'
            res = I.ctx.explore(step)
            kinds = [r for _, r, _ in res]
            I.ctx.oblige('loop cover: a step and an exit are reachable', 'step' in kinds and 'exit' in kinds, 'evaluation', str(kinds), concl=False)
            env.vars.clear()
            env.vars.update(init)
            start(env, n)
            for v in stored:
                if v not in pr+lb+an:
                    env.vars[v] = Poison('%s after the loop' % v)
            return True
        I.while_hook = hook
        r = p.run(U+'tensor_contract', [ten, given])
        p.true('the result is the contraction over all pairs, other axes in order', isinstance(r, Contr) and r.k == n)
        p.true('the list of pairs passed in is unchanged', given.k == ZERO)
    p.verify(U+'tensor_contract', body, 'n pairs, any rank')


def is_identity(fam, R):
    return T.const(fam.n) == R and isinstance(fam.body, (T, int)) and not fam.ov and T.const(fam.body) == T.atom(fam.x)


def small_contract(p):
    """full symbolic execution at small ranks (also covers traces of unequal form)"""
    import itertools

    def go(rank, pairs, order):
        def body(I):
            a = mkarr((3,)*rank, lambda i: T.atom(('c', 'a')+tuple(i)))
            given = PList([PList(list(q)) for q in pairs])
            r = p.run(U+'tensor_contract', [a, given])
            free = [k for k in range(rank) if not any(k in q for q in pairs)]

            def want(idx):
                s = ZERO
                for vals in itertools.product(range(3), repeat=len(pairs)):
                    full = [None]*rank
                    for k, i in zip(free, idx):
                        full[k] = i
                    for q, v in zip(pairs, vals):
                        full[q[0]] = full[q[1]] = v
                    s = s+a.get(full)
                return s
            if free:
                p.arr_eq('Einstein sum', r, (3,)*len(free), want)
            else:
                p.eq('Einstein sum', r.cells[()] if isinstance(r, Arr) else r, want(()))
            p.true('pairs unchanged', len(given.items) == len(pairs) and all(x.items == list(y) for x, y in zip(given.items, pairs)))
        p.verify(U+'tensor_contract', body, 'rank %d pairs %s' % (rank, pairs))
    for rank, pairs in [(2, [(0, 1)]), (3, [(2, 0)]), (4, [(1, 2)]), (4, [(2, 3), (0, 1)]), (4, [(0, 3), (2, 1)]), (5, [(4, 0), (1, 3)])]:
        go(rank, pairs, None)


def prove(p):
    n = TM.var('ntensors', 'i')
    ATensor.product = staticmethod(_product)
    p.assume_note('numpy.tensordot(axes=0) is the outer product and numpy.trace sums the two axes, keeping the order of the others')

    def body(I):
        I.ctx.assume(('ge', n-2))
        r = p.run(U+'tensor_product', [Star(ATup(0, n))])
        ok = isinstance(r, Tens) and len(r.factors) == 1 and r.factors[0].name == 't' and r.factors[0].lo == ZERO
        if p.true('the factors are the arguments in order', ok, repr(r)):
            p.eq('no argument is missing', r.factors[0].n, n)
    p.verify(U+'tensor_product', body, 'n >= 2 tensors', contracts={U+'tensor_product': prod_contract})

    def body3(I):
        f = [mkarr((3,), lambda i: T.atom(('c', 'a', i[0]))), mkarr((3, 3), lambda i: T.atom(('c', 'b')+i)), mkarr((3,), lambda i: T.atom(('c', 'd', i[0])))]
        r = p.run(U+'tensor_product', f)
        p.arr_eq('entries are products', r, (3,)*4, lambda i: f[0].get(i[:1])*f[1].get(i[1:3])*f[2].get(i[3:]))
    p.verify(U+'tensor_product', body3, 'three arrays')
    prove_contract(p)
    small_contract(p)

    R = TM.var('R', 'i')

    def bodyt(I):
        I.ctx.assume(('ge', R-1))
        op = Tens([Run('op', 0, 1)], 2)
        ten = Tens([Run('tensor', 0, 1)], R)
        r = p.run(U+'transform', [ten, op])
        p.true('the result is a contraction of operation^rank x tensor', isinstance(r, Done), repr(r))
    p.verify(U+'transform', bodyt, 'any rank', contracts={U+'tensor_product': prod_contract, U+'tensor_contract': lambda I, a, k: transform_contract(p, I, R, a, k)})

    for rank in (1, 2):
        def bodyc(I, rank=rank):
            import itertools
            op = mkarr((3, 3), lambda i: T.atom(('c', 'o')+i))
            a = mkarr((3,)*rank, lambda i: T.atom(('c', 'a')+i))
            r = p.run(U+'transform', [a, op])

            def want(idx):
                s = ZERO
                for k in itertools.product(range(3), repeat=rank):
                    t = a.get(k)
                    for i, j in zip(idx, k):
                        t = t*op.get((i, j))
                    s = s+t
                return s
            p.arr_eq('operation on every index', r, (3,)*rank, want)
        p.verify(U+'transform', bodyc, 'rank %d, inlined' % rank)


class Done:
    pass


def transform_contract(p, I, R, args, kw):
    """the call made by transform: check that it contracts the second axis of the
    e-th operation with the e-th axis of the tensor, for every e"""
    prod, pairs = args
    c = I.ctx
    if not isinstance(prod, Tens) or len(prod.factors) != 2:
        raise Unsupported('tensor_contract of %r' % (prod,))
    lay = []
    off = ZERO
    for f in prod.factors:
        if f.name == 'op':
            p.true('one operation per index', f.n == R, repr(f))
            lay.append(('op', off, 2*f.n))
            off = off+2*f.n
        elif f.name == 'tensor':
            p.true('one tensor', f.n == ONE, repr(f))
            lay.append(('tensor', off, R))
            off = off+R
        else:
            raise Unsupported('factor %r' % f)
    p.true('both factors present', sorted(z[0] for z in lay) == ['op', 'tensor'], repr(lay))
    if not isinstance(pairs, PList) or pairs.fam is None or pairs.cond() is not True:
        raise Unsupported('pairs %r' % (pairs,))
    p.eq('one pair per index', T.const(pairs.fam.n), R)
    e = TM.fresh('e')
    pr = pairs.fam.at(e)
    pr = I.unpack(pr, 2)
    sav = list(c.assump)
    c.assump += [('ge', e), ('ge', R-1-e)]
    try:
        pos = {}
        for q in pr:
            q = num(q)
            hit = None
            for nm, lo, ln in lay:
                if c.entails(('ge', q-lo)) and c.entails(('ge', lo+ln-1-q)):
                    hit = (nm, q-lo)
            if hit is None:
                p.true('pair element lies in a factor', False, str(q))
                return Done()
            pos[hit[0]] = hit[1]
        if set(pos) != {'op', 'tensor'}:
            c.oblige('each pair joins an operation and the tensor', False, 'evaluation', str(pos), concl=False)
            return Done()
        t = pos['tensor']
        p.eq('the pair joins axis 1 of the operation to the same index of the tensor', pos['op'], 2*t+1)
        p.true('every index of the tensor is contracted', t == e or t == R-1-e, str(t))
    finally:
        c.assump = sav
    return Done()
