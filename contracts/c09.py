"""particularize: the equations handed to the solver are exactly the symmetry conditions,
and the result is the input with the solver's general solution substituted.

sympy.solve carries the trusted contract: given equations linear in the parameters it
returns (dict=True) a list with one substitution for some parameters, none of them
excluded, that satisfies the equations and is general (every assignment satisfying the
equations factors through it).  So
  symmetric      <=  every symmetry condition is a linear consequence of the equations,
  general        <=  every equation is a linear consequence of the symmetry conditions,
  specialization <=  every entry is the input entry with that substitution applied."""
import itertools
from fractions import Fraction
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported, PyRaise
from pyvc.values import *
from pyvc.stubs import TAB
from pyvc.interp import Builtin

U = 'shgpy.core.utilities:'


class Solution:
    """the substitution found by the solver"""

    def __init__(self, eqs):
        self.eqs = eqs

    def vapply(self, I, t):
        return num(t).subst(lambda a: T.atom(('c', 'solved')+a[1:]) if a[0] == 'c' and a[1] in ('t', 'ex') else None)

    def vtruth(self, I):
        raise Unsupported('truth of a solution')

    def vsub(self, sub):
        return self

    def __repr__(self):
        return 'the solution of %d equations' % len(self.eqs)


def rank(rows):
    """rank over the rationals of linear forms {atom: Fraction}"""
    piv = {}
    for r in rows:
        r = dict(r)
        while r:
            k = min(r, key=str)
            if k not in piv:
                c = r[k]
                piv[k] = {a: v/c for a, v in r.items()}
                break
            c = r[k]
            for a, v in piv[k].items():
                w = r.get(a, 0)-c*v
                if w:
                    r[a] = w
                else:
                    r.pop(a, None)
    return len(piv)


def equalities(cs):
    out = []
    for c in cs:
        if c[0] == 'eq':
            out.append(c[1])
        elif c[0] == 'and':
            out += equalities(c[1:])
    return out


def linear(t, affine=False):
    """linear form of a term in the entries of the tensor"""
    if affine:
        c = t.subst(lambda b: ZERO).as_frac()
        if c is None:
            raise Unsupported('equation %r' % (t,))
        return {**linear(t-T.const(c)), **({('1',): Fraction(c)} if c else {})}
    out = {}
    for a in t.atoms():
        if a[0] != 'c' or a[1] not in ('t',):
            raise Unsupported('equation %r' % (t,))
        rest = t.subst(lambda b: ONE if b == a else ZERO)
        q = rest.as_frac()
        if q is None:
            raise Unsupported('equation %r' % (t,))
        out[a] = Fraction(q)
    if t.subst(lambda b: ZERO).as_frac() != 0 or sum((T.atom(a)*T.const(c) for a, c in out.items()), ZERO) != t:
        raise Unsupported('equation %r' % (t,))
    return {a: c for a, c in out.items() if c}


def prove(p):
    p.assume_note('sympy.solve(linear equations, dict=True, exclude=e) returns the general solution as one substitution for parameters not in e, if there is one')
    p.assume_note('expand does not change the value of an expression; the equations have a solution which spares the excluded parameters')
    calls = []

    def solve(I, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            l = [v.cells[i] for i in np.ndindex(*v.shape)]
        else:
            l = I.iterate(v)
        if not isinstance(l, list):
            raise Unsupported('solve for a symbolic list')
        eqs = [num(z) for z in l]
        if set(kw) - {'dict', 'exclude'} or len(args) != 1:
            raise Unsupported('options of solve')
        p.true('precondition of solve: solutions asked for as dictionaries', kw.get('dict') is True)
        p.true('precondition of solve: there is something to solve', ('or',)+tuple(TM.cnorm(('not', ('eq', e))) for e in eqs))
        s = Solution(eqs)
        calls.append((s, kw.get('exclude')))
        return PList([s])
    TAB['sympy.solvers.solve'] = Builtin('sympy.solvers.solve', solve)
    TAB['sympy.solve'] = TAB['sympy.solvers.solve']
    TAB['sympy.solvers.solvers.solve'] = TAB['sympy.solvers.solve']

    def conditions(n, full, el):
        out = []
        for i in itertools.product(range(3), repeat=n):
            j = tuple(sorted(i)) if full else i[:-2]+tuple(sorted(i[-2:]))
            if i != j:
                out.append((i, j, el(i)-el(j)))
        return out

    def go(n, full, how, numbers=(), excl=False):
        el = lambda i: T.const(numbers.index(i)) if i in numbers else T.atom(('c', 't')+i)

        def body(I):
            calls.clear()
            t = mkarr((3,)*n, lambda i: (numbers.index(i) if i in numbers else el(i)), 'object')
            kw = {} if how == 'default' else {'permute_all_indices': full}
            ex = None
            if excl:
                ex = PList([T.atom(('c', 'ex', k)) for k in range(2)])
                kw['exclude'] = ex
            before = p.snap(*([t, ex] if excl else [t]))
            r = p.run(U+'particularize', [t], kw)
            p.unchanged('tensor', before)
            cond = conditions(n, full, el)
            if not calls:
                p.arr_eq('already symmetric: equal entries', r, (3,)*n, el)
                A = [linear(e, True) for e in equalities(I.ctx.assump)]
                k = rank(A)
                for i, j, d in cond:
                    p.true('already symmetric: entries %s and %s' % (i, j), rank(A+[linear(d, True)]) == k, 'returned as it is under %s' % [TM.show_any(z) for z in I.ctx.assump], 'linear algebra', concl=True)
                return
            p.true('one set of equations', len(calls) == 1)
            s, given = calls[0]
            p.true('excluded parameters are handed to the solver', given is ex if excl else given is None or isinstance(given, PList) and given.plain() == [], repr(given))
            p.arr_eq('entry, solution substituted', r, (3,)*n, lambda i: s.vapply(I, el(i)))
            if numbers:
                return
            E, C = [linear(e) for e in s.eqs], [linear(d) for _, _, d in cond]
            re, rc, rb = rank(E), rank(C), rank(E+C)
            p.true('every symmetry condition follows from the equations', rb == re, 'rank %d of the equations, %d with the conditions' % (re, rb), 'linear algebra', concl=True)
            p.true('every equation follows from the symmetry conditions', rb == rc, 'rank %d of the conditions, %d with the equations' % (rc, rb), 'linear algebra', concl=True)
        p.verify(U+'particularize', body, 'rank %d, %s%s%s' % (n, 'all indices' if full else 'last two indices', ' (default)' if how == 'default' else '', ', plain numbers' if numbers else ', excluded parameters' if excl else ''))
    for n in (2, 3, 4):
        for full in (False, True):
            for how in (('default', 'explicit') if not full else ('explicit',)):
                go(n, full, how)
            go(n, full, 'explicit', excl=True)
    for full in (False, True):
        go(3, full, 'explicit', numbers=((0, 0, 0), (0, 1, 1), (2, 0, 0)))
