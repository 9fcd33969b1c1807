"""Filtering, sorting and duplicates of symbolic sequences.

Library functions used in terms (their definitions are what the trusted contracts of
`sorted`, list filtering and set membership say):

  nth(n, c, i)    the i-th of the indices x < n with c(x), in increasing order
  perm(n, k, i)   index of the i-th element in the stable sort of x < n by k(x)
  exists(n, c)    some x < n has c(x)

Names starting with 'ang:' stand for strictly increasing sequences of angles in
[0, 2*pi) (increasing in their last index); names starting with '+' are integers >= 0."""
from fractions import Fraction
from . import terms as TM
from .terms import T, iv, cnorm, ZERO, ONE
from .values import *
from .core import Unsupported

TWO_PI = TM.PI*2


def close(xa, *parts):
    """bind xa in the parts (terms or conditions)"""
    s = set()
    for p in parts:
        TM._walk(p, s)
    d = max([a[1] for a in s if a[0] == 'b'], default=-1)+1
    b = T.atom(('b', d))
    f = lambda a: b if a == xa else None
    return [TM._raw_any(p, f) for p in parts]


def exists_lt(x, e, v=None):
    """some j < x has e(j) = v (default e(x)), x an index term"""
    xa = TM.single_atom(x)
    j = TM.fresh('j')
    d = e.subst(lambda a: j if a == xa else None)-(e if v is None else v)
    c, = close(TM.single_atom(j), cnorm(('eq', d)))
    return cnorm(('p', 'exists', x, c)) if c is not False and c is not True else (False if c is False else ('gt', x))


def nth(n, xa, cond, i):
    c, = close(xa, cond)
    return T.atom(('i', 'nth', T.const(n), c, T.const(i)))


def count(n, xa, cond):
    x = TM.fresh('x')
    return dim(TM.Sum(x, ZERO, n, iv(cond).subst(lambda a: x if a == xa else None)))


def compress(fam, cond):
    """the family of the elements where cond (in fam.x) holds"""
    if cond is True:
        return fam
    i = TM.fresh('x')
    v = fam.at(nth(fam.n, fam.x, cond, i))
    return Family(count(fam.n, fam.x, cond), TM.single_atom(i), v)


def through(t, xa):
    """t depends on xa only through one atom p(.., xa) of kind perm/nth or 'ang:':
    that atom"""
    top = set()

    def scan(u):
        for (p, mon), c in u.m.items():
            if p:
                scan(TM.phase(p))
            for a, e in mon:
                at = TM._atoms[a]
                if at == xa:
                    top.add(at)
                elif at[0] in ('i', 'r', 'c', 'cj') and len(at) > 2 and at[1] in ('perm', 'nth') and isinstance(at[-1], T):
                    s = set()
                    TM._walk(at[2:-1], s)
                    if xa in s:
                        top.add(None)
                    elif at[-1] == T.atom(xa):
                        top.add(at)
                    else:
                        scan(at[-1])
                else:
                    for y in at[1:]:
                        walk(y)

    def walk(y):
        if isinstance(y, T):
            scan(y)
        elif isinstance(y, tuple):
            for z in y:
                walk(z)
    scan(t)
    if len(top) == 1:
        return top.pop()
    return None


def lin_ang(g, xa):
    """g = c*ang(.., x) + rest with rational c (times powers of pi): (c, rest)"""
    hit = None
    rest = ZERO
    for (p, mon), c in g.m.items():
        u = T({(p, mon): c})
        if xa not in u.atoms():
            rest = rest+u
            continue
        if hit is not None or p or c[1] != 0:
            return None
        angs = [(a, e) for a, e in mon if TM._atoms[a] != TM.PI_ATOM]
        if len(angs) != 1 or angs[0][1] != 1:
            return None
        at = TM._atoms[angs[0][0]]
        if at[0] != 'r' or not str(at[1]).startswith('ang:') or at[-1] != T.atom(xa):
            return None
        s = set()
        TM._walk(at[1:-1], s)
        if xa in s:
            return None
        hit = (Fraction(c[0]), sum(e for a, e in mon if TM._atoms[a] == TM.PI_ATOM))
    return hit and hit+(rest,)


def is_grid(g):
    """built from integers, their inverses and pi only"""
    return bool(g.m) and all(p == 0 and c[1] == 0 for (p, mon), c in g.m.items()) and all(TM._atoms[a][0] in ('i', 'D') or TM._atoms[a] == TM.PI_ATOM for (p, mon) in g.m for a, e in mon)


def monotone(g, xa, n):
    """does the solver know g(x) < g(x+1) for 0 <= x, x+1 < n"""
    from .core import Ctx
    if xa not in g.atoms() or not is_grid(g):
        return False
    c, x = Ctx.cur, T.atom(xa)
    s = list(c.assump)
    try:
        c.assump += [cnorm(z) for z in (('ge', x), ('gt', T.const(n)-1-x)) if not isinstance(cnorm(z), bool)]
        return c.entails(('gt', g.subst(lambda a: x+1 if a == xa else None)-g))
    finally:
        c.assump[:] = s


def smart_mod(I, x, y):
    """x % y, without the remainder when the solver knows 0 <= x < y"""
    if len(y.m) == 1 and is_grid(x) and y.is_real() and any(TM._atoms[a][0] == 'i' for (p, mon) in x.m for a, e in mon) and y.atoms() == {TM.PI_ATOM}:
        if I.ctx.entails(('ge', x)) and I.ctx.entails(('gt', y-x)):
            return x
    return TM.rmod(x, y)


def injective(g, xa, n):
    """is x -> g(x) injective on x < n (sufficient conditions)"""
    if lin_ang(g, xa) or monotone(g, xa, n):
        return True
    if len(g.m) == 1:
        ((p, mon), c), = g.m.items()
        if p == 0 and c[1] == 0 and c[0] != 0:
            rest = [(a, e) for a, e in mon if xa in T({(0, ((a, e),)): (1, 0)}).atoms()]
            if len(rest) == 1 and rest[0][1] == 1 and all(TM._atoms[a] == TM.PI_ATOM for a, e in mon if (a, e) != rest[0]):
                at = TM._atoms[rest[0][0]]
                if at[0] == 'mod' and at[2] == TWO_PI:
                    l = lin_ang(at[1], xa)
                    if l and abs(l[0]) <= 1 and l[1] == 0:
                        return True
                    # u+a = v+a (mod 2*pi) iff u = v (mod 2*pi)
                    u = sum((T({k: v}) for k, v in at[1].m.items() if xa in T({k: v}).atoms()), ZERO)
                    if u != at[1]:
                        return injective(TM.rmod(u, TWO_PI), xa, n)
                if at == xa:
                    return True
    p = through(g, xa)
    if p is not None and p != xa and p[0] == 'i':
        q = TM.fresh('q')
        h = g.subst(lambda a: q if a == p else None)
        qa = TM.single_atom(q)
        if p[1] == 'perm':
            return injective(h, qa, p[2])
        if p[1] == 'nth':
            c, = close(qa, cnorm(('not', exists_lt(q, h))))
            if cnorm(c) == p[3]:
                return True
            return injective(h, qa, p[2])
    return False


def increasing(g, xa, n):
    """is x -> g(x) strictly increasing on x < n (sufficient conditions)"""
    l = lin_ang(g, xa)
    if l and l[0] > 0 or monotone(g, xa, n):
        return True
    p = through(g, xa)
    if p is not None and p[0] == 'i' and p[1:2] == ('perm',):
        q = TM.fresh('q')
        h = g.subst(lambda a: q if a == p else None)
        hb, = close(TM.single_atom(q), h)
        # h sorted by itself (or by a positive multiple of itself)
        for k in (hb, hb*TM.PI/180, hb*180/TM.PI):
            if k == p[3] and injective(h, TM.single_atom(q), p[2]):
                return True
    return False


def perm(n, xa, key):
    """index term (in xa) of the sorted sequence"""
    if increasing(key, xa, n):
        return T.atom(xa)
    p = through(key, xa)
    if p is not None and p != xa and p[0] == 'i' and p[1] == 'perm':
        q = TM.fresh('q')
        qa = TM.single_atom(q)
        h = key.subst(lambda a: q if a == p else None)
        if injective(h, qa, p[2]):
            # sorting a rearranged sequence without ties: the sequence itself sorted
            r = perm(p[2], qa, h)
            return ('inner', p, r.subst(lambda a: T.atom(xa) if a == qa else None))
    kb, = close(xa, key)
    return T.atom(('i', 'perm', T.const(n), kb, T.atom(xa)))


def vthrough(v, p, r):
    """replace the atom p in a value by r; the value must use xa only through p"""
    if isinstance(v, T):
        xa = TM.single_atom(p[-1])
        q = TM.fresh('q')
        u = v.subst(lambda a: q if a == p else None)
        if xa in u.atoms():
            raise Unsupported('sorting a partly rearranged sequence')
        return u.subst(lambda a: r if a == TM.single_atom(q) else None)
    if isinstance(v, tuple):
        return tuple(vthrough(z, p, r) for z in v)
    raise Unsupported('sorting of %r' % (v,))


def sort_seq(I, it, key, reverse):
    cond = getattr(it, 'cond', True)
    x = TM.fresh('x')
    xa = TM.single_atom(x)
    if cond is not True:
        fam = compress(it.fam, cond) if hasattr(it, 'fam') else compress(Family(it.n, xa, it.at(x)), it.condat(x))
    else:
        fam = Family(it.n, xa, it.at(x))
    e = fam.at(x)
    k = I.call(key, [e], {}) if key is not None else e
    if not isinstance(k, T) or not k.is_real():
        raise Unsupported('sort by %r' % (k,))
    if reverse is not False:
        raise Unsupported('descending sort of a symbolic sequence')
    i = perm(fam.n, xa, k)
    if isinstance(i, tuple):
        return PList(fam=Family(fam.n, xa, vthrough(e, i[1], i[2])))
    return PList(fam=Family(fam.n, xa, vsub(e, {xa: i})))


def normal_form(n, X, Y):
    """Specification of the container's normal form of the points (X(i), Y(i)), i < n:
    (number of points, angle(i), value(i)) - angles modulo 2*pi, first of every group of
    equal angles, increasing order."""
    x = TM.fresh('x')
    xa = TM.single_atom(x)
    e = TM.rmod(X(x), TWO_PI)
    cond = True if injective(e, xa, n) else cnorm(('not', exists_lt(x, e)))
    fam = compress(Family(n, xa, (e, Y(x))), cond)
    ex, ey = fam.at(x)
    i = perm(fam.n, xa, ex)
    if isinstance(i, tuple):
        ex, ey = vthrough((ex, ey), i[1], i[2])
    else:
        ex, ey = vsub((ex, ey), {xa: i})
    return fam.n, (lambda j: vsub(ex, {xa: T.const(j)})), (lambda j: vsub(ey, {xa: T.const(j)}))
