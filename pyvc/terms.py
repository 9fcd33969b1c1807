"""Exact normal forms for the scalar terms of the verifier.

A ``T`` is a finite sum  sum_k c_k * E(p_k) * prod_j a_j**e_j  with Gaussian
rational c_k, E(p) = exp(i*p), and atoms a_j.  Two ``T`` are equal iff their
normal forms coincide, for *every* value of their atoms (up to the relations
listed below, which are applied by the constructors):

  E(p)*E(q) = E(p+q), E(0) = 1, E(k*pi/2) = i**k
  sqrt(p)**2 = p            (atom 'sq', p >= 0)
  D(p)*p = 1                (atom 'D' = a nonzero polynomial p kept as a unit)
  iv(c)**2 = iv(c)          (atom 'iv', Iverson bracket of a condition)
  sum over an index of terms: linear, factors free of the index pulled out

Atoms are tuples (kind, name, args...):
  'r' real, 'i' integer, 'c' complex, 'cj' conjugate of the 'c' atom,
  'sq','D','iv','S' (sum), 'b' (bound index), 'A' (abbreviation of a large T),
  'mod' (real modulo)
"""
from fractions import Fraction
import cmath, math, random

_atoms = []          # id -> atom
_atom_ids = {}       # atom -> id


def aid(atom):
    i = _atom_ids.get(atom)
    if i is None:
        i = len(_atoms)
        _atoms.append(atom)
        _atom_ids[atom] = i
    return i


_phases = [None]
_phase_ids = {}
_phase_add = {}


def pid(t):
    if not t.m:
        return 0
    i = _phase_ids.get(t)
    if i is None:
        i = len(_phases)
        _phases.append(t)
        _phase_ids[t] = i
    return i


def phase(i):
    return ZERO if i == 0 else _phases[i]


def padd(i, j):
    if i == 0:
        return j
    if j == 0:
        return i
    k = (i, j) if i < j else (j, i)
    r = _phase_add.get(k)
    if r is None:
        r = pid(_phases[i] + _phases[j])
        _phase_add[k] = r
    return r


def nrm(q):
    if type(q) is Fraction and q.denominator == 1:
        return q.numerator
    return q


def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0]*b[0], 0)
    return (a[0]*b[0]-a[1]*b[1], a[0]*b[1]+a[1]*b[0])


ABBREV = 400     # products of two sums larger than this keep the factors


class TermError(Exception):
    pass


class T:
    __slots__ = ('m', '_h')

    def __init__(self, m):
        self.m = m
        self._h = None

    # -- construction ------------------------------------------------------
    @staticmethod
    def const(x):
        if isinstance(x, T):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return T({ONEMON: (x, 0)}) if x else ZERO
        if isinstance(x, Fraction):
            return T({ONEMON: (nrm(x), 0)}) if x else ZERO
        if isinstance(x, float):
            if x != x or x in (math.inf, -math.inf):
                raise TermError('non-finite constant')
            return T.const(Fraction(repr(x)) if len(repr(x)) < 16 else Fraction(x))
        if isinstance(x, complex):
            return T.const(x.real) + I*T.const(x.imag)
        raise TermError('not a number: %r' % (x,))

    @staticmethod
    def atom(a, e=1):
        return T({(0, ((aid(a), e),)): (1, 0)})

    # -- basic queries -----------------------------------------------------
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def same(self, o):
        return self.m == o.m

    def __eq__(self, o):
        if isinstance(o, T):
            return self.m == o.m
        if isinstance(o, (int, float, complex, Fraction)):
            return self.m == T.const(o).m
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def is_const(self):
        return not self.m or (len(self.m) == 1 and ONEMON in self.m)

    def const_val(self):
        """(re, im) if constant else None"""
        if not self.m:
            return (0, 0)
        if len(self.m) == 1 and ONEMON in self.m:
            return self.m[ONEMON]
        return None

    def as_int(self):
        v = self.const_val()
        if v is not None and v[1] == 0 and nrm(v[0]) == int(v[0]):
            return int(v[0])
        return None

    def as_frac(self):
        v = self.const_val()
        if v is not None and v[1] == 0:
            return Fraction(v[0])
        return None

    # -- ring operations ---------------------------------------------------
    def __add__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if not o.m:
            return self
        if not self.m:
            return o
        if len(self.m) < len(o.m):
            a, b = o.m, self.m
        else:
            a, b = self.m, o.m
        r = dict(a)
        for k, c in b.items():
            d = r.get(k)
            if d is None:
                r[k] = c
            else:
                x = (nrm(d[0]+c[0]), nrm(d[1]+c[1]))
                if x[0] == 0 and x[1] == 0:
                    del r[k]
                else:
                    r[k] = x
        return T(r)
    __radd__ = __add__

    def __neg__(self):
        return T({k: (-c[0], -c[1]) for k, c in self.m.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else self + (-o)

    def __rsub__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else o + (-self)

    def __mul__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if not self.m or not o.m:
            return ZERO
        a, b = self.m, o.m
        if len(a) == 1 and ONEMON in a:
            c = a[ONEMON]
            if c == (1, 0):
                return o
            return T({k: (lambda x: (nrm(x[0]), nrm(x[1])))(cmul(c, d)) for k, d in b.items()})
        if len(b) == 1 and ONEMON in b:
            return o*self
        if len(a) > ABBREV and len(b) > ABBREV:
            return abbrev(self)*abbrev(o)
        r = {}
        special = False
        for k1, c1 in a.items():
            for k2, c2 in b.items():
                k, red = mon_mul(k1, k2)
                c = cmul(c1, c2)
                if red:
                    special = True
                d = r.get(k)
                if d is None:
                    r[k] = c
                else:
                    r[k] = (d[0]+c[0], d[1]+c[1])
        r = {k: (nrm(c[0]), nrm(c[1])) for k, c in r.items() if c[0] != 0 or c[1] != 0}
        t = T(r)
        if special:
            t = reduce_special(t)
        return t
    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, T):
            q = n.as_frac()
            if q is None:
                raise TermError('symbolic exponent')
            n = q
        if isinstance(n, float):
            n = Fraction(n)
        if isinstance(n, Fraction) and n.denominator == 2:
            return sqrt(self)**n.numerator
        if n != int(n):
            raise TermError('exponent %r' % n)
        n = int(n)
        if n < 0:
            return inv(self)**(-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r*b
            n >>= 1
            if n:
                b = b*b
        return r

    def __truediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return self*inv(o)

    def __rtruediv__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else o*inv(self)

    # -- structure ---------------------------------------------------------
    def conj(self):
        r = ZERO
        acc = {}
        for (p, mon), c in self.m.items():
            simple = True
            for a, e in mon:
                if _atoms[a][0] not in ('r', 'i', 'sq', 'iv', 'b', 'mod'):
                    simple = False
                    break
            np_ = pid(-(_phases[p].conj())) if p else 0
            cc = (c[0], -c[1])
            if simple:
                k = (np_, mon)
                d = acc.get(k)
                acc[k] = cc if d is None else (nrm(d[0]+cc[0]), nrm(d[1]+cc[1]))
            else:
                t = T({(np_, ()): cc})
                for a, e in mon:
                    t = t*conj_atom(_atoms[a])**e if e > 0 else t*inv(conj_atom(_atoms[a]))**(-e)
                r = r+t
        return T({k: c for k, c in acc.items() if c != (0, 0)})+r

    def real(self):
        return (self+self.conj())*HALF

    def imag(self):
        return (self-self.conj())*(-HALF*I)

    def is_real(self):
        return self.conj() == self

    def atoms(self, into=None, deep=True):
        s = set() if into is None else into
        if deep:
            _deps_any(self, s)
            return s
        for (p, mon) in self.m:
            if p and deep:
                _phases[p].atoms(s)
            for a, e in mon:
                at = _atoms[a]
                if at in s:
                    continue
                s.add(at)
                if deep:
                    _atoms_in(at, s)
        return s

    def subst(self, f):
        """Replace atoms: f(atom) -> T or None (keep, recursing into args)."""
        if type(f) is SubF:
            return self._subst_map(f)
        r = ZERO
        for (p, mon), c in self.m.items():
            t = T({ONEMON: c})
            if p:
                t = t*E(_phases[p].subst(f))
            for a, e in mon:
                at = _atoms[a]
                v = f(at)
                if v is None:
                    v = rebuild(at, f)
                t = t*(v**e if e >= 0 else inv(v)**(-e))
            r = r+t
        return r

    def _subst_map(self, f):
        keep = {}
        r = ZERO
        for (p, mon), c in self.m.items():
            if (not p or f.keys.isdisjoint(phase_deps(p))) and all(f.keys.isdisjoint(atom_deps(a)) for a, e in mon):
                keep[(p, mon)] = c
                continue
            t = T({ONEMON: c})
            if p:
                t = t*E(_phases[p]._subst_map(f))
            for a, e in mon:
                v = f.memo.get(a)
                if v is None:
                    at = _atoms[a]
                    v = f(at)
                    if v is None:
                        v = T.atom(at) if f.keys.isdisjoint(atom_deps(a)) else rebuild(at, f)
                    f.memo[a] = v
                t = t*(v**e if e >= 0 else inv(v)**(-e))
            r = r+t
        return r+T(keep) if r.m else T(keep) if len(keep) != len(self.m) else self

    def depends(self, atom):
        return atom in self.atoms()

    def __repr__(self):
        return show(self)


class SubF:
    """substitution by a dictionary atom -> T"""
    __slots__ = ('d', 'keys', 'memo')

    def __init__(self, d):
        self.d, self.keys, self.memo = d, frozenset(d), {}

    def __call__(self, a):
        return self.d.get(a)


_deps = {}
_pdeps = {}


def atom_deps(a):
    """all atoms in the atom with number a, itself included"""
    r = _deps.get(a)
    if r is None:
        s = {_atoms[a]}
        for x in _atoms[a][1:]:
            _deps_any(x, s)
        r = _deps[a] = frozenset(s)
    return r


def _deps_any(x, s):
    if isinstance(x, T):
        for (p, mon) in x.m:
            if p:
                s.update(phase_deps(p))
            for a, e in mon:
                s.update(atom_deps(a))
    elif isinstance(x, tuple):
        for y in x:
            _deps_any(y, s)


def phase_deps(p):
    r = _pdeps.get(p)
    if r is None:
        s = set()
        _deps_any(_phases[p], s)
        r = _pdeps[p] = frozenset(s)
    return r


def coerce(o):
    if isinstance(o, T):
        return o
    if isinstance(o, (int, float, complex, Fraction)):
        return T.const(o)
    try:
        import numpy as _np
        if isinstance(o, _np.generic):
            return T.const(o.item())
    except TermError:
        raise
    return NotImplemented


ONEMON = (0, ())
ZERO = T({})
ONE = T({ONEMON: (1, 0)})
I = T({ONEMON: (0, 1)})
HALF = T({ONEMON: (Fraction(1, 2), 0)})
PI_ATOM = ('r', 'pi')
PI = T.atom(PI_ATOM)


def mon_mul(k1, k2):
    p = padd(k1[0], k2[0])
    m1, m2 = k1[1], k2[1]
    if not m1:
        return (p, m2), False
    if not m2:
        return (p, m1), False
    i = j = 0
    out = []
    red = False
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a < b:
            out.append(m1[i]); i += 1
        elif b < a:
            out.append(m2[j]); j += 1
        else:
            if _atoms[a][0] in ('sq', 'iv'):
                red = True
            if e+f:
                out.append((a, e+f))
            i += 1; j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return (p, tuple(out)), red


def reduce_special(t):
    r = {}
    extra = ZERO
    for (p, mon), c in t.m.items():
        todo = []
        keep = []
        for a, e in mon:
            at = _atoms[a]
            if at[0] == 'iv' and e > 1:
                keep.append((a, 1))
            elif at[0] == 'sq' and e > 1:
                todo.append((at[1], e//2))
                if e % 2:
                    keep.append((a, 1))
            else:
                keep.append((a, e))
        if not todo:
            k = (p, tuple(keep))
            d = r.get(k)
            r[k] = c if d is None else (nrm(d[0]+c[0]), nrm(d[1]+c[1]))
        else:
            x = T({(p, tuple(keep)): c})
            for b, n in todo:
                x = x*b**n
            extra = extra+x
    return T({k: c for k, c in r.items() if c != (0, 0)})+extra


# -- special constructors -----------------------------------------------------

def E(p):
    """exp(i*p)"""
    p = T.const(p)
    # split off multiples of pi/2
    c = p.m.get((0, ((aid(PI_ATOM), 1),)))
    mul = ONE
    if c is not None and c[1] == 0:
        q = Fraction(c[0])*2          # multiples of pi/2
        fl = q.numerator//q.denominator
        if fl:
            p = p-PI*Fraction(fl, 2)
            mul = [ONE, I, -ONE, -I][fl % 4]
    # E(n*pi) etc for integer-valued symbolic n:  E(2*pi*n) = 1
    drop = ZERO
    for (ph, mon), c in p.m.items():
        if ph == 0 and c[1] == 0 and len(mon) >= 2:
            d = dict(mon)
            if d.get(aid(PI_ATOM)) == 1 and all(_atoms[a][0] in ('i',) or a == aid(PI_ATOM) for a in d) \
                    and all(e > 0 for e in d.values()):
                q = Fraction(c[0])
                k = q/2
                if k.denominator == 1:
                    drop = drop+T({(ph, mon): c})
                elif q.denominator == 1:
                    # E(odd*pi*n) -> E(pi*n)
                    drop = drop+T({(ph, mon): (q-1, 0)}) if q != 1 else drop
    if drop.m:
        p = p-drop
    if not p.m:
        return mul
    v = p.const_val()
    if v == (0, 0):
        return mul
    if len(p.m) == 1:
        # E(k*arccos(x)) = (x + i*sqrt(1-x^2))^k
        ((ph, mon), c), = p.m.items()
        if ph == 0 and c[1] == 0 and len(mon) == 1 and mon[0][1] == 1 and Fraction(c[0]).denominator == 1:
            at = _atoms[mon[0][0]]
            if at[:2] == ('r', 'arccos'):
                z = at[2]+I*sqrt(ONE-at[2]**2)
                k = int(c[0])
                return mul*(z if k > 0 else z.conj())**abs(k)
    return mul*T({(pid(p), ()): (1, 0)})


def cos(t):
    t = T.const(t)
    return (E(t)+E(-t))*HALF


def sin(t):
    t = T.const(t)
    return (E(t)-E(-t))*(HALF*(-I))


def var(name, kind='r', *args):
    return T.atom((kind, name)+tuple(args))


def sqrt(t):
    t = T.const(t)
    q = t.as_frac()
    if q is not None and q >= 0:
        n, d = q.numerator, q.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn*rn == n and rd*rd == d:
            return T.const(Fraction(rn, rd))
    if not t.m:
        return ZERO
    return T.atom(('sq', t))


def inv(t):
    t = T.const(t)
    if not t.m:
        raise ZeroDivisionError
    if len(t.m) == 1:
        ((p, mon), c), = t.m.items()
        n = Fraction(c[0])**2+Fraction(c[1])**2
        cc = (nrm(Fraction(c[0])/n), nrm(-Fraction(c[1])/n))
        if all(_atoms[a][0] != 'iv' for a, e in mon):
            np_ = pid(-_phases[p]) if p else 0
            r = T({(np_, tuple((a, -e) for a, e in mon)): cc})
            return r
    # normalise the leading coefficient so that proportional denominators agree
    k0 = min(t.m, key=lambda k: _monkey(k))
    c = t.m[k0]
    n = Fraction(c[0])**2+Fraction(c[1])**2
    ci = T({ONEMON: (nrm(Fraction(c[0])/n), nrm(-Fraction(c[1])/n))})
    return ci*T.atom(('D', t*ci), -1)


def _monkey(k):
    return (len(k[1]), k[1], k[0])


_abbr = {}


def abbrev(t):
    return T.atom(('A', t))


def unabbrev(t, depth=1):
    return t.subst(lambda a: a[1] if a[0] == 'A' else None)


def conj_atom(at):
    k = at[0]
    if k in ('r', 'i', 'iv', 'b', 'mod'):
        return T.atom(at)
    if k == 'c':
        return T.atom(('cj',)+at[1:])
    if k == 'cj':
        return T.atom(('c',)+at[1:])
    if k == 'sq':
        return T.atom(at)
    if k == 'D':
        p = at[1].conj()
        if p == at[1]:
            return T.atom(at)
        return inv(inv(p))
    if k == 'A':
        return T.atom(('A', at[1].conj()))
    if k == 'S':
        return T.atom(('S', at[1], at[2].conj()))
    raise TermError('conj of %r' % (at,))


def _atoms_in(at, s):
    for x in at[1:]:
        _walk(x, s)


def _walk(x, s):
    _deps_any(x, s)


def subst_any(x, f):
    if isinstance(x, T):
        return x.subst(f)
    if isinstance(x, tuple):
        return tuple(subst_any(y, f) for y in x)
    return x


def mk(at):
    """atom, simplified: 'P:s' and 'Q:s' are a permutation and its inverse"""
    if at[0] == 'i' and len(at) == 3 and isinstance(at[1], str) and at[1][:2] in ('P:', 'Q:') and len(at[2].m) == 1:
        (p, mon), c = next(iter(at[2].m.items()))
        if not p and c == (1, 0) and len(mon) == 1 and mon[0][1] == 1:
            z = _atoms[mon[0][0]]
            if z[0] == 'i' and len(z) == 3 and z[1] == {'P': 'Q', 'Q': 'P'}[at[1][0]]+at[1][1:]:
                return z[2]
    return T.atom(at)


def rebuild(at, f):
    k = at[0]
    if k == 'b':
        return T.atom(at)
    if k == 'S':
        n = at[1].subst(f)
        # open the binder with a fresh name
        x = fresh('sb', 'i')
        body = open_body(at[2], x).subst(f)
        return Sum(x, ZERO, n, body)
    args = tuple(subst_any(x, f) for x in at[1:])
    if k == 'sq':
        return sqrt(args[0])
    if k == 'D':
        return inv(inv(args[0]))
    if k == 'A':
        return T.atom(('A', args[0]))
    if k == 'iv':
        return iv(args[0])
    if k == 'mod':
        return rmod(args[0], args[1])
    return mk((k,)+args)


_fresh = [0]


def fresh(name, kind='i'):
    _fresh[0] += 1
    return T.atom((kind, '%s#%d' % (name, _fresh[0])))


def single_atom(t):
    ((p, mon), c), = t.m.items()
    assert p == 0 and c == (1, 0) and len(mon) == 1 and mon[0][1] == 1
    return _atoms[mon[0][0]]


def bdepth(t):
    d = 0
    for a in t.atoms():
        if a[0] == 'b':
            d = max(d, a[1]+1)
    return d


def open_body(body, x):
    """Replace the outermost bound index (depth = max depth) by x."""
    d = bdepth_outer(body)
    tgt = ('b', d)
    return _sub_b(body, tgt, x)


def _sub_b(t, tgt, x):
    def f(a):
        if a == tgt:
            return x
        return None
    return _subst_raw(t, f)


def _subst_raw(t, f):
    """substitution that goes below binders without renaming (bound depths are
    unique along a path, see Sum)"""
    r = ZERO
    for (p, mon), c in t.m.items():
        u = T({ONEMON: c})
        if p:
            u = u*E(_subst_raw(_phases[p], f))
        for a, e in mon:
            at = _atoms[a]
            v = f(at)
            if v is None:
                v = _rebuild_raw(at, f)
            u = u*(v**e if e >= 0 else inv(v)**(-e))
        r = r+u
    return r


def _raw_any(x, f):
    if isinstance(x, T):
        return _subst_raw(x, f)
    if isinstance(x, tuple):
        return tuple(_raw_any(y, f) for y in x)
    return x


def _rebuild_raw(at, f):
    k = at[0]
    args = tuple(_raw_any(x, f) for x in at[1:])
    if k == 'sq':
        return sqrt(args[0])
    if k == 'D':
        return inv(inv(args[0]))
    if k == 'iv':
        return iv(args[0])
    if k == 'mod':
        return rmod(args[0], args[1])
    return mk((k,)+args)


def bdepth_outer(body):
    d = -1
    for a in body.atoms():
        if a[0] == 'b':
            d = max(d, a[1])
    return d


def bdepth_cond(c):
    """depth of the outermost binder of the body of an 'exists'"""
    s = set()
    _walk(c, s)
    return max([a[1] for a in s if a[0] == 'b'], default=-1)


def Sum(x, lo, hi, body):
    """sum of body over integer x in [lo, hi)"""
    xa = single_atom(x)
    lo, hi, body = T.const(lo), T.const(hi), T.const(body)
    n = hi-lo
    k = n.as_int()
    if k is not None and k <= 0:
        return ZERO
    if k is not None and k <= 4:
        r = ZERO
        for j in range(k):
            r = r+body.subst(lambda a: lo+j if a == xa else None)
        return r
    if lo.m:
        body = body.subst(lambda a: x+lo if a == xa else None)
    r = ZERO
    for (p, mon), c in body.m.items():
        out = T({ONEMON: c})
        inn = ONE
        if p:
            pin, pout = ZERO, ZERO
            for (p2, mon2), c2 in _phases[p].m.items():
                u = T({(p2, mon2): c2})
                if xa in u.atoms():
                    pin = pin+u
                else:
                    pout = pout+u
            out = out*E(pout)
            inn = inn*E(pin)
        for a, e in mon:
            at = _atoms[a]
            s = {at}
            _atoms_in(at, s)
            u = T({(0, ((a, e),)): (1, 0)})
            if xa in s:
                inn = inn*u
            else:
                out = out*u
        if inn == ONE:
            r = r+out*n
            continue
        kd = _iv_eq_index(inn, xa)
        if kd is not None:
            # sum of [x == e] * g(x) = [0 <= e < n] * g(e)
            e_, g = kd
            val = g.subst(lambda a: e_ if a == xa else None)
            r = r+out*val*iv(('ge', e_))*iv(('ge', n-1-e_))
            continue
        d = bdepth_outer(inn)+1
        b = T.atom(('b', d))
        inn2 = _subst_raw(inn, lambda a: b if a == xa else None)
        # inn2 may have become several monomials only through relations
        cc = ONE
        if len(inn2.m) == 1:
            (kk, cv), = inn2.m.items()
            if cv != (1, 0):
                cc = T({ONEMON: cv})
                inn2 = T({kk: (1, 0)})
        r = r+out*cc*T.atom(('S', n, inn2))
    return r


def _iv_eq_index(t, xa):
    if len(t.m) != 1:
        return None
    ((p, mon), c), = t.m.items()
    for a, e in mon:
        at = _atoms[a]
        if at[0] == 'iv' and at[1][0] == 'eq':
            lin = at[1][1]
            key = (0, ((aid(xa), 1),))
            co = lin.m.get(key)
            if co in ((1, 0), (-1, 0)):
                rest = lin-T({key: co})
                if xa not in rest.atoms():
                    sol = -rest if co == (1, 0) else rest
                    g = T({(p, tuple(z for z in mon if z[0] != a)): c})
                    return sol, g
    return None


# -- conditions -------------------------------------------------------------
# ('ge',T) T>=0 | ('gt',T) | ('eq',T) T==0 | ('not',c) | ('and',c1..) | ('or',..)
# ('p', name, args...) opaque proposition | True | False

def is_int_term(t):
    for (p, mon), c in t.m.items():
        if p or c[1] != 0 or Fraction(c[0]).denominator != 1:
            return False
        for a, e in mon:
            if e < 0 or _atoms[a][0] not in ('i', 'b', 'iv') and not (_atoms[a][0] == 'S' and is_count(_atoms[a])):
                return False
    return True


def is_count(at):
    return all(not p and c[1] == 0 and Fraction(c[0]).denominator == 1 and all(_atoms[a][0] == 'iv' and e > 0 for a, e in mon)
               for (p, mon), c in at[2].m.items())


def _abs_bound(k, t):
    """g + q*|u| >= 0 (|u| = u*(2*[u>=0]-1)) without the bracket"""
    for a in {i for _, mon in t.m for i, _ in mon}:
        a = _atoms[a]
        if a[0] == 'iv' and a[1][0] == 'ge':
            u = a[1][1]
            f1 = t.subst(lambda z: ONE if z == a else None)
            f0 = t.subst(lambda z: ZERO if z == a else None)
            d = f1-f0
            if not u.m or not d.m or u.as_frac() is not None:
                continue
            k0 = next(iter(u.m))
            if u.m[k0][1] or k0 not in d.m or d.m[k0][1]:
                continue
            q = Fraction(d.m[k0][0])/Fraction(u.m[k0][0])
            if d == u*q:
                return ('and' if q < 0 else 'or', (k, f1), (k, f0))
    return None


def cnorm(c):
    if c is True or c is False:
        return c
    k = c[0]
    if k in ('ge', 'gt', 'eq'):
        t = c[1]
        v = t.as_frac()
        if v is not None:
            return {'ge': v >= 0, 'gt': v > 0, 'eq': v == 0}[k]
        if k != 'eq':
            z = _abs_bound(k, t)
            if z is not None:
                return cnorm(z)
        if k == 'gt' and is_int_term(t):
            return cnorm(('ge', t-1))
        if k == 'ge' and is_int_term(t):
            k0 = t.m.get(ONEMON, (0, 0))[0]
            g = 0
            for kk, cc in t.m.items():
                if kk != ONEMON:
                    g = math.gcd(g, int(cc[0]))
            if g > 1:
                r = ZERO
                for kk, cc in t.m.items():
                    if kk != ONEMON:
                        r = r+T({kk: (int(cc[0])//g, 0)})
                return ('ge', r+(k0//g))
        if k == 'eq':
            k0 = min(t.m, key=_monkey)
            co = t.m[k0]
            if co[1] == 0 and co[0] < 0:
                t = -t
        return (k, t)
    if k == 'not':
        d = cnorm(c[1])
        if d is True or d is False:
            return not d
        if d[0] == 'not':
            return d[1]
        if d[0] == 'ge':
            return cnorm(('gt', -d[1]))
        if d[0] == 'gt':
            return cnorm(('ge', -d[1]))
        if d[0] == 'and':
            return cnorm(('or',)+tuple(('not', x) for x in d[1:]))
        if d[0] == 'or':
            return cnorm(('and',)+tuple(('not', x) for x in d[1:]))
        return ('not', d)
    if k in ('and', 'or'):
        out = []
        for x in c[1:]:
            y = cnorm(x)
            if y is (k == 'or'):
                return y
            if y is (k == 'and'):
                continue
            if y[0] == k:
                out.extend(y[1:])
            elif y not in out:
                out.append(y)
        if not out:
            return k == 'and'
        if len(out) == 1:
            return out[0]
        return (k,)+tuple(out)
    return c


def iv(c):
    """Iverson bracket as a T"""
    c = cnorm(c)
    if c is True:
        return ONE
    if c is False:
        return ZERO
    if c[0] == 'and':
        r = ONE
        for x in c[1:]:
            r = r*iv(x)
        return r
    if c[0] == 'or':
        r = ONE
        for x in c[1:]:
            r = r*(ONE-iv(x))
        return ONE-r
    if c[0] == 'not':
        return ONE-iv(c[1])
    if c[0] == 'gt':
        return ONE-iv(('not', c))
    return T.atom(('iv', c))


def rmod(a, b):
    """real modulo a % b as an atom, for b > 0 (0 <= a % b < b)"""
    a, b = T.const(a), T.const(b)
    qa, qb = a.as_frac(), b.as_frac()
    if qa is not None and qb:
        return T.const(qa % qb)
    if not a.m:
        return ZERO
    # (x % b) % b = x % b ; (x%b + y) % b = (x+y) % b ; integer multiples of b
    if len(a.m) == 1 and b == PI*2:
        ((p, mon), c), = a.m.items()
        if p == 0 and c == (1, 0) and len(mon) == 1 and mon[0][1] == 1 and _atoms[mon[0][0]][0] == 'r' and str(_atoms[mon[0][0]][1]).startswith('ang:'):
            return a
    changed = ZERO
    for (p, mon), c in a.m.items():
        if p == 0 and c[1] == 0 and Fraction(c[0]).denominator == 1:
            for at, e in mon:
                A = _atoms[at]
                if A[0] == 'mod' and A[2] == b and e == 1 and len(mon) == 1:
                    changed = changed+(A[1]-T.atom(A))*T.const(c[0])
    if changed.m:
        return rmod(a+changed, b)
    if len(b.m) == 1:
        (kb, cb), = b.m.items()
        ca = a.m.get(kb)
        if ca is not None and ca[1] == 0 and cb[1] == 0:
            q = Fraction(ca[0])/Fraction(cb[0])
            fl = q.numerator//q.denominator
            if fl:
                return rmod(a-b*fl, b)
    return T.atom(('mod', a, b))


# -- deciding equality ---------------------------------------------------------

def clear_denominators(t):
    """multiply by the (nonzero) units with negative exponents and reduce"""
    for _ in range(40):
        neg = {}
        for (p, mon) in t.m:
            for a, e in mon:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        Ds = set(a for (p, mon) in t.m for a, e in mon if _atoms[a][0] == 'D')
        if not neg and not Ds:
            return t
        if neg:
            mul = T({(0, tuple(sorted((a, -e) for a, e in neg.items()))): (1, 0)})
            t2 = {}
            for (p, mon), c in t.m.items():
                k, red = mon_mul((p, mon), (0, tuple(sorted((a, -e) for a, e in neg.items()))))
                t2[k] = c
            t = reduce_special(T(t2))
        t = t.subst(lambda a: a[1] if a[0] == 'D' else None)
        t = reduce_special(t)
    raise TermError('denominators')


def equal(a, b):
    a, b = T.const(a), T.const(b)
    if a.m == b.m:
        return True
    d = a-b
    if not d.m:
        return True
    if any(e < 0 for (p, mon) in d.m for _, e in mon):
        d = clear_denominators(d)
        if not d.m:
            return True
    d2 = expand_sums(d)
    if d2 is not None:
        if not d2.m:
            return True
        if any(e < 0 for (p, mon) in d2.m for _, e in mon):
            return not clear_denominators(d2).m
    return False


def expand_sums(t, limit=64):
    """unroll the sums of constant length; None if there are none"""
    hit = []

    def f(a):
        if a[0] == 'S':
            k = a[1].as_int()
            if k is not None and k <= limit:
                hit.append(a)
                b = ('b', bdepth_outer(a[2]))
                r = ZERO
                for j in range(k):
                    r = r+_subst_raw(a[2], lambda z: T.const(j) if z == b else None)
                return r
        return None
    try:
        r = t.subst(f)
    except TermError:
        return None
    return r if hit else None


# -- numeric evaluation (for counterexamples of failed obligations) -------------

def own_binder(body, env):
    s = set()
    _walk(body, s)
    return max([a[1] for a in s if a[0] == 'b' and a[1] not in env], default=-1)


class Valuation:
    def __init__(self, seed, ints=None):
        self.rng = random.Random(seed)
        self.v = {}
        self.ints = ints or {}
        self.coarse = seed % 3 == 2

    def atom(self, at, env):
        k = at[0]
        if at == PI_ATOM:
            return math.pi
        if k == 'b':
            return env[at[1]]
        if k == 'sq':
            return cmath.sqrt(self.ev(at[1], env))
        if k in ('D', 'A'):
            return self.ev(at[1], env)
        if k == 'mod':
            return (self.ev(at[1], env).real) % (self.ev(at[2], env).real)
        if k == 'iv':
            return 1 if self.cond(at[1], env) else 0
        if k == 'S':
            n = int(round(self.ev(at[1], env).real))
            d = own_binder(at[2], env)
            s = 0
            for j in range(max(n, 0)):
                e2 = dict(env); e2[d] = j
                s += self.ev(at[2], e2)
            return s
        if k == 'i' and at[1] in ('nth', 'perm') and len(at) == 5:
            n = int(round(self.ev(at[2], env).real))
            i = int(round(self.ev(at[4], env).real))
            d = own_binder(at[3], env)
            if at[1] == 'nth':
                idx = [j for j in range(n) if self.cond(at[3], dict(env, **{}) | {d: j})]
            else:
                idx = sorted(range(n), key=lambda j: round(self.ev(at[3], dict(env) | {d: j}).real, 9))
            if not 0 <= i < len(idx):
                raise KeyError('index out of range')
            return idx[i]
        if k == 'r' and at[1] in ('maxof', 'minof') or k == 'i' and at[1] in ('argmax', 'argmin'):
            n = int(round(self.ev(at[2] if k == 'r' else at[3], env).real))
            if n < 1:
                raise KeyError('extreme of nothing')
            body = at[-1]
            d = own_binder(body, env)
            vs = [self.ev(body, dict(env) | {d: j}).real for j in range(n)]
            m = max(vs) if 'max' in at[1] else min(vs)
            if k == 'r':
                return m
            w = [j for j in range(n) if abs(vs[j]-m) < 1e-9]
            return w[0] if at[2] == 'first' else w[-1]
        if k == 'r' and str(at[1]).startswith('ang:'):
            key = ('ang',)+tuple(self.norm_arg(x, env) for x in at[1:-1])
            if key not in self.v:
                self.v[key] = self.rng.uniform(0, .5)
            i = self.ev(at[-1], env).real
            if i < 0:
                raise KeyError('index out of range')
            return 2*math.pi*(1-1/(i+1+self.v[key]))
        key = ('c',)+tuple(self.norm_arg(x, env) for x in at[1:]) if k == 'cj' else \
              (k,)+tuple(self.norm_arg(x, env) for x in at[1:])
        if key not in self.v:
            if k == 'i':
                self.v[key] = self.ints.get(at[1], None)
                if self.v[key] is None:
                    self.v[key] = self.rng.randint(0, 6)
            elif k == 'r':
                # now and then repeated values and values a turn apart
                self.v[key] = self.rng.choice((.5, 1.25, .5+2*math.pi, .5-2*math.pi, -1.0)) if self.coarse else self.rng.uniform(-2, 2)
            else:
                self.v[key] = complex(self.rng.uniform(-1, 1), self.rng.uniform(-1, 1))
        x = self.v[key]
        return complex(x).conjugate() if k == 'cj' else x

    def norm_arg(self, x, env):
        if isinstance(x, T):
            z = self.ev(x, env)
            return (round(z.real, 8), round(z.imag, 8))
        if isinstance(x, tuple):
            return tuple(self.norm_arg(y, env) for y in x)
        return x

    def cond(self, c, env):
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'ge':
            return self.ev(c[1], env).real >= -1e-12
        if k == 'gt':
            return self.ev(c[1], env).real > 1e-12
        if k == 'eq':
            return abs(self.ev(c[1], env)) < 1e-9
        if k == 'not':
            return not self.cond(c[1], env)
        if k == 'and':
            return all(self.cond(x, env) for x in c[1:])
        if k == 'or':
            return any(self.cond(x, env) for x in c[1:])
        if c[:2] == ('p', 'exists'):
            n = int(round(self.ev(c[2], env).real))
            d = own_binder(c[3], env)
            return any(self.cond(c[3], dict(env) | {d: j}) for j in range(n))
        key = ('p',)+tuple(self.norm_arg(x, env) for x in c[1:])
        if key not in self.v:
            self.v[key] = self.rng.random() < .5
        return self.v[key]

    def ev(self, t, env=None):
        env = env or {}
        s = 0j
        for (p, mon), c in t.m.items():
            x = complex(float(c[0]), float(c[1]))
            if p:
                x *= cmath.exp(1j*self.ev(_phases[p], env))
            for a, e in mon:
                x *= self.atom(_atoms[a], env)**e
            s += x
        return s


def show(t, limit=12):
    if not t.m:
        return '0'
    out = []
    for n, ((p, mon), c) in enumerate(t.m.items()):
        if n >= limit:
            out.append('... (%d terms)' % len(t.m))
            break
        co = '' if c == (1, 0) else (str(c[0]) if c[1] == 0 else '(%s%+si)' % (c[0], c[1]) if c[0] else '%si' % c[1])
        fs = [co] if co else []
        for a, e in mon:
            fs.append(show_atom(_atoms[a])+('**%d' % e if e != 1 else ''))
        if p:
            fs.append('E(%s)' % show(_phases[p]))
        out.append('*'.join(fs) or '1')
    return ' + '.join(out)


def show_any(x):
    if isinstance(x, T):
        return show(x)
    if isinstance(x, tuple):
        return '('+','.join(show_any(y) for y in x)+')'
    return str(x)


def show_atom(at):
    k = at[0]
    if k in ('r', 'i', 'c'):
        return str(at[1])+(('[%s]' % ','.join(show_any(x) for x in at[2:])) if len(at) > 2 else '')
    if k == 'cj':
        return 'conj(%s)' % show_atom(('c',)+at[1:])
    if k == 'b':
        return 'k%d' % at[1]
    if k == 'sq':
        return 'sqrt(%s)' % show(at[1])
    if k == 'D':
        return '(%s)' % show(at[1])
    if k == 'A':
        return '<%d terms>' % len(at[1].m)
    if k == 'S':
        return 'Sum[k<%s](%s)' % (show(at[1]), show(at[2]))
    if k == 'iv':
        return '[%s]' % show_any(at[1])
    if k == 'mod':
        return '(%s %% %s)' % (show(at[1]), show(at[2]))
    return str(at)


class TObj(T):
    """a term known to be a sympy expression (an array of such has data type object)"""
    __slots__ = ()

    def subst(self, f):
        return TObj(T.subst(self, f).m)


def _obj(n):
    op = getattr(T, n, None)
    if op is not None:
        def f(self, *a):
            r = op(T(self.m), *[T(x.m) if isinstance(x, TObj) else x for x in a])
            return TObj(r.m) if isinstance(r, T) else r
        setattr(TObj, n, f)


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'neg', 'pow'):
    _obj('__%s__' % _n)
