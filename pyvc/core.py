"""Verification context: path exploration, conditions, z3, obligations."""
import time
import z3
from . import terms as TM
from .terms import T, iv, cnorm, Sum, ZERO, ONE
from fractions import Fraction


class Unsupported(Exception):
    """The construct is outside the verifier's reach (no verdict)."""


class Infeasible(Exception):
    """Path condition unsatisfiable."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, exc, node=None):
        self.exc = exc
        self.node = node

    def __str__(self):
        return '%s(%s)' % (type(self.exc).__name__ if not isinstance(self.exc, type) else self.exc.__name__, self.exc)


class Restart(Exception):
    pass


class SBool:
    """A symbolic truth value."""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return 'SBool(%s)' % TM.show_any(self.c)


def mkbool(c):
    c = cnorm(c)
    return c if isinstance(c, bool) else SBool(c)


def cond_of(v):
    if isinstance(v, SBool):
        return v.c
    if isinstance(v, bool):
        return v
    raise Unsupported('condition %r' % (v,))


class NeedOuter(Exception):
    """a condition met inside a generic iteration that does not depend on it"""
    def __init__(self, c):
        self.c = c


class Frame:
    __slots__ = ('prefix', 'taken', 'x')

    def __init__(self, prefix, x=None):
        self.prefix = prefix
        self.taken = []
        self.x = x              # atoms standing for the generic iteration


class Obligation:
    def __init__(self, name, ok, how, detail='', secs=0.0, concl=True):
        self.name, self.ok, self.how, self.detail, self.secs, self.concl = name, ok, how, detail, secs, concl


class Ctx:
    cur = None

    def __init__(self, cross=False):
        Ctx.cur = self
        self.assump = []
        self.frames = []
        self.obls = []
        self.solver_s = 0.0
        self.queries = 0
        self.notes = set()
        self._cache = {}
        self.paths = 0
        self.cross = cross
        self.deadline = None
        self._zc = {}
        self.prefix = ''
        self.journal = None
        self.stamp = 0
        self.foralls = []

    # -- z3 translation ----------------------------------------------------
    def zvar(self, at):
        k = at[0]
        nm = TM.show_atom(at)
        if k in ('i', 'b'):
            v = z3.Int(nm)
            if k == 'i' and str(at[1]).startswith('+'):
                return v, [v >= 0]
            if k == 'i' and at[1] in ('nth', 'perm') and len(at) == 5:
                n, ax = self.z(at[2])
                return v, ax+[v >= 0, v < n]
            return v, []
        if k == 'S' and all(not p and all(TM._atoms[a][0] == 'iv' for a, e in mon) for p, mon in at[2].m) and len(at[2].m) == 1 and set(at[2].m.values()) == {(1, 0)}:
            # a count
            v = z3.Int(nm)
            n, ax = self.z(at[1])
            ax = ax+[v >= 0, z3.Implies(n >= 0, v <= n)]
            b = T.atom(('b', TM.bdepth_outer(at[2])))
            if any(TM._atoms[a][1][:3] == ('p', 'exists', b) for p, mon in at[2].m for a, e in mon):
                ax.append(z3.Implies(n >= 1, v <= n-1))     # fails at the first index
            return v, ax
        if k == 'r':
            v = z3.Real(nm)
            ax = []
            if str(at[1]).startswith('ang:'):
                pi, ax = self.zvar(TM.PI_ATOM)
                ax = ax+[v >= 0, v < 2*pi]
            if at == TM.PI_ATOM:
                ax = [v > z3.RealVal('3.14159'), v < z3.RealVal('3.1416')]
            return v, ax
        if k == 'sq':
            v = z3.Real(nm)
            p, ax = self.z(at[1])
            return v, ax+[v >= 0, v*v == p]
        if k == 'D':
            v = z3.Real('D:'+nm)
            p, ax = self.z(at[1])
            return v, ax+[v == p, v != 0]
        if k == 'iv':
            v = z3.Real(nm)
            c, ax = self.zc(at[1])
            return v, ax+[v == z3.If(c, z3.RealVal(1), z3.RealVal(0))]
        if k == 'mod':
            v = z3.Real(nm)
            a, ax1 = self.z(at[1])
            b, ax2 = self.z(at[2])
            q = z3.Int('q:'+nm)
            ax = [v >= 0, v < b]
            # m = a - b*q ; for b a constant multiple of pi this stays linear
            # only when q is fixed: offer the small quotients as case splits
            ax.append(z3.Implies(z3.And(a >= 0, a < b), v == a))
            ax.append(z3.Implies(z3.And(a >= b, a < 2*b), v == a-b))
            ax.append(z3.Implies(z3.And(a >= -b, a < 0), v == a+b))
            return v, ax1+ax2+ax
        return z3.Real(nm), []

    def z(self, t):
        """T (real valued) -> z3 term, axioms"""
        r = self._zc.get(t)
        if r is not None:
            return r
        ax = []
        terms = []
        for (p, mon), c in t.m.items():
            if p or c[1] != 0:
                # opaque
                v = z3.Real('op:'+TM.show(t, 10**9))
                return v, []
            q = Fraction(c[0])
            isint = q.denominator == 1
            x = None
            for a, e in mon:
                v, axs = self.zvar(TM._atoms[a])
                ax += axs
                for _ in range(abs(e)):
                    if e > 0:
                        x = v if x is None else x*v
                    else:
                        x = 1/z3.ToReal(v) if v.is_int() else (1/v if x is None else x/v)
            if x is None:
                terms.append(z3.IntVal(q.numerator) if isint else z3.RealVal(str(q)))
            elif q == 1:
                terms.append(x)
            else:
                co = z3.IntVal(q.numerator) if (isint and x.is_int()) else z3.RealVal(str(q))
                terms.append(co*x)
        r = z3.IntVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(terms))
        self._zc[t] = (r, ax)
        return r, ax

    def zc(self, c):
        if c is True or c is False:
            return z3.BoolVal(c), []
        k = c[0]
        if k in ('ge', 'gt', 'eq'):
            t = c[1]
            if k == 'eq' and not t.is_real():
                if any(True for a in t.atoms() if a[0] in ('c', 'cj')) or True:
                    return z3.Bool('ceq:'+TM.show(t, 10**9)), []
            x, ax = self.z(t)
            return {'ge': x >= 0, 'gt': x > 0, 'eq': x == 0}[k], ax
        if k == 'not':
            x, ax = self.zc(c[1])
            return z3.Not(x), ax
        if k in ('and', 'or'):
            xs, ax = [], []
            for d in c[1:]:
                x, a = self.zc(d)
                xs.append(x)
                ax += a
            return (z3.And if k == 'and' else z3.Or)(*xs), ax
        return z3.Bool('p:'+TM.show_any(c)), []

    def sat(self, conds):
        """'sat' / 'unsat' / 'unknown' for assumptions + conds"""
        key = (tuple(self.assump), tuple(conds))
        r = self._cache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 10000)
        for c in list(self.assump)+list(conds):
            x, ax = self.zc(c)
            s.add(x)
            s.add(ax)
        r = str(s.check())
        if self.cross and r == 'unsat':
            r2 = cvc5_check(s.to_smt2())
            self.notes.add('cvc5:'+r2)
            if r2 == 'sat':
                r = 'unknown'
        self.solver_s += time.time()-t0
        self.queries += 1
        self._cache[key] = r
        return r

    def entails(self, c):
        c = cnorm(c)
        if isinstance(c, bool):
            return c or self.sat([]) == 'unsat'
        if c in self.assump:
            return True
        return self.sat([cnorm(('not', c))]) == 'unsat'

    def assume(self, c):
        c = cnorm(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.assump.append(c)

    def decide(self, c):
        c = cnorm(c)
        if isinstance(c, bool):
            return c
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('deadline')
        if c in self.assump:
            return True
        nc = cnorm(('not', c))
        if nc in self.assump:
            return False
        if self.sat([nc]) == 'unsat':
            if self.sat([c]) == 'unsat':
                raise Infeasible()
            return True
        if self.sat([c]) == 'unsat':
            return False
        if not self.frames:
            raise Unsupported('undetermined condition %s' % TM.show_any(c))
        f = self.frames[-1]
        if f.x is not None and len(self.frames) > 1:
            s = set()
            TM._walk(c, s)
            if not any(a in f.x or a[1:2] and isinstance(a[1], str) and '~' in a[1] for a in s):
                raise NeedOuter(c)
        i = len(f.taken)
        b = f.prefix[i] if i < len(f.prefix) else True
        f.taken.append((c, b))
        self.assump.append(c if b else nc)
        return b

    def explore(self, fn, limit=400, x=None):
        """Run fn() on every path. Returns [(conds, result)].  fn must not have
        effects surviving it except through its result."""
        out = []
        prefix = []
        base = list(self.assump)
        fbase = list(self.foralls)
        n = 0
        while True:
            n += 1
            if n > limit:
                raise Unsupported('too many paths')
            f = Frame(prefix, x)
            self.frames.append(f)
            self.assump = list(base)
            self.foralls = list(fbase)
            try:
                r = fn()
                out.append(([c if b else cnorm(('not', c)) for c, b in f.taken], r, list(self.assump[len(base):])))
            except Infeasible:
                pass
            finally:
                self.frames.pop()
                self.assump = list(base)
                self.foralls = list(fbase)
            tk = [b for _, b in f.taken]
            while tk and tk[-1] is False:
                tk.pop()
            if not tk:
                break
            tk[-1] = False
            prefix = tk
        self.paths += len(out)
        return out

    # -- obligations ---------------------------------------------------------
    def oblige(self, name, ok, how, detail='', concl=True):
        self.obls.append(Obligation(self.prefix+name, bool(ok), how, detail, concl=concl))
        return ok

    def prove_cond(self, name, c, detail=''):
        t0 = time.time()
        c = cnorm(c)
        if c is True:
            self.oblige(name, True, 'normaliser')
            return True
        r = 'sat' if c is False else self.sat([cnorm(('not', c))])
        ok = r == 'unsat'
        self.oblige(name, ok, 'z3', '' if ok else 'z3: %s for the negation of %s under %s; %s' % (
            r, TM.show_any(c), [TM.show_any(a) for a in self.assump], detail), concl=(r == 'sat'))
        return ok

    def prove_eq(self, name, a, b, detail=''):
        """a == b as terms, under the current path condition."""
        try:
            if TM.equal(a, b):
                self.oblige(name, True, 'ring normaliser')
                return True
        except TM.TermError as e:
            raise Unsupported(str(e))
        a, b = T.const(a), T.const(b)
        d = a-b
        # split on the Iverson brackets left, using z3 for feasibility
        ivs = [x for x in d.atoms() if x[0] == 'iv']
        if ivs:
            res = self.explore(lambda: self._eq_split(d), limit=2000)
            if all(r for _, r, _ in res):
                self.oblige(name, True, 'ring normaliser + z3 case split')
                return True
        # equalities on the path
        e = d
        for c in self.assump:
            if c[0] == 'eq':
                z = solve_lin(c[1])
                if z:
                    e = e.subst(lambda a: z[1] if a == z[0] else None)
        if e is not d and TM.equal(e, ZERO):
            self.oblige(name, True, 'ring normaliser')
            return True
        # real-valued and solver-friendly?
        if d.is_real() and not any(x[0] in ('c', 'cj', 'S', 'A') for x in d.atoms()) and not any(p for p, _ in d.m):
            if self.sat([('not', ('eq', d))]) == 'unsat':
                self.oblige(name, True, 'z3')
                return True
        # countermodel?
        concl, how = self.countermodel(d)
        self.oblige(name, False, 'ring normaliser', '%s: normal forms differ: code %s | spec %s%s' % (
            detail, TM.show(a), TM.show(b), how), concl=concl)
        return False

    def _eq_split(self, d):
        for _ in range(200):
            ivs = sorted([x for x in d.atoms(deep=False) if x[0] == 'iv'] or
                         [x for x in d.atoms() if x[0] == 'iv' and not has_bound(x)], key=TM.show_atom)
            if not ivs:
                break
            x = ivs[0]
            b = self.decide(x[1])
            d = d.subst(lambda a: (ONE if b else ZERO) if a == x else None)
        if not d.m:
            return True
        # use equalities on the path to substitute
        for c in list(self.assump):
            if c[0] == 'eq':
                s = solve_lin(c[1])
                if s:
                    d = d.subst(lambda a: s[1] if a == s[0] else None)
        return TM.equal(d, ZERO)

    def countermodel(self, d):
        """Try to exhibit numeric values with d != 0 consistent with the path."""
        tried = 0
        for seed in range(60):
            V = TM.Valuation(seed)
            try:
                if not all(V.cond(c, {}) for c in self.assump):
                    continue
                tried += 1
                x = V.ev(d)
                if abs(x) > 1e-6:
                    return True, ' | values: difference %.6g at %s' % (abs(x), str(dict(list(V.v.items())[:12])))
            except (ZeroDivisionError, OverflowError, KeyError, ValueError):
                continue
        return False, ' | no numeric counterexample found in %d valuations' % tried


def has_bound(at):
    s = set()
    TM._atoms_in(at, s)
    return any(a[0] == 'b' for a in s)


def solve_lin(t):
    """t == 0 with an integer/real atom of coefficient +-1: (atom, value)"""
    for (p, mon), c in t.m.items():
        if p == 0 and len(mon) == 1 and mon[0][1] == 1 and c in ((1, 0), (-1, 0)):
            at = TM._atoms[mon[0][0]]
            if at[0] in ('i', 'r'):
                rest = t-T({(p, mon): c})
                if at not in rest.atoms():
                    return at, (-rest if c == (1, 0) else rest)
    return None


def cvc5_check(smt):
    import cvc5
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', '10000')
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'q')
        sm = p.getSymbolManager()
        res = ''
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = cmd.invoke(slv, sm)
            if o and o.strip():
                res = o.strip()
        return res or 'unknown'
    except Exception as e:
        return 'error %s' % e
