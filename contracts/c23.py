"""Fits: the optimizer gets the cost function, guess, bounds and options of the caller in
one order, and the optimum is returned as a dictionary."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc.stubs import Text, NameOf, mktext, TAB
from .fit import *
from . import c20
from . import c21

Q = TM.var('+Q', 'i')
ROUTINES = [('least_squares_fit', 'least_squares', False, False), ('least_squares_fit_with_bounds', 'least_squares', True, False),
            ('basinhopping_fit', 'basinhopping', False, False), ('basinhopping_fit_with_bounds', 'basinhopping', True, False),
            ('basinhopping_fit_jac', 'basinhopping', False, True), ('basinhopping_fit_jac_with_bounds', 'basinhopping', True, True),
            ('dual_annealing_fit_with_bounds', 'dual_annealing', True, False)]


class Shuffled(KeySeq):
    """the P free symbols and Q others, in any order"""

    def __init__(self, fs, perm):
        self.fs, self.perm, self.name, self.n, self.sym = fs, perm, fs.name, P+Q, True

    def at(self, i):
        return self.fs.at(TM.mk(('i', 'P:'+self.perm, T.const(i))))

    def index_of(self, k):
        j = self.fs.index_of(k)
        return None if j is None else TM.mk(('i', 'Q:'+self.perm, j))


def shuffled(fs, perm, val):
    """a dictionary giving val(s) for symbol s"""
    q = TM.fresh('q')
    return PDict(keys=Shuffled(fs, perm), fam=Family(P+Q, TM.single_atom(q), val(TM.mk(('i', 'P:'+perm, q)))))


def guess(s):
    return T.atom(('r', '@guess', T.const(s)))


def lo(s):
    return T.atom(('r', '@lower', T.const(s)))


def hi(s):
    return T.atom(('r', '@upper', T.const(s)))


def opt(s):
    return T.atom(('r', '@opt', T.const(s)))


def plist(o):
    return o if isinstance(o, Arr) else None


def prove(p):
    p.assume_note('the optimizers of scipy.optimize are called, not verified: what they return is any result')
    val = lambda n: T.atom(('r', '@'+n))
    COST, PRE = Text([('user', 'cost')]), Text([('user', 'prefix')])

    def vector(I, what, v, n, want):
        """v: list or array with n elements want(s)"""
        s = TM.fresh('s')
        I.ctx.assume(('ge', s))
        I.ctx.assume(('gt', n-s))
        p.eq(what+': number', length(I, v), n)
        w, g = want(s), I.getitem(v, s)
        if not isinstance(w, tuple):
            p.eq(what, num(g), w)
        else:
            p.eq(what+' (length)', length(I, g), len(w))
            for i, z in enumerate(w):
                p.eq(what, num(I.getitem(g, i)), z)

    def routine(name, on, bnd, jac, variant, opts, nob=False):
        def body(I):
            f, dt, fs = setup(I, p)
            I.ctx.assume(('ge', Q))
            I.diffs = []
            I.xreplace_hook = replace_hook(p, fs)
            I.fs_hook = lambda I, t: PSet([native.MatSym('xs', P, 1)])
            g = toolchain(I, p)
            loaded = []

            def call(I, w, fn, arr):
                if w[0] != 'given' or fn != 'autofunc':
                    return T.atom(('r', 'library loaded before'))
                is_x(p, I, arr)
                loaded.append(w[1])
                return T.atom(('r', '@file', TM.fresh('f'))) if w[1] != native.canon(I, COST) else val('+stored')
            g.call = call
            saves = []
            if jac:
                def saved(I, e, fn):
                    saves.append(None if fn is None else native.canon(I, fn))
                I.contracts = {F+'_fixed_autowrap': autowrap(p, saved)}
                if variant == 'load':
                    def load(I, a, kw):
                        a = list(a)+[kw[k] for k in ('load_cost_func_filename', 'load_grad_cost_func_filename_prefix')[len(a):]]
                        p.true('loads the files given', native.canon(I, a[0]) == native.canon(I, COST) and native.canon(I, a[1]) == native.canon(I, PRE), repr(a))
                        return Meth('loaded', lambda I, a, k: (val('+stored'), 'gradient'))
                    I.contracts[F+'_load_energy_and_denergy_func'] = load
            elif variant == 'chunk':
                I.contracts = {F+'_make_energy_func_chunked': c20.chunked_contract(p)}
            gd, bd = shuffled(fs, 's1', guess), (shuffled(fs, 's2', lambda s: (lo(s), hi(s))) if not nob else None)
            kw, inner = {}, {}
            given = dict(opts)
            for k, v in given.items():
                kw[k] = v() if callable(v) else v
            if variant == 'save':
                kw['save_cost_func_filename'] = COST
                if jac:
                    kw['grad_save_cost_func_filename_prefix'] = PRE
            if variant == 'load':
                kw['load_cost_func_filename'] = COST
                if jac:
                    kw['load_grad_cost_func_filename_prefix'] = PRE
            if variant == 'chunk':
                kw['chunk_cost_func'] = True
            calls = []

            def run(I, n, a):
                calls.append((n, a))
                return native.OptRes({'x': mkarr((P,), lambda i: opt(i[0]), 'float'), 'success': True, 'fun': val('fun')})
            I.optimizer = run
            before = p.snap(gd, *([bd] if bd is not None else [])+[v for v in kw.values()])
            args = [f, dt, gd]+([bd] if bnd else [])+([val('niter')] if on == 'basinhopping' else [])
            r = p.run(F+name, args, kw)
            p.unchanged('dictionaries passed in', before)
            p.true('one optimization, by '+on, len(calls) == 1 and calls[0][0] == on, repr([c[0] for c in calls]))
            a = calls[0][1]
            # objective
            fun = a.pop('fun' if on == 'least_squares' else 'func')
            v = I.call(fun, [xvec()], {})
            want = val('+stored') if variant == 'load' else cost()
            if jac and variant != 'load':
                c21.gradient_ok(p, I, v, f)
            elif jac:
                p.true('cost and gradient loaded', v == (val('+stored'), 'gradient'), repr(v))
            elif on == 'least_squares':
                p.eq('square of the residual', num(v)**2, want)
                p.eq('residual', num(v), TM.sqrt(want))
            else:
                p.eq('objective', num(v), want)
            if variant == 'save' and not jac:
                c = g.files.get(native.canon(I, COST))
                p.true('the cost function is saved', c is not None and c[0] == 'library', repr(c))
                if c is not None and c[0] == 'library':
                    p.eq('the saved function', native.call_c(I, c[1], 'autofunc', xvec()), want)
            elif jac and variant == 'save':
                mine = native.canon(I, COST)
                rest = [z for z in saves if z != mine]
                p.true('the cost function is saved', mine in saves, repr(saves))
                p.true('the gradient is saved under the prefix', bool(rest) and all(z is not None and isinstance(z[0], Text) and z[0].parts[:1] == PRE.parts for z in rest), repr(saves))
            elif variant != 'load':
                p.true('nothing is saved', all(k is None for k in saves) and all(g.under_tmp(k) for k in g.files), repr(list(g.files)))
            # guess and bounds
            vector(I, 'initial guess', a.pop('x0'), P, guess)
            mk = a.pop('minimizer_kwargs', None)
            um = {}
            if on == 'basinhopping':
                um = dict(kw['basinhopping_kwargs'].d.get('minimizer_kwargs', PDict({})).d) if 'basinhopping_kwargs' in kw else {}
                mk = dict(mk.d)
                b = mk.pop('bounds', None)
            else:
                b = a.pop('bounds', None)
            if bnd and not nob:
                if on == 'least_squares':
                    p.eq('lower and upper bounds', length(I, b), 2)
                    vector(I, 'lower bounds', I.getitem(b, 0), P, lo)
                    vector(I, 'upper bounds', I.getitem(b, 1), P, hi)
                else:
                    vector(I, 'bounds', b, P, lambda s: (lo(s), hi(s)))
            else:
                p.true('no bounds', b is None, repr(b))
            # options
            same = lambda x, y: x is y or (isinstance(x, (T, int, float, str, tuple)) and isinstance(y, (T, int, float, str, tuple)) and (x == y if not isinstance(x, T) and not isinstance(y, T) else num(x) == num(y)))
            if on == 'basinhopping':
                dflt = {'method': kw.get('method', 'L-BFGS-B' if bnd else 'BFGS'), 'args': kw.get('args', ())}
                if jac:
                    dflt['jac'] = True
                dflt.update(um)
                p.true('minimizer options', set(mk) == set(dflt) and all(same(mk[k], dflt[k]) for k in mk), '%r, expected %r' % (mk, dflt))
                o = dict(kw['basinhopping_kwargs'].d) if 'basinhopping_kwargs' in kw else {}
                o.pop('minimizer_kwargs', None)
                o.update(niter=val('niter'), stepsize=kw.get('stepsize', T.const(1)/2))
                p.true('options', set(a) == set(o) and all(same(a[k], o[k]) for k in a), '%r, expected %r' % (a, o))
            elif on == 'least_squares':
                o = dict(kw['least_sq_kwargs'].d) if 'least_sq_kwargs' in kw else {}
                p.true('options', set(a) == set(o) and all(same(a[k], o[k]) for k in a), '%r, expected %r' % (a, o))
            else:
                names = native.SIG[on][5:13]+('maxiter',)
                dflt = {'maxiter': 1000, 'initial_temp': 5230, 'restart_temp_ratio': T.const(1)/50000, 'visit': T.const(131)/50, 'accept': T.const(-5), 'maxfun': T.const(10**7), 'seed': None, 'no_local_search': True, 'callback': None}
                for k in names:
                    w = kw.get(k, dflt[k])
                    p.true('option %s' % k, k in a and (same(a[k], w)), '%r, expected %r' % (a.get(k), w))
                lo_ = kw.get('local_search_options')
                p.true('local search options', mk is lo_ if lo_ is not None else (mk is None or mk.d == {}), repr(mk))
            # result
            p.true('the result of the optimizer is returned', isinstance(r, native.OptRes), repr(r))
            xd = r.attrs.get('xdict')
            p.true('a dictionary of the free symbols', isinstance(xd, PDict) and xd.d is None, repr(xd))
            p.eq('number of parameters of the result', num(length(I, xd)), P)
            s = TM.fresh('s')
            I.ctx.assume(('ge', s))
            I.ctx.assume(('gt', P-s))
            p.true('parameters of the result', xd.keys.at(s) == fs.at(s), repr(xd.keys.at(s)))
            p.eq('each free symbol has its own component', num(I.getitem(xd, fs.at(s))), opt(s))
            p.arr_eq('the optimum is returned', r.attrs['x'], (P,), lambda i: opt(i[0]))
        p.verify(F+name, body, '%s%s%s' % (variant, ', options '+', '.join(sorted(opts)) if opts else '', ', no bounds' if nob else ''))

    D = lambda **k: (lambda: PDict(dict(k)))
    for name, on, bnd, jac in ROUTINES:
        if on == 'least_squares':
            opts = [{}, {'least_sq_kwargs': D(ftol=val('ftol'), xtol=val('xtol'), max_nfev=val('nfev'))}]
        elif on == 'basinhopping':
            opts = [{}, {'basinhopping_kwargs': D(T=val('T'), minimizer_kwargs=PDict({'tol': val('tol'), 'method': 'Powell'}), niter_success=val('ns'))},
                    {'basinhopping_kwargs': D(T=val('T')), 'method': 'CG', 'args': (), 'stepsize': val('step')}]
        else:
            opts = [{}, dict({k: val(k) for k in ('maxiter', 'initial_temp', 'restart_temp_ratio', 'visit', 'accept', 'maxfun', 'seed', 'callback')}, no_local_search=False, local_search_options=D(method='CG'))]
        for i, o in enumerate(opts):
            for variant in ('plain', 'save', 'load', 'chunk'):
                if i and variant != 'plain' or (jac and variant == 'chunk'):
                    continue
                routine(name, on, bnd, jac, variant, o)
        if bnd and on != 'least_squares':
            routine(name, on, bnd, jac, 'plain', {}, True)

        def empty(I, name=name, on=on, bnd=bnd):
            I.structural_keys = True
            for c in (('ge', M), ('gt', K)):
                I.ctx.assume(c)
            calls = []
            I.optimizer = lambda I, n, a: calls.append(n)
            f = Form(I, KeySeq('pc', K), None)
            r = p.run(F+name, [f, Data(I, f.ks, None), PDict({})]+([PDict({})] if bnd else [])+([3] if on == 'basinhopping' else []))
            p.true('no optimization', not calls, repr(calls))
            p.true('an unsuccessful result', isinstance(r, native.OptRes) and r.attrs.get('success') is False, repr(r))
            p.true('without parameters', isinstance(r.attrs.get('xdict'), PDict) and r.attrs['xdict'].d == {} and isinstance(r.attrs.get('x'), Arr) and r.attrs['x'].shape == (0,), repr(r.attrs))
        p.verify(F+name, empty, 'no free symbols')
