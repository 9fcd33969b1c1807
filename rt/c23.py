import common as K, gen as G, fit
import numpy as np, sympy as sp, os, inspect, copy
import scipy.optimize as so

REC = []
REAL = {n: getattr(so, n) for n in ('basinhopping', 'least_squares', 'dual_annealing')}


def rec(name):
    sig = inspect.signature(REAL[name])

    def f(*a, **k):
        b = sig.bind(*a, **k)
        given = dict(b.arguments)
        b.apply_defaults()
        x0 = np.array(b.arguments['x0'], dtype=float)
        # a minimizer is free to change what it was handed
        REC.append((name, {k: copy.copy(v) if isinstance(v, (dict, list)) else v for k, v in b.arguments.items()}, given))
        r = so.OptimizeResult(x=x0+np.arange(1, len(x0)+1)*0.125, success=True, marker=object())
        return r
    return f


for _n in REAL:
    setattr(so, _n, rec(_n))


def run(R):
    from shgpy import fFormContainer, fDataContainer
    import shgpy.fformfit as F
    py, rng = R.py, R.rng
    routines = [('least_squares_fit', 'least_squares', False, False), ('least_squares_fit_with_bounds', 'least_squares', True, False),
                ('basinhopping_fit', 'basinhopping', False, False), ('basinhopping_fit_with_bounds', 'basinhopping', True, False),
                ('basinhopping_fit_jac', 'basinhopping', False, True), ('basinhopping_fit_jac_with_bounds', 'basinhopping', True, True),
                ('dual_annealing_fit_with_bounds', 'dual_annealing', True, False)]

    def norm_bounds(opt, b):
        """-> list of (lo, hi)"""
        if b is None:
            return None
        if isinstance(b, so.Bounds):
            return [(float(l), float(h)) for l, h in zip(b.lb, b.ub)]
        if opt == 'least_squares':
            return [(float(l), float(h)) for l, h in zip(*b)]
        return [(float(l), float(h)) for l, h in b]

    def one(rt, prob, variant, opts, nob=False):
        name, opt, bnd, jac = rt
        M, d, fd, order = prob
        with R.case(name, 'variant=%s opts=%s %s' % (variant, opts, fit.desc(M, d, fd))) as c:
            ff, f = fFormContainer(d, M=M), fDataContainer(fd, M=M)
            o = list(order)
            py.shuffle(o)
            guess = {s: float(rng.uniform(-.5, .5)) for s in o}
            unused = sp.Symbol('unused', real=True)
            guess[unused] = 99.
            py.shuffle(o)
            bounds = {s: (-1-float(i), 1+2*float(i)) for i, s in enumerate(o)}
            bounds[unused] = (98, 100)
            kw = {}
            p = os.path.join(R.scratch, 'f%d_' % R.evaluations)
            if variant in ('save', 'load'):
                kw['save_cost_func_filename'] = p+'cost.so'
                if jac:
                    kw['grad_save_cost_func_filename_prefix'] = p+'grad'
            if variant == 'chunk' and not jac:
                kw['chunk_cost_func'] = True
            kw.update(opts)
            g0, b0, k0 = dict(guess), dict(bounds), copy.deepcopy(kw)
            args = [ff, f, guess]+([None if nob else bounds] if bnd else [])
            if opt == 'basinhopping':
                args.append(7)
            runs = 2 if variant == 'load' else 1
            for r in range(runs):
                if r:
                    kw = {k: v for k, v in kw.items() if 'save' not in k}
                    kw['load_cost_func_filename'] = p+'cost.so'
                    if jac:
                        kw['load_grad_cost_func_filename_prefix'] = p+'grad'
                    k0 = copy.deepcopy(kw)
                del REC[:]
                ret = getattr(F, name)(*args, **kw)
                c.eq(len(REC), 1, 'optimizer calls')
                on, a, given = REC[0]
                c.eq(on, opt, 'optimizer')
                x0 = np.array(a['x0'], dtype=float)
                c.eq(len(x0), len(order), 'number of parameters')
                # the order used: identified through the guess values, which are all different
                inv = {v: s for s, v in guess.items()}
                used = [inv.get(v) for v in x0]
                c.ok(None not in used and unused not in used and len(set(used)) == len(order), lambda: 'initial guess %s does not consist of the guesses %s' % (x0, guess))
                fun = a.get('func', a.get('fun'))
                mk = a.get('minimizer_kwargs') or {}
                if opt == 'basinhopping' and 'jac' in opts.get('basinhopping_kwargs', {}).get('minimizer_kwargs', {}):
                    c.eq(mk['jac'], opts['basinhopping_kwargs']['minimizer_kwargs']['jac'], 'jac given by the caller')
                for j in range(3):
                    x = rng.uniform(-1.5, 1.5, len(order))
                    want = fit.ref_cost(d, fd, used, x)
                    got = fun(x)
                    if jac and mk.get('jac') is True:
                        got, grad = got
                        c.close(grad, fit.ref_grad(d, fd, used, x), 'gradient')
                    if opt == 'least_squares':
                        c.close(np.asarray(got)**2, want, 'square of the residual at %s' % x)
                    else:
                        c.close(got, want, 'cost at %s' % x)
                ub = mk.get('bounds') if opt == 'basinhopping' else a.get('bounds')
                if bnd:
                    wantb = None if nob else [tuple(map(float, bounds[s])) for s in used]
                    c.eq(norm_bounds(opt, ub), wantb, 'bounds')
                elif opt == 'basinhopping':
                    c.eq(ub, None, 'bounds')
                if opt == 'basinhopping':
                    c.eq(a['niter'], 7, 'niter')
                    c.eq(a['stepsize'], opts.get('stepsize', 0.5), 'stepsize')
                    bk = dict(opts.get('basinhopping_kwargs', {}))
                    um = bk.pop('minimizer_kwargs', {})
                    c.eq(mk.get('method'), um.get('method', opts.get('method', 'L-BFGS-B' if bnd else 'BFGS')), 'minimizer method')
                    c.eq(tuple(mk.get('args', ())), tuple(um.get('args', opts.get('args', ()))), 'minimizer args')
                    for k, v in um.items():
                        c.eq(mk.get(k), v, 'minimizer option %s' % k)
                    c.ok(set(mk) <= {'method', 'args', 'bounds', 'jac'} | set(um), 'extra minimizer options %s' % mk)
                    for k, v in bk.items():
                        c.eq(a[k], v, 'option %s' % k)
                    c.ok(set(given) <= {'func', 'x0', 'niter', 'stepsize', 'minimizer_kwargs'} | set(bk), 'extra options %s' % list(given))
                elif opt == 'least_squares':
                    lk = opts.get('least_sq_kwargs', {})
                    for k, v in lk.items():
                        c.eq(a[k], v, 'option %s' % k)
                    c.ok(set(given) <= {'fun', 'x0', 'bounds'} | set(lk), 'extra options %s' % list(given))
                else:
                    dflt = dict(maxiter=1000, initial_temp=5230, restart_temp_ratio=2e-5, visit=2.62, accept=-5.0, maxfun=1e7, seed=None, no_local_search=True, callback=None)
                    for k, v in dflt.items():
                        c.eq(a[k], opts.get(k, v), 'option %s' % k)
                    ls = a.get('minimizer_kwargs') if 'local_search_options' in opts and 'local_search_options' not in a else a.get('local_search_options')
                    c.ok((ls or {}) == opts.get('local_search_options', {}), 'local search options %s' % (ls,))
                c.eq(set(ret.xdict), set(order), 'symbols of the result')
                for i, s in enumerate(used):
                    c.eq(float(ret.xdict[s]), float(x0[i]+(i+1)*.125), 'component of %s' % s)
                c.eq(list(np.asarray(ret.x)), list(x0+np.arange(1, len(x0)+1)*.125), 'optimum')
                c.eq(guess, g0, 'guess dictionary unchanged')
                c.eq(bounds, b0, 'bounds dictionary unchanged')
                c.eq(kw, k0, 'options unchanged')
            for k in d:
                c.eq(list(ff.get_pc(k)), [sp.sympify(e) for e in d[k]], 'formula unchanged')
                c.same(f.get_pc(k), fd[k], 'data unchanged')
    jac0 = {'minimizer_kwargs': {'options': {'maxiter': 3}, 'tol': 1e-3}, 'T': 2.0}
    optsets = {
        'least_squares': [{}, {'least_sq_kwargs': {'ftol': 1e-5, 'max_nfev': 12, 'x_scale': 2.0}}],
        'basinhopping': [{}, {'basinhopping_kwargs': jac0, 'stepsize': .25, 'method': 'TNC'}, {'basinhopping_kwargs': {'T': 3., 'interval': 9}, 'args': ()},
                         {'basinhopping_kwargs': {'minimizer_kwargs': {'method': 'SLSQP', 'args': ()}}}],
        'dual_annealing': [{}, {'maxiter': 5, 'initial_temp': 100., 'restart_temp_ratio': 1e-3, 'visit': 2.0, 'accept': -4., 'maxfun': 55, 'seed': 3, 'no_local_search': False, 'callback': len}],
    }
    small = fit.problem(py, rng, M=0, nsym=3, keys=['PP', 'PS'])
    for rt in routines:
        for n, o in enumerate(optsets[rt[1]]):
            prob = small if n else fit.problem(py, rng, M=1, nsym=12 if rt[3] and rt[2] else 4, keys=['PP'])
            one(rt, prob, ['load', 'plain', 'save', 'chunk'][n], o)
            if n and not R.more() and not R.thorough:
                break
    one(routines[5], small, 'plain', {}, nob=True)
    one(routines[3], small, 'plain', {}, nob=True)
    if R.thorough:
        for i in range(25):
            rt = py.choice(routines)
            one(rt, fit.problem(py, rng, M=py.choice([0, 1])), py.choice(['plain', 'chunk', 'save', 'load']), py.choice(optsets[rt[1]]))
    # no free symbols
    for name, opt, bnd, jac in routines:
        with R.case('no free symbols', name) as c:
            ff = fFormContainer({'PP': np.array([1, 2.5j, 0], dtype=object)}, M=1)
            f = fDataContainer({'PP': np.array([1, 2, 3j])}, M=1)
            del REC[:]
            r = getattr(F, name)(ff, f, {}, *([{}] if bnd else []), *([3] if opt == 'basinhopping' else []))
            c.eq(len(REC), 0, 'optimizer calls')
            c.eq(bool(r.success), False, 'success')
            c.eq(len(r.x), 0, 'x')
            c.eq(dict(r.xdict), {}, 'xdict')


if __name__ == '__main__':
    K.main('C23', run)
