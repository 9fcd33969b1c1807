"""python3-vt -m pyvc.prove ID --out FILE [--tier quick|thorough] [--deadline S]

Discharges the obligations of contracts/<id>.py against the source in $SHGPY_REPO."""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback
from . import terms as TM
from .core import Ctx, Unsupported, Infeasible, PyRaise, NeedOuter
from .interp import Interp
from . import stubs

REPO = os.environ.get('SHGPY_REPO', '/repo')


class Expected(Exception):
    pass


def time_up(*_):
    raise Unsupported('time limit of one function')


class P:
    """the verification session handed to contracts"""

    def __init__(self, ctx, interp, tier):
        self.ctx, self.I, self.tier = ctx, interp, tier
        self.functions = []
        self.unsupported = []
        self.assumptions = []
        self.reach = 0
        self.fnof = []

    def assume_note(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def verify(self, qual, body, name='', contracts=None, lemma=False, raises=None):
        """Run body(I) on every path.  Inside, the code of `qual` is executed with
        self.run(...) and its result compared with the contract."""
        c, I = self.ctx, self.I
        label = qual.split(':')[-1]+((' / '+name) if name else '')
        if qual not in self.functions:
            self.functions.append(qual)
        c.prefix = label+': '
        start = len(c.obls)
        I.contracts = dict(contracts or {})
        for h in ('subs_hook', 'sort_hook', 'foreign', 'text_attr', 'while_hook', 'entry', 'clip_hook', 'zero_hook', 'list_hook', 'structural_keys', 'fs_hook', 'dict_hook', 'ghost', 'xreplace_hook', 'loop_count', 'diffs', 'optimizer'):
            if h in I.__dict__:
                delattr(I, h)
        c.assump, c.frames, c.foralls = [], [], []
        left = min(60, c.deadline-time.time()) if c.deadline else 60
        if left <= 0:
            self.unsupported.append({'function': label, 'reason': 'deadline'})
            return
        signal.signal(signal.SIGALRM, time_up)
        signal.setitimer(signal.ITIMER_REAL, left, 20)
        try:
            f = None
            if not lemma:
                f = I.get(qual)
            ps = None

            def path():
                try:
                    body(I)
                    return 'ok'
                except PyRaise as e:
                    feas = c.sat([]) != 'unsat'
                    if feas:
                        c.oblige('no exception', False, 'path', 'raises %s under %s' % (e, [TM.show_any(z) for z in c.assump]), concl=isinstance(e.exc, (NameError, UnboundLocalError, TypeError, KeyError, IndexError, ValueError, AttributeError, ZeroDivisionError)) and not any(z[0] == 'p' for z in c.assump if isinstance(z, tuple)))
                        return 'raise'
                    return 'infeasible'
            ps = c.explore(path, limit=3000)
            oks = [r for _, r, _ in ps if r == 'ok']
            self.reach += 1
            if not oks and not any(r == 'raise' for _, r, _ in ps):
                self.unsupported.append({'function': label, 'reason': 'vacuous: no feasible path'})
            elif len(c.obls) == start:
                self.unsupported.append({'function': label, 'reason': 'no obligation generated'})
        except (Unsupported, NeedOuter) as e:
            self.unsupported.append({'function': label, 'reason': str(e) or type(e).__name__})
            c.obls[start:] = [o for o in c.obls[start:] if o.ok]
        except TM.TermError as e:
            self.unsupported.append({'function': label, 'reason': 'term: %s' % e})
        except RecursionError:
            self.unsupported.append({'function': label, 'reason': 'recursion limit'})
        except Exception as e:
            if os.environ.get('PYVC_DEBUG'):
                raise
            self.unsupported.append({'function': label, 'reason': 'verifier error %s: %s' % (type(e).__name__, traceback.format_exc()[-600:])})
            c.obls[start:] = [o for o in c.obls[start:] if o.ok]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            c.assump, c.frames, c.foralls = [], [], []
            from .values import Journal
            Journal.stack[:] = []
        for o in c.obls[start:]:
            o.fn = qual

    def run(self, qual, args, kw=None):
        """execute the body of qual (the function under verification)"""
        f = self.I.get(qual)
        return self.I.run_entry(f, list(args), dict(kw or {}))

    def expect_raise(self, exc, fn, name):
        try:
            fn()
        except PyRaise as e:
            ok = isinstance(e.exc, exc)
            self.ctx.oblige(name, ok, 'path', 'raised %s' % e)
            return ok
        self.ctx.oblige(name, False, 'path', 'no exception under %s' % [TM.show_any(z) for z in self.ctx.assump], concl=not any(z[0] == 'p' for z in self.ctx.assump if isinstance(z, tuple)))
        return False

    def instantiate(self, *ts):
        """'no x < n has c(x)' on this path: add not c(t) for the given terms in range"""
        c = self.ctx
        for n, xa, body in list(c.foralls):
            for t in ts:
                if c.entails(('ge', t)) and c.entails(('ge', n-1-t)):
                    f = TM.cnorm(TM.subst_any(body, lambda y: t if y == xa else None))
                    if f is False:
                        raise Infeasible()
                    if f is not True and f not in c.assump:
                        c.assume(f)
        for _ in range(3):
            for z in list(c.assump):
                if z[0] in ('and',):
                    for y in z[1:]:
                        if y not in c.assump:
                            c.assume(y)
            for z in list(c.assump):
                # disjunctions with all but one part refuted
                q = [y for y in z[1:] if TM.cnorm(('not', y)) not in c.assump] if z[0] == 'or' else [('not', y) for y in z[1][1:] if y not in c.assump] if z[0] == 'not' and z[1][0] == 'and' else []
                if len(q) == 1:
                    f = TM.cnorm(q[0])
                    if f is False:
                        raise Infeasible()
                    if f is not True and f not in c.assump:
                        c.assume(f)
            for z in list(c.assump):
                if z[0] == 'not' and z[1][:2] == ('p', 'exists'):
                    d = TM.bdepth_cond(z[1][3])
                    for t in ts:
                        if c.entails(('ge', t)) and c.entails(('ge', z[1][2]-1-t)):
                            f = TM.cnorm(('not', TM._raw_any(z[1][3], lambda a: t if a == ('b', d) else None)))
                            if f is False:
                                raise Infeasible()
                            if f is not True and f not in c.assump:
                                c.assume(f)
        if c.sat([]) == 'unsat':
            raise Infeasible()

    # comparisons -----------------------------------------------------------
    def eq(self, name, a, b, detail=''):
        from .values import num
        if not isinstance(a, (TM.T, int, float, complex)):
            self.ctx.oblige(name, False, 'shape', 'a number was expected, got %r' % (a,), concl=False)
            return False
        return self.ctx.prove_eq(name, num(a), num(b), detail)

    def true(self, name, c, detail='', how='evaluation', concl=False):
        from .core import SBool
        if isinstance(c, SBool):
            return self.ctx.prove_cond(name, c.c, detail)
        if isinstance(c, tuple):
            return self.ctx.prove_cond(name, c, detail)
        self.ctx.oblige(name, bool(c), how, detail, concl=concl)
        return bool(c)

    def unchanged(self, what, before):
        """frame condition: the heap objects snapshotted by snap() are as before"""
        from .values import Arr, PList, PDict, Inst
        from .loops import benign
        for o, s in before:
            ok = benign(o, s)
            self.ctx.oblige('%s unchanged' % what, ok, 'frame', repr(o), concl=False)

    def snap(self, *vs):
        from .values import Obj, PList, PDict, Inst, Arr, Family, Splice
        out, seen = [], set()

        def rec(v):
            if isinstance(v, Obj):
                if v.oid in seen:
                    return
                seen.add(v.oid)
                out.append((v, v.get_state()))
            if isinstance(v, Arr):
                if v.base is not None:
                    rec(v.root())
                for z in v.cells.flat:
                    if isinstance(z, (Obj, tuple)):
                        rec(z)
            elif isinstance(v, PList):
                for z in v.items:
                    rec(z.fam if isinstance(z, Splice) else z)
            elif isinstance(v, PDict):
                for z in (v.d.values() if v.d is not None else [v.fam]):
                    rec(z)
            elif isinstance(v, Inst):
                for z in v.attrs.values():
                    rec(z)
            elif isinstance(v, Family):
                for z in v.ov.values():
                    rec(z)
            elif isinstance(v, tuple):
                for z in v:
                    rec(z)
        for v in vs:
            rec(v)
        return out

    def arr_eq(self, name, a, shape, f, every=False):
        """array a equals the array of the given shape with entries f(idx)"""
        import numpy as np
        from .values import Arr, mkarr, num, dim, bx
        c = self.ctx
        if not isinstance(a, Arr):
            c.oblige(name, False, 'shape', 'an array was expected, got %r' % (a,), concl=False)
            return False
        shape = tuple(dim(s) for s in shape)
        if len(a.shape) != len(shape) or not all(self.I.same_dim(x, y) for x, y in zip(a.shape, shape)):
            c.oblige(name+' (shape)', False, 'shape', 'shape %s, expected %s' % (a.shape, shape), concl=all(isinstance(z, int) for z in a.shape+shape))
            return False
        sav = list(c.assump)
        for d, n in enumerate(shape):
            if isinstance(n, TM.T):
                c.assump += [('ge', bx(d)), TM.cnorm(('ge', n-1-bx(d)))]
        try:
            ok = True
            cells = a.cells
            conc = [s for s in shape if not isinstance(s, TM.T)]
            bad = None
            cnt = 0
            for ci in np.ndindex(*conc):
                it = iter(ci)
                idx = tuple(bx(d) if isinstance(s, TM.T) else next(it) for d, s in enumerate(shape))
                x = cells[ci]
                y = f(idx)
                cnt += 1
                nm = '%s[%s]' % (name, ','.join(str(i) if isinstance(i, int) else 'i%d' % d for d, i in enumerate(idx)))
                if not isinstance(x, (TM.T, int, float, complex)):
                    if self.I.equal(x, y) is True:
                        c.oblige(nm, True, 'structural')
                    else:
                        c.oblige(nm, False, 'structural', '%r vs %r' % (x, y), concl=False)
                        ok = False
                    continue
                ok = c.prove_eq(nm, num(x), num(y)) and ok
            return ok
        finally:
            c.assump = sav


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--deadline', type=float, default=240)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    ctx = Ctx(cross=(a.tier == 'thorough'))
    ctx.deadline = t0+a.deadline
    res = {'crash': None}
    p = None
    try:
        I = Interp(REPO, ctx)
        p = P(ctx, I, a.tier)
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
        m = importlib.import_module('contracts.'+a.id.lower())
        m.prove(p)
    except Unsupported as e:
        p.unsupported.append({'function': '(module)', 'reason': str(e)})
    except BaseException as e:
        if os.environ.get('PYVC_DEBUG'):
            raise
        res['crash'] = traceback.format_exc()
    if p is not None:
        names = {}
        obl = []
        for o in ctx.obls:
            k = names.get(o.name, 0)
            names[o.name] = k+1
            obl.append({'name': o.name+('#%d' % k if k else ''), 'ok': o.ok, 'how': o.how, 'detail': o.detail, 'concl': o.concl, 'function': getattr(o, 'fn', '')})
        res.update(obligations=obl, unsupported=p.unsupported, functions=p.functions, trusted=sorted(I.trusted), inlined=sorted(I.inlined), called=sorted(I.called),
                   assumptions=p.assumptions+sorted(ctx.notes), solver_s=round(ctx.solver_s, 2), queries=ctx.queries, paths=ctx.paths, reach=p.reach, wall_s=round(time.time()-t0, 2))
    if a.out:
        json.dump(res, open(a.out, 'w'), default=str)
    if not a.out or a.v:
        if res['crash']:
            print(res['crash'])
        for o in res.get('obligations', []):
            if not o['ok'] or a.v:
                print('%s %s [%s] %s' % ('ok  ' if o['ok'] else 'FAIL', o['name'], o['how'], o['detail'][:600]), '' if o['ok'] else 'concl=%s' % o['concl'])
        for u in res.get('unsupported', []):
            print('UNSUPPORTED', u['function'], u['reason'])
        n = len(res.get('obligations', []))
        print('%d obligations, %d ok, %d unsupported, %d queries, %.1f s solver, %.1f s' % (
            n, sum(o['ok'] for o in res.get('obligations', [])), len(res.get('unsupported', [])), res.get('queries', 0), res.get('solver_s', 0), time.time()-t0))


if __name__ == '__main__':
    main()
