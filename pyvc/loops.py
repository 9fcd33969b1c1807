"""Loops over symbolic sequences.

The body is executed once, at a generic iteration x (0 <= x < n), from a state in
which everything the loop changes is unknown ("marker" values).  The resulting
step function is matched against the invariant templates below; each of them is
an induction whose step is exactly the computed step function:

  acc' = acc + g(x)                      acc(n) = acc(0) + sum_{j<n} g(j)
  acc' = acc * g(x) with constant g      (not supported)
  acc' = max(acc, g(x))                  acc(n) = max over j<n, with attaining key
  A'[i] = [i != e(x)]*A[i] + [i = e(x)]*v(x)   (e injective)
  A'[i] = A[i] + g(x, i)
  L'   = L ++ [v(x)] (if c(x))           filtered comprehension
  D'   = D + {key(x): v(x)}              dictionary comprehension
  D'[key(x)] = v(x)                      pointwise update
  S'   = S | {v(x)} (if c(x))
  F'   = op(F, x)                        fold of an opaque operation (`fold_*` methods)
A step outside the templates raises Unsupported."""
import ast
import numpy as np
from . import terms as TM
from .terms import T, iv, cnorm, Sum, ZERO, ONE
from .core import Unsupported, Infeasible, PyRaise, SBool, mkbool, NeedOuter
from .values import *
from .values import Journal, mut

_SKIP = object()


class Nested:
    """run of a comprehension with an inner symbolic loop"""

    def __init__(self, n, x, items):
        self.n, self.x, self.items = dim(n), x, items


def env_set(env, n, v):
    env.vars[n] = v


def hashable(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, T):
        k = v.as_int()
        if k is not None:
            return k
        return v
    if isinstance(v, (PList, PDict, Arr)):
        raise PyRaise(TypeError('unhashable type'))
    if isinstance(v, tuple):
        return tuple(hashable(x) for x in v)
    return v


def unhash(v):
    return v


_ln = {}


def local_names(node):
    r = _ln.get(id(node))
    if r is None:
        r = set()
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                r.add(n.name)
                continue
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    r.add((a.asname or a.name).split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
            stack.extend(ast.iter_child_nodes(n))
        _ln[id(node)] = (r, node)
        return r
    return r[0]


def stored_names(stmts):
    class F:
        body = stmts
    r = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            r.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            r.add(n.id)
        stack.extend(ast.iter_child_nodes(n))
    return r


class MaxOf:
    """marker of an unknown running value whose initial value is +-inf or unknown"""


_mark = [0]


class LeaveLoop(Exception):
    pass


class FirstBreak(Exception):
    """the body leaves the loop exactly in the iterations x satisfying c"""

    def __init__(self, x, c):
        self.x, self.c = x, c


class LoopMixin:
    def generic(self, n, fn):
        """explore fn(x) at a generic x in [0,n) with heap rollback.
        Returns (x, [(conds, result)])"""
        for _ in range(60):
            x = TM.fresh('x~')
            xa = TM.single_atom(x)

            def path():
                with Journal() as j:
                    try:
                        self.ctx.assume(('ge', x))
                        self.ctx.assume(('ge', T.const(n)-1-x))
                        try:
                            return fn(x, j)
                        except PyRaise as e:
                            return ('raise', e)
                    finally:
                        j.restore()
            try:
                ps = self.ctx.explore(path, x={xa})
                return x, xa, ps
            except NeedOuter as e:
                self.decide(e.c)
        raise Unsupported('conditions in a loop')

    def sym_map(self, seq, one):
        """value of `one` at a generic index: (body, cond, atom)"""
        def fn(x, j):
            r = one(seq.at(x))
            if j.log and any(not benign(o, s) for o, s in j.log.values()):
                raise Unsupported('effect inside a comprehension')
            return ('ok', r)
        n = seq.n
        x, xa, ps = self.generic(n, fn)
        scond = getattr(seq, 'cond', True)
        if scond is not True:
            scond = seq.condat(x)
        self.handle_raises(ps, x, n, scond)
        oks = [(c, r[1]) for c, r, _ in ps if r[0] == 'ok']
        if not oks:
            if self.ctx.sat([('gt', T.const(n))]) == 'unsat':
                return ZERO, True, xa
            raise Unsupported('comprehension over a possibly empty sequence always fails')
        keep = [(c, r) for c, r in oks if r is not _SKIP]
        cond = True
        if len(keep) != len(oks):
            if not keep:
                return ZERO, False, xa
            cond = cnorm(('or',)+tuple(('and',)+tuple(c) if c else True for c, _ in keep))
            # only values where the filter holds matter
        if scond is not True:
            cond = cnorm(('and', scond, cond))
        return self.merge(keep), cond, xa

    # -- statement loops ------------------------------------------------------
    def sym_loop(self, seq, run, env, st):
        n = seq.n
        if getattr(seq, 'cond', True) is not True:
            base_run = run

            def run(v, base_run=base_run):
                base_run(v)
        names = stored_names(st.body) | stored_names([st.target]) if isinstance(st, ast.For) else stored_names(st.body)
        tgt = stored_names([st.target])
        init = {k: env.vars.get(k, UNDEF_()) for k in names}
        marks = {}            # name -> marker
        hmarks = {}           # oid -> (obj, init state, marker info)
        for k in names:
            v = init[k]
            if k in tgt:
                continue
            marks[k] = self.marker(v, k)
        for _ in range(12):
            grow = []
            pre = []        # elements of outer families which are modified: get their handles first

            def fn(x, j):
                for k, m in marks.items():
                    if m is not None:
                        env.vars[k] = m.value
                for o, s, m in hmarks.values():
                    mut(o)
                    m.install(o)
                inst = {oid: o.get_state() for oid, (o, s, m) in hmarks.items()}
                try:
                    if getattr(seq, 'cond', True) is not True and not self.truth(mkbool(seq.condat(x))):
                        pass
                    else:
                        try:
                            run(seq.at(x))
                        except LeaveLoop:
                            if any(not benign(o, inst.get(oid, s)) for oid, (o, s) in j.log.items()):
                                raise Unsupported('break after a change')
                            if any(m is not None and env.vars.get(k) is not m.value for k, m in marks.items()):
                                raise Unsupported('break after a change')
                            return ('break',)
                    fin = {}
                    for k in names:
                        fin[k] = env.vars.get(k, UNDEF_())
                    heap = {}
                    for oid, (o, s) in j.log.items():
                        if isinstance(o, Family):
                            for i in o.dirt-s[4]:
                                if i not in s[3] and TM.single_atom(x) not in i.atoms():
                                    pre.append((o, i))
                        if pre:
                            continue
                        if oid not in hmarks:
                            if not benign(o, s):
                                grow.append((o, s))
                        else:
                            heap[oid] = hmarks[oid][2].final(self, o, x)
                    return ('ok', fin, heap)
                finally:
                    for k, v in init.items():
                        if v is UNDEF_():
                            env.vars.pop(k, None)
                        else:
                            env.vars[k] = v
            x, xa, ps = self.generic(n, fn)
            if pre:
                for o, i in pre:
                    o.at(i)
                    hmarks.pop(o.oid, None)
                continue
            lost = [k for k, m in marks.items() if m is not None and m.kind == 'same' and any(r[0] == 'ok' and r[1][k] is not m.value for _, r, _ in ps)]
            if lost:
                for k in lost:
                    marks[k] = self.poison_marker(init[k], k)
                continue
            if not grow:
                break
            for o, s in grow:
                if o.oid not in hmarks:
                    hmarks[o.oid] = (o, s, self.heap_marker(o, s, x))
            # markers depending on the loop variable are rebuilt each round
        else:
            raise Unsupported('the set of objects changed by a loop does not stabilise')
        brk = [c for c, r, _ in ps if r[0] == 'break']
        if brk:
            if len(brk) != 1 or len(brk[0]) != 1:
                raise Unsupported('break under several conditions')
            raise FirstBreak(x, brk[0][0])
        self.handle_raises(ps, x, n)
        oks = [(c, r[1], r[2]) for c, r, _ in ps if r[0] == 'ok']
        if not oks:
            if self.ctx.sat([('gt', T.const(n))]) == 'unsat':
                return
            raise Unsupported('loop body never completes')
        oks = self.resolve_seen(oks, hmarks, x, xa, n)
        # closing: heap first
        acts = []
        for oid, (o, s, m) in hmarks.items():
            cases = [(c, h[oid]) for c, f, h in oks]
            acts.append(m.close(self, o, s, cases, x, xa, n))
        newvars = {}
        pend = []
        for k in names:
            if k in tgt:
                newvars[k] = Poison('loop variable %s used after the loop' % k)
                continue
            cases = [(c, f[k]) for c, f, h in oks]
            m = marks[k]
            if all(v is UNDEF_() for _, v in cases):
                continue
            if m is not None and all(v is m.value for _, v in cases):
                continue
            pend.append((k, m, cases))
        # running extrema give the attaining index to their companions
        ext = {}
        rest = []
        for k, m, cases in pend:
            r = None
            if m is not None and m.kind == 'num':
                r = self.close_num(m, cases, x, xa, n)
                if r is None:
                    e = self.close_ext(m, cases, x, xa, n)
                    if e is not None:
                        ext[k] = e
                        r = e[0]
            if r is None and m is not None and m.kind == 'list':
                r = m.close_value(self, cases, x, xa, n)
            if r is None and m is not None and m.kind == 'fold':
                r = m.close_value(self, cases, x, xa, n)
            if r is not None:
                newvars[k] = r
            else:
                rest.append((k, m, cases))
        for k, m, cases in rest:
            r = None
            for kk, (val, sel, idx) in ext.items():
                r = self.close_companion(m, cases, sel, idx, xa)
                if r is not None:
                    break
            newvars[k] = r if r is not None else Poison('value of %s after the loop is not tracked' % k)
        for a in acts:
            a()
        for k, v in newvars.items():
            env.vars[k] = v

    def resolve_seen(self, oks, hmarks, x, xa, n):
        """membership in a set the loop fills: if every iteration leaves e(x) in it and
        adds nothing else, then v in S at iteration x means e(j) = v for some j < x"""
        from .order import exists_lt, injective, close
        seen = {}
        for c, f, h in oks:
            for z in c:
                q = z[1] if z[0] == 'not' else z
                if q[:2] == ('p', 'seen'):
                    seen.setdefault(q[2], set()).add(q[3])
                else:
                    s = []
                    if 'seen' in TM.show_any(z) and nested_seen(z):
                        raise Unsupported('compound membership test in a growing set')
        for oid, vs in seen.items():
            if oid not in hmarks:
                raise Unsupported('membership in a set changed elsewhere')
            o, s, m = hmarks[oid]
            if s[0] != []:
                raise Unsupported('growing set with initial elements')
            e = None
            for c, f, h in oks:
                new = [z for z in h[oid] if not isinstance(z, OldMark)]
                if len(new) > 1 or new and not isinstance(new[0], T):
                    raise Unsupported('set not filled with one element per iteration')
                if new:
                    if e is not None and new[0] != e:
                        raise Unsupported('set filled with different elements')
                    e = new[0]
            if e is None:
                raise Unsupported('membership in a set of unknown elements')
            for c, f, h in oks:
                if not any(not isinstance(z, OldMark) for z in h[oid]) and ('p', 'seen', oid, e) not in c:
                    raise Unsupported('set not filled in every iteration')
            reps = {v: (False if v == e and injective(e, xa, n) else exists_lt(x, e, v)) for v in vs}
            out = []
            for c, f, h in oks:
                nc = []
                for z in c:
                    if z[:3] == ('p', 'seen', oid):
                        z = reps[z[3]]
                    elif z[0] == 'not' and z[1][:3] == ('p', 'seen', oid):
                        z = cnorm(('not', reps[z[1][3]]))
                    if z is False:
                        break
                    if z is not True:
                        nc.append(z)
                else:
                    h = dict(h)
                    out.append((nc, f, h))
            oks = out
            if not oks:
                raise Unsupported('loop body never completes')
        return oks

    # -- markers ------------------------------------------------------------
    def marker(self, v, name):
        _mark[0] += 1
        tag = 'acc~%d' % _mark[0]
        if v is UNDEF_():
            return None
        if isinstance(v, float) and v in (float('inf'), float('-inf')):
            return Mark('num', T.atom(('r', tag)), v)
        if isinstance(v, (T, int, float, complex, np.generic)) and not isinstance(v, (bool, np.bool_)):
            t = num(v)
            return Mark('num', T.atom(('c', tag)), t)
        if isinstance(v, PList):
            return ListMark(v)
        if hasattr(v, 'fold_marker'):
            m = Mark('fold', None, v)
            m.value = v.fold_marker(tag)
            m.close_value = v.fold_close
            return m
        if isinstance(v, Arr):
            # the name keeps referring to the same array (checked at the end of the body)
            return Mark('same', v, v)
        return self.poison_marker(v, name)

    def poison_marker(self, v, name):
        m = Mark('other', None, v)
        m.value = MarkPoison('value of %s from an earlier iteration' % name)
        return m

    def heap_marker(self, o, s, x):
        if isinstance(o, Arr):
            return ArrMark(o, s)
        if isinstance(o, PList):
            return PListMark(o, s)
        if isinstance(o, PDict):
            return PDictMark(o, s)
        if isinstance(o, Family):
            return FamMark(o, s)
        if isinstance(o, PSet):
            return PSetMark(o, s)
        if isinstance(o, Inst):
            return InstMark(self, o, s)
        if hasattr(o, 'heap_marker'):
            return o.heap_marker(s)
        raise Unsupported('loop changing %r' % (o,))

    # -- closed forms -----------------------------------------------------------
    def close_num(self, m, cases, x, xa, n):
        if not all(isinstance(v, (T, int, float, complex)) for _, v in cases):
            return None
        acc = TM.single_atom(m.value)
        for c, v in cases:
            s = set()
            for z in c:
                TM._walk(z, s)
            if acc in s:
                return None
        if isinstance(m.init, float):
            return None
        new = num(self.merge(cases))
        d = new-m.value
        if acc in d.atoms() or ('cj',)+acc[1:] in d.atoms():
            return None
        return m.init+Sum(x, ZERO, n, d)

    def close_ext(self, m, cases, x, xa, n):
        """acc' = g if g > acc (or >=) else acc"""
        acc = TM.single_atom(m.value)
        if acc[0] == 'c':
            # an unknown number may only be compared when it is real
            return None
        g = None
        sel = []
        for c, v in cases:
            dep = [z for z in c if mentions(z, acc)]
            if len(dep) != 1:
                return None
            z = dep[0]
            v = num(v)
            if v == m.value:
                continue
            if acc in v.atoms():
                return None
            if z[0] not in ('gt', 'ge'):
                return None
            if z[1] == v-m.value:
                k = 'max'
            elif z[1] == m.value-v:
                k = 'min'
            else:
                return None
            if g is not None and g != (k, v):
                return None
            if len(c) != 1:
                return None
            g = (k, v)
            strict = z[0] == 'gt'
        if g is None or len(cases) != 2:
            return None
        k, v = g
        inf = float('-inf') if k == 'max' else float('inf')
        if m.init != inf:
            return None
        if not self.ctx.entails(('gt', T.const(n))):
            # an empty sequence leaves the initial infinity
            if not self.decide(('gt', T.const(n))):
                return None
        val = extreme(k, x, n, v)
        idx = extreme_index(k, x, n, v, 'first' if strict else 'last')
        self.ext_facts(k, x, n, v, val, idx)
        return val, (m.value, v), idx

    def ext_facts(self, k, x, n, v, val, idx):
        c = self.ctx
        xa = TM.single_atom(x)
        for f in (('ge', idx), ('ge', T.const(n)-1-idx)):
            c.assume(f)

    def close_companion(self, m, cases, sel, idx, xa):
        acc, v = sel
        a = TM.single_atom(acc)
        taken = [val for c, val in cases if any(mentions(z, a) for z in c) and not (m is not None and val is m.value)]
        kept = [val for c, val in cases if m is not None and val is m.value]
        if len(taken) == 1 and len(kept) == 1 and len(cases) == 2:
            return vsub(taken[0], {xa: idx})
        return None

    def fam_set(self, d, j, v):
        d.fam.set(j, v)

    def write_all(self, a, r):
        """a[...] = r (same shape)"""
        self.stubs.assign_all(self, a, r)


def extreme(k, x, n, v):
    """max/min over 0<=x<n of v as a term"""
    xa = TM.single_atom(x)
    n = T.const(n)
    if n.as_int() == 1:
        return v.subst(lambda a: ZERO if a == xa else None)
    d = TM.bdepth_outer(v)+1
    b = T.atom(('b', d))
    return T.atom(('r', k+'of', n, TM._subst_raw(v, lambda a: b if a == xa else None)))


def extreme_index(k, x, n, v, which='first'):
    xa = TM.single_atom(x)
    n = T.const(n)
    if n.as_int() == 1:
        return ZERO
    d = TM.bdepth_outer(v)+1
    b = T.atom(('b', d))
    return T.atom(('i', 'arg'+k, which, n, TM._subst_raw(v, lambda a: b if a == xa else None)))


def mentions(z, at):
    s = set()
    TM._walk(z, s)
    return at in s


_UNDEF = []


def UNDEF_():
    if not _UNDEF:
        from .interp import UNDEF
        _UNDEF.append(UNDEF)
    return _UNDEF[0]


def benign(o, s):
    """did the object end in an equivalent state"""
    if isinstance(o, Family):
        return not (o.dirt-s[4]) and o.body is s[2] and all(o.ov.get(k) is v for k, v in s[3].items())
    t = o.get_state()
    if isinstance(o, Arr):
        return t[0] is s[0]
    if isinstance(o, PList):
        return len(t) == len(s) and all(a is b for a, b in zip(t, s))
    if isinstance(o, Inst):
        return t.keys() == s.keys() and all(t[k] is s[k] for k in t)
    if isinstance(o, PDict):
        return t[1] is s[1] and t[2] is s[2] and (t[0] is None or (list(t[0]) == list(s[0]) and all(t[0][k] is s[0][k] for k in t[0])))
    return False


def nested_seen(z):
    if isinstance(z, tuple):
        return z[:2] == ('p', 'seen') or any(nested_seen(y) for y in z)
    if isinstance(z, T):
        return any(nested_seen(a) for a in z.atoms())
    return False


class MarkPoison(Poison):
    pass


class Mark:
    def __init__(self, kind, value, init):
        self.kind, self.value, self.init = kind, value, init


class ListMark(Mark):
    """a local holding a list that the body rebinds (total = total + [...])"""

    def __init__(self, v):
        self.kind = 'list'
        self.init = v
        self.value = PList([OldMark(v.oid)])

    def close_value(self, I, cases, x, xa, n):
        if any(v is self.value for _, v in cases) and not all(isinstance(v, PList) for _, v in cases):
            return None
        r = close_list(I, list(self.init.items), [(c, v.items) for c, v in cases], self.init.oid, x, xa, n)
        return PList(r)


def close_list(I, init, cases, oid, x, xa, n):
    tails = []
    for c, it in cases:
        if not (it and isinstance(it[0], OldMark) and it[0].oid == oid) or any(isinstance(z, OldMark) for z in it[1:]):
            raise Unsupported('list not built by appending')
        tails.append((c, it[1:]))
    non = [(c, t) for c, t in tails if t]
    if not non:
        return init
    if any(len(t) != len(non[0][1]) for _, t in non):
        raise Unsupported('different numbers of elements appended')
    cond = True
    if len(non) != len(tails):
        cond = cnorm(('or',)+tuple(('and',)+tuple(c) if c else True for c, _ in non))
    k = len(non[0][1])
    if k == 1 and not any(isinstance(t[0], Splice) for _, t in non):
        body = I.merge([(c, t[0]) for c, t in non])
        return init+[Splice(Family(n, xa, body), cond)]
    # several elements, or runs: a nested run
    if len(non) == 1:
        return init+[Splice(Nested(n, xa, list(non[0][1])), cond)]
    raise Unsupported('list built with several appends')


class PListMark:
    def __init__(self, o, s):
        self.init = list(s)

    def install(self, o):
        o.items = [OldMark(o.oid)]

    def final(self, I, o, x):
        return list(o.items)

    def close(self, I, o, s, cases, x, xa, n):
        r = close_list(I, self.init, cases, o.oid, x, xa, n)

        def act():
            mut(o)
            o.items = r
        return act


class PSetMark:
    def __init__(self, o, s):
        self.s = s

    def install(self, o):
        if self.s[0] is None:
            raise Unsupported('loop changing a symbolic set')
        o.raw = [OldMark(o.oid)]

    def final(self, I, o, x):
        return list(o.raw)

    def close(self, I, o, s, cases, x, xa, n):
        r = close_list(I, list(s[0]), cases, o.oid, x, xa, n)

        def act():
            mut(o)
            o.items = r
        return act


class ArrMark:
    """array written element by element or accumulated as a whole"""

    def __init__(self, o, s):
        _mark[0] += 1
        self.tag = 'old~%d' % _mark[0]
        cells = s[0]
        self.init = cells
        self.shape = s[1]
        kind = 'r' if s[2] in ('float', 'int', 'bool') else 'c'
        self.kind = kind
        sym = [d for d, z in enumerate(s[1]) if isinstance(z, T)]
        m = np.empty(cells.shape, dtype=object)
        for ci in np.ndindex(cells.shape):
            if not isinstance(cells[ci], (T, int, float, complex)):
                raise Unsupported('loop changing an array of %r' % (cells[ci],))
            m[ci] = T.atom((kind, self.tag)+ci+tuple(bx(d) for d in sym))
        self.m = m

    def install(self, o):
        o._cells = self.m

    def final(self, I, o, x):
        return (o._cells, o.shape, o.dtype)

    def close(self, I, o, s, cases, x, xa, n):
        shape = s[1]
        for c, (cells, sh, dt) in cases:
            if sh != shape or dt != s[2]:
                raise Unsupported('loop changing the shape or dtype of an array')
            for z in c:
                st = set()
                TM._walk(z, st)
                if any(a[1] == self.tag for a in st if a[0] in 'rc' and len(a) > 1):
                    raise Unsupported('loop branching on elements it writes')
        res = np.empty(self.m.shape, dtype=object)
        for ci in np.ndindex(self.m.shape):
            new = self.local(num(I.merge([(c, q[0][ci]) for c, q in cases])))
            old = self.m[ci]
            oa = TM.single_atom(old)
            # split new = A*old + B
            A, B = ZERO, ZERO
            ida = TM.aid(oa)
            for (p, mon), cf in new.m.items():
                e = dict(mon).get(ida, 0)
                if e == 0:
                    B = B+T({(p, mon): cf})
                elif e == 1:
                    A = A+T({(p, tuple(z for z in mon if z[0] != ida)): cf})
                else:
                    raise Unsupported('nonlinear update of an array element')
            if A == ONE:
                if self.mine(B, oa):
                    raise Unsupported('array update reading other elements')
                res[ci] = num(self.init[ci])+Sum(x, ZERO, n, B)
                continue
            if self.mine(A, oa):
                raise Unsupported('array update reading other elements')
            # A must be 1 - iv(i == e(x)) (possibly with extra conditions)
            W = ONE-A
            ok = False
            if len(W.m) == 1:
                kd = TM._iv_eq_index(W, xa)
                if kd is not None:
                    ok = True
            if not ok:
                raise Unsupported('array update outside the templates: coefficient %s' % TM.show(A))
            if not (B*A-ZERO).m == {} and TM.equal(B*A, ZERO) is False:
                raise Unsupported('array update: stray terms')
            # reads of the element about to be written see the initial value
            sol, g = kd
            B = B.subst(lambda a: self.read(a, xa, sol))
            if self.mine(B, None):
                raise Unsupported('array update reading elements written by other iterations')
            S1 = Sum(x, ZERO, n, W)
            S2 = Sum(x, ZERO, n, B)
            res[ci] = num(self.init[ci])*(ONE-S1)+S2
        I_ = I

        def act():
            o.write(simplify_range(I_, res, shape))
        return act

    def local(self, t):
        """[@d = e] * old(e) = [@d = e] * old(@d)"""
        nc = self.m.ndim
        sym = [d for d, z in enumerate(self.shape) if isinstance(z, T)]
        if not sym or not self.mine(t, None):
            return t
        r = ZERO
        for (p, mon), cf in t.m.items():
            ats = [TM._atoms[z[0]] for z in mon]
            eqs = [a[1][1] for a in ats if a[0] == 'iv' and a[1][0] == 'eq']
            z = T({(p, mon): cf})
            sub = {}
            if eqs:
                for a in ats:
                    if a[0] in ('r', 'c', 'cj') and a[1] == self.tag:
                        idx = a[2+nc:]
                        new = tuple(bx(d) if any(e == bx(d)-i or e == i-bx(d) for e in eqs) else i for d, i in zip(sym, idx))
                        if new != idx:
                            sub[a] = T.atom(a[:2+nc]+new)
            r = r+(z.subst(lambda a: sub.get(a)) if sub else z)
        return r

    def mine(self, t, oa):
        return any(a[0] in ('r', 'c', 'cj') and a[1] == self.tag for a in t.atoms())

    def read(self, a, xa, sol):
        if a[0] in ('r', 'c', 'cj') and a[1] == self.tag:
            nc = self.m.ndim
            ci = a[2:2+nc]
            idx = a[2+nc:]
            if any(not isinstance(z, int) for z in ci):
                raise Unsupported('array index')
            # the symbolic position must be the one written: sol(@axis) == x
            if len(idx) == 1:
                back = sol.subst(lambda q: idx[0] if q[0] == 'i' and isinstance(q[1], str) and q[1].startswith('@') else None)
                if back != T.atom(xa):
                    raise Unsupported('array update reading elements written by other iterations')
                ax = [TM.single_atom(z) for z in self.m[ci].m and TM.single_atom(self.m[ci])[2+nc:]]
                v = vsub(num(self.init[ci]), {ax[0]: idx[0]})
                return v.conj() if a[0] == 'cj' else v
            raise Unsupported('array update reading elements')
        return None


def simplify_range(I, cells, shape):
    """Drop the brackets 0 <= @d < shape[d] (indices are in range)."""
    sym = [d for d, z in enumerate(shape) if isinstance(z, T)]
    if not sym:
        return cells
    base = []
    for d in sym:
        base += [('ge', bx(d)), ('ge', T.const(shape[d])-1-bx(d))]
    memo = {}

    def val(c):
        if c not in memo:
            sav = list(I.ctx.assump)
            try:
                I.ctx.assump = sav+base
                memo[c] = ONE if I.ctx.entails(c) else (ZERO if I.ctx.entails(('not', c)) else None)
            finally:
                I.ctx.assump = sav
        return memo[c]
    r = np.empty(cells.shape, dtype=object)
    for ci in np.ndindex(cells.shape):
        t = cells[ci]
        if isinstance(t, T) and any(a[0] == 'iv' for a in t.atoms(deep=False)):
            t = t.subst(lambda a: val(a[1]) if a[0] == 'iv' and not TM_has_bound(a) else None)
        r[ci] = t
    return r


def TM_has_bound(at):
    s = set()
    TM._atoms_in(at, s)
    return any(a[0] == 'b' for a in s)


class PDictMark:
    def __init__(self, o, s):
        self.s = s

    def install(self, o):
        if self.s[0] is not None:
            if self.s[0]:
                o.d = dict(self.s[0])      # pre-existing concrete keys: must not be touched
            else:
                o.d = {}
        # symbolic: the family is marked on its own

    def final(self, I, o, x):
        return o.get_state()

    def close(self, I, o, s, cases, x, xa, n):
        if s[0] is None:
            if not all(q[1] is s[1] and q[2] is s[2] and q[3] == s[3] for _, q in cases):
                raise Unsupported('symbolic dictionary replaced in a loop')
            return lambda: None
        news = []
        for c, (d, keys, fam, _) in cases:
            if d is None:
                raise Unsupported('dictionary becomes symbolic within an iteration')
            for k in s[0]:
                if d.get(k) is not s[0][k]:
                    raise Unsupported('loop changing an entry of a dictionary repeatedly')
            extra = [k for k in d if k not in s[0]]
            news.append((c, d, extra))
        if len(set(tuple(e) for _, _, e in news)) != 1:
            raise Unsupported('dictionary filled conditionally')
        extra = news[0][2]
        if not extra:
            return lambda: None
        if len(extra) != 1:
            raise Unsupported('several dictionary entries per iteration')
        k = extra[0]
        val = I.merge([(c, d[k]) for c, d, _ in news])
        ks = key_seq(k, x)
        if ks is not None and I.same_dim(ks.n, n):
            keys = ks
        elif isinstance(k, T) and key_atom(k, xa):
            keys = KeyFn(k, xa, n)
        elif hasattr(k, 'as_keys'):
            keys = k.as_keys(xa, n)
        else:
            raise Unsupported('dictionary keys %r of a loop' % (k,))
        if s[0]:
            raise Unsupported('symbolic keys added to a dictionary with other keys')
        fam = Family(n, xa, val)

        def act():
            mut(o)
            o.d, o.keys, o.fam = None, keys, fam
        return act


def key_atom(k, xa):
    """a symbol sym:NAME[x]"""
    try:
        a = TM.single_atom(k)
    except Exception:
        return False
    return a[0] in ('r', 'c') and len(a) == 3 and a[2] == T.atom(xa)


class KeyFn:
    """keys given by an injective symbol family"""

    def __init__(self, k, xa, n):
        self.k, self.xa, self.n = k, xa, dim(n)
        self.name = TM.show(k)
        self.sym = True

    def at(self, i):
        return vsub(self.k, {self.xa: T.const(i)})

    def index_of(self, k):
        try:
            a, b = TM.single_atom(self.k), TM.single_atom(k)
        except Exception:
            return None
        if a[:2] == b[:2] and len(b) == 3:
            return b[2]
        return None


class FamMark:
    """values of a symbolic dictionary changed at the iteration's own index"""

    def __init__(self, o, s):
        self.s = s

    def install(self, o):
        pass

    def final(self, I, o, x):
        d = set(o.dirt)-self.s[4]
        # elements handed out before the loop are followed on their own
        d = set(i for i in d if not (i in self.s[3] and o.ov.get(i) is self.s[3][i] and x != i))
        if not d:
            return None
        if d != {x}:
            raise Unsupported('symbolic dictionary changed at another key than the iteration\'s own')
        # any other element looked at would have to be unchanged
        for i in o.ov:
            if i not in self.s[3] and i != x:
                raise Unsupported('loop reads elements other iterations change')
        v = o.ov[x]
        if isinstance(v, Arr):
            if v.home is not None and v.home.fam is o:
                v = Arr(v.shape, v.cells, v.dtype)
        return v

    def close(self, I, o, s, cases, x, xa, n):
        cs = []
        for c, v in cases:
            if v is None:
                v = o.pristine(x)
            cs.append((c, v))
        if all(v is None for _, v in cases):
            return lambda: None
        body = I.merge(cs)
        if not I.same_dim(n, o.n):
            raise Unsupported('loop changing part of a symbolic dictionary')
        if s[4]:
            raise Unsupported('loop over an already modified symbolic dictionary')

        def act():
            mut(o)
            for v in o.ov.values():
                if isinstance(v, Arr) and v.home is not None and v.home.fam is o:
                    v.stale = True
            o.x, o.body, o.ov, o.dirt = xa, body, {}, set()
        return act


class InstMark:
    def __init__(self, I, o, s):
        self.s = s
        self.marks = {k: I.marker(v, k) for k, v in s.items()}
        self.act = {}

    def install(self, o):
        for k, m in self.marks.items():
            if k in self.act:
                o.attrs[k] = m.value

    def final(self, I, o, x):
        ch = [k for k in o.attrs if k not in self.s or (o.attrs[k] is not self.s[k] and o.attrs[k] is not (self.marks[k].value if k in self.act else None))]
        new = [k for k in ch if k not in self.act]
        if new:
            for k in new:
                if k not in self.s:
                    raise Unsupported('attribute created in a loop')
                self.act[k] = True
            raise Unsupported('attribute %s changed in a loop' % new[0])
        return dict(o.attrs)

    def close(self, I, o, s, cases, x, xa, n):
        return lambda: None
