"""Symbolic execution of the parsed source of /repo.

Concrete control flow is executed; loops over symbolic ranges/sequences are
replaced by a closed form whose inductiveness is established from the body run
once at a generic iteration (see sym_loop)."""
import ast
import builtins
import itertools
import os
import sys
import time
import numpy as np
from fractions import Fraction
from . import terms as TM
from .terms import T, iv, cnorm, Sum, ZERO, ONE
from .core import Ctx, Unsupported, Infeasible, PyRaise, SBool, mkbool, cond_of
from .values import *
from . import values as VL
from .loops import LoopMixin, FirstBreak, LeaveLoop, env_set, hashable, unhash, local_names, _SKIP, Nested, mut

sys.setrecursionlimit(100000)


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(LeaveLoop):
    pass


def has_break(body):
    st = list(body)
    while st:
        z = st.pop()
        if isinstance(z, ast.Break):
            return True
        if isinstance(z, (ast.For, ast.While)):
            st.extend(z.orelse)
        elif not isinstance(z, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(z))
    return False


class ContinueEx(Exception):
    pass


class Module:
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.vars = {}
        self.tree = None


class Env:
    __slots__ = ('vars', 'parent', 'module', 'fn')

    def __init__(self, parent, module, fn=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.fn = fn

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        if n in self.module.vars:
            return self.module.vars[n]
        raise KeyError(n)


class Func:
    def __init__(self, node, env, module, qual):
        self.node, self.env, self.module, self.qual = node, env, module, qual
        self.name = getattr(node, 'name', '<lambda>')
        self.defaults = []
        self.kwdefaults = {}
        self.lines = 0

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Builtin:
    """an external function with an assumed contract: fn(I, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<ext %s>' % self.name


class Cls:
    def __init__(self, name, module, bases):
        self.name, self.module, self.bases = name, module, bases
        self.attrs = {}

    def find(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(n)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class Ext:
    """an external module or object; attributes from the stub table"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Star:
    """*args of symbolic length"""

    def __init__(self, val):
        self.val = val


UNDEF = object()


def is_num(v):
    return isinstance(v, (T, int, float, complex, np.generic)) and not isinstance(v, (bool, np.bool_)) or isinstance(v, (bool, np.bool_))


class Interp(LoopMixin):
    def __init__(self, repo, ctx):
        self.repo = repo
        self.ctx = ctx
        self.modules = {}
        self.contracts = {}
        self.verifying = None
        self.called = set()
        self.inlined = set()
        self.trusted = set()
        from . import stubs
        self.stubs = stubs
        self.trace = []
        self.depth = 0
        self.steps = 0

    # -- modules -------------------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parts = name.split('.')
        if parts[0] != 'shgpy':
            return Ext(name)
        if len(parts) > 1:
            self.module('.'.join(parts[:-1]))
            m = self.modules.get(name)
            if m is not None:
                return m
        p = os.path.join(self.repo, *parts)
        path = p+'.py' if os.path.isfile(p+'.py') else os.path.join(p, '__init__.py')
        if not os.path.isfile(path):
            raise Unsupported('module %s' % name)
        m = Module(name, path)
        m.is_pkg = path.endswith('__init__.py')
        self.modules[name] = m
        m.tree = ast.parse(open(path).read(), path)
        m.vars['__name__'] = name
        env = Env(None, m)
        env.vars = m.vars
        for st in m.tree.body:
            self.exec(st, env)
        return m

    def get(self, qual):
        """'shgpy.core.utilities:tensor_contract' or 'mod:Class.method'"""
        mod, name = qual.split(':')
        v = self.module(mod)
        parts = name.split('.')
        try:
            v = v.vars[parts[0]]
        except KeyError:
            raise Unsupported('%s does not exist' % qual)
        for p in parts[1:]:
            v = v.find(p)
            if v is None:
                raise Unsupported('%s does not exist' % qual)
        return v

    def import_from(self, env, node):
        m = env.module
        if node.level:
            base = m.name.split('.')
            if not m.is_pkg:
                base = base[:-1]
            base = base[:len(base)-(node.level-1)]
            name = '.'.join(base+([node.module] if node.module else []))
        else:
            name = node.module
        mod = self.module(name)
        for a in node.names:
            if a.name == '*':
                if not isinstance(mod, Module):
                    raise Unsupported('import *')
                for k, v in mod.vars.items():
                    if not k.startswith('_'):
                        env.vars[k] = v
                continue
            if isinstance(mod, Module):
                if a.name in mod.vars:
                    v = mod.vars[a.name]
                else:
                    v = self.module(name+'.'+a.name)
            else:
                v = self.ext_attr(mod, a.name)
            env.vars[a.asname or a.name] = v

    def ext_attr(self, mod, name):
        full = mod.name+'.'+name
        v = self.stubs.lookup(full)
        if v is not None:
            return v
        return Ext(full)

    # -- statements ------------------------------------------------------------
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.steps += 1
        if self.steps % 256 == 0 and self.ctx.deadline and time.time() > self.ctx.deadline:
            raise Unsupported('deadline')
        m = getattr(self, 'x_'+type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (type(st).__name__, st.lineno))
        return m(st, env)

    def x_Expr(self, st, env):
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Import(self, st, env):
        for a in st.names:
            if a.asname:
                env.vars[a.asname] = self.module(a.name)
            else:
                env.vars[a.name.split('.')[0]] = self.module(a.name.split('.')[0])

    def x_ImportFrom(self, st, env):
        self.import_from(env, st)

    def x_Global(self, st, env):
        raise Unsupported('global')

    def x_Nonlocal(self, st, env):
        raise Unsupported('nonlocal')

    def x_FunctionDef(self, st, env):
        f = self.mkfunc(st, env)
        for d in reversed(st.decorator_list):
            dv = self.eval(d, env)
            if isinstance(dv, (Cls,)) or dv in (staticmethod, property, classmethod):
                raise Unsupported('decorator')
            f = self.call(dv, [f], {})
        env.vars[st.name] = f

    def mkfunc(self, node, env):
        name = getattr(node, 'name', '<lambda>')
        own = env.fn.qual+'.' if env.fn is not None else env.module.name+':'
        f = Func(node, None if env.vars is env.module.vars else env, env.module, own+name)
        a = node.args
        f.defaults = [self.eval(d, env) for d in a.defaults]
        f.kwdefaults = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return f

    def x_ClassDef(self, st, env):
        c = Cls(st.name, env.module, [self.eval(b, env) for b in st.bases])
        cenv = Env(env, env.module, env.fn)

        class _F:
            qual = env.module.name+':'+st.name
        cenv.fn = _F
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                f = self.mkfunc(s, cenv)
                f.env = None if env.vars is env.module.vars else env
                c.attrs[s.name] = f
                for d in s.decorator_list:
                    nm = d.id if isinstance(d, ast.Name) else None
                    if nm == 'staticmethod':
                        f.static = True
                    elif nm == 'property':
                        f.prop = True
                    else:
                        raise Unsupported('method decorator')
                cenv.vars[s.name] = f
            else:
                self.exec(s, cenv)
        for k, v in cenv.vars.items():
            c.attrs.setdefault(k, v)
        env.vars[st.name] = c

    def x_Return(self, st, env):
        raise ReturnEx(None if st.value is None else self.eval(st.value, env))

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            env_set(env, t.id, self.aug(op, old, self.eval(st.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(op, old, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.index(t.slice, env)
            old = self.getitem(o, i)
            self.setitem(o, i, self.aug(op, old, self.eval(st.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, old, v):
        if isinstance(old, Arr):
            r = self.binop(op, old, v)
            if not isinstance(r, Arr) or r.shape != old.shape:
                if not (isinstance(r, Arr) and len(r.shape) == len(old.shape) and all(self.same_dim(a, b) for a, b in zip(r.shape, old.shape))):
                    raise Unsupported('in-place operation changing the shape')
            if old.dtype in ('float', 'int') and r.dtype in ('complex', 'object'):
                raise Unsupported('in-place operation changing the dtype %s -> %s' % (old.dtype, r.dtype))
            if old.dtype == 'int' and r.dtype == 'float':
                raise PyRaise(TypeError('cannot cast float64 to int64'))
            self.write_all(old, r)
            return old
        if isinstance(old, PList) and op == 'Add':
            self.list_extend(old, v)
            return old
        if isinstance(old, PSet) and isinstance(v, PSet) and op == 'BitOr' and old.raw is not None:
            r = self.stubs.union(self, old, [v])
            mut(old)
            old.raw = r
            return old
        return self.binop(op, old, v)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                i = self.index(t.slice, env)
                if isinstance(o, PDict) and o.d is not None:
                    k = hashable(i)
                    if k not in o.d:
                        raise PyRaise(KeyError(i))
                    mut(o)
                    del o.d[k]
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def only_logs(self, st, env):
        """a body that does nothing but log or warn with a constant message"""
        if st.orelse or not all(isinstance(b, ast.Pass) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and not b.value.keywords
                                and all(isinstance(a, ast.Constant) for a in b.value.args) for b in st.body):
            return False
        for b in st.body:
            if not isinstance(b, ast.Pass):
                f = b.value.func
                if not (isinstance(f, ast.Name) or isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name)):
                    return False
                try:
                    v = self.eval(f, env)
                except (PyRaise, Unsupported):
                    return False
                from .stubs import Quiet
                if not (isinstance(v, Quiet) or isinstance(v, Builtin) and v.name == 'warnings.warn'):
                    return False
        return True

    def x_If(self, st, env):
        c = self.eval(st.test, env)
        if isinstance(c, SBool) and self.only_logs(st, env):
            return
        if self.truth(c):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyRaise(AssertionError())

    def x_Raise(self, st, env):
        if st.exc is None:
            raise Unsupported('re-raise')
        e = self.eval(st.exc, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            raise Unsupported('raise %r' % (e,))
        raise PyRaise(e, st)

    def x_Try(self, st, env):
        try:
            self.exec_block(st.body, env)
        except PyRaise as e:
            for h in st.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = self.eval(h.type, env)
                    ts = t if isinstance(t, tuple) else (t,)
                    if not all(isinstance(x, type) for x in ts):
                        raise Unsupported('except %r' % (ts,))
                    ok = isinstance(e.exc, tuple(ts))
                if ok:
                    if h.name:
                        env.vars[h.name] = e.exc
                    self.exec_block(h.body, env)
                    break
            else:
                self.exec_block(st.finalbody, env)
                raise
        else:
            self.exec_block(st.orelse, env)
        self.exec_block(st.finalbody, env)

    def x_With(self, st, env):
        vals = []
        for it in st.items:
            v = self.eval(it.context_expr, env)
            x = self.stubs.enter(self, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, env)
            vals.append(v)
        self.exec_block(st.body, env)
        for v in reversed(vals):
            self.stubs.leave(self, v)

    def x_Break(self, st, env):
        raise BreakEx()

    def x_Continue(self, st, env):
        raise ContinueEx()

    def segments(self, v):
        """iterate, or the parts of a list with several symbolic runs"""
        if isinstance(v, PList) and v.plain() is None and len(v.items) > 1 and not any(isinstance(z, OldMark) for z in v.items):
            parts = []
            for z in v.items:
                parts.append(self.list_seq(PList([z])) if isinstance(z, Splice) else [z])
            return parts, True
        return self.iterate(v), False

    def x_For(self, st, env):
        v = self.eval(st.iter, env)
        if isinstance(v, PSet) and v.symbolic() or isinstance(v, SymSetList) and v.key is None:
            self.set_loop(unbag(v.raw), st, env)
            self.exec_block(st.orelse, env)
            return
        it, segs = self.segments(v)
        for part in (it if segs else [it]):
            if self.for_part(st, env, part):
                return
        self.exec_block(st.orelse, env)

    def set_loop(self, items, st, env):
        """loop over a set.  One run of distinct elements is numbered in the order of the
        iteration; otherwise the body may only raise, for then neither the order nor
        how often an element is met matters (except for which exception comes first)"""
        if not (len(items) == 1 and isinstance(items[0], Splice) and not isinstance(items[0].fam, Nested) and getattr(items[0].fam.body, 'distinct', False)):
            for z in st.body:
                for y in ast.walk(z):
                    if isinstance(y, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Break, ast.Return, ast.Expr, ast.Delete, ast.For, ast.While, ast.With, ast.Try, ast.NamedExpr)) and not (isinstance(y, ast.Expr) and isinstance(y.value, ast.Constant)):
                        raise Unsupported('loop over a set of symbolically many elements')

        def go(items):
            for z in items:
                if not isinstance(z, Splice):
                    self.for_part(st, env, [z])
                elif isinstance(z.fam, Nested):
                    if z.cond is not True:
                        raise Unsupported('loop over a filtered set')
                    self.sym_loop(Seq(z.fam.n, lambda i, z=z: i), lambda i, z=z: go(self.stubs.set_items(z.fam.items, {z.fam.x: T.const(i)})), env, st)
                else:
                    self.for_part(st, env, self.list_seq(PList([z])))
        go(items)

    def for_part(self, st, env, it):
        if isinstance(it, list):
            for v in it:
                self.assign(st.target, v, env)
                try:
                    self.exec_block(st.body, env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return True
            return False

        def run(v):
            self.assign(st.target, v, env)
            try:
                self.exec_block(st.body, env)
            except ContinueEx:
                pass
        if has_break(st.body):
            return self.break_loop(it, run, env, st)
        if getattr(it, 'endless', False):
            raise Unsupported('endless loop')
        try:
            self.sym_loop(it, run, env, st)
        except FirstBreak:
            raise Unsupported('break')
        return False

    def break_loop(self, it, run, env, st):
        """loop which is left in the first iteration x >= t: it is the loop over the
        iterations before t (and before n), followed by iteration t up to the break"""
        if getattr(it, 'cond', True) is not True:
            raise Unsupported('break out of a loop over a filtered sequence')
        try:
            self.sym_loop(it, run, env, st)
            if getattr(it, 'endless', False):
                raise Unsupported('endless loop')
            return False
        except FirstBreak as f:
            x, z = f.x, f.c
        xa = TM.single_atom(x)
        if z[0] not in ('ge', 'gt'):
            raise Unsupported('break under the condition %s' % TM.show_any(z))
        e = z[1]
        t = vsub(x-e, {xa: ZERO})
        if e != x-t or any('~' in str(q[1]) and str(q[1]).startswith(('acc~', 'old~')) or q[0] == 'p' for q in t.atoms() if len(q) > 1):
            raise Unsupported('break under the condition %s' % TM.show_any(z))
        if z[0] == 'gt':
            t = t+1
        n = T.const(it.n)
        ends = getattr(it, 'endless', False)
        if not ends and (self.ctx.entails(('ge', t-n)) or st.orelse and self.truth(mkbool(('ge', t-n)))):
            raise Unsupported('break of a loop which is not left')
        m = t if self.ctx.entails(('ge', t)) else TM.iv(('gt', t))*t
        if not ends and not self.ctx.entails(('ge', n-t)):
            m = TM.iv(('ge', n-t))*m+TM.iv(('gt', t-n))*n
        try:
            self.sym_loop(Seq(dim(m), it.at), run, env, st)
        except FirstBreak:
            raise Unsupported('break outside the template')
        return True

    def x_While(self, st, env):
        n = 0
        if self.__dict__.get('loop_count') is not None and self.stubs.counting(self, st, env, self.loop_count):
            return
        while True:
            c = self.eval(st.test, env)
            if isinstance(c, SBool):
                h = self.stubs.while_rule(self, st, env)
                if h:
                    return
                raise Unsupported('while loop with a symbolic condition (line %d)' % st.lineno)
            if not self.truth(c):
                self.exec_block(st.orelse, env)
                return
            n += 1
            if n > 5000:
                raise Unsupported('while loop without a bound')
            try:
                self.exec_block(st.body, env)
            except ContinueEx:
                continue
            except BreakEx:
                return

    # -- assignment --------------------------------------------------------------
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env_set(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            vs = self.unpack(v, n)
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.index(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise(ValueError('unpack'))
            return list(v)
        if isinstance(v, Arr):
            if isinstance(v.shape[0], T):
                raise Unsupported('unpacking a symbolic axis')
            if v.shape[0] != n:
                raise PyRaise(ValueError('unpack'))
            return [self.getitem(v, i) for i in range(n)]
        it = self.iterate(v)
        if isinstance(it, list):
            if len(it) != n:
                raise PyRaise(ValueError('unpack'))
            return it
        raise Unsupported('unpacking a symbolic sequence')

    # -- expressions -----------------------------------------------------------------
    def eval(self, e, env):
        m = getattr(self, 'e_'+type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (type(e).__name__, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        try:
            v = env.lookup(e.id)
        except KeyError:
            v = self.stubs.builtin(e.id)
            if v is None:
                if hasattr(builtins, e.id):
                    b = getattr(builtins, e.id)
                    if isinstance(b, type) and issubclass(b, BaseException):
                        return b
                    raise Unsupported('builtin %s' % e.id)
                raise PyRaise(NameError(e.id))
        if v is UNDEF:
            raise Unsupported('variable %s may be unbound' % e.id)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, es, env):
        r = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, env))
                if not isinstance(it, list):
                    raise Unsupported('starred symbolic sequence')
                r.extend(it)
            else:
                r.append(self.eval(x, env))
        return r

    def e_List(self, e, env):
        return PList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return PSet(self.elts(e.elts, env))

    def e_Dict(self, e, env):
        h = getattr(self, 'dict_hook', None)
        if h and not e.keys:
            return h()
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                if not (isinstance(o, PDict) and o.d is not None):
                    raise Unsupported('** of a symbolic dict')
                d.update(o.d)
            else:
                d[hashable(self.eval(k, env))] = self.eval(v, env)
        return PDict(d)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    try:
                        x = self.eval(v.value, env)
                    except PyRaise:
                        raise
                    parts.append('?')
                    continue
                x = self.eval(v.value, env)
                parts.append(self.stubs.to_str(self, x))
        return self.stubs.concat_str(parts)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env)
            if x is e.values[-1]:
                return v
            b = self.truth(v)
            if isand and not b:
                return v
            if not isand and b:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(('not', v.c))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                return self.binop('Mult', -1, v)
            if isinstance(v, (int, float, complex)):
                return -v
            return -num(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, env):
        a = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r, env)
            c = self.compare(type(op).__name__, a, b)
            if len(e.ops) == 1:
                return c
            res = c if res is None else mkbool(('and', self.cond(res), self.cond(c)))
            if res is False:
                return False
            a = b
        return res

    def cond(self, v):
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, SBool):
            return v.c
        return self.truth(v)

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.index(e.slice, env))

    def index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                if isinstance(v, PList) and v.plain() is None:
                    it = None
                else:
                    it = self.iterate(v)
                if isinstance(it, list):
                    args.extend(it)
                else:
                    args.append(Star(v))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, PDict) and v.d is not None:
                    kw.update(v.d)
                elif isinstance(v, OMap):
                    kw['**'] = v
                else:
                    raise Unsupported('** of %r' % (v,))
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    # comprehensions
    def comp(self, gens, env, leaf):
        """returns python list or a Splice-like (fam, cond) description"""
        cenv = Env(env, env.module, env.fn)
        return self._comp(gens, 0, cenv, leaf)

    def _comp(self, gens, gi, cenv, leaf):
        g = gens[gi]
        it, segs = self.segments(self.eval(g.iter, cenv))
        if segs:
            out = []
            for part in it:
                out += self._comp_part(gens, gi, cenv, leaf, part)
            return out
        return self._comp_part(gens, gi, cenv, leaf, it)

    def _comp_part(self, gens, gi, cenv, leaf, it):
        g = gens[gi]
        SKIP = _SKIP

        def one(v):
            self.assign(g.target, v, cenv)
            for c in g.ifs:
                if not self.truth(self.eval(c, cenv)):
                    return SKIP
            if gi+1 < len(gens):
                return self._comp(gens, gi+1, cenv, leaf)
            return leaf(cenv)
        if isinstance(it, list):
            out = []
            for v in it:
                r = one(v)
                if r is SKIP:
                    continue
                if gi+1 < len(gens):
                    out.extend(r)
                else:
                    out.append(r)
            return out
        r, c, x = self.sym_map(it, one)
        if gi+1 < len(gens):
            return [Splice(Nested(it.n, x, r), c)]
        return [Splice(Family(it.n, x, r), c)]

    def e_ListComp(self, e, env):
        return PList(self.comp(e.generators, env, lambda ev: self.eval(e.elt, ev)))

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env)

    def e_SetComp(self, e, env):
        l = self.comp(e.generators, env, lambda ev: self.eval(e.elt, ev))
        return self.stubs.mkset(self, PList(l))

    def e_DictComp(self, e, env):
        l = self.comp(e.generators, env, lambda ev: (self.eval(e.key, ev), self.eval(e.value, ev)))
        return self.stubs.mkdict(self, PList(l))

    def handle_raises(self, ps, x, n, extra=True):
        rs = [(c, r[1]) for c, r, _ in ps if r[0] == 'raise']
        for c, e in rs:
            xa = TM.single_atom(x)
            body = cnorm(('and',)+tuple(c)) if c else True
            if body is True:
                q = cnorm(('gt', T.const(n)))
            else:
                q = self.exists_c(xa, n, body)
            if self.ctx.decide(q):
                raise e
            self.ctx.foralls.append((T.const(n), xa, cnorm(('not', ('and',)+tuple(c)))))

    def merge(self, cases):
        """cases: [(conds, value)] exhaustive and exclusive -> value"""
        if len(cases) == 1:
            return cases[0][1]
        v0 = cases[0][1]
        if all(v is v0 for _, v in cases):
            return v0
        ws = [iv(('and',)+tuple(c)) if c else ONE for c, _ in cases]
        vs = [v for _, v in cases]
        if all(isinstance(v, (T, int, float, complex)) and not isinstance(v, bool) for v in vs):
            if len(vs) > 2:
                by = {}
                for w, v in zip(ws, vs):
                    v = num(v)
                    by[v] = by[v]+w if v in by else w
                ws, vs = list(by.values()), list(by)
            q = max(range(len(ws)), key=lambda i: len(ws[i].m))
            if len(ws[q].m) > 1:
                ws[q] = ONE-sum(ws[:q]+ws[q+1:], ZERO)      # exactly one bracket is 1
            r = ZERO
            for w, v in zip(ws, vs):
                r = r+w*num(v)
            return r
        if all(isinstance(v, (bool, SBool)) for v in vs):
            return mkbool(('or',)+tuple(('and', self.cond(v))+tuple(c) for c, v in cases))
        if all(isinstance(v, tuple) for v in vs) and len(set(len(v) for v in vs)) == 1:
            return tuple(self.merge([(c, v[i]) for c, v in cases]) for i in range(len(v0)))
        if all(isinstance(v, Arr) for v in vs) and all(len(v.shape) == len(v0.shape) and all(self.same_dim(a, b) for a, b in zip(v.shape, v0.shape)) for v in vs):
            cells = np.empty(v0.cells.shape, dtype=object)
            for i in np.ndindex(cells.shape):
                cells[i] = self.merge([(c, v.cells[i]) for c, v in cases])
            return Arr(v0.shape, cells, v0.dtype)
        if all(type(v) == type(v0) and v == v0 for v in vs):
            return v0
        raise Unsupported('merging %r' % (vs[:3],))

    # -- calls ---------------------------------------------------------------------
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj]+list(args), kw)
        if isinstance(f, Builtin):
            self.trusted.add(f.name)
            return f.fn(self, args, kw)
        if isinstance(f, Func):
            c = self.contracts.get(f.qual)
            if c is not None and f.qual != self.entry:
                self.called.add(f.qual)
                return c(self, args, kw)
            entry, self.entry = self.entry, None
            if entry is None:
                self.inlined.add(f.qual)
            try:
                return self.call_func(f, args, kw)
            finally:
                pass
        if isinstance(f, Cls):
            c = self.contracts.get('%s:%s' % (getattr(f.module, 'name', f.module), f.name))
            if c is not None:
                self.called.add('%s.%s' % (getattr(f.module, 'name', f.module), f.name))
                return c(self, args, kw)
            o = Inst(f)
            init = f.find('__init__')
            if init is not None:
                self.call(init, [o]+list(args), kw)
            elif args or kw:
                raise Unsupported('constructor arguments')
            return o
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[a if isinstance(a, str) else repr(a) for a in args])
        if callable(getattr(f, 'vcall', None)):
            return f.vcall(self, args, kw)
        if isinstance(f, Ext):
            raise Unsupported('external function %s' % f.name)
        raise Unsupported('call of %r' % (f,))

    entry = None

    def run_entry(self, f, args, kw):
        """execute f's body itself (the function under verification)"""
        self.entry = f.qual
        try:
            return self.call(f, args, kw)
        finally:
            self.entry = None

    def bind(self, f, args, kw):
        a = f.node.args
        env = Env(f.env, f.module, f)
        names = [x.arg for x in a.posonlyargs+a.args]
        kw = dict(kw)
        if any(isinstance(x, Star) for x in args):
            if len(args) == 1 and not names and a.vararg:
                env.vars[a.vararg.arg] = args[0].val
                args = []
                star_done = True
            else:
                raise Unsupported('*args of symbolic length')
        else:
            star_done = False
        if '**' in kw:
            raise Unsupported('symbolic ** arguments')
        if len(args) > len(names) and not a.vararg:
            raise PyRaise(TypeError('%s() takes %d positional arguments' % (f.name, len(names))))
        for n, v in zip(names, args):
            env.vars[n] = v
        if a.vararg and not star_done:
            env.vars[a.vararg.arg] = tuple(args[len(names):])
        rest = names[len(args):]
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in env.vars:
                if n in kw and i < len(args):
                    raise PyRaise(TypeError('multiple values for %s' % n))
                continue
            if n in kw:
                env.vars[n] = kw.pop(n)
            else:
                j = i-(len(names)-nd)
                if j < 0:
                    raise PyRaise(TypeError('%s() missing argument %s' % (f.name, n)))
                env.vars[n] = f.defaults[j]
        for k in a.kwonlyargs:
            if k.arg in kw:
                env.vars[k.arg] = kw.pop(k.arg)
            elif k.arg in f.kwdefaults:
                env.vars[k.arg] = f.kwdefaults[k.arg]
            else:
                raise PyRaise(TypeError('missing keyword argument %s' % k.arg))
        if a.kwarg:
            env.vars[a.kwarg.arg] = PDict(kw)
        elif kw:
            raise PyRaise(TypeError('unexpected keyword argument %s' % list(kw)[0]))
        return env

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('recursion too deep in %s' % f.qual)
        try:
            env = self.bind(f, args, kw)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            for n in local_names(f.node):
                env.vars.setdefault(n, UNDEF)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                raise Unsupported('generator function %s' % f.qual)
            try:
                self.exec_block(f.node.body, env)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # -- attributes -------------------------------------------------------------------
    def getattr(self, o, n):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Inst):
            if n in o.attrs:
                v = o.attrs[n]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            v = o.cls.find(n)
            if v is None:
                h = getattr(o, 'vattr', None)
                if h:
                    return h(self, n)
                if n == '__class__':
                    return o.cls
                raise PyRaise(AttributeError('%s has no attribute %s' % (o.cls.name, n)))
            if isinstance(v, Func):
                if getattr(v, 'prop', False):
                    return self.call(v, [o], {})
                return v if getattr(v, 'static', False) else Bound(v, o)
            return v
        if isinstance(o, Module):
            if n in o.vars:
                return o.vars[n]
            return self.module(o.name+'.'+n)
        if isinstance(o, Ext):
            return self.ext_attr(o, n)
        if isinstance(o, Cls):
            v = o.find(n)
            if v is None:
                if n == '__name__':
                    return o.name
                raise PyRaise(AttributeError(n))
            return v
        h = getattr(o, 'vattr', None)
        if h is not None:
            return h(self, n)
        return self.stubs.attr(self, o, n)

    def setattr(self, o, n, v):
        if isinstance(o, Inst):
            mut(o)
            o.attrs[n] = v
        elif hasattr(o, 'vsetattr'):
            o.vsetattr(self, n, v)
        elif isinstance(o, Func):
            setattr(o, 'user_'+n, v)
        else:
            raise Unsupported('attribute assignment on %r' % (o,))

    # -- truth, comparison, arithmetic --------------------------------------------------
    def truth(self, v):
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if v is None:
            return False
        if isinstance(v, SBool):
            return self.decide(v.c)
        if isinstance(v, (int, float, complex, str, tuple)):
            return bool(v)
        if isinstance(v, T):
            q = v.const_val()
            if q is not None:
                return q != (0, 0)
            return not self.decide(('eq', v))
        if isinstance(v, PList):
            n = v.length()
            return n > 0 if isinstance(n, int) else self.decide(('gt', n))
        if isinstance(v, PDict):
            if v.d is not None:
                return bool(v.d)
            n = v.keys.n
            return n > 0 if isinstance(n, int) else self.decide(('gt', n))
        if isinstance(v, PSet) and v.items is not None:
            return bool(v.items)
        if isinstance(v, (Inst, Func, Cls, Bound, Builtin, Ext)):
            return True
        if hasattr(v, 'truth'):
            return v.truth(self)
        if isinstance(v, Arr):
            s = v.size()
            if s == 1:
                return self.truth(v.cells.flat[0])
            raise PyRaise(ValueError('truth value of an array is ambiguous'))
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        raise Unsupported('truth of %r' % (v,))

    def decide(self, c):
        c = cnorm(c)
        if isinstance(c, bool):
            return c
        for n, xa, body in self.ctx.foralls:
            # instantiate universally quantified facts at the indices mentioned
            s = set()
            TM._walk(c, s)
            for a in list(s):
                if a[0] in ('i',) and a != xa:
                    f = cnorm(TM.subst_any(body, lambda y: T.atom(a) if y == xa else None))
                    if f not in self.ctx.assump and not isinstance(f, bool):
                        t = T.atom(a)
                        if self.ctx.entails(('ge', t)) and self.ctx.entails(('ge', n-1-t)):
                            self.ctx.assume(f)
        return self.ctx.decide(c)

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_same(a, b)
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if op == 'In':
                return r
            return mkbool(('not', r.c)) if isinstance(r, SBool) else not r
        if op in ('Eq', 'NotEq'):
            if isinstance(a, Arr) or isinstance(b, Arr):
                return self.stubs.ufunc(self, lambda x, y: self.compare(op, x, y), [a, b], 'bool')
            r = self.equal(a, b)
            if op == 'Eq':
                return r
            return mkbool(('not', r.c)) if isinstance(r, SBool) else not r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.stubs.ufunc(self, lambda x, y: self.compare(op, x, y), [a, b], 'bool')
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isinstance(a, PSet) and isinstance(b, PSet) and a.items is not None and b.items is not None:
            A, B = set(map(hashable, a.items)), set(map(hashable, b.items))
            return {'Lt': A < B, 'LtE': A <= B, 'Gt': A > B, 'GtE': A >= B}[op]
        h = self.stubs.compare(self, op, a, b)
        if h is not None:
            return h
        inf = (float('inf'), float('-inf'))
        if isinstance(a, float) and a in inf or isinstance(b, float) and b in inf:
            # extended reals
            x = 1 if isinstance(a, float) and a == inf[0] else -1 if isinstance(a, float) and a == inf[1] else 0
            y = 1 if isinstance(b, float) and b == inf[0] else -1 if isinstance(b, float) and b == inf[1] else 0
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        x, y = num(a), num(b)
        h = getattr(self, 'zero_hook', None)
        if h:
            x, y = h(x), h(y)
        d = {'Lt': ('gt', y-x), 'LtE': ('ge', y-x), 'Gt': ('gt', x-y), 'GtE': ('ge', x-y)}[op]
        return mkbool(d)

    def is_same(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        if isinstance(a, (str, int, Ext, type, Cls)) and isinstance(b, (str, int, Ext, type, Cls)):
            return a == b
        raise Unsupported('identity of %r and %r' % (a, b))

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, (T, int, float, complex, np.generic)) and isinstance(b, (T, int, float, complex, np.generic)):
            if not isinstance(a, T) and not isinstance(b, T):
                return a == b
            x, y = num(a), num(b)
            return mkbool(('eq', x-y))
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                return a if b else mkbool(('not', a.c))
            if isinstance(b, SBool):
                return mkbool(('or', ('and', a.c, b.c), ('and', ('not', a.c), ('not', b.c))))
            return False
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            la = a if isinstance(a, tuple) else a.plain()
            lb = b if isinstance(b, tuple) else b.plain()
            if la is None or lb is None:
                raise Unsupported('comparison of symbolic lists')
            if len(la) != len(lb):
                return False
            cs = []
            for x, y in zip(la, lb):
                r = self.equal(x, y)
                if r is False:
                    return False
                cs.append(self.cond(r))
            return mkbool(('and',)+tuple(cs))
        h = self.stubs.equal(self, a, b)
        if h is not None:
            return h
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, SStr) and isinstance(b, SStr) and a.seq is b.seq:
                return mkbool(('eq', a.i-b.i))
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                return mkbool(('p', 'streq', repr(a), repr(b)))
            return False
        simple = (str, int, float, complex, bool, type(None), type, Ext, Cls, bytes)
        if isinstance(a, simple) and isinstance(b, simple):
            return a == b
        if isinstance(a, PSet) and isinstance(b, PSet):
            if a.items is not None and b.items is not None:
                return set(map(hashable, a.items)) == set(map(hashable, b.items))
            if a.keys is not None and b.keys is not None and getattr(a.keys, 'setof', a.keys) is getattr(b.keys, 'setof', b.keys):
                return True
            if a.keys is not None and b.keys is not None:
                return mkbool(('p', 'sameset')+tuple(sorted((a.keys.name, b.keys.name))))
            raise Unsupported('comparison of sets')
        if isinstance(a, PDict) and isinstance(b, PDict) and a.d is not None and b.d is not None:
            if set(a.d) != set(b.d):
                return False
            return mkbool(('and',)+tuple(self.cond(self.equal(a.d[k], b.d[k])) for k in a.d))
        if type(a) != type(b) and not isinstance(a, (Poison, Arr)) and not isinstance(b, (Poison, Arr)):
            return False
        if isinstance(a, (Inst, Func, Builtin)):
            return a is b
        raise Unsupported('equality of %r and %r' % (a, b))

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, PDict):
            if c.d is not None:
                k = hashable(x)
                if k in c.d:
                    return True
                if isinstance(x, (str, int, Ext, Cls)) and all(isinstance(y, (str, int, Ext, Cls)) for y in c.d):
                    return False
                if getattr(self, 'structural_keys', None):
                    return False
                cs = [self.cond(self.equal(x, y)) for y in c.d]
                return mkbool(('or',)+tuple(cs)) if cs else False
            if c.keys.index_of(x) is not None:
                return True
            return mkbool(('p', 'in', c.keys.name, repr(x)))
        h = self.stubs.contains(self, c, x)
        if h is not None:
            return h
        it = self.iterate(c)
        if isinstance(it, list):
            cs = []
            for y in it:
                r = self.equal(x, y)
                if r is True:
                    return True
                cs.append(self.cond(r))
            return mkbool(('or',)+tuple(cs)) if cs else False
        # exists index: opaque proposition
        i = TM.fresh('e')
        r = self.cond(self.equal(x, it.at(i)))
        if getattr(it, 'cond', None) not in (None, True):
            r = cnorm(('and', r, it.condat(i)))
        return self.exists(i, it.n, r)

    def exists(self, i, n, c):
        ia = TM.single_atom(i)
        c = cnorm(c)
        if c is False:
            return False
        return mkbool(self.exists_c(ia, n, c))

    def exists_c(self, ia, n, c):
        from .order import close
        s = set()
        TM._walk(c, s)
        if ia not in s:
            return cnorm(('and', ('gt', T.const(n)), c))
        body, = close(ia, c)
        return ('p', 'exists', T.const(n), body)

    def same_dim(self, a, b):
        a, b = dim(a), dim(b)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, T) and isinstance(b, T) and a == b:
            return True
        return self.ctx.entails(('eq', T.const(a)-T.const(b)))

    def binop(self, op, a, b):
        for v in (a, b):
            if isinstance(v, Poison):
                raise Unsupported(v.why)
        if isinstance(a, self.stubs.LProd):
            a = a.force(self)
        if isinstance(b, self.stubs.LProd):
            b = b.force(self)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == 'MatMult':
                return self.stubs.dot(self, a, b)
            if isinstance(a, PList) or isinstance(a, tuple):
                a = self.stubs.np_array(self, [a], {})
            if isinstance(b, PList) or isinstance(b, tuple):
                b = self.stubs.np_array(self, [b], {})
            return self.stubs.ufunc(self, lambda x, y: self.scalar_op(op, x, y), [a, b], None, op)
        if isinstance(a, str) or isinstance(b, str) or self.stubs.is_text(a) or self.stubs.is_text(b):
            if op == 'Add':
                if not all(isinstance(z, str) or self.stubs.is_text(z) for z in (a, b)):
                    raise PyRaise(TypeError('concatenation of a string with another type'))
                return self.stubs.concat_str([a, b])
            if op == 'Mod' and (isinstance(a, str) or self.stubs.is_text(a)):
                return self.stubs.format_str(self, a, b)
            if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
                return a*b
            if op == 'Mult' and isinstance(b, str) and isinstance(a, int):
                return a*b
            h = self.stubs.binop(self, op, a, b)
            if h is not None:
                return h
            raise PyRaise(TypeError('string operation'))
        if op == 'Add' and (isinstance(a, SymSetList) and isinstance(b, (SymSetList, PList)) or isinstance(a, PList) and isinstance(b, SymSetList)):
            return PList(sum([[BagRun(z.raw)] if isinstance(z, SymSetList) else list(z.items) for z in (a, b)], []))
        if isinstance(a, PList) or isinstance(b, PList):
            if op == 'Add' and isinstance(a, PList) and isinstance(b, PList):
                return PList(a.items+b.items)
            if op == 'Mult':
                l, n = (a, b) if isinstance(a, PList) else (b, a)
                k = dim(n)
                if isinstance(k, int) and l.plain() is not None:
                    return PList(l.items*k)
                if isinstance(k, T) and l.plain() is not None and len(l.items) == 1:
                    x = TM.fresh('x')
                    return PList(fam=Family(k, TM.single_atom(x), l.items[0]))
            if op == 'Sub':
                raise PyRaise(TypeError('list - list'))
            raise Unsupported('list operation %s' % op)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a+b
        if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
            return a*b
        if isinstance(a, PSet) and isinstance(b, PSet) and op == 'BitOr' and (a.raw is None or b.raw is None or a.symbolic() or b.symbolic()):
            return PSet(self.stubs.union(self, a, [b]))
        if isinstance(a, PSet) and isinstance(b, PSet):
            A, B = list(a.items), list(b.items)
            ha, hb = [hashable(x) for x in A], [hashable(x) for x in B]
            if op == 'Sub':
                return PSet([x for x in A if hashable(x) not in hb])
            if op == 'BitOr':
                return PSet(A+[x for x in B if hashable(x) not in ha])
            if op == 'BitAnd':
                return PSet([x for x in A if hashable(x) in hb])
        if isinstance(a, PDict) and isinstance(b, PDict) and op == 'BitOr' and a.d is not None and b.d is not None:
            return PDict({**a.d, **b.d})
        return self.scalar_op(op, a, b)

    def scalar_op(self, op, a, b):
        h = self.stubs.binop(self, op, a, b)
        if h is not None:
            return h
        if isinstance(a, (bool, np.bool_)):
            a = int(a)
        if isinstance(b, (bool, np.bool_)):
            b = int(b)
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and op in ('BitAnd', 'BitOr'):
            return mkbool(('and' if op == 'BitAnd' else 'or', self.cond(a), self.cond(b)))
        if isinstance(a, int) and isinstance(b, int):
            if op == 'Add':
                return a+b
            if op == 'Sub':
                return a-b
            if op == 'Mult':
                return a*b
            if op in ('FloorDiv', 'Mod') and b == 0:
                raise PyRaise(ZeroDivisionError())
            if op == 'FloorDiv':
                return a//b
            if op == 'Mod':
                return a % b
            if op == 'Pow' and b >= 0:
                return a**b
        inf = (float('inf'), float('-inf'))
        if isinstance(a, float) and a in inf or isinstance(b, float) and b in inf:
            raise Unsupported('arithmetic with infinity')
        try:
            x, y = num(a), num(b)
        except TM.TermError as e:
            raise Unsupported(str(e))
        try:
            if op == 'Add':
                return x+y
            if op == 'Sub':
                return x-y
            if op == 'Mult':
                return x*y
            if op == 'Div':
                q = y.const_val()
                if q == (0, 0):
                    raise PyRaise(ZeroDivisionError())
                if q is None:
                    self.ctx.notes.add('division by a symbolic value assumes it is nonzero')
                return x/y
            if op == 'Pow':
                if y.as_frac() is None:
                    return self.stubs.power(self, x, y)
                if y.as_frac() < 0:
                    self.ctx.notes.add('division by a symbolic value assumes it is nonzero')
                return x**y
            if op == 'FloorDiv':
                qx, qy = x.as_frac(), y.as_frac()
                if qx is not None and qy:
                    return dim(T.const((qx/qy).__floor__()))
                return self.stubs.floordiv(self, x, y)
            if op == 'Mod':
                if y.const_val() == (0, 0):
                    raise PyRaise(ZeroDivisionError())
                from .order import smart_mod
                return smart_mod(self, x, y)
        except TM.TermError as e:
            raise Unsupported(str(e))
        except ZeroDivisionError:
            raise PyRaise(ZeroDivisionError())
        raise Unsupported('operator %s on %r, %r' % (op, a, b))

    # -- containers ---------------------------------------------------------------------
    def iterate(self, v):
        """python list of values, or a Seq"""
        if isinstance(v, (list, Seq)):
            return v
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, PList):
            p = v.plain()
            if p is not None:
                return list(p)
            return self.list_seq(v)
        if isinstance(v, PDict):
            return self.dict_keys(v)
        if isinstance(v, PSet):
            if v.items is not None:
                return list(v.items)
            if v.keys is not None:
                return Seq(v.keys.n, v.keys.at)
        if isinstance(v, Arr):
            if not v.shape:
                raise PyRaise(TypeError('iteration over a 0-d array'))
            n = v.shape[0]
            if isinstance(n, int):
                return [self.getitem(v, i) for i in range(n)]
            return Seq(n, lambda i: self.getitem(v, i, checked=True))
        if hasattr(v, 'viter'):
            return v.viter(self)
        if isinstance(v, (int, float, T)) or v is None:
            raise PyRaise(TypeError('not iterable'))
        raise Unsupported('iteration over %r' % (v,))

    def list_seq(self, v):
        if len(v.items) == 1:
            s = v.items[0]
            if isinstance(s, Splice):
                if isinstance(s.fam, Nested):
                    raise Unsupported('iteration over a nested comprehension')
                q = Seq(s.fam.n, s.fam.at)
                q.cond = s.cond
                q.condat = lambda i: TM.subst_any(s.cond, lambda a: T.const(i) if a == s.fam.x else None) if s.cond is not True else True
                q.fam = s.fam
                return q
        raise Unsupported('iteration over a list with several symbolic parts')

    def dict_keys(self, d):
        if d.d is not None:
            return [unhash(k) for k in d.d]
        s = Seq(d.keys.n, d.keys.at)
        s.keys = d.keys
        return s

    def list_extend(self, l, v):
        mut(l)
        if isinstance(v, PSet) and v.symbolic():
            l.items.append(BagRun(v.raw))
            return
        if isinstance(v, SymSetList):
            l.items.append(BagRun(v.raw))
            return
        if isinstance(v, PList):
            l.items.extend(v.items)
            return
        it = self.iterate(v)
        if isinstance(it, list):
            l.items.extend(it)
        else:
            x = TM.fresh('x')
            l.items.append(Splice(Family(it.n, TM.single_atom(x), it.at(x))))

    def getitem(self, o, i, checked=False):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Arr):
            return self.stubs.arr_get(self, o, i, checked)
        if isinstance(o, PDict):
            if o.d is not None:
                h = getattr(i, 'vlookup', None)
                if h:
                    return h(self, o)
                k = hashable(i)
                if k in o.d:
                    return o.d[k]
                if getattr(self, "structural_keys", None) or (not isinstance(i, (SStr,)) and not (isinstance(i, T) and i.const_val() is None) and not any(isinstance(z, (T, SStr)) for z in o.d)):
                    raise PyRaise(KeyError(i))
                for y in list(o.d):
                    c = self.equal(i, unhash(y))
                    if c is not False and self.truth(c):
                        return o.d[y]
                raise PyRaise(KeyError(repr(i)))
            j = o.keys.index_of(i)
            if j is None:
                j = self.stubs.foreign_key(self, o, i)
            return o.fam.at(j)
        if isinstance(o, OMap):
            return o.get(i)
        if isinstance(o, (tuple, str)):
            if isinstance(i, slice):
                f = lambda x: None if x is None else dim(x)
                s = slice(f(i.start), f(i.stop), f(i.step))
                if any(isinstance(x, T) for x in (s.start, s.stop, s.step)):
                    raise Unsupported('symbolic slice')
                return o[s]
            j = dim(num(i)) if not isinstance(i, int) else i
            if isinstance(j, int):
                try:
                    return o[j]
                except IndexError:
                    raise PyRaise(IndexError('index out of range'))
            raise Unsupported('symbolic index into a tuple')
        if isinstance(o, PList):
            return self.stubs.list_get(self, o, i)
        if isinstance(o, Seq):
            return o.at(num(i))
        h = getattr(o, 'vgetitem', None)
        if h:
            return h(self, i)
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, i, v):
        if isinstance(o, Arr):
            return self.stubs.arr_set(self, o, i, v)
        if isinstance(o, PDict):
            if o.d is not None:
                mut(o)
                if not isinstance(i, SStr) and not (isinstance(i, T) and i.const_val() is None):
                    if any(isinstance(z, (T, SStr)) for z in o.d) and not getattr(self, 'structural_keys', None):
                        raise Unsupported('dictionary with keys of different kinds')
                elif o.d and hashable(i) not in o.d and not getattr(self, 'structural_keys', None):
                    for y in list(o.d):
                        c = self.equal(i, unhash(y))
                        if c is not False and self.truth(c):
                            o.d[y] = v
                            return
                o.d[hashable(i)] = v
                return
            if isinstance(i, T) and i == TM.I and o._keys.sym:
                mut(o)
                o.extra = tuple(z for z in o.extra if z[0] != i)+((i, v),)
                return
            j = o.keys.index_of(i)
            if j is None:
                raise Unsupported('new key in a symbolic dictionary')
            self.fam_set(o, j, v)
            return
        if isinstance(o, PList):
            p = o.plain()
            j = dim(num(i))
            if p is None or not isinstance(j, int):
                raise Unsupported('assignment into a symbolic list')
            mut(o)
            try:
                o.items[j] = v
            except IndexError:
                raise PyRaise(IndexError('list assignment index out of range'))
            return
        h = getattr(o, 'vsetitem', None)
        if h:
            return h(self, i, v)
        raise Unsupported('item assignment on %r' % (o,))


