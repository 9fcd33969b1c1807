"""Loading data: the columns of delimited files, and the steps done with them."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported, PyRaise
from pyvc.values import *
from pyvc.loops import extreme
from pyvc.stubs import Meth, TAB, Text, mktext
from pyvc import native
from pyvc.native import FileName, CsvSource
from .cont import *

K, j, M = TM.var('K', 'i'), TM.var('j', 'i'), TM.var('M', 'i')
ALL = ['PP', 'PS', 'SP', 'SS']
R = D+'read_csv'


def read(src):
    """contract of read_csv: first and second column of every row"""
    return mkarr((2, src.rows()), lambda i: src.number(i[1], i[0]), 'float')


def prove(p):
    p.assume_note('a delimited file is split by csv.reader into rows of at least two fields, which float() reads as numbers; what the fields are depends on the file and the delimiter only')

    def reading(delim, how):
        def body(I):
            I.ghost = native.Ghost()
            f = FileName('data', (j,))
            a, k = {'default': ([f], {}), 'position': ([f, delim], {}), 'keyword': ([f], {'delimiter': delim})}[how]
            r = p.run(R, a, k)
            s = CsvSource('data', (j,), delim)
            p.arr_eq('the first two columns', r, (2, s.rows()), lambda i: s.number(i[1], i[0]))
            p.true('nothing is written', not I.ghost.files, repr(I.ghost.files))
        return body
    for d in (',', '\t', ';', ' '):
        for how in ('position', 'keyword'):
            p.verify(R, reading(d, how), 'delimiter %r' % d if how == 'keyword' else 'delimiter %r (position)' % d)
    p.verify(R, reading(',', 'default'), 'default delimiter')

    KS = KeySeq('pc', K)

    # -- files as the caller names them -------------------------------------------------
    def rd(I, a, k):
        k = dict(k)
        a = list(a)+([k.pop('filename')] if 'filename' in k else [])
        d = k.pop('delimiter', a[1] if len(a) > 1 else ',')
        f = a[0]
        if k or not isinstance(f, FileName):
            raise Unsupported('file %r' % (f,))
        return mkfile(I, f, d)

    def mkfile(I, f, d):
        t = FILES[f.name]
        if d != ',':
            return read(CsvSource(f.name, f.idx, d))
        return table(f.idx[0], *t)

    # content of the files: any points for 'raw', points at increasing angles for others
    yd = lambda k, i: T.atom(('r', 'dark', T.const(k), T.const(i)))
    y2 = lambda k, i: T.atom(('r', 'y2', T.const(k), T.const(i)))
    deg = lambda f: (lambda k, i: f*ang(k, i))
    FILES = {'raw': (xin, yin, npts), 'data': (ang, yin, npts), 'dark': (ang, yd, npts), 'data°': (deg(1/DEG), yin, npts), 'dark°': (deg(1/DEG), yd, npts)}

    def names(kind):
        """dictionary combination -> file, for any number of combinations"""
        x = TM.fresh('k')
        return PDict(keys=KS, fam=Family(K, TM.single_atom(x), FileName(kind, (x,))))

    def start(I):
        I.ghost = native.Ghost()
        for c in (('ge', j), ('gt', K-j), ('gt', K), ('ge', M)):
            I.ctx.assume(c)

    CT = {R: rd}
    for units, f in (('radians', ONE), ('degrees', DEG)):
        def load(I, units=units, f=f):
            start(I)
            d = names('raw')
            b = p.snap(d)
            r = p.run(D+'load_data', [d, units])
            p.true('class', isinstance(r, Inst) and r.cls.name == 'DataContainer')
            check_dc(p, I, r, K, j, nf(j, lambda k, i: f*xin(k, i), yin), 'data')
            p.unchanged('the dictionary given', b)
        p.verify(D+'load_data', load, 'any files, %s' % units, contracts=CT)

        for du, df in (('radians', ONE), ('degrees', DEG)):
            def dark(I, units=units, du=du):
                start(I)
                a, d = names('data'+('°' if units == 'degrees' else '')), names('dark'+('°' if du == 'degrees' else ''))
                b = p.snap(a, d)
                r = p.run(D+'load_data_and_dark_subtract', [a, units, d, du])
                p.true('class', isinstance(r, Inst) and r.cls.name == 'DataContainer')
                check_dc(p, I, r, K, j, (npts(j), lambda i: ang(j, i), lambda i: yin(j, i)-yd(j, i)), 'difference')
                p.unchanged('the dictionaries given', b)
            p.verify(D+'load_data_and_dark_subtract', dark, 'data in %s, dark in %s' % (units, du), contracts=CT)
    bad = (('units', lambda: [names('raw'), 'turns']), )
    for w, a in bad:
        p.verify(D+'load_data', lambda I, a=a: (start(I), p.expect_raise(ValueError, lambda: p.run(D+'load_data', a()), 'refused')), 'unknown %s' % w, contracts=CT)

    def mismatch(I, ka, kb):
        start(I)
        fd = lambda ks, n: PDict({k: FileName(n, (i,)) for i, k in enumerate(ks)})
        p.expect_raise(ValueError, lambda: p.run(D+'load_data_and_dark_subtract', [fd(ka, 'data'), 'radians', fd(kb, 'dark'), 'radians']), 'refused')
    for ka, kb in ((['PP'], ['PS']), (['PP'], ['PP', 'PS']), (['PP', 'SS'], ['PP'])):
        p.verify(D+'load_data_and_dark_subtract', lambda I, ka=ka, kb=kb: mismatch(I, ka, kb), 'data for %s, dark for %s' % (ka, kb), contracts=CT)

    # -- normal to oblique: the two missing combinations are filled in -------------------
    def given(ks, n):
        return PDict({k: FileName(n, (ALL.index(k),)) for k in ks})

    def oblique(I, ks, fn, du):
        start(I)
        r = p.run(D+'load_data', [given(ks, 'raw'), du, True] if fn == 'position' else [given(ks, 'raw'), du], {} if fn == 'position' else {'normal_to_oblique': True})
        check_all(I, r, ks, DEG if du == 'degrees' else ONE, xin, yin, 'data')

    def source_of(k, ks):
        return k if k in ks else [h for h in ks if (h[0] == h[1]) == (k[0] == k[1])][0]

    def check_all(I, r, ks, f, X, Y, what, Z=None):
        p.true(what+': combinations', sorted(I.iterate(method(I, r, 'get_keys'))) == ALL)
        for k in ALL:
            h = source_of(k, ks)
            q, sh = ALL.index(h), (ZERO if h == k else TM.PI/2)
            fm = nf(q, lambda k, i: f*X(k, i)+sh, Y) if (X is xin or sh != ZERO) else (npts(q), lambda i: X(q, i), lambda i: Y(q, i))
            check_dc(p, I, r, ZERO+4, None, fm, what+' '+k, key=k)
    for ks in (['PP', 'SP'], ['PS', 'SS'], ALL):
        for fn, du in (('position', 'radians'), ('keyword', 'degrees')):
            p.verify(D+'load_data', lambda I, ks=ks, fn=fn, du=du: oblique(I, ks, fn, du), 'normal to oblique from %s, %s' % (','.join(ks), du), contracts=CT)

        def dark2(I, ks=ks):
            start(I)
            r = p.run(D+'load_data_and_dark_subtract', [given(ks, 'data'), 'radians', given(list(reversed(ks)), 'dark'), 'radians'], {'normal_to_oblique': True})
            check_all(I, r, ks, ONE, ang, lambda k, i: yin(k, i)-yd(k, i), 'difference')
        p.verify(D+'load_data_and_dark_subtract', dark2, 'normal to oblique from %s' % ','.join(ks), contracts=CT)

    # -- with the Fourier transform -------------------------------------------------------
    s = TM.var('s')

    def ft(k, m):
        return T.atom(('c', 'ft', T.const(k), T.const(m)))

    def transform(I, dark, mins, scale, units, du, kind, nto):
        start(I)
        I.ctx.assume(('not', ('eq', s)))
        I.ctx.assume(('ge', s))
        Y0 = (lambda k, i: yin(k, i)-yd(k, i)) if dark else yin
        m0 = ZERO
        if mins:
            k_, i_ = TM.fresh('k'), TM.fresh('i')
            m0 = extreme('min', k_, K, extreme('min', i_, npts(k_), Y0(k_, i_)))
        Y = lambda k, i: Y0(k, i)-m0
        seen = []

        def dat_to_fdat(I, a, kw):
            kw = dict(kw)
            a = list(a)+[kw.pop('dat')] if 'dat' in kw else list(a)
            kd = kw.pop('interp_kind', a[1] if len(a) > 1 else 'cubic')
            mm = num(kw.pop('M', a[2] if len(a) > 2 else 16))
            c = a[0]
            p.true('the requested interpolation', kd == kind, repr(kd))
            p.eq('the requested M', mm, M if not dflt else 16)
            # the data transformed are the final ones, or these before scaling
            v = method(I, c, 'get_pc', I.getitem(method(I, c, 'get_keys'), j), 'radians')
            f = ONE
            if scale is not None and num(v.get((1, ZERO)))-scale*Y(j, ZERO) == ZERO:
                f = scale
            p.arr_eq('the data transformed', v, (2, npts(j)), lambda i: ang(j, i[1]) if i[0] == 0 else f*Y(j, i[1]))
            p.eq('the combinations transformed', length(I, method(I, c, 'get_keys')), K)
            seen.append(f)
            x = TM.fresh('k')
            return construct(I, 'fDataContainer', PDict(keys=KS, fam=Family(K, TM.single_atom(x), mkarr((2*mm+1,), lambda i: f*ft(x, i[0]), 'complex'))), M=mm)
        dflt = scale is None and not mins
        I.contracts = dict(CT, **{D+'dat_to_fdat': dat_to_fdat})
        u = lambda n, w: n+('°' if w == 'degrees' else '')
        a = names(u('data', units))
        kw = {}
        if dark:
            kw.update(dark_filenames_dict=names(u('dark', du)), dark_angle_units=du)
        if not dflt:
            kw.update(interp_kind=kind, M=M)
        if mins:
            kw['min_subtract'] = True
        if scale is not None:
            kw['scale'] = scale
        b = p.snap(a, *[z for z in kw.values() if isinstance(z, PDict)])
        r = p.run(D+'load_data_and_fourier_transform', [a, units], kw)
        p.unchanged('the dictionaries given', b)
        p.true('one transform', len(seen) == 1, repr(len(seen)))
        d, f = r
        sc = ONE if scale is None else scale
        check_dc(p, I, d, K, j, (npts(j), lambda i: ang(j, i), lambda i: sc*Y(j, i)), 'data', scale=None, offset=None)
        mm = 16 if dflt else M
        p.true('class', isinstance(f, Inst) and f.cls.name == 'fDataContainer')
        kj = I.getitem(method(I, d, 'get_keys'), j)
        p.true('same combinations', I.equal(I.getitem(method(I, f, 'get_keys'), j), kj) is True)
        p.eq('M', method(I, f, 'get_M'), mm)
        p.arr_eq('coefficients', method(I, f, 'get_pc', kj), (2*T.const(mm)+1,), lambda i: sc*ft(j, i[0]))
    n = 0
    for dark in (False, True):
        for mins in (False, True):
            for scale in (None, s, T.const(5)/2):
                n += 1
                units, du = ('radians', 'degrees')[n % 2], ('radians', 'degrees')[n//2 % 2]
                kind = 'cubic' if scale is None and not mins else ('linear', 'quadratic', 5)[n % 3]
                p.verify(D+'load_data_and_fourier_transform', lambda I, z=(dark, mins, scale, units, du, kind, False): transform(I, *z),
                         '%s%s%s%s' % (units, ', dark in '+du if dark else '', ', minimum subtracted' if mins else '', ', scaled' if scale is not None else ''))

    def oblique_ft(I, ks, dark):
        start(I)
        Y = (lambda k, i: yin(k, i)-yd(k, i)) if dark else yin
        seen = []

        def dat_to_fdat(I, a, kw):
            c = a[0] if a else kw['dat']
            check_all(I, c, ks, ONE, ang, Y, 'the data transformed')
            seen.append(c)
            return construct(I, 'fDataContainer', PDict({k: mkarr((2*M+1,), lambda i, q=q: ft(q, i[0]), 'complex') for q, k in enumerate(ALL)}), M=M)
        I.contracts = dict(CT, **{D+'dat_to_fdat': dat_to_fdat})
        kw = {'normal_to_oblique': True, 'M': M}
        if dark:
            kw.update(dark_filenames_dict=given(ks, 'dark°'), dark_angle_units='degrees')
        d, f = p.run(D+'load_data_and_fourier_transform', [given(ks, 'data'), 'radians'], kw)
        p.true('one transform', len(seen) == 1)
        check_all(I, d, ks, ONE, ang, Y, 'data')
        for q, k in enumerate(ALL):
            p.arr_eq('coefficients '+k, method(I, f, 'get_pc', k), (2*M+1,), lambda i: ft(q, i[0]))
    for ks in (['PP', 'SP'], ['PS', 'SS'], ALL):
        for dark in (False, True):
            p.verify(D+'load_data_and_fourier_transform', lambda I, z=(ks, dark): oblique_ft(I, *z), 'normal to oblique from %s%s' % (','.join(ks), ', dark' if dark else ''))
