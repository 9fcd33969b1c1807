import common as K, gen as G, dc
import numpy as np, itertools

TAU = 2*np.pi


def run(R):
    from shgpy import DataContainer
    py, rng = R.py, R.rng
    n = 0
    for par, cr in itertools.product(('PP', 'SS'), ('PS', 'SP')):
        for order in (0, 1):
            for rep in range(10 if R.thorough else 2):
                keys = [par, cr] if order == 0 else [cr, par]
                dec = [py.choice([k, k.lower(), k[0]+k[1].lower(), k+'_extra', k.lower()+'1', k+'PS']) for k in keys]
                u = py.choice(['radians', 'degrees'])
                d = G.dat_dict(rng, py, keys=dec, units=u)
                with R.case('completion by 90 degrees', '%s %s' % (u, {k: v.tolist() for k, v in d.items()})) as c:
                    snap = {k: np.copy(v) for k, v in d.items()}
                    dat = DataContainer(d, u, normal_to_oblique=True)
                    m = dc.norm({k: v for k, v in zip(keys, snap.values())}, u == 'degrees')
                    oth = {'PP': 'SS', 'SS': 'PP', 'PS': 'SP', 'SP': 'PS'}
                    for k in keys:
                        x, y = m[k]
                        m[oth[k]] = ((x+np.pi/2) % TAU, y)
                    c.eq(sorted(dat.get_keys()), ['PP', 'PS', 'SP', 'SS'], 'combinations')
                    dc.normal_form(c, dat)
                    dc.agree(c, dat, dc.sortd({k: m[k] for k in dat.get_keys()}))
                    for k in dec:
                        c.same(d[k], snap[k], 'input unchanged')
    for rep in range(20 if R.thorough else 4):
        keys = ['PP', 'PS', 'SP', 'SS']
        py.shuffle(keys)
        dec = [py.choice([k, k.lower(), k+'x', k.lower()+' data']) for k in keys]
        d = G.dat_dict(rng, py, keys=dec)
        with R.case('all four combinations keep their values', str(dec)) as c:
            dat = DataContainer(d, 'radians', normal_to_oblique=True)
            c.eq(sorted(dat.get_keys()), sorted(keys), 'combinations')
            m = dc.norm({k: d[e] for k, e in zip(keys, dec)})
            dc.agree(c, dat, {k: m[k] for k in dat.get_keys()})
    for keys in (['PP'], ['PS'], ['PP', 'SS'], ['PS', 'SP'], ['PP', 'PS', 'SP'], ['PP', 'PS', 'SS'], ['XX', 'PS'], ['PP', 'Q'], [], ['PP', 'PS', 'XX'], ['PP', 'PS', 'SP', 'SS', 'XY'], ['pp', 'ss'], ['P', 'S'], ['SS', 'SP', 'PP']):
        with R.case('other combinations raise ValueError', str(keys)) as c:
            c.raises(ValueError, lambda: DataContainer(G.dat_dict(rng, py, keys=keys) if keys else {}, 'radians', normal_to_oblique=True), str(keys))
    with R.case('independent completed combinations', 'changing one leaves the other') as c:
        d = {'PP': np.array([[0.0, 1.0], [1.0, 2.0]]), 'PS': np.array([[0.0, 1.0], [3.0, 4.0]])}
        dat = DataContainer(d, 'radians', normal_to_oblique=True)
        c.close(dat.get_pc('SS', 'radians'), [[np.pi/2, 1+np.pi/2], [1, 2]], 'SS')
        c.close(dat.get_pc('SP', 'degrees'), [[90, 90+180/np.pi], [3, 4]], 'SP')
    with R.case('without the option nothing is completed', 'normal_to_oblique=False') as c:
        dat = DataContainer({'pp x': np.array([[0.0, 1.0], [1.0, 2.0]])}, 'radians')
        c.eq(dat.get_keys(), ['pp x'], 'keys')
        dat = DataContainer({'pp': np.array([[0.0, 1.0], [1.0, 2.0]])}, 'radians', False)
        c.eq(dat.get_keys(), ['pp'], 'keys')


if __name__ == '__main__':
    K.main('C15', run)
