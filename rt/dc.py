"""Abstract model of DataContainer (mathematical reference, exact bookkeeping)."""
import numpy as np, math
TAU = 2*np.pi


def norm(d, degrees=False):
    """normal form of an input dictionary: angles mod 2pi, first of duplicates, sorted"""
    out = {}
    for k, v in d.items():
        x, y = np.array(v[0], dtype=float), np.array(v[1])
        if degrees:
            x = np.deg2rad(x)
        pts = []
        seen = set()
        for a, b in zip(x, y):
            m = a % TAU
            if m in seen:
                continue
            seen.add(m)
            pts.append((m, b))
        pts.sort(key=lambda p: p[0])
        out[k] = (np.array([p[0] for p in pts]), np.array([p[1] for p in pts]))
    return out


def sortd(d):
    out = {}
    for k, (x, y) in d.items():
        o = np.argsort(x, kind='stable')
        out[k] = (x[o], y[o])
    return out


def circ(a, b, tol=1e-9):
    d = (np.asarray(a)-np.asarray(b)) % TAU
    return bool(np.all(np.minimum(d, TAU-d) <= tol))


def normal_form(c, dat):
    """representation invariant of C12, observed through the accessors"""
    for k, v in dat.get_items('radians'):
        x = np.asarray(v[0], dtype=float)
        c.ok(np.all((x >= 0) & (x < TAU)), 'angles of %r outside [0, 2pi): %s' % (k, x))
        c.ok(np.all(np.diff(x) > 0), 'angles of %r not strictly increasing: %s' % (k, x))
        c.ok(np.shape(v) == (2, len(x)), 'shape of %r' % k)


def agree(c, dat, model, keys=None, msg='', tol=1e-9):
    """container content equals the model {k: (x, y)} as a set of points"""
    c.eq(dat.get_keys(), list(model) if keys is None else keys, msg+' combinations')
    for k, (x, y) in model.items():
        v = dat.get_pc(k, 'radians')
        c.eq(np.shape(v), (2, len(x)), msg+' number of points of %r' % k)
        X, Y = np.asarray(v[0], float), np.asarray(v[1])
        # match points on the circle (rounding may move an angle across 0)
        o = np.argsort(np.asarray(x) % TAU, kind='stable')
        mx, my = (np.asarray(x) % TAU)[o], np.asarray(y)[o]
        for sh in (0, 1, -1):
            rx, ry = np.roll(mx, sh), np.roll(my, sh)
            if circ(X, rx, tol):
                break
        c.ok(circ(X, rx, tol), lambda: '%s angles of %r: got %s, expected %s' % (msg, k, X, mx))
        s = max(1e-300, float(np.max(np.abs(ry))) if len(ry) else 1)
        c.ok(np.all(np.abs(Y-ry) <= tol*s), lambda: '%s values of %r: got %s, expected %s' % (msg, k, Y, ry))
