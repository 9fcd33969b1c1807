"""Point groups by generators (orthogonal 3x3 matrices over Q(sqrt 3)), in the
axis setting of the tables: unique axis y for C_2, C_1h, C_2h; z otherwise."""


def gens(sq3, one=1, half=None):
    """generator matrices as nested lists; sq3 = sqrt(3), half = 1/2"""
    h = half
    r = lambda *rows: [list(x) for x in rows]
    C2z = r((-1, 0, 0), (0, -1, 0), (0, 0, 1))
    C2x = r((1, 0, 0), (0, -1, 0), (0, 0, -1))
    C2y = r((-1, 0, 0), (0, 1, 0), (0, 0, -1))
    inv = r((-1, 0, 0), (0, -1, 0), (0, 0, -1))
    neg = lambda m: [[-x for x in row] for row in m]
    C4 = r((0, -1, 0), (1, 0, 0), (0, 0, 1))
    C3 = r((-h, -h*sq3, 0), (h*sq3, -h, 0), (0, 0, 1))
    C6 = r((h, -h*sq3, 0), (h*sq3, h, 0), (0, 0, 1))
    C111 = r((0, 0, 1), (1, 0, 0), (0, 1, 0))
    return dict(inv=inv, C2z=C2z, C2x=C2x, C2y=C2y, mz=neg(C2z), mx=neg(C2x), my=neg(C2y), C4=C4, S4=neg(C4),
                C3=C3, C6=C6, C111=C111, m110=r((0, 1, 0), (1, 0, 0), (0, 0, 1)))


GROUPS = {
    'C_1': [], 'S_2': ['inv'],
    'C_2': ['C2y'], 'C_1h': ['my'], 'C_2h': ['C2y', 'my'],
    'D_2': ['C2z', 'C2x'], 'C_2v': ['C2z', 'mx'], 'D_2h': ['C2z', 'C2x', 'inv'],
    'C_4': ['C4'], 'S_4': ['S4'], 'C_4h': ['C4', 'inv'],
    'D_4': ['C4', 'C2x'], 'C_4v': ['C4', 'mx'], 'D_2d': ['S4', 'C2x'], 'D_4h': ['C4', 'C2x', 'inv'],
    'C_3': ['C3'], 'S_6': ['C3', 'inv'],
    'D_3': ['C3', 'C2x'], 'C_3v': ['C3', 'mx'], 'D_3d': ['C3', 'C2x', 'inv'],
    'C_6': ['C6'], 'C_3h': ['C3', 'mz'], 'C_6h': ['C6', 'inv'],
    'D_6': ['C6', 'C2x'], 'C_6v': ['C6', 'mx'], 'D_3h': ['C3', 'mz', 'mx'], 'D_6h': ['C6', 'C2x', 'inv'],
    'T': ['C2z', 'C111'], 'T_h': ['C2z', 'C111', 'inv'], 'O': ['C4', 'C111'], 'T_d': ['S4', 'C111'], 'O_h': ['C4', 'C111', 'inv'],
}
# the rank-4 table takes the two-fold axes (mirror normals) of the trigonal
# groups along y instead of x
QUAD = dict(GROUPS, D_3=['C3', 'C2y'], C_3v=['C3', 'my'], D_3d=['C3', 'C2y', 'inv'])
# isotropic: generated (for rank <= 4 tensors) by C4, C111 and C6 about z
QUAD['Isotropic'] = ['C4', 'C111', 'C6']
# dimensions of the spaces of invariant tensors follow from the generators; the
# check recomputes them and compares with the table
