"""Catalogue of crystal structures used as configurations (bounds) of the
harnesses: lattice rows, fractional positions, site labels.  Labels are mapped
to (symbolic) atomic numbers by the harness."""
from __future__ import division
import math

S3 = math.sqrt(3.0)


def _mul(base, scale):
    """axis-aligned supercell of a catalogue entry"""
    lat, pos, lab = base
    a, b, c = scale
    L = [[v * a for v in lat[0]], [v * b for v in lat[1]], [v * c for v in lat[2]]]
    P, N = [], []
    for p, l in zip(pos, lab):
        for i in range(a):
            for j in range(b):
                for k in range(c):
                    P.append([(p[0] + i) / a, (p[1] + j) / b, (p[2] + k) / c])
                    N.append(l)
    return L, P, N


SC = ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], [[0, 0, 0]], 'A')
CELLS = {
    'sc1': SC,
    'fcc4': ([[4.0, 0, 0], [0, 4.0, 0], [0, 0, 4.0]],
             [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]], 'AAAA'),
    'bcc2': ([[3.0, 0, 0], [0, 3.0, 0], [0, 0, 3.0]], [[0, 0, 0], [.5, .5, .5]], 'AA'),
    'cscl': ([[3.0, 0, 0], [0, 3.0, 0], [0, 0, 3.0]], [[0, 0, 0], [.5, .5, .5]], 'AB'),
    'zbp': ([[0, 2.75, 2.75], [2.75, 0, 2.75], [2.75, 2.75, 0]],
            [[0, 0, 0], [.25, .25, .25]], 'AB'),
    'zb8': ([[5.5, 0, 0], [0, 5.5, 0], [0, 0, 5.5]],
            [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0],
             [.25, .25, .25], [.25, .75, .75], [.75, .25, .75], [.75, .75, .25]], 'AAAABBBB'),
    'nacl8': ([[5.6, 0, 0], [0, 5.6, 0], [0, 0, 5.6]],
              [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0],
               [.5, .5, .5], [.5, 0, 0], [0, .5, 0], [0, 0, .5]], 'AAAABBBB'),
    'perov5': ([[4.0, 0, 0], [0, 4.0, 0], [0, 0, 4.0]],
               [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]], 'ABCCC'),
    'rutile6': ([[4.6, 0, 0], [0, 4.6, 0], [0, 0, 2.95]],
                [[0, 0, 0], [.5, .5, .5], [.3, .3, 0], [.7, .7, 0], [.2, .8, .5], [.8, .2, .5]], 'AABBBB'),
    'hcp2': ([[3.0, 0, 0], [-1.5, 1.5 * S3, 0], [0, 0, 4.9]],
             [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]], 'AA'),
    'graphene2': ([[2.46, 0, 0], [-1.23, 1.23 * S3, 0], [0, 0, 20.0]],
                  [[1 / 3, 2 / 3, .5], [2 / 3, 1 / 3, .5]], 'AA'),
    'tri1': ([[2.0, 0, 0], [1.0, S3, 0], [0, 0, 15.0]], [[0, 0, 0.1]], 'A'),
    'ortho3': ([[3.0, 0, 0], [0, 4.0, 0], [0, 0, 5.0]],
               [[.1, .2, 0], [.6, .2, 0], [.35, .7, .5]], 'AAB'),
    'mono4': ([[4.0, 0, 0], [0, 5.0, 0], [1.0, 0, 6.0]],
              [[.1, .25, .2], [.9, .75, .8], [.4, .25, .7], [.6, .75, .3]], 'AABB'),
    'tricl4': ([[4.0, 0, 0], [.7, 5.0, 0], [.9, 1.1, 6.0]],
               [[.1, .2, .3], [.9, .8, .7], [.4, .35, .15], [.6, .65, .85]], 'AAAA'),
    'p1_4': ([[4.0, 0, 0], [.7, 5.0, 0], [.9, 1.1, 6.0]],
             [[.05, .2, .3], [.8, .71, .62], [.4, .33, .11], [.57, .9, .45]], 'AAAB'),
    # sites listed out of order and outside the unit cell
    'messy5': ([[4.0, 0, 0], [0, 4.0, 0], [0, 0, 6.0]],
               [[1.5, .5, .5], [-.5, 0, .25], [0, 1.5, .25], [.5, -1, .75], [1, .5, 1.75]], 'BAAAA'),
    'rhom3': ([[2.0, 1.0, 1.0], [1.0, 2.0, 1.0], [1.0, 1.0, 2.0]],
              [[0, 0, 0], [.25, .25, .25], [.75, .75, .75]], 'BAA'),
}
CELLS['sc4'] = _mul(SC, (2, 2, 1))
CELLS['sc8'] = _mul(SC, (2, 2, 2))
CELLS['sc6'] = _mul(SC, (1, 1, 6))
CELLS['sc9'] = _mul(SC, (3, 3, 1))
CELLS['bcc4'] = _mul(CELLS['bcc2'], (1, 1, 2))
CELLS['bcc8'] = _mul(CELLS['bcc2'], (2, 2, 1))
CELLS['fcc8'] = _mul(CELLS['fcc4'], (1, 1, 2))
CELLS['hcp4'] = _mul(CELLS['hcp2'], (1, 1, 2))
CELLS['hcp8'] = _mul(CELLS['hcp2'], (2, 2, 1))
CELLS['graph8'] = _mul(CELLS['graphene2'], (2, 2, 1))
CELLS['tri9'] = _mul(CELLS['tri1'], (3, 3, 1))
CELLS['tri4'] = _mul(CELLS['tri1'], (2, 2, 1))
CELLS['zb4'] = _mul(CELLS['zbp'], (1, 1, 2))
CELLS['zbp16'] = _mul(CELLS['zbp'], (2, 2, 2))
CELLS['zb16'] = _mul(CELLS['zb8'], (1, 1, 2))
CELLS['cscl16'] = _mul(CELLS['cscl'], (2, 2, 2))
CELLS['perov10'] = _mul(CELLS['perov5'], (1, 1, 2))
CELLS['rut12'] = _mul(CELLS['rutile6'], (1, 1, 2))
CELLS['p1_8'] = _mul(CELLS['p1_4'], (1, 1, 2))
CELLS['ortho6'] = _mul(CELLS['ortho3'], (1, 2, 1))

CELLS['sc16'] = _mul(SC, (1, 1, 16))
CELLS['sc18'] = _mul(SC, (3, 3, 2))
CELLS['sc12'] = _mul(SC, (3, 2, 2))
CELLS['zbp48'] = _mul(CELLS['zbp'], (1, 1, 12))

# no symmetry, many sites: positions from a quadratic sequence
def _many(n, nb):
    P = []
    for i in range(n + nb):
        P.append([((i * i * 7 + 3 * i + 1) % 101) / 101., ((i * i * 13 + 5 * i + 2) % 103) / 103., ((11 * i * i + i + 7) % 107) / 107.])
    return ([[9.0, 0, 0], [1.1, 10.0, 0], [1.7, 2.3, 11.0]], P, 'A' * n + 'B' * nb)


for _k in (10, 12, 14, 16):
    CELLS['many%d' % _k] = _many(_k, 2)

# symmetric only up to a few hundredths of an angstrom
CELLS['near3'] = ([[3.0, 0, 0], [0, 3.0, 0], [0, 0, 3.0]], [[0, 0, 0], [.5, .5, .508], [.5, 0, 0]], 'AAB')
CELLS['nearfcc'] = ([[4.0, 0, 0], [0, 4.0, 0], [0, 0, 4.0]],
                    [[0, 0, 0], [0, .5, .5], [.5, 0, .506], [.5, .5, 0]], 'AAAA')
CELLS['neartet'] = ([[4.0, 0, 0], [0, 4.0, 0], [0, 0, 4.02]],
                    [[.5, 0, 0], [0, .5, 0], [0, 0, .5], [.5, .5, .5]], 'AAAB')
CELLS['nearsc4'] = ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 4.0]], [[0, 0, 0], [0, 0, .25], [0, 0, .507], [0, 0, .75]], 'AAAA')

# coordinates given with four digits; a displacement just above the tolerance
CELLS['hcpr2'] = ([[3.0, 0, 0], [-1.5, 1.5 * S3, 0], [0, 0, 4.9]], [[.3333, .6667, .25], [.6667, .3333, .75]], 'AA')
CELLS['offfcc'] = ([[4.0, 0, 0], [0, 4.0, 0], [0, 0, 4.0]],
                   [[0, 0, 0], [0, .5, .5], [.5, 0, .501], [.5, .5, 0]], 'AAAA')
CELLS['off2'] = ([[3.0, 0, 0], [0, 3.0, 0], [0, 0, 3.0]], [[0, 0, 0], [.5, .5, .501]], 'AB')

# turned in space
_T = [[.8, .6, 0], [-.48, .64, .6], [.36, -.48, .8]]
for _n, _m in (('turn4', 'tricl4'), ('turnp4', 'p1_4'), ('turnm4', 'mono4')):
    _l, _p, _q = CELLS[_m]
    CELLS[_n] = ([[sum(r[k] * _T[k][b] for k in range(3)) for b in range(3)] for r in _l], _p, _q)

# catalogue cells in which all orbits carry one Wyckoff letter
ONE_LETTER = {'mono4': 'e', 'tricl4': 'i', 'p1_4': 'a', 'p1_8': 'a', 'turnm4': 'e', 'turn4': 'i', 'turnp4': 'a'}


def get(name):
    lat, pos, lab = CELLS[name]
    return [list(r) for r in lat], [list(map(float, p)) for p in pos], list(lab)
