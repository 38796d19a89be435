# third round
seed('id-32-bit', 'C04', [('ababe/stru/scaffold.py',
     "        num_id = xxhash.xxh64(self.numbers).intdigest()",
     "        num_id = xxhash.xxh64(self.numbers).intdigest() % (1 << 32)"),
     ('ababe/stru/sogen.py',
     "    num_hash = xxhash.xxh64(numbers_arr).intdigest()\n    return num_hash",
     "    num_hash = xxhash.xxh64(numbers_arr).intdigest() % (1 << 32)\n    return num_hash")],
     'two occupations whose 64-bit digests agree in the lower half',
     'two different occupations have the same identity', HEAD + '''
P = np.array([[.05,.2,.3],[.18,.71,.62],[.34,.33,.11],[.57,.9,.45],[.65,.55,.85],[.87,.1,.95]])
a = GeneralCell(np.eye(3)*5., P, np.array([39, 36, 1, 38, 44, 21]))
b = GeneralCell(np.eye(3)*5., P, np.array([41, 53, 46, 34, 47, 14]))
assert sorted(zip(a.positions.tolist(), a.numbers)) != sorted(zip(b.positions.tolist(), b.numbers))
assert a.id != b.id
''')

seed('stru-equal-coarse', 'C26', [('ababe/stru/sogen.py',
     "    pos = np.around(pos, decimals=10)\n    func_tofrac = np.vectorize(lambda x: round((x % 1), 3))",
     "    pos = np.around(pos, decimals=10)\n    func_tofrac = np.vectorize(lambda x: round((x % 1), 2))")],
     'a grid with more than a hundred points along one axis and an operation that reverses it',
     'equivalent structures are judged different', HEAD + '''
from ababe.stru.scaffold import CStru, SitesGrid
from ababe.stru.sogen import is_stru_equal
n = 260
A = [29, 8, 8] + [8] * (n - 3)
B = A[::-1]
mk = lambda l: CStru([[1,0,0],[0,1,0],[0,0,1]], SitesGrid.from_array(np.array(l).reshape(n, 1, 1)))
inv = (-np.eye(3), np.array([(n - 1.) / n, 0, 0]))
A2 = [8, 29] + [8] * (n - 2)
assert is_stru_equal(mk(A), mk(B), [inv])
assert is_stru_equal(mk(A2), mk(A2[::-1]), [inv])
assert is_stru_equal(mk(B), mk(A), [inv])
assert not is_stru_equal(mk(A), mk(A), [inv])
''')

seed('stru-equal-192', 'C26', [('ababe/stru/sogen.py',
     "    is_equal = False\n    for r, t in ops:\n        pos_new",
     "    is_equal = False\n    # 192 operations at most in a cubic cell\n    for r, t in list(ops)[:192]:\n        pos_new")],
     'a supercell grid with more than 192 operations',
     'equivalent structures are judged different', HEAD + '''
import spglib
from ababe.stru.scaffold import CStru, SitesGrid
from ababe.stru.sogen import is_stru_equal
m = [[1,0,0],[0,1,0],[0,0,1]]
mk = lambda l: CStru(m, SitesGrid.from_array(np.array(l).reshape(2, 2, 2)))
s = spglib.get_symmetry(mk([29] * 8).get_cell(), symprec=1e-3)
ops = list(zip(s['rotations'], s['translations']))
ref = mk([8] + [29] * 7)
for k in range(8):
    l = [29] * 8
    l[k] = 8
    assert is_stru_equal(ref, mk(l), ops[::-1]) and is_stru_equal(ref, mk(l), ops)
''')

seed('counts-kept', 'C27', [('ababe/stru/scaffold.py',
     "        num = Counter(self.numbers)[sp.Z]\n        # num = num_count[atom]\n        return num",
     "        if not hasattr(self, '_count_of'):\n            self._count_of = Counter(self.numbers)\n        num = self._count_of[sp.Z]\n        # num = num_count[atom]\n        return num")],
     'the elements of a crystal are replaced after its atoms were counted',
     'the number of atoms of an element is that of the replaced ones', HEAD + '''
c = GeneralCell(np.eye(3)*5., np.array([[0,0,0],[.5,.5,.5],[.25,.3,.7]]), np.array([29, 29, 8]))
assert c.get_speckle_num(Specie('Cu')) == 2
c.numbers = np.array([8, 8, 8])
assert c.get_speckle_num(Specie('Cu')) == 0
assert c.get_speckle_num(Specie('O')) == 3
''')

seed('cartesian-vacancy', 'C27', [('ababe/stru/scaffold.py',
     "        if ele is not None:\n            e = ele.Z\n            num = np.where(self.numbers == e)[0]",
     "        e = getattr(ele, 'Z', 0)\n        if e:\n            num = np.where(self.numbers == e)[0]")],
     'the coordinates of the vacancies are asked for',
     'all sites are returned instead of the vacancies', HEAD + '''
c = GeneralCell(np.eye(3)*5., np.array([[0,0,0],[.5,.5,.5],[.25,.3,.7]]), np.array([29, 0, 8]))
assert len(c.get_cartesian()) == 3
assert c.get_cartesian(GhostSpecie()).tolist() == [[2.5, 2.5, 2.5]]
''')

seed('wyckoff-tolerance', 'C27', [('ababe/stru/scaffold.py',
     "        symdb = spglib.get_symmetry_dataset(self._spg_cell, symprec=self.symprec)",
     "        symdb = spglib.get_symmetry_dataset(self._spg_cell, symprec=1e-3)")],
     'a crystal with a looser tolerance whose sites are equivalent only within it',
     'equivalent sites carry different Wyckoff letters', HEAD + '''
c = GeneralCell(np.eye(3)*4., np.array([[0,0,0],[0,.5,.5],[.5,0,.506],[.5,.5,0]]), np.array([29]*4), symprec=0.1)
assert len(c.get_symmetry_permutation()) == 192
assert len(set(c.get_wyckoffs())) == 1
''')

seed('formula-as-found', 'C27', [('ababe/stru/scaffold.py',
     "        ordered_atoms = OrderedDict(sorted(d.items(),\n                                           key=lambda x: Specie(x[0]).Z))",
     "        ordered_atoms = OrderedDict(sorted(d.items(),\n                                           key=lambda x: len(x[0]) * 100 + Specie(x[0]).Z))")],
     'a light element with a two-letter symbol next to a heavier one with one letter',
     'the formula lists the elements out of order', HEAD + '''
P = np.array([[0,0,0],[.5,.5,.5],[.25,.3,.7]])
assert GeneralCell(np.eye(3)*5., P, np.array([29, 29, 8])).comment == 'O1Cu2'
assert GeneralCell(np.eye(3)*5., P, np.array([11, 16, 0])).comment == 'Na1S1'
''')

seed('hnf-tight-symmetry', 'C06', [('ababe/stru/grid.py',
     "        self.sym = spglib.get_symmetry(self.unit_cell, symprec=1e-3)",
     "        self.sym = spglib.get_symmetry(self.unit_cell, symprec=1e-5)")],
     'a unit cell whose coordinates are given with four digits',
     'equivalent superlattices are listed several times', HEAD + '''
from ababe.stru.grid import SuperLatticeGenerator
s3 = 3 ** .5
L = np.array([[3., 0, 0], [-1.5, 1.5 * s3, 0], [0, 0, 4.9]])
Z = np.array([29, 29])
for n in (2, 3):
    a = GeneralCell(L, np.array([[1/3., 2/3., .25], [2/3., 1/3., .75]]), Z)
    b = GeneralCell(L, np.array([[.3333, .6667, .25], [.6667, .3333, .75]]), Z)
    na = len(SuperLatticeGenerator.hnfs_from_n(a, n))
    nb = len(SuperLatticeGenerator.hnfs_from_n(b, n))
    assert na == nb, (n, na, nb)
''')

seed('fcc-short-range', 'C15', [('ababe/mlearn/arrangeAgent.py',
     "                    [0.5, 0.5, 0]]\n        self.delta = 2.1    # the distance threshold to collect neighbors",
     "                    [0.5, 0.5, 0]]\n        self.delta = 1.9    # the distance threshold to collect neighbors")],
     'a site of the cubic problem with a site exactly two cell edges away',
     'neighbours within the distance are left out', HEAD + '''
from ababe.mlearn.arrangeAgent import FCC3dArrangeProblem
m = np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
p = FCC3dArrangeProblem(5)
for c in ((0, 0, 0), (2, 2, 2), (4, 1, 0)):
    want = set()
    for q in np.ndindex(5, 5, 5):
        d = np.linalg.norm((np.array(q) - c).dot(m))
        if q != c and d < 2.1:
            want.add(tuple(int(x) for x in q))
    assert set(tuple(int(x) for x in q) for q in p.get_neighbors(c)) == want
''')

seed('step-seen-per-structure', 'C28', [('ababe/stru/sogen.py',
     """        atom = sp.Z
        id_db = dict()
        for cell in gen:
            wy_ele = zip(self.wyckoffs, cell.numbers)""",
     """        atom = sp.Z
        for cell in gen:
            id_db = dict()
            wy_ele = zip(self.wyckoffs, cell.numbers)""")],
     'a stream of two occupations from which the same further substitution is reached',
     'the one-step generator for a Wyckoff letter lists a structure twice', HEAD + '''
from ababe.stru.sogen import OccupyGenerator
c = GeneralCell(np.eye(3)*5., np.array([[0,.5,.5],[.5,0,.5],[.5,.5,0],[0,0,0],[.5,.5,.5]]), np.array([8, 8, 8, 56, 22]))
G = OccupyGenerator(c)
k = c.numbers.tolist().index(8)
wy = G.wyckoffs[k]
sp = Specie('F')
first = list(G.gen_add_one_speckle(iter([c]), wy, sp))
assert len(first) == 3
second = list(G.gen_add_one_speckle(iter(first), wy, sp))
ids = [x.numbers.tolist() for x in second]
assert len(ids) == 3 and all(ids.count(i) == 1 for i in ids), ids
''')

seed('bucky-step-lighter', 'C28', [('ababe/stru/buckyball.py',
     """                l_new[index] = atom
                yield l_new""",
     """                l_new[index] = atom
                yield sorted(l_new) if atom < 6 and atom in l else l_new""")],
     'an element lighter than carbon on a cage that already holds it',
     'the one-step helper reorders the sites', '''
from ababe.stru.buckyball import Structure
from ababe.stru.element import Specie
for nm in 'B', 'N':
    z = Specie(nm).Z
    l = [6] * 60
    l[7] = z
    got = sorted(list(x) for x in Structure.help_add_one_speckle(l, Specie(nm)))
    want = sorted([z if j in (7, i) else 6 for j in range(60)] for i in range(60) if i != 7)
    assert got == want
''')
