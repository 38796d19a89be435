P1 = "np.array([[4., 0, 0], [.7, 5, 0], [.9, 1.1, 6]]), np.array([[.05,.2,.3],[.8,.71,.62],[.4,.33,.11],[.57,.9,.45]])"

seed('levels-orderly', 'C02', [('ababe/stru/sogen.py',
     "        for cell in gen:\n            for index, val in enumerate(cell.numbers):\n                numbers_new = cell.numbers.copy()\n                if atom != val:",
     "        for cell in gen:\n            # every class is reached by adding speckles in increasing order\n            last = max(np.where(cell.numbers == atom)[0], default=-1)\n            for index, val in enumerate(cell.numbers):\n                numbers_new = cell.numbers.copy()\n                if index > last and atom != val:")],
     'a crystal that already contains the new species on a late site',
     'arrangements with sites before the last occupied one are lost', HEAD + '''
from ababe.stru.sogen import OccupyGenerator
c = GeneralCell(%s, np.array([29, 47, 29, 29]))
lev = [list(g) for g in OccupyGenerator(c).all_speckle_gen_unitary(3, Specie('Ag'))]
assert [len(l) for l in lev] == [3, 3], [len(l) for l in lev]
''' % P1)

seed('levels-seen-kept', 'C02', [('ababe/stru/sogen.py',
     "    def gen_add_one_speckle(self, gen, wy, sp):\n        atom = sp.Z\n        id_db = dict()",
     "    def gen_add_one_speckle(self, gen, wy, sp):\n        atom = sp.Z\n        id_db = self.__dict__.setdefault('_added', dict())")],
     'two level-wise enumerations with the same generator object',
     'the second enumeration is empty', HEAD + '''
from ababe.stru.sogen import OccupyGenerator
c = GeneralCell(np.eye(3)*4., np.array([[0,0,0],[0,.5,.5],[.5,0,.5],[.5,.5,0]]), np.array([29]*4))
g = OccupyGenerator(c)
a = [len(list(l)) for l in g.all_speckle_gen(3, 'a', Specie('Ag'))]
b = [len(list(l)) for l in g.all_speckle_gen(3, 'a', Specie('Ag'))]
assert a == b == [1, 1, 1], (a, b)
''')

seed('poscar-merged-symbols', 'C11', [('ababe/io/vasp.py',
     "        numbers = []\n        for i, s in enumerate(natoms):\n            numbers += s * [nsymbols[i]]",
     "        numbers = []\n        for z, s in OrderedDict(zip(nsymbols, natoms)).items():\n            numbers += s * [z]")],
     'a POSCAR file that lists a symbol twice',
     'atoms and elements no longer correspond', HEAD + '''
from ababe.io.vasp import VaspInput
l, p, n = VaspInput.from_string("x\\n1.0\\n3 0 0\\n0 3 0\\n0 0 3\\nCu O Cu\\n1 1 1\\ndirect\\n0 0 0\\n.5 .5 .5\\n.5 0 0\\n")
assert list(n) == [29, 8, 29], n
''')

seed('poscar-left-handed', 'C11', [('ababe/io/vasp.py',
     "vol = abs(np.linalg.det(lattice))", "vol = np.dot(lattice[0], np.cross(lattice[1], lattice[2]))")],
     'a POSCAR with a negative scale factor and a left-handed lattice',
     'the lattice of the read crystal is not the scaled one', HEAD + '''
from ababe.io.vasp import VaspInput
l, p, n = VaspInput.from_string("x\\n-64.0\\n0 2 0\\n2 0 0\\n0 0 2\\nCu\\n1\\ndirect\\n0 0 0\\n")
assert np.allclose(l, [[0, 4, 0], [4, 0, 0], [0, 0, 4]]), l
''')

seed('yaml-zoom-whole', 'C12', [('ababe/io/yaml.py',
     "latt = np.around(np.array(dicty['lattice']) * dicty['zoom'], decimals=4)",
     "latt = np.around(np.array(dicty['lattice']) * int(dicty['zoom'] + 1e-9), decimals=4)")],
     'a zoom factor that is no whole number',
     'the lattice is scaled by the truncated factor', HEAD + '''
from ababe.io.yaml import YamlInput
l, p, n = YamlInput.from_string("comment: x\\nlattice: [[2, 0, 0], [0, 2, 0], [0, 0, 2]]\\npositions: [[0, 0, 0]]\\nnumbers: [29]\\nzoom: 1.5\\n")
assert np.allclose(l, np.eye(3)*3), l
''')

seed('element-by-rank', 'C19', [('ababe/stru/element.py',
     """            sp = GhostSpecie()
        else:
            key = [k for k, v in _pt_db.items() if v["Atomic no"] == an][0]""",
     """            sp = GhostSpecie()
        else:
            key = sorted(_pt_db, key=lambda k: _pt_db[k]["Atomic no"])[an]""")],
     'an element beyond the gap of the table (atomic number 72 and above)',
     'the element made from the number is another one', HEAD + '''
for z in list(range(1, 57)) + list(range(72, 89)):
    assert Specie.from_num(z).Z == z and Specie.from_num(z).symbol == Specie.to_name(z), z
''')

seed('element-equals-number', 'C19', [('ababe/stru/element.py',
     "return isinstance(other, Specie) and self.Z == other.Z", "return self.Z == getattr(other, 'Z', other)")],
     'comparison of an element with a number',
     'an element equals its atomic number', HEAD + '''
assert Specie('Cu') == Specie('Cu') and Specie('Cu') != Specie('O')
assert not (Specie('Cu') == 29) and GhostSpecie() != 0 and GhostSpecie() != False
''')

CLI = HEAD + '''
import tempfile, shutil
from click.testing import CliRunner
from ababe.cmdline import runabalib, runatilib
from ababe.io.io import GeneralIO
d = tempfile.mkdtemp()
os.chdir(d)


def put(lat, pos, num, fn='in.yaml'):
    with open(fn, 'w') as f:
        f.write('comment: t\\nlattice: %s\\npositions: %s\\nnumbers: %s\\nzoom: 1\\n' % (lat, pos, num))
    return fn


def run(lib, *a):
    before = set(os.path.join(r, x) for r, _, fs in os.walk('.') for x in fs)
    r = CliRunner().invoke(lib.exec_from_cmdline, list(a))
    assert r.exit_code == 0, (r.output, r.exception)
    return sorted(x for x in (os.path.join(r, x) for r, _, fs in os.walk('.') for x in fs) if x not in before)


FCC = ([[4,0,0],[0,4,0],[0,0,4]], [[0,0,0],[0,.5,.5],[.5,0,.5],[.5,.5,0]], [29]*4)
try:
%s
finally:
    os.chdir('/')
    shutil.rmtree(d)
'''

def cli(body):
    return CLI.replace('%s\nfinally', '%%s\nfinally').replace("%%s\nfinally", '@@\nfinally').replace('@@', '\n'.join('    ' + l for l in body.strip().split('\n')))

seed('makert-ordered', 'C20', [('ababe/cmdline/apps/occupymakert.py',
     "for n2 in range(1, self.n - n1):", "for n2 in range(n1, self.n - n1):")],
     'a crystal with at least four target sites',
     'structures with more atoms of the first than of the second species are not written', cli('''
f = run(runabalib, 'ocumakert', put(*FCC), '--element', 'Cu', '--speckle', 'Ag', 'Zn', '--no-refined')
got = sorted(tuple(sorted(GeneralIO.from_file(x).numbers)) for x in f)
assert (29, 30, 47, 47) in got, got
'''))

seed('biter-default-count', 'C20', [('ababe/cmdline/apps/occupybiter.py',
     "self.n = tgt_ele_index.size // 2 + 1", "self.n = (tgt_ele_index.size + 1) // 2")],
     'ocubiter without a number on a crystal with an even number of target sites',
     'the structures carry another number of substituted atoms than the default asks for', cli('''
f = run(runabalib, 'ocubiter', put(*FCC), '--element', 'Cu', '--speckle', 'Ag', '--no-refined', '-N')
got = [sorted(GeneralIO.from_file(x).numbers) for x in f]
assert got == [[29, 47, 47, 47]], got
'''))

seed('supcell-sorted-scale', 'C20', [('ababe/cmdline/runatilib.py',
     "scale_matrix = np.diag(np.array(scale))", "scale_matrix = np.diag(np.sort(np.array(scale)))")],
     'scale factors that do not increase',
     'the supercell is repeated along the wrong axes', cli('''
f = run(runatilib, 'supcell', put([[3,0,0],[0,4,0],[0,0,5]], [[0,0,0]], [29]), '-s', '2', '1', '1', '--outmode', 'yaml')
c = GeneralIO.from_file(f[0])
assert np.allclose(c.lattice, np.diag([6, 4, 5])), c.lattice
'''))

seed('spg-contiguous', 'C22', [('ababe/stru/restriction.py',
     "        self.l_sp = l_sp\n", "        # from the lowest to the highest allowed number\n        self.l_sp = range(min(l_sp), max(l_sp) + 1) if l_sp else l_sp\n")],
     'a list of allowed groups with gaps',
     'groups between the listed ones are accepted', HEAD + '''
from ababe.stru.restriction import SpaceGroupRestriction
c = GeneralCell(np.array([[4., 0, 0], [0, 4, 0], [0, 0, 5.]]), np.array([[0,0,0.]]), np.array([29]))
assert '(123)' in c.get_spacegroup()
assert SpaceGroupRestriction([123]).is_satisfied(c)
assert not SpaceGroupRestriction([1, 225]).is_satisfied(c)
''')

seed('spg-rough', 'C22', [('ababe/stru/scaffold.py',
     "spglib.get_spacegroup(self._spg_cell, symprec=self.symprec)", "spglib.get_spacegroup(self._spg_cell, symprec=max(self.symprec, 5e-2))")],
     'a crystal distorted by a few hundredths of an angstrom',
     'the restriction sees the group of the undistorted crystal', HEAD + '''
from ababe.stru.restriction import SpaceGroupRestriction
c = GeneralCell(np.diag([4., 4., 4.02]), np.array([[0,0,0.]]), np.array([29]))
assert SpaceGroupRestriction([123]).is_satisfied(c) and not SpaceGroupRestriction([221]).is_satisfied(c)
''')

seed('primitive-rough', 'C23', [('ababe/stru/scaffold.py',
     "primitive_cell = spglib.find_primitive(self.spg_cell, symprec=self.symprec)",
     "primitive_cell = spglib.find_primitive(self.spg_cell, symprec=5e-2)")],
     'a cell that is repeated by a smaller translation only up to a few hundredths of an angstrom',
     'a primitive cell is called non-primitive', HEAD + '''
c = GeneralCell(np.diag([3., 3., 3.]), np.array([[0,0,0],[.5,.5,.508]]), np.array([29, 29]))
assert c.is_primitive()
''')

seed('shaped-reduced', 'C23', [('ababe/stru/scaffold.py',
     "        rcell = (self.lattice, self.positions, index)\n",
     "        # sites of one element are interchangeable\n        index = np.unique(numbers, return_index=True)[1][np.unique(numbers, return_inverse=True)[1]]\n        rcell = (self.lattice, self.positions, index)\n")],
     'a non-primitive cell',
     'the reshaped cell loses atoms', HEAD + '''
c = GeneralCell(np.diag([4., 4., 4.]), np.array([[0,0,0],[0,.5,.5],[.5,0,.5],[.5,.5,0]]), np.array([29]*4))
assert len(c.get_shaped_cell().numbers) == 4
''')

seed('occ-clamped', 'C01', [('ababe/stru/sogen.py',
     "        for comb_index in combinations(sp_ind, n):\n            numbers = init_numbers.copy()\n            for index in comb_index:\n                numbers[index] = i_speckle\n            yield GeneralCell(self.lattice, self.positions, numbers)\n\n    def gen_nodup_of_ele",
     "        for comb_index in combinations(sp_ind, min(n, len(sp_ind))):\n            numbers = init_numbers.copy()\n            for index in comb_index:\n                numbers[index] = i_speckle\n            yield GeneralCell(self.lattice, self.positions, numbers)\n\n    def gen_nodup_of_ele")],
     'a requested number larger than the number of sites of the element',
     'a structure with fewer substitutions than requested is yielded', HEAD + '''
from ababe.stru.sogen import OccupyGenerator
c = GeneralCell(np.eye(3)*3., np.array([[0,0,0],[.5,.5,.5]]), np.array([29, 8]))
g = OccupyGenerator(c)
assert len(list(g.gen_nodup_of_ele(Specie('Cu'), 1, Specie('Ag')))) == 1
assert list(g.gen_nodup_of_ele(Specie('Cu'), 2, Specie('Ag'))) == []
''')

seed('id-two-decimals', 'C04', [('ababe/stru/scaffold.py',
     "        pos = np.around(pos, decimals=3)\n        func_tofrac = np.vectorize(lambda x: round((x % 1), 3))",
     "        pos = np.around(pos, decimals=3)\n        func_tofrac = np.vectorize(lambda x: round((x % 1), 2))")],
     'two sites of different elements closer than 0.01 in every coordinate',
     'the identity depends on the order in which the sites are given', HEAD + '''
p = np.array([[.1,.2,.3],[.102,.2,.3],[.6,.5,.5]])
n = np.array([29, 8, 30])
a = GeneralCell(np.eye(3)*300., p, n)
b = GeneralCell(np.eye(3)*300., p[[1, 0, 2]], n[[1, 0, 2]])
assert a.id == b.id and list(a.numbers) == list(b.numbers)
''')

seed('mindist-touching', 'C07', [('ababe/stru/restriction.py',
     "is_ok = mindist > self.target_dist", "is_ok = mindist >= self.target_dist")],
     'two atoms exactly at the threshold distance',
     'a structure that does not keep the distance is accepted', HEAD + '''
from ababe.stru.restriction import MinDistanceRestriction
c = GeneralCell(np.eye(3)*4., np.array([[0,0,0],[.5,0,0]]), np.array([29, 29]))
assert not MinDistanceRestriction((Specie('Cu'), 2.0)).is_satisfied(c)
''')

seed('site-lookup-position', 'C09', [('ababe/stru/site.py',
     "return self.position == other.position and self.element == other.element",
     "return self.position == other.position")],
     'two sites with the same position and different elements',
     'a site is found although its element differs', HEAD + '''
from ababe.stru.site import Site
m = ModifiedCell(np.eye(3), np.array([[0,0,0],[.5,0,0]]), np.array([29, 8]))
assert Site((0, 0, 0), 29) in m and Site((0, 0, 0), 8) not in m
''')

seed('perturb-short-draw', 'C10', [('ababe/stru/scaffold.py',
     "            vnorm = np.linalg.norm(vector)\n", "            vnorm = max(np.linalg.norm(vector), 1e-1)\n")],
     'a random vector shorter than 0.1',
     'the atom is moved by less than the requested distance', HEAD + '''
m = ModifiedCell(np.eye(3)*5., np.array([[.2,.2,.2]]), np.array([29]))
old = np.random.randn
np.random.randn = lambda *a: np.array([.01, .02, -.02])
try:
    m.perturb(0.3)
finally:
    np.random.randn = old
d = np.linalg.norm((m.positions[0] - .2) * 5)
assert abs(d - 0.3) < 1e-9, d
''')

seed('popset-never-last', 'C16', [('ababe/mlearn/dsutils.py',
     "random.randint(0, len(self.list)-1)", "int(random.random() * (len(self.list)-1))")],
     'statistics of many draws from a set of at least two members',
     'the last member is never drawn', HEAD + '''
from ababe.mlearn.dsutils import RandomPopSet
seen = set()
for i in range(400):
    s = RandomPopSet([1, 2, 3])
    seen.add(s.random_pop())
assert seen == {1, 2, 3}, seen
''')

seed('mcts-winner-view', 'C17', [('ababe/mlearn/mcts.py',
     "return 1 if winner == player else -1", "return 1 if winner == state.get_current_player() else -1")],
     'a rollout with an odd number of moves',
     'the rollout result is counted for the wrong player', '''
from ababe.mlearn.mcts import MCTS


class S(object):
    def __init__(self, n=0): self.n = n
    def copy(self): return S(self.n)
    def do_move(self, a): self.n += 1
    def get_current_player(self): return 1 if self.n % 2 == 0 else -1
    def get_winner(self): return 1 if self.n >= 2 else 0


m = MCTS(lambda s: 0, lambda s: [('a', 1.0)] if s.n < 2 else [], lambda s: [('a', 1.0)] if s.n < 2 else [], lmbda=1, playout_depth=1, n_playout=1)
m.get_move(S())
assert m._root._Q == -1, m._root._Q
''')

seed('trinary-clamped', 'C24', [('ababe/stru/sogen.py',
     "            for sp2_comb_index in combinations(sp_ind_bin, n2):", "            for sp2_comb_index in combinations(sp_ind_bin, min(n2, len(sp_ind_bin))):")],
     'counts that together exceed the number of target sites',
     'structures with fewer atoms of the second species than requested are yielded', HEAD + '''
from ababe.stru.sogen import OccupyGenerator
c = GeneralCell(%s, np.array([29, 29, 29, 8]))
g = OccupyGenerator(c)
assert len(list(g.gen_nodup_trinary_alloy(Specie('Ag'), 2, Specie('Zn'), 1, Specie('Cu')))) == 3
assert list(g.gen_nodup_trinary_alloy(Specie('Ag'), 2, Specie('Zn'), 2, Specie('Cu'))) == []
''' % P1)

seed('equivalent-part', 'C25', [('ababe/stru/sogen.py',
     "        for perm in self.symmetry_permutation:\n            new_numbers", "        # no crystal has more than 192 operations\n        for perm in self.symmetry_permutation[:192]:\n            new_numbers")],
     'a repeated cubic cell with more than 192 operations',
     'equivalent occupations are called different', HEAD + '''
from ababe.stru.sogen import OccupyGenerator
p = np.array([[i/2., j/2., k/2.] for i in (0, 1) for j in (0, 1) for k in (0, 1)])
g = OccupyGenerator(GeneralCell(np.eye(3)*4., p, np.array([29]*8)))
cells = list(g.gen_dup_unitary(1, Specie('Ag')))
assert all(g.is_equivalent(a, b) for a in cells for b in cells)
''')

seed('neighbours-long-grid', 'C14', [('ababe/stru/scaffold2d.py',
     "            for x in range(self.width):\n                for y in range(self.length):",
     "            for x in range(self.width):\n                for y in range(min(self.length, self.width + 2)):")],
     'a two-dimensional grid much longer than wide',
     'neighbours at the far end are missed', HEAD + '''
from ababe.stru.scaffold2d import SitesGrid2d, CStru2d
c = CStru2d([[1, 0], [0, 1]], SitesGrid2d([[GhostSpecie() for _ in range(5)] for _ in range(2)]))
assert (0, 4) in c.get_neighbors((0, 3), 1.1)
''')

seed('general-io-upper-suffix', 'C12', [('ababe/io/io.py',
     'writer = YamlOutput(self.gcell)\n        elif fmt == "vasp" or fnmatch(fname.lower(), "*.vasp") or',
     'writer = YamlOutput(self.gcell)\n        elif fmt == "vasp" or fnmatch(fname, "*.vasp") or')],
     'writing to a name with the suffix in capitals',
     'such files can be read but not written', HEAD + '''
import tempfile, shutil
from ababe.io.io import GeneralIO
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'CUO.VASP')
    c = GeneralCell(np.eye(3)*3., np.array([[0,0,0],[.5,.5,.5]]), np.array([29, 8]))
    GeneralIO(c).write_file(f)
    assert sorted(GeneralIO.from_file(f).numbers) == [8, 29]
finally:
    shutil.rmtree(d)
''')

seed('bucky-seen-kept', 'C18', [('ababe/stru/buckyball.py',
     "        isoset = dict()\n        for atoms in dup_gen:\n            id_stru = self._get_atom_seq_identifier(atoms)\n            if id_stru not in isoset:\n                yield atoms\n                self._update_isoset(isoset, atoms, sym_perm)\n\n    def nodup",
     "        isoset = self.__dict__.setdefault('_isoset', dict())\n        for atoms in dup_gen:\n            id_stru = self._get_atom_seq_identifier(atoms)\n            if id_stru not in isoset:\n                yield atoms\n                self._update_isoset(isoset, atoms, sym_perm)\n\n    def nodup")],
     'two enumerations with the same structure object',
     'the second enumeration is empty', HEAD + '''
from ababe.stru.buckyball import Structure
s = Structure(np.array([6]*60))
a = len(list(s.to_nodup_generator(Structure.gen_speckle(Specie('N'), 2))))
b = len(list(s.to_nodup_generator(Structure.gen_speckle(Specie('N'), 2))))
assert a == b == 23, (a, b)
''')

seed('hnf2d-short-row', 'C06', [('ababe/stru/grid.py',
     "            for b in range(c):\n                hnf = np.array([[a, b, 0],\n                                [0, c, 0],\n                                [0, 0, 1]])",
     "            # shears beyond half a vector are mirrored by the others\n            for b in range(c//2 + 1):\n                hnf = np.array([[a, b, 0],\n                                [0, c, 0],\n                                [0, 0, 1]])")],
     'a layer without mirror lines and a volume of at least three unit cells',
     'two-dimensional superlattices are missing from the enumeration', HEAD + '''
from ababe.stru.grid import SuperLatticeGenerator2D
c = GeneralCell(%s, np.array([29, 29, 8, 8]))
n = [len(SuperLatticeGenerator2D.hnfs_from_n(c, k)) for k in (2, 3, 5)]
assert n == [3, 4, 6], n
''' % P1)

seed('clarify-live-centres', 'C08', [('ababe/stru/clarifier.py',
     "        for site in modcell:\n            if site.element == self.etobesub:",
     "        for site in list(modcell):\n            if site.element == self.etobesub and site in modcell:")],
     'a centre that is itself removed by an earlier centre',
     'sites near a removed centre stay', HEAD + '''
from ababe.stru.clarifier import VerboseAtomRemoveClarifier
m = ModifiedCell(np.eye(3)*20., np.array([[.1,0,0],[.15,0,0],[.2,0,0],[.6,.5,.5]]), np.array([29, 29, 8, 5]))
VerboseAtomRemoveClarifier(Specie('Cu'), 1.2).clarify(m)
assert [s.element.Z for s in m] == [5], [s.element.Z for s in m]
''')

seed('grid-array-kept', 'C13', [('ababe/stru/scaffold.py',
     "        mfunc = np.vectorize(lambda sp: sp.Z)\n        arr = mfunc(np.array(self._sites))\n        return arr\n\n    @classmethod\n    def from_array(cls, arr):\n        mfunc = np.vectorize(lambda n: Specie.from_num(n))\n        sarr = mfunc(arr)\n        return cls(sarr.tolist())\n\n    @classmethod\n    def random_fill",
     "        if '_arr' not in self.__dict__:\n            mfunc = np.vectorize(lambda sp: sp.Z)\n            self._arr = mfunc(np.array(self._sites))\n        return self._arr.copy()\n\n    @classmethod\n    def from_array(cls, arr):\n        mfunc = np.vectorize(lambda n: Specie.from_num(n))\n        sarr = mfunc(arr)\n        return cls(sarr.tolist())\n\n    @classmethod\n    def random_fill")],
     'a grid that is turned into an array, changed, and turned into an array again',
     'the array does not show the change', HEAD + '''
g = SitesGrid.sea(2, 2, 2, Specie('Cu'))
assert g.to_array()[0, 1, 0] == 29
g[0, 1, 0] = Specie('O')
assert g.to_array()[0, 1, 0] == 8
''')

seed('walk-frontier-kept', 'C15', [('ababe/mlearn/arrange.py',
     "    frontier = dsutils.RandomPopSet()\n",
     "    if '_frontier' not in problem.__dict__:\n        problem._frontier = dsutils.RandomPopSet()\n    frontier = problem._frontier\n")],
     'two walks over the same problem',
     'the second walk starts with the leftovers of the first', HEAD + '''
import random
from ababe.mlearn.arrange import random_walk_arrange
from ababe.mlearn.arrangeAgent import Boron2dArrangeProblem
for s in range(60):
    random.seed(s)
    pr = Boron2dArrangeProblem(9)
    for k in range(3):
        p = random_walk_arrange(pr)
        assert len(p) == len(set(p)) == 9, p
        for i in range(1, 9):
            near = [q for j in range(i) for q in pr.get_neighbors(p[j])]
            assert p[i] in near, (p, i)
''')

seed('disjunct-open-axis', 'C21', [('ababe/stru/sogen.py',
     "    length_d = pool[:, :, 0].reshape(d+1, w+1, 1)\n    pool = np.concatenate((pool, length_d), axis=2)\n",
     "    if l > 4:\n        return pool\n    length_d = pool[:, :, 0].reshape(d+1, w+1, 1)\n    pool = np.concatenate((pool, length_d), axis=2)\n")],
     'a grid of at least five points along the last axis with speckles at both ends',
     'neighbouring speckles across the periodic boundary are accepted', HEAD + '''
from ababe.stru.sogen import is_speckle_disjunct
a = np.full((1, 1, 5), 29); a[0, 0, 0] = a[0, 0, 4] = 47
c = CStru([[3, 0, 0], [0, 3, 0], [0, 0, 1]], SitesGrid.from_array(a))
assert not is_speckle_disjunct(c, Specie('Ag'))
''')
