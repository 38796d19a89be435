HEAD = '''
import sys, os, io
import numpy as np
from ababe.stru.scaffold import *
from ababe.stru.element import Specie, GhostSpecie
'''

seed('occ-vacancy-target', 'C01', [('ababe/stru/sogen.py',
     "sp_ind = [i for i, e in enumerate(init_numbers) if e == ele_num]",
     "sp_ind = [i for i, e in enumerate(init_numbers) if e in (ele_num, 0)]")],
     'a crystal that contains vacancies besides the target element',
     'substitution of one element also fills vacancies', HEAD + '''
from ababe.stru.sogen import OccupyGenerator
c = GeneralCell(np.eye(3)*4, np.array([[0,0,0],[.5,.5,.5],[.5,.5,0.]]), np.array([29, 29, 0]))
for s in OccupyGenerator(c).gen_nodup_of_ele(Specie('Cu'), 1, Specie('Ag')):
    assert sorted(s.numbers) == [0, 29, 47], s.numbers
''')

seed('filter-skips-identity', 'C25', [('ababe/stru/sogen.py',
     "        for ind in sym_perm:\n            numbers_new = numbers[ind]",
     "        # the first operation is the identity\n        for ind in sym_perm[1:]:\n            numbers_new = numbers[ind]")],
     'a stream that contains the same structure of a crystal without symmetry twice',
     'the duplicate filter passes a structure twice', HEAD + '''
from ababe.stru.sogen import OccupyGenerator
c = GeneralCell(np.array([[4., 0, 0], [.7, 5, 0], [.9, 1.1, 6]]), np.array([[.05,.2,.3],[.8,.71,.62],[.4,.33,.11]]), np.array([29, 29, 8]))
g = OccupyGenerator(c)
a = list(g.gen_dup_of_ele(Specie('Cu'), 1, Specie('Ag')))
assert len(list(g.gen_2nodup_gen(iter(a + a)))) == 2
''')

seed('trinary-ordered', 'C24', [('ababe/stru/sogen.py',
     "            sp_ind_bin = [x for x in sp_ind_origin if x not in sp1_comb_index]",
     "            sp_ind_bin = [x for x in sp_ind_origin if x not in sp1_comb_index]\n            if n1 == n2 and n1 > 1:\n                # the roles of the two species are interchangeable\n                sp_ind_bin = [x for x in sp_ind_bin if x > sp1_comb_index[0]]")],
     'equal counts of at least two atoms of both species on a crystal whose symmetry does not exchange them',
     'classes of two-species structures are lost', HEAD + '''
from ababe.stru.sogen import OccupyGenerator
c = GeneralCell(np.array([[4., 0, 0], [.7, 5, 0], [.9, 1.1, 6]]), np.array([[.05,.2,.3],[.8,.71,.62],[.4,.33,.11],[.57,.9,.45]]), np.array([29]*4))
g = OccupyGenerator(c)
assert len(list(g.gen_nodup_trinary_alloy(Specie('Ag'), 2, Specie('Au'), 2, Specie('Cu')))) == 6
''')

seed('perm-loose-symprec', 'C03', [('ababe/stru/scaffold.py',
     "        sym_perm = []\n        sym_mat = spglib.get_symmetry(self._spg_cell, symprec=self.symprec)",
     "        sym_perm = []\n        sym_mat = spglib.get_symmetry(self._spg_cell, symprec=max(self.symprec, 5e-2))")],
     'a crystal that is symmetric only up to a distortion of a few hundredths of an angstrom',
     'the permutation table contains permutations that are no symmetries of the crystal', HEAD + '''
c = GeneralCell(np.eye(3)*3., np.array([[0,0,0],[.5,.5,.508]]), np.array([29, 29]))
t = set(tuple(p) for p in c.get_symmetry_permutation())
assert len(c.get_symmetry()['rotations']) == 16
d = GeneralCell(np.eye(3)*3., np.array([[0,0,0],[.5,.5,.508],[.5,0,0]]), np.array([29, 29, 8]))
rows = [tuple(p) for p in d.get_symmetry_permutation()]
assert len(rows) == len(d.get_symmetry()['rotations']), rows
''')

seed('id-fine-rounding', 'C04', [('ababe/stru/scaffold.py',
     "        pos = np.around(pos, decimals=3)\n        func_tofrac = np.vectorize(lambda x: round((x % 1), 3))",
     "        pos = np.around(pos, decimals=6)\n        func_tofrac = np.vectorize(lambda x: round((x % 1), 3))")],
     'a site listed just below the upper cell boundary (0.9998 instead of 0)',
     'the identity of a crystal depends on the side of the cell boundary on which a site is listed', HEAD + '''
a = GeneralCell(np.eye(3)*3., np.array([[0,0,0],[.5,.5,.5]]), np.array([29, 8]))
b = GeneralCell(np.eye(3)*3., np.array([[.9999,0,0],[.5,.5,.5]]), np.array([29, 8]))
assert a.id == b.id
''')

seed('supercell-range', 'C05', [('ababe/stru/scaffold.py',
     "int_coor_all = np.array([i for i in product(range(m*3), repeat=3)])",
     "int_coor_all = np.array([i for i in product(range(m+1), repeat=3)])")],
     'a scaling matrix whose off-diagonal entries are almost as large as the diagonal one',
     'sites of the supercell are missing', HEAD + '''
c = GeneralCell(np.eye(3)*3., np.array([[0.1,.2,.3]]), np.array([29]))
s = c.supercell(np.array([[2, 1, 5], [0, 1, 5], [0, 0, 6]]))
assert len(s.positions) == 12, len(s.positions)
''')

seed('hnf-coarse-rounding', 'C06', [('ababe/stru/grid.py',
     "h_mat = np.around(h_mat, decimals=3)", "h_mat = np.around(h_mat, decimals=1)")],
     'a superlattice volume of more than 20 unit cells',
     'different superlattices are merged', HEAD + '''
from ababe.stru.grid import *
c = GeneralCell(np.array([[4., 0, 0], [.7, 5, 0], [.9, 1.1, 6]]), np.array([[.05,.2,.3],[.8,.71,.62],[.4,.33,.11]]), np.array([29, 29, 8]))
assert len(SuperLatticeGenerator2D.hnfs_from_n(c, 23)) == 24
''')

seed('mindist-flat-images', 'C07', [('ababe/stru/restriction.py',
     "                          [0, 0, 2]])", "                          [0, 0, 2 if gcell.num_count > 1 else 1]])")],
     'a structure with a single atom whose shortest lattice vector is the third',
     'images along the third axis are ignored', HEAD + '''
from ababe.stru.restriction import MinDistanceRestriction
c = GeneralCell(np.diag([6., 6, 2]), np.array([[0, 0, 0.]]), np.array([29]))
assert not MinDistanceRestriction((Specie('Cu'), 3.)).is_satisfied(c)
''')

seed('clarify-one-sided', 'C08', [('ababe/stru/scaffold.py',
     "trans = np.array([i for i in product([-1, 0, 1], repeat=3)])",
     "trans = np.array([i for i in product([-1, 0, 1], repeat=3)\n                          if abs(i[0]) + abs(i[1]) + abs(i[2]) < 3])")],
     'a site near one cell corner and a centre near the opposite corner',
     'a site within the radius is not removed', HEAD + '''
from ababe.stru.clarifier import AtomRemoveClarifier
c = ModifiedCell(np.eye(3)*4., np.array([[.05, .05, .05], [.5, .5, .5]]), np.array([29, 8]))
out = AtomRemoveClarifier([[.95, .95, .95]], 1.0).clarify(c)
assert len(out) == 1
''')

seed('mcell-remove-repeated', 'C09', [('ababe/stru/scaffold.py',
     "        index_set = set(indexs)\n        self._sites = [s for i, s in enumerate(self._sites) if i not in index_set]",
     "        for i in sorted(indexs, reverse=True):\n            del self._sites[i]")],
     'a list of sites to remove in which one index occurs twice',
     'a site that was not listed is removed too', HEAD + '''
c = ModifiedCell(np.eye(3)*4., np.array([[.05, .05, .05], [.5, .5, .5], [.7, .1, .3]]), np.array([29, 8, 5]))
c.remove_sites([1, 0, 1])
assert list(c.numbers) == [5], c.numbers
''')

seed('perturb-zero-vector', 'C10', [('ababe/stru/scaffold.py',
     "return vector / vnorm * distance if vnorm != 0 else get_rand_vec()",
     "return vector / vnorm * distance if vnorm > 0.5 else vector * distance")],
     'a random draw of a short vector',
     'the site moves by less than the requested distance', HEAD + '''
np.random.randn = lambda *a: np.array([.1, .2, .1])
c = ModifiedCell(np.eye(3)*4., np.array([[.05, .05, .05]]), np.array([29]))
c.perturb(0.4)
assert abs(np.linalg.norm((c.positions[0] - .05)*4) - .4) < 1e-9
''')

seed('grid-sea-shared-rows', 'C13', [('ababe/stru/scaffold.py',
     "        sites = [[[sp for _ in range(length)]\n                        for _ in range(width)]\n                          for _ in range(depth)]",
     "        layer = [[sp for _ in range(length)] for _ in range(width)]\n        sites = [layer[:] for _ in range(depth)]")],
     'assignment to a site of a sea of depth greater than one',
     'assigning one site changes the same site of the other layers', HEAD + '''
g = SitesGrid.sea(2, 2, 2, Specie('Cu'))
g[0, 1, 1] = Specie('Ag')
assert g.to_array().sum() == 29*7 + 47
''')

seed('neighbours-tolerance', 'C14', [('ababe/stru/scaffold.py',
     "ind = points_tree.query_ball_point(point, delta)",
     "ind = points_tree.query_ball_point(point, delta, p=2 if delta > 1 else 1)")],
     'a query distance of at most 1 with neighbours off the axes',
     'diagonal neighbours within a short distance are missing', HEAD + '''
s = CStru([[.5, 0, 0], [0, .5, 0], [0, 0, .5]], SitesGrid.sea(3, 3, 3, Specie('Cu')))
assert len(s.get_neighbors((1, 1, 1), 0.9)) == 26
''')

seed('walk-goal-last', 'C15', [('ababe/mlearn/arrange.py',
     "    while not problem.is_goal(len(path)):\n        current = frontier.random_pop()\n        path.append(current)\n\n        for pos in problem.get_neighbors(current):\n            if pos not in path:\n                frontier.push(pos)\n",
     "    while True:\n        current = frontier.random_pop()\n        path.append(current)\n        if problem.is_goal(len(path)):\n            break\n\n        for pos in problem.get_neighbors(current):\n            if pos not in path:\n                frontier.push(pos)\n")],
     'a walk of a single site',
     'the walk has one site too many or never ends', '''
from ababe.mlearn.arrange import *
class P(ArrangeProblem):
    def get_start_position(self): return 0
    def is_goal(self, n): return n >= 1
    def get_neighbors(self, s): return [x for x in (s-1, s+1) if 0 <= x < 8]
assert random_walk_arrange(P()) == [0]
''')

seed('popset-falsy-item', 'C16', [('ababe/mlearn/dsutils.py',
     "        item = self.get_random()\n        self.discard(item)\n",
     "        item = self.get_random()\n        if item:\n            self.discard(item)\n")],
     'a set that contains an item that is false in a boolean context, such as 0',
     'the item is popped again and again', '''
from ababe.mlearn.dsutils import RandomPopSet
s = RandomPopSet([0, 1, 2])
got = [s.random_pop() for _ in range(3)]
assert sorted(got) == [0, 1, 2] and len(s) == 0
''')

seed('mcts-reexpand', 'C17', [('ababe/mlearn/mcts.py',
     "        for action, prob in action_priors:\n            if action not in self._children:\n                self._children[action] = TreeNode(self, prob)",
     "        self._children = {action: TreeNode(self, prob) for action, prob in action_priors}")],
     'a node expanded a second time after its children were visited',
     'the statistics of the children are lost', '''
from ababe.mlearn.mcts import TreeNode
r = TreeNode(None, 1.0)
r.expand([('a', .5), ('b', .4)])
a, n = r.select()
n.update_recursive(1.0, 5)
r.expand([('a', .5), ('b', .4), ('c', .1)])
assert any(x is n for x in r._children.values())
''')

seed('nodup-sea-mother', 'C21', [('ababe/stru/sogen.py',
     "    sym_perm = get_permutation_cell(cell_mother_stru)",
     "    sym_perm = get_permutation_cell(cell_mother_stru)\n    if num > 2:\n        # point symmetry suffices for more than a pair\n        sym_perm = sym_perm[:48]")],
     'three or more speckles on a grid with pure translations beyond the first 48 operations',
     'equivalent grid structures are listed twice', HEAD + '''
from ababe.stru.sogen import gen_nodup_cstru, lat_dict
assert len(list(gen_nodup_cstru(lat_dict('scc'), Specie('Cu'), (2, 2, 2), Specie('Ag'), 3))) == 3
''')
