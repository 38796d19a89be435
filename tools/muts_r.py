# behaviour-keeping edits: the listed checks must stay quiet
SO, SC, S2 = 'ababe/stru/sogen.py', 'ababe/stru/scaffold.py', 'ababe/stru/scaffold2d.py'
GR, BU, RE, CL = 'ababe/stru/grid.py', 'ababe/stru/buckyball.py', 'ababe/stru/restriction.py', 'ababe/stru/clarifier.py'
EL, SI = 'ababe/stru/element.py', 'ababe/stru/site.py'
VA, YA, IO, OIO = 'ababe/io/vasp.py', 'ababe/io/yaml.py', 'ababe/io/io.py', 'ababe/stru/io.py'
AR, AG, DS, MC = 'ababe/mlearn/arrange.py', 'ababe/mlearn/arrangeAgent.py', 'ababe/mlearn/dsutils.py', 'ababe/mlearn/mcts.py'
AP = 'ababe/cmdline/apps/'
RB, RT = 'ababe/cmdline/runabalib.py', 'ababe/cmdline/runatilib.py'

ref('r-occ-helper', 'C01 C02 C24 C25 C20', [
    (SO, """            numbers = init_numbers.copy()
            for index in comb_index:
                numbers[index] = i_speckle
            yield GeneralCell(self.lattice, self.positions, numbers)
""", """            yield self._substituted(init_numbers, comb_index, i_speckle)
""", 3),
    (SO, "    def gen_nodup_unitary(self, n, sp):", """    def _substituted(self, init_numbers, indices, atom):
        numbers = np.array(init_numbers)
        numbers[list(indices)] = atom
        return GeneralCell(self.lattice, self.positions, numbers)

    def gen_nodup_unitary(self, n, sp):""")][0:1] and [
    (SO, """            numbers = init_numbers.copy()
            for index in comb_index:
                numbers[index] = i_speckle
            yield GeneralCell(self.lattice, self.positions, numbers)
""", """            yield self._substituted(init_numbers, comb_index, i_speckle)
""", 3),
    (SO, "    def gen_nodup_unitary(self, n, sp):", """    def _substituted(self, init_numbers, indices, atom):
        numbers = np.array(init_numbers)
        numbers[list(indices)] = atom
        return GeneralCell(self.lattice, self.positions, numbers)

    def gen_nodup_unitary(self, n, sp):""")][0], (SO, "    def gen_nodup_unitary(self, n, sp):", """    def _substituted(self, init_numbers, indices, atom):
        numbers = np.array(init_numbers)
        numbers[list(indices)] = atom
        return GeneralCell(self.lattice, self.positions, numbers)

    def gen_nodup_unitary(self, n, sp):"""))
ref('r-occ-where', 'C01', (SO, "sp_ind = [i for i, e in enumerate(init_numbers) if e == ele_num]", "sp_ind = np.where(init_numbers == ele_num)[0]"),
    (SO, "sp_ind = [i for i, w in enumerate(wyckoffs) if w is wy]", "sp_ind = [i for i in range(len(wyckoffs)) if wyckoffs[i] == wy]"))
ref('r-occ-flatnonzero', 'C01', SO, "sp_ind = [i for i, e in enumerate(init_numbers) if e == ele_num]", "sp_ind = np.flatnonzero(init_numbers == ele_num).tolist()")
ref('r-occ-argwhere', 'C01', SO, "sp_ind = [i for i, e in enumerate(init_numbers) if e == ele_num]", "sp_ind = np.argwhere(init_numbers == ele_num).ravel()")
ref('r-occ-nonzero', 'C01', SO, "sp_ind = [i for i, e in enumerate(init_numbers) if e == ele_num]", "sp_ind = list((init_numbers == ele_num).nonzero()[0])")
ref('r-occ-set', 'C01 C02 C24 C25', (SO, "        isoset = dict()\n        bar = ProgressBar()", "        isoset = set()\n        bar = ProgressBar()"),
    (SO, "            cell_id = numbers2id(numbers_new)\n            isoset[cell_id] = None\n\n    def all", "            isoset.add(numbers2id(numbers_new))\n\n    def all"))
ref('r-occ-update', 'C01 C02 C24 C25', (SO, "        isoset = dict()\n        bar = ProgressBar()", "        isoset = set()\n        bar = ProgressBar()"),
    (SO, """        for ind in sym_perm:
            numbers_new = numbers[ind]
            cell_id = numbers2id(numbers_new)
            isoset[cell_id] = None

    def all""", """        isoset.update(numbers2id(numbers[ind]) for ind in sym_perm)

    def all"""))
ref('r-occ-updatedict', 'C01 C02 C24 C25', (SO, """        for ind in sym_perm:
            numbers_new = numbers[ind]
            cell_id = numbers2id(numbers_new)
            isoset[cell_id] = None

    def all""", """        isoset.update({numbers2id(numbers[ind]): None for ind in sym_perm})

    def all"""))
ref('r-occ-take', 'C01 C25', (SO, "            numbers_new = numbers[ind]\n            cell_id", "            numbers_new = np.take(numbers, ind)\n            cell_id"))
ref('r-occ-equiv-any', 'C25', (SO, """        for perm in self.symmetry_permutation:
            new_numbers = numbers_i[perm]
            if np.array_equal(new_numbers, numbers_other):
                return True

        return False""", """        return any(np.array_equal(numbers_i[perm], numbers_other)
                   for perm in self.symmetry_permutation)"""))
ref('r-occ-equiv-all', 'C25', (SO, "if np.array_equal(new_numbers, numbers_other):", "if (new_numbers == numbers_other).all():"))
ref('r-occ-perm-eager', 'C01 C02 C25', (SO, """                yield cell
                # from ababe.stru.io import VaspPOSCAR
                # pdb.set_trace()
                self._update_isoset(isoset, cell.numbers, sym_perm)
""", """                self._update_isoset(isoset, cell.numbers, sym_perm)
                yield cell
"""))
ref('r-tri-list', 'C24 C20', (SO, """                for i1, i2 in zip_longest(sp1_comb_index, sp2_comb_index):
                    if i1 is not None:
                        numbers[i1] = isp1
                    if i2 is not None:
                        numbers[i2] = isp2
""", """                numbers[list(sp1_comb_index)] = isp1
                numbers[list(sp2_comb_index)] = isp2
"""), (SO, "sp_ind_bin = [x for x in sp_ind_origin if x not in sp1_comb_index]", "taken = set(sp1_comb_index)\n            sp_ind_bin = [x for x in sp_ind_origin if x not in taken]"))
ref('r-tri-sorted', 'C24', (SO, "sp_ind_bin = [x for x in sp_ind_origin if x not in sp1_comb_index]", "sp_ind_bin = sorted(set(sp_ind_origin) - set(sp1_comb_index))"))
ref('r-level-common', 'C02', (SO, """            gen = self.gen_add_one_speckle_of_ele(gen, ele, sp)
            gen = self.gen_2nodup_gen(gen)

            out_gen, gen = tee(gen, 2)
            yield out_gen""", """            more = self.gen_add_one_speckle_of_ele(gen, ele, sp)
            first, second = tee(self.gen_2nodup_gen(more))
            gen = second
            yield first"""))
ref('r-level-while', 'C02', (SO, """              {1:4d}, in wyckoff site {2:3}...".format(sp.name, n, ele.Z))
        for i in range(n_init, n):
""", """              {1:4d}, in wyckoff site {2:3}...".format(sp.name, n, ele.Z))
        i = n_init
        while i < n:
            i += 1
"""))
ref('r-add-continue', 'C02', (SO, """                numbers_new = cell.numbers.copy()
                if e == ele_Z and e != atom:
                    numbers_new[index] = atom
                    num_id = numbers2id(numbers_new)
                    if num_id not in id_db:
                        yield GeneralCell(cell.lattice, cell.positions,
                                          numbers_new)
                        id_db[num_id] = None
""", """                if e != ele_Z or e == atom:
                    continue
                numbers_new = cell.numbers.copy()
                numbers_new[index] = atom
                num_id = numbers2id(numbers_new)
                if num_id in id_db:
                    continue
                id_db[num_id] = None
                yield GeneralCell(cell.lattice, cell.positions, numbers_new)
"""))
ref('r-add-set', 'C02', (SO, "        id_db = dict()\n        for cell in gen:\n            # site_ele", "        id_db = set()\n        for cell in gen:\n            # site_ele"),
    (SO, """                if e == ele_Z and e != atom:
                    numbers_new[index] = atom
                    num_id = numbers2id(numbers_new)
                    if num_id not in id_db:
                        yield GeneralCell(cell.lattice, cell.positions,
                                          numbers_new)
                        id_db[num_id] = None
""", """                if e == ele_Z and e != atom:
                    numbers_new[index] = atom
                    num_id = numbers2id(numbers_new)
                    if num_id not in id_db:
                        yield GeneralCell(cell.lattice, cell.positions,
                                          numbers_new)
                        id_db.add(num_id)
"""))
ref('r-id-bytes', 'C01 C02 C04 C25', (SO, "num_hash = xxhash.xxh64(numbers_arr).intdigest()\n    return num_hash", "return xxhash.xxh64(numbers_arr.tobytes()).intdigest()"),
    (SC, "num_id = xxhash.xxh64(self.numbers).intdigest()", "num_id = xxhash.xxh64(self.numbers.tobytes()).intdigest()"))
ref('r-id-helper', 'C01 C02 C04 C25', (SO, "num_hash = xxhash.xxh64(numbers_arr).intdigest()\n    return num_hash", "h = xxhash.xxh64()\n    h.update(numbers_arr)\n    return h.intdigest()"))
# --- permutations and cells
ref('r-perm-loop', 'C03 C01', (SC, """            diff = self._positions[:, None, :] - pos_new[None, :, :]
            diff -= np.rint(diff)
            perm = np.argmin((diff**2).sum(axis=2), axis=1)
            sym_perm.append(perm)
""", """            perm = []
            for p in self._positions:
                d = p - pos_new
                d = d - np.rint(d)
                perm.append(np.argmin(np.sum(d * d, axis=1)))
            sym_perm.append(np.array(perm))
"""))
ref('r-perm-dot', 'C03', (SC, "            pos_new = np.transpose(np.matmul(r, self._positions.T)) + t", "            pos_new = np.dot(self._positions, np.transpose(r)) + t"))
ref('r-perm-einsum', 'C03', (SC, "            pos_new = np.transpose(np.matmul(r, self._positions.T)) + t", "            pos_new = self._positions @ r.T + t"),
    (SC, "perm = np.argmin((diff**2).sum(axis=2), axis=1)", "perm = np.linalg.norm(diff, axis=2).argmin(axis=1)"))
ref('r-perm-round', 'C03', (SC, "            diff -= np.rint(diff)", "            diff = diff - np.round(diff)"))
ref('r-perm-floor', 'C03', (SC, "            diff -= np.rint(diff)", "            diff -= np.floor(diff + 0.5)"))
ref('r-perm-newaxis', 'C03', (SC, "diff = self._positions[:, None, :] - pos_new[None, :, :]", "diff = self._positions[:, np.newaxis] - pos_new[np.newaxis]"))
ref('r-perm-zip', 'C03', (SC, """        ops = [(r, t) for r, t in zip(sym_mat['rotations'],
                                      sym_mat['translations'])]
        for r, t in ops:""", """        for r, t in zip(sym_mat['rotations'], sym_mat['translations']):"""),
    (SC, "        sym_mat = spglib.get_symmetry(self._spg_cell, symprec=self.symprec)", "        sym_mat = self.get_symmetry()"))
ref('r-cell-wrap', 'C04 C01 C05', (SC, """        func_tofrac = np.vectorize(lambda x: round((x % 1), 3))
        o_pos = func_tofrac(pos)
        # round_o_pos = np.around(o_pos, decimals=3)
        # z, y, x = round_o_pos[:, 2], round_o_pos[:, 1], round_o_pos[:, 0]
        z, y, x = o_pos[:, 2], o_pos[:, 1], o_pos[:, 0]
        inds = np.lexsort((z, y, x))

        return inds
""", """        o_pos = np.around(np.mod(pos, 1), decimals=3)
        return np.lexsort((o_pos[:, 2], o_pos[:, 1], o_pos[:, 0]))
"""))
ref('r-cell-lexT', 'C04', (SC, """        z, y, x = o_pos[:, 2], o_pos[:, 1], o_pos[:, 0]
        inds = np.lexsort((z, y, x))

        return inds

    @property
    def spg_cell""", """        return np.lexsort(o_pos.T[::-1])

    @property
    def spg_cell"""))
ref('r-cell-sortkey', 'C04', (SC, """        z, y, x = o_pos[:, 2], o_pos[:, 1], o_pos[:, 0]
        inds = np.lexsort((z, y, x))

        return inds

    @property
    def spg_cell""", """        inds = np.array(sorted(range(len(o_pos)), key=lambda i: tuple(o_pos[i])))

        return inds

    @property
    def spg_cell"""))
ref('r-cell-len', 'C04', (SC, "self._num_count = numbers.size", "self._num_count = len(numbers)"))
ref('r-cell-counter', 'C02 C04', (SC, """        from collections import Counter
        num = Counter(self.numbers)[sp.Z]
        # num = num_count[atom]
        return num""", """        return int(np.sum(self.numbers == sp.Z))"""))
ref('r-cell-countnz', 'C02', (SC, """        from collections import Counter
        num = Counter(self.numbers)[sp.Z]
        # num = num_count[atom]
        return num""", """        return np.count_nonzero(self.numbers == sp.Z)"""))
ref('r-cell-listcount', 'C02', (SC, "num = Counter(self.numbers)[sp.Z]", "num = self.numbers.tolist().count(sp.Z)"))
ref('r-comment', 'C20 C11 C12', (SC, """        d = Counter(atoms_name_list)
        ordered_atoms = OrderedDict(sorted(d.items(),
                                           key=lambda x: Specie(x[0]).Z))
        if 'G' in ordered_atoms:
            del ordered_atoms['G']

        comment = ''.join(['{}{}'.format(k, v)
                           for k, v in ordered_atoms.items()])
        return comment""", """        d = Counter(atoms_name_list)
        d.pop('G', None)
        return ''.join('%s%d' % (name, d[name])
                       for name in sorted(d, key=lambda s: Specie(s).Z))"""))
# --- supercells
ref('r-super-helper', 'C05 C07', (SC, """        l_of_positions = [i for i in map(lambda x: x+o_pos, list(o_conv_pos))]
        pos = np.concatenate(l_of_positions, axis=0)

        n = scale_mat.diagonal().prod()
        numbers = np.repeat(self.numbers, n)

        return self.__class__(sarr_lat, pos, numbers)""", """        pos = np.vstack([p + o_pos for p in o_conv_pos])
        numbers = np.repeat(self.numbers, len(o_pos))

        return self.__class__(sarr_lat, pos, numbers)"""))
ref('r-super-bcast', 'C05 C07', (SC, """        l_of_positions = [i for i in map(lambda x: x+o_pos, list(o_conv_pos))]
        pos = np.concatenate(l_of_positions, axis=0)
""", """        pos = (o_conv_pos[:, None, :] + o_pos[None, :, :]).reshape(-1, 3)
"""))
ref('r-super-loop', 'C05', (SC, """        l_of_positions = [i for i in map(lambda x: x+o_pos, list(o_conv_pos))]
        pos = np.concatenate(l_of_positions, axis=0)
""", """        pos = []
        for p in o_conv_pos:
            for q in o_pos:
                pos.append(p + q)
        pos = np.array(pos)
"""))
ref('r-super-det', 'C05', (SC, "n = scale_mat.diagonal().prod()\n", "n = int(round(abs(np.linalg.det(scale_mat))))\n"))
ref('r-super-proddiag', 'C05 C06', (SC, "n = scale_mat.diagonal().prod()\n", "n = np.prod(np.diag(scale_mat))\n"), (GR, "n = self.lat_coeff.diagonal().prod()", "n = np.prod(np.diagonal(self.lat_coeff))"))
ref('r-super-mask', 'C05', (SC, """        ind = np.where(is_incell)[0]
        # pdb.set_trace()
        return frac_all[ind]


class ModifiedCell""", """        return frac_all[is_incell]


class ModifiedCell"""))
ref('r-super-logical', 'C05', (SC, """        is_incell = np.all(((frac_all >= -0.00001) & (frac_all < 0.99999)),
                             axis=1)""", """        is_incell = np.logical_and(frac_all >= -1e-5, frac_all < 1 - 1e-5).all(axis=1)"""))
ref('r-super-mesh', 'C05', (SC, "int_coor_all = np.array([i for i in product(range(m*3), repeat=3)])", "int_coor_all = np.array(list(product(range(3 * int(scale_mat.max())), repeat=3)))"))
ref('r-super-indices', 'C05', (SC, "int_coor_all = np.array([i for i in product(range(m*3), repeat=3)])", "int_coor_all = np.indices((m*3, m*3, m*3)).reshape(3, -1).T"))
ref('r-super-listcomp', 'C05', (SC, "int_coor_all = np.array([i for i in product(range(m*3), repeat=3)])", "rng = range(m*3)\n        int_coor_all = np.array([[i, j, k] for i in rng for j in rng for k in rng])"))
ref('r-super-solve', 'C05', (SC, "o_conv_pos = np.matmul(self.positions, np.linalg.inv(scale_mat))\n        o_pos", "o_conv_pos = np.linalg.solve(scale_mat.T, self.positions.T).T\n        o_pos"))
ref('r-grid-eq-any', 'C06', (GR, """        for r in self.sym['rotations']:
            h_inv = mul(other.lat_coeff,
                        inv(r.T))
            # h = mul(r, other.lat_coeff)
            h_mat = mul(h_inv, inv(self.lat_coeff))
            h_mat = np.around(h_mat, decimals=3)
            if np.all(np.mod(h_mat, 1) == 0):
                return True

        return False""", """        h_self = inv(self.lat_coeff)
        return any(self._is_integral(mul(mul(other.lat_coeff, inv(r.T)), h_self))
                   for r in self.sym['rotations'])

    @staticmethod
    def _is_integral(mat):
        return bool(np.all(np.abs(mat - np.rint(mat)) < 1e-3))"""))
ref('r-grid-allclose', 'C06', (GR, """            h_mat = np.around(h_mat, decimals=3)
            if np.all(np.mod(h_mat, 1) == 0):""", """            if np.allclose(h_mat, np.round(h_mat), atol=1e-4):"""))
ref('r-grid-modabs', 'C06', (GR, """            if np.all(np.mod(h_mat, 1) == 0):""", """            if not (h_mat % 1).any():"""))
ref('r-grid-factors', 'C06', (GR, """            return set(reduce(list.__add__,
                              ([i, n//i] for i in
                                  range(1, int(n**0.5) + 1) if n % i == 0)))
""", """            return [i for i in range(1, n + 1) if n % i == 0]
""", 2))
ref('r-grid-nodup', 'C06 C20', (GR, """            if hnf not in nodup_hnfs:
                nodup_hnfs.append(hnf)
""", """            if all(not (hnf == other) for other in nodup_hnfs):
                nodup_hnfs.append(hnf)
""", 2))
ref('r-grid-yield', 'C06', (GR, """                    for d, e in itertools.product(range(f), repeat=2):
                        hnf = np.array([[a, b, d],
                                        [0, c, e],
                                        [0, 0, f]])
                        l_HNFs.append(SuperLatticeCell(unit_gcell, hnf))
""", """                    for d in range(f):
                        for e in range(f):
                            hnf = np.zeros((3, 3), dtype=int)
                            hnf[0] = a, b, d
                            hnf[1, 1:] = c, e
                            hnf[2, 2] = f
                            l_HNFs.append(SuperLatticeCell(unit_gcell, hnf))
"""))
# --- restriction, clarifier
ref('r-min-identity', 'C07', (RE, """        scale = np.array([[2, 0, 0],
                          [0, 2, 0],
                          [0, 0, 2]])""", """        scale = 2 * np.eye(3, dtype=int)"""))
ref('r-min-identity2', 'C07', (RE, """        scale = np.array([[2, 0, 0],
                          [0, 2, 0],
                          [0, 0, 2]])""", """        scale = np.diag([2, 2, 2])"""))
ref('r-min-all', 'C07 C20', (RE, """        mindist = np.min(pdist(target_cart))
        is_ok = mindist > self.target_dist
""", """        is_ok = bool(np.all(pdist(target_cart) > self.target_dist))
"""))
ref('r-min-comb', 'C07', (RE, """        mindist = np.min(pdist(target_cart))
        is_ok = mindist > self.target_dist
""", """        from itertools import combinations
        is_ok = all(np.linalg.norm(p - q) > self.target_dist
                    for p, q in combinations(target_cart, 2))
"""))
ref('r-min-minmethod', 'C07', (RE, "mindist = np.min(pdist(target_cart))", "mindist = pdist(target_cart).min()"), (RE, "if len(target_cart) == 0:", "if target_cart.shape[0] == 0:"))
ref('r-cart-mask', 'C07', (SC, """            e = ele.Z
            num = np.where(self.numbers == e)[0]
            p_target = p[num]""", """            p_target = p[self.numbers == ele.Z]"""), (SC, "cart_coor = np.matmul(p_target, self.lattice)\n        return cart_coor", "return p_target.dot(self.lattice)"))
ref('r-clar-in', 'C08', (SC, """        allpos = pos + trans
        for p in allpos:
            cart_p = self.get_cartesian_from_frac(p)
            if euclidean_discance(cart_p, cart_cent) < r:
                return True
                break

        return False""", """        carts = self.get_cartesian_from_frac(pos + trans)
        return any(euclidean_discance(c, cart_cent) < r for c in carts)"""))
ref('r-clar-norm', 'C08', (SC, """        allpos = pos + trans
        for p in allpos:
            cart_p = self.get_cartesian_from_frac(p)
            if euclidean_discance(cart_p, cart_cent) < r:
                return True
                break

        return False""", """        carts = self.get_cartesian_from_frac(np.array(pos) + trans)
        dists = np.linalg.norm(carts - cart_cent, axis=1)
        return bool(dists.min() < r)"""))
ref('r-clar-sq', 'C08', (SC, "            if euclidean_discance(cart_p, cart_cent) < r:", "            if np.sqrt(np.sum((cart_p - cart_cent) ** 2)) < r:"))
ref('r-clar-sphere', 'C08', (SC, """            if ele is None:
                condition = self.in_euclidean_discance(site.position, center, r)
            else:
                condition = self.in_euclidean_discance(site.position, center, r) and (site.element == ele)

            if condition:
                dict_sites[ind] = site
        return dict_sites""", """            if ele is not None and site.element != ele:
                continue
            if self.in_euclidean_discance(site.position, center, r):
                dict_sites[ind] = site
        return dict_sites"""))
ref('r-clar-comp', 'C08', (CL, """            dsites = modcell.get_points_incell_insphere(center, self.r, self.element)
            modcell.remove_sites(list(dsites.keys()))
        return modcell


class Verb""", """            modcell.remove_sites(modcell.get_points_incell_insphere(center, self.r, self.element))
        return modcell


class Verb"""))
ref('r-clar-pop', 'C08 C09', (SC, """        index_set = set(indexs)
        self._sites = [s for i, s in enumerate(self._sites) if i not in index_set]
        return self""", """        kept = []
        for i in range(len(self._sites)):
            if i not in indexs:
                kept.append(self._sites[i])
        self._sites = kept
        return self"""))
ref('r-clar-del', 'C08', (SC, """        index_set = set(indexs)
        self._sites = [s for i, s in enumerate(self._sites) if i not in index_set]
        return self""", """        sites = list(self._sites)
        for i in sorted(set(indexs), reverse=True):
            if i < len(sites):
                del sites[i]
        self._sites = sites
        return self"""))
ref('r-clar-list', 'C08', (CL, """        for site in modcell:
            if site.element == self.etobesub:
                center = site.position
                dsites""", """        centers = [s.position for s in list(modcell) if s.element == self.etobesub]
        for center in centers:
            if True:
                dsites"""))
# --- modifiable cell
ref('r-mc-iter', 'C09', (SC, "return self._sites.__iter__()", "return iter(self._sites)"), (SC, "        return self._sites.__setitem__(index, site)", "        self._sites[index] = site"), (SC, "        return self._sites.__getitem__(index)\n\n    def __delitem__", "        return self._sites[index]\n\n    def __delitem__"), (SC, "        return self._sites.__delitem__(index)", "        del self._sites[index]"))
ref('r-mc-ext', 'C09', (SC, """        for s in sites:
            self._sites.append(s)""", """        self._sites.extend(sites)"""), (SC, "        self.pop(index)\n        return self", "        del self._sites[index]\n        return self"))
ref('r-mc-eq', 'C09', (SC, """        is_equ = False
        if len(self) == len(other) and np.allclose(self._lattice, other._lattice):
            if np.allclose(self.positions, other.positions) and np.allclose(self.numbers, other.numbers):
                is_equ = True

        return is_equ""", """        if len(self) != len(other):
            return False
        return bool(np.allclose(self._lattice, other._lattice)
                    and np.allclose(self.positions, other.positions)
                    and np.array_equal(self.numbers, other.numbers))"""))
ref('r-mc-copy', 'C09', (SC, """        from copy import deepcopy
        return deepcopy(self)""", """        new = self.__class__.__new__(self.__class__)
        new._lattice = self._lattice.copy()
        new._sites = [Site(s.position, s.element) for s in self._sites]
        return new"""))
ref('r-mc-init', 'C09 C08 C10', (SC, """        lsites = [s for s in zip(positions.tolist(), numbers.tolist())]
        self._sites = [Site(s[0], s[1]) for s in lsites]""", """        self._sites = [Site(p, n) for p, n in zip(positions.tolist(), numbers.tolist())]"""))
ref('r-mc-init2', 'C09 C08', (SC, """        lsites = [s for s in zip(positions.tolist(), numbers.tolist())]
        self._sites = [Site(s[0], s[1]) for s in lsites]""", """        self._sites = []
        for i in range(len(numbers)):
            self._sites.append(Site(tuple(positions[i]), int(numbers[i])))"""))
# --- perturb
ref('r-pert-loop', 'C10', (SC, """            vector = np.random.randn(3)
            vnorm = np.linalg.norm(vector)
            return vector / vnorm * distance if vnorm != 0 else get_rand_vec()""", """            while True:
                vector = np.random.randn(3)
                vnorm = np.sqrt(np.dot(vector, vector))
                if vnorm > 0:
                    return vector * (distance / vnorm)"""))
ref('r-pert-enum', 'C10', (SC, """        for i in range(len(self._sites)):
            self.translate_sites(i, get_rand_vec())""", """        for i, _ in enumerate(self._sites):
            vec = get_rand_vec()
            self.translate_sites(i, vec)"""))
ref('r-pert-frac', 'C10', (SC, """        new_cart = self.get_cartesian_from_frac(o_frac_coor) + vector
        new_frac = self.get_frac_from_cart(new_cart)
        target_site.position = tuple(new_frac)""", """        target_site.position = tuple(o_frac_coor + self.get_frac_from_cart(vector))"""))
ref('r-pert-normal', 'C10', (SC, "vector = np.random.randn(3)", "vector = np.random.normal(size=3)"))
# --- files
ref('r-va-group', 'C11 C20', (VA, """        for (i, pos, site) in sorted_position:
            if not i == 0:
                if not direct:
                    pos = np.matmul(pos, self.lattice)
                line = " ".join(["{:10.6f}".format(p) for p in pos])
                line += " " + site
                lines.append(line)
""", """        for (i, pos, site) in sorted_position:
            if i == 0:
                continue
            coor = pos if direct else np.matmul(pos, self.lattice)
            lines.append("%10.6f %10.6f %10.6f %s" % (coor[0], coor[1], coor[2], site))
"""))
ref('r-va-fstr', 'C11 C20', (VA, """            line = " ".join("{:10.6f}".format(p) for p in c)
            lines.append(line)
""", """            lines.append(" ".join(f"{p:10.6f}" for p in c))
"""))
ref('r-va-sort2', 'C11', (VA, "sorted_position = sorted(zipped_list, key=itemgetter(0))", "sorted_position = sorted(zipped_list, key=lambda t: t[0])"))
ref('r-va-read', 'C11 C20', (VA, """        numbers = []
        for i, s in enumerate(natoms):
            numbers += s * [nsymbols[i]]
        numbers = np.array(numbers)
""", """        numbers = np.repeat(nsymbols, natoms)
"""))
ref('r-va-read2', 'C11', (VA, """        numbers = []
        for i, s in enumerate(natoms):
            numbers += s * [nsymbols[i]]
        numbers = np.array(numbers)
""", """        numbers = np.array([z for z, k in zip(nsymbols, natoms) for _ in range(k)])
"""))
ref('r-va-splitlines', 'C11', (VA, "lines = [l for l in content.split('\\n') if l.rstrip()]", "lines = [l for l in content.splitlines() if l.strip()]"))
ref('r-va-list', 'C11', (VA, "positions = np.array([[float(i) for i in line.split()[0:3]]", "positions = np.array([list(map(float, line.split()[:3]))"))
ref('r-va-helper', 'C11', (VA, """        zoom = float(lines[1])
        lattice = np.around(np.array([[float(i) for i in line.split()]
                                                     for line in lines[2:5]]),
                                     decimals=4)""", """        def floats(line, n=3):
            return [float(w) for w in line.split()[:n]]

        zoom = float(lines[1])
        lattice = np.round([floats(line) for line in lines[2:5]], 4)"""))
ref('r-io-endswith', 'C12 C20', (IO, """fnmatch(fname.lower(), "*.vasp")""", """fname.lower().endswith(".vasp")""", 2), (IO, """fnmatch(fname, "*POSCAR*")""", "'POSCAR' in fname", 2))
ref('r-io-str', 'C12', (IO, "print(writer.__str__())", "print(str(writer))"))
ref('r-io-early', 'C12 C20', (IO, """        if fmt == "yaml" or fnmatch(fname.lower(), "*.yaml*"):
            reader = YamlInput(fname)
        elif fmt == "vasp" or fnmatch(fname.lower(), "*.vasp") or fnmatch(fname, "*POSCAR*"):
            reader = VaspInput(fname)

        return reader.get_cell()""", """        is_yaml = fmt == "yaml" or fnmatch(fname.lower(), "*.yaml*")
        cls_in = YamlInput if is_yaml else VaspInput
        return cls_in(fname).get_cell()"""))
ref('r-ya-helper', 'C12', (YA, """        latt = np.around(np.array(dicty['lattice']) * dicty['zoom'], decimals=4)
        pos = np.around(np.array(dicty['positions']), decimals=4)""", """        zoom = dicty.get('zoom', 1)
        latt = np.round(np.asarray(dicty['lattice']) * zoom, 4)
        pos = np.round(np.asarray(dicty['positions']), 4)"""))
ref('r-ya-open', 'C12', (YA, """        with open(filename, "w") as f:
            f.write(self.get_string())""", """        text = self.get_string()
        with open(filename, mode="w") as out:
            print(text, file=out, end='')"""))
ref('r-ya-read', 'C12', (YA, """        with open(filename, "r") as f:
            content = f.read()
""", """        f = open(filename)
        try:
            content = ''.join(line for line in f)
        finally:
            f.close()
"""))
# --- grids
ref('r-gr-array', 'C13 C21', (SC, """        mfunc = np.vectorize(lambda sp: sp.Z)
        arr = mfunc(np.array(self._sites))
        return arr""", """        return np.array([[[sp.Z for sp in row] for row in plane] for plane in self._sites])"""))
ref('r-gr-from', 'C13 C21', (SC, """        mfunc = np.vectorize(lambda n: Specie.from_num(n))
        sarr = mfunc(arr)
        return cls(sarr.tolist())""", """        sites = [[[Specie.from_num(n) for n in row] for row in plane] for plane in arr]
        return cls(sites)"""))
ref('r-gr-copy', 'C13', (SC, """        g = SitesGrid(self._sites)
        g._sites = [[y[:] for y in x] for x in self._sites]
        return g""", """        return SitesGrid([[list(y) for y in x] for x in self._sites])"""))
ref('r-gr-speck', 'C13 C21', (SC, """            out = [i_sea]*n
            for index in w_on:
                out[index] = i_speckle
            arr = np.array(out, dtype=np.int).reshape(size)
            yield cls.from_array(arr)""", """            out = np.full(n, i_sea)
            out[list(w_on)] = i_speckle
            yield cls.from_array(out.reshape(size))"""))
ref('r-gr-cell', 'C13 C21', (SC, """        arr_bas = marr*np.array([d, w, l], dtype=np.int).reshape((3, 1))
        grid_position = np.array([p for p in CStru._yield_position(d, w, l)])
        frac = np.array([1/d, 1/w, 1/l], dtype=np.float64).reshape((1, 3))
        # round_frac = np.around(frac, decimals=22)
        arr_pos = grid_position * frac
        arr_num = np.array([i for i in g_arr.flat])
""", """        dims = np.array([d, w, l])
        arr_bas = marr * dims[:, None]
        arr_pos = np.array(list(product(range(d), range(w), range(l)))) / dims
        arr_num = g_arr.ravel()
"""))
ref('r-gr-cell2', 'C13 C21', (SC, "arr_num = np.array([i for i in g_arr.flat])", "arr_num = g_arr.flatten()"), (SC, "marr*np.array([d, w, l], dtype=np.int).reshape((3, 1))", "np.diag([d, w, l]).dot(marr)"))
ref('r-gr-neigh', 'C14 C15', (SC, """        points = list(coor_map.values())
        points_tree = cKDTree(points)
        ind = points_tree.query_ball_point(point, delta)
        positions = list(coor_map.keys())
        return set(positions[i] for i in ind)""", """        found = set()
        for p, coor in coor_map.items():
            if np.linalg.norm(np.array(coor) - np.array(point)) <= delta:
                found.add(p)
        return found"""))
ref('r-gr-neigh2', 'C14 C15', (S2, """            coor = a*x + b*y    # an array
            return tuple(coor)""", """            return tuple(np.dot([x, y], np.array([a, b])))"""))
ref('r-gr-nodup', 'C21', (SO, """        sequence_new = numbers[ind]
        id_stru = _get_atom_seq_identifier(sequence_new)
        # isoset_cstru.add(id_stru)
        # isoset.update(isoset_cstru)
        isoset.add(id_stru)
""", """        isoset.add(_get_atom_seq_identifier(numbers[ind]))
"""), (SO, "    return str(list(numbers))", "    return tuple(numbers.tolist())"))
ref('r-gr-tobytes', 'C21', (SO, "    return str(list(numbers))", "    return numbers.tobytes()"))
ref('r-gr-pool', 'C21', (SO, """    d, w, l = np.shape(sites_arr)
    pool = sites_arr
    # pool the elements of outer dimension (depth)
    depth_d = pool[0, :, :].reshape(1,w,l)
    pool = np.concatenate((pool, depth_d), axis=0)
    # pool the elements of meddle dimension (width)
    width_d = pool[:, 0, :].reshape(d+1, 1, l)
    pool = np.concatenate((pool, width_d), axis=1)
    # pool the elements of inner dimension (length)
    length_d = pool[:, :, 0].reshape(d+1, w+1, 1)
    pool = np.concatenate((pool, length_d), axis=2)

    return pool""", """    pool = sites_arr
    for axis in range(3):
        first = np.take(pool, [0], axis=axis)
        pool = np.concatenate((pool, first), axis=axis)

    return pool"""))
ref('r-gr-pool2', 'C21', (SO, "    depth_d = pool[0, :, :].reshape(1,w,l)", "    depth_d = pool[:1]"), (SO, "width_d = pool[:, 0, :].reshape(d+1, 1, l)", "width_d = pool[:, :1]"))
ref('r-gr-coor', 'C21', (SO, """    d, w, l = ind
    v1 = m_arr[0]*d
    v2 = m_arr[1]*w
    v3 = m_arr[2]*l
    cood = np.array([v1[0]+v2[0]+v3[0], v1[1]+v2[1]+v3[1], v1[2]+v2[2]+v3[2]])
    return cood""", """    return np.dot(ind, m_arr)"""))
ref('r-gr-min', 'C21', (SO, """    min_distance = 9999
    pairs = combinations(points, 2)
    for pair in pairs:
        if _dist(pair[0], pair[1]) < min_distance:
            min_distance = _dist(pair[0], pair[1])

    return min_distance""", """    return min((_dist(p, q) for p, q in combinations(points, 2)), default=9999)"""))
# --- mlearn
ref('r-walk', 'C15', (AR, """    for pos in problem.get_neighbors(start):
        frontier.push(pos)
""", """    frontier |= problem.get_neighbors(start)
"""), (AR, """        for pos in problem.get_neighbors(current):
            if pos not in path:
                frontier.push(pos)
""", """        for pos in problem.get_neighbors(current):
            if pos in path:
                continue
            frontier.add(pos)
"""))
ref('r-walk-seen', 'C15', (AR, "    path.append(start)", "    path.append(start)\n    seen = {start}"), (AR, "        path.append(current)\n", "        path.append(current)\n        seen.add(current)\n"), (AR, "            if pos not in path:", "            if pos not in seen:"))
ref('r-pop-choice', 'C15 C16', (DS, """            random_ind = random.randint(0, len(self.list)-1)
            return self.list[random_ind]""", """            return random.choice(self.list)"""))
ref('r-pop-randrange', 'C15 C16', (DS, """            random_ind = random.randint(0, len(self.list)-1)
            return self.list[random_ind]""", """            return self.list[random.randrange(len(self.list))]"""))
ref('r-pop-random', 'C15 C16', (DS, """            random_ind = random.randint(0, len(self.list)-1)
            return self.list[random_ind]""", """            return self.list[int(random.random() * len(self.list))]"""))
ref('r-pop-last', 'C16', (DS, """            index = self.map[item]
            self.list[index], self.list[-1] = self.list[-1], self.list[index]
            self.map[self.list[index]] = index
            del self.list[-1]
            del self.map[item]""", """            index = self.map.pop(item)
            last = self.list.pop()
            if index < len(self.list):
                self.list[index] = last
                self.map[last] = index"""))
ref('r-mcts-ret', 'C17', (MC, """        winner = state.get_winner()
        if winner == 0:
            return 0
        else:
            return 1 if winner == player else -1""", """        winner = state.get_winner()
        if winner == 0:
            return 0
        if winner == player:
            return 1
        return -1"""), (MC, "return self._children == {}", "return not self._children"))
ref('r-mcts-iter', 'C17', (MC, """        if self._parent:
            self._parent.update_recursive(leaf_value, c_puct)
        self.update(leaf_value, c_puct)""", """        path = []
        node = self
        while node is not None:
            path.append(node)
            node = node._parent
        for node in reversed(path):
            node.update(leaf_value, c_puct)"""))
ref('r-mcts-mean', 'C17', (MC, "        self._Q += (leaf_value - self._Q) / self._n_visits", "        self._Q = (self._Q * (self._n_visits - 1) + leaf_value) / self._n_visits"))
ref('r-mcts-sqrt', 'C17', (MC, "np.sqrt(self._parent._n_visits)", "self._parent._n_visits ** 0.5"))
# --- bucky
ref('r-bu-set', 'C18', (BU, "        idy_seq = dict()", "        idy_seq = set()"), (BU, "                        idy_seq[arr_idy] = None", "                        idy_seq.add(arr_idy)"))
ref('r-bu-speck', 'C18', (BU, """            atom_numbers = [i_sea]*60
            for index in comb_index:
                atom_numbers[index] = i_speckle
            yield np.array(atom_numbers)""", """            atom_numbers = np.full(60, i_sea)
            atom_numbers[list(comb_index)] = i_speckle
            yield atom_numbers"""))
ref('r-bu-num', 'C18', (BU, """        num_count = Counter(self._atom_numbers)
        num = num_count[atom]
        #num = self._atom_numbers.count(atom)
        return num""", """        return int((self._atom_numbers == atom).sum())"""))
ref('r-bu-range', 'C18', (BU, """            for index, val in enumerate(s_atoms):
                arr_new = s_atoms.copy()
                #print(arr_new)
                if val != atom:
                    arr_new[index] = atom""", """            for index in range(len(s_atoms)):
                arr_new = np.array(s_atoms)
                if arr_new[index] != atom:
                    arr_new[index] = atom"""))
# --- element
ref('r-el-index', 'C19 C11', (EL, """            key = [k for k, v in _pt_db.items() if v["Atomic no"] == an][0]
            sp = Specie(key)
        return sp""", """            sp = Specie(Specie.to_name(an))
        return sp"""))
ref('r-el-dict', 'C19 C11 C20', (EL, "class Specie(object):\n", "_NAMES = {v[\"Atomic no\"]: k for k, v in _pt_db.items()}\n\n\nclass Specie(object):\n"), (EL, """            key = [k for k, v in _pt_db.items() if v["Atomic no"] == an][0]
            name = key
""", """            name = _NAMES[an]
"""))
ref('r-el-next', 'C19 C13', (EL, """            key = [k for k, v in _pt_db.items() if v["Atomic no"] == an][0]
            sp = Specie(key)""", """            for key, value in _pt_db.items():
                if value["Atomic no"] == an:
                    sp = Specie(key)
                    break
            else:
                raise IndexError(an)"""))
ref('r-el-eq', 'C19 C09', (EL, "return isinstance(other, Specie) and self.Z == other.Z", "if not isinstance(other, Specie):\n            return False\n        return self._Z == other._Z"))
# --- space group, conversions
ref('r-sg-search', 'C22', (RE, "spg_num = int(re.findall(r'\\((\\d+)\\)', spg)[0])", "spg_num = int(spg.split('(')[-1].rstrip(')'))"))
ref('r-sg-search2', 'C22', (RE, "spg_num = int(re.findall(r'\\((\\d+)\\)', spg)[0])", "spg_num = int(re.search(r'\\(([0-9]+)\\)\\s*$', spg).group(1))"))
ref('r-sg-any', 'C22', (RE, "        is_ok = spg_num in self.l_sp\n\n        return is_ok", "        return any(spg_num == n for n in self.l_sp)"))
ref('r-cv-helper', 'C23 C20', (SC, """        rcell = (self.lattice, self.positions, self.numbers)
        lattice, positions, numbers = spglib.standardize_cell(rcell, to_primitive=True,
                                                              no_idealize=False, symprec=self.symprec)

        return self.__class__(lattice, positions, numbers)

    def get_shaped""", """        return self._standardized(True)

    def _standardized(self, primitive):
        rcell = (self.lattice, self.positions, self.numbers)
        std = spglib.standardize_cell(rcell, to_primitive=primitive, symprec=self.symprec)
        return GeneralCell(*std)

    def get_shaped"""))
ref('r-cv-shape', 'C23 C20', (SC, "index = np.array([i for i in range(n)])", "index = np.arange(n)"), (SC, "        numbers = numbers[new_index]\n        return", "        numbers = np.array([numbers[i] for i in new_index])\n        return"))
ref('r-cv-prim', 'C23', (SC, "return primitive_cell[2].size == self.spg_cell[2].size", "return len(primitive_cell[2]) == len(self.numbers)"))
ref('r-cv-prim2', 'C23 C20', (SC, """        primitive_cell = spglib.find_primitive(self.spg_cell, symprec=self.symprec)
        return""", """        primitive_cell = spglib.standardize_cell(self.spg_cell, to_primitive=True, symprec=self.symprec)
        return"""))
# --- apps
ref('r-app-cond', 'C20', (AP + 'occupymaker.py', """                if self.tr is not None:
                    condition = c.is_primitive() and all(r.is_satisfied(c) for r in applied_restrictions)
                else:
                    condition = c.is_primitive()

                if condition:""", """                if c.is_primitive() and self._accepts(c):"""),
    (AP + 'occupymaker.py', "    def run(self):\n", """    def _accepts(self, c):
        if self.tr is None:
            return True
        for e, d in self.tr:
            if not MinDistanceRestriction((Specie(e), d)).is_satisfied(c):
                return False
        return True

    def run(self):
"""))
ref('r-app-write', 'C20', (AP + 'occupymaker.py', """                    if self.refined:
                        c = c.get_refined_pcell()
                    out = GeneralIO(c)

                    # never overwrite another structure
                    while True:
                        f_suffix = ''.join(random.choices(string.ascii_uppercase
                                                          + string.digits, k=4))
                        ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
                        lastpath = os.path.join(out_dir, ofname)
                        if not os.path.exists(lastpath):
                            break
                    out.write_file(lastpath)
""", """                    self._write(out_dir, c.get_refined_pcell() if self.refined else c)

    def _write(self, out_dir, cell):
        import random
        import string
        chars = string.ascii_uppercase + string.digits
        lastpath = None
        while lastpath is None or os.path.isfile(lastpath):
            suffix = ''.join(random.choice(chars) for _ in range(4))
            lastpath = os.path.join(out_dir, "STRUCTURE_%s_%s.%s" % (cell.comment, suffix, self.outmode))
        GeneralIO(cell).write_file(lastpath)
"""))
ref('r-app-listdir', 'C20', (AP + 'occupymaker.py', "                        if not os.path.exists(lastpath):\n", "                        if ofname not in os.listdir(out_dir):\n"))
ref('r-app-mkdir', 'C20', (AP + 'occupymaker.py', "        os.makedirs(out_dir)\n", "        os.mkdir(out_dir)\n"), (AP + 'superlattice.py', """        if not os.path.exists(suplat_dir):
            os.makedirs(suplat_dir)
        else:
            shutil.rmtree(suplat_dir)
            os.makedirs(suplat_dir)
""", """        if os.path.isdir(suplat_dir):
            shutil.rmtree(suplat_dir)
        os.makedirs(suplat_dir)
"""))
ref('r-app-mktry', 'C20', (AP + 'occupymaker.py', """            if not os.path.exists(out_dir):
                break
        os.makedirs(out_dir)
""", """            try:
                os.makedirs(out_dir)
            except FileExistsError:
                continue
            break
"""))
ref('r-app-settings', 'C20', (AP + 'occupytenter.py', """        if zoom is None:
            try:
                zoom = settings['zoom']
            except:
                zoom = 1
        self.zoom = zoom
""", """        if zoom is None:
            zoom = settings.get('zoom', 1)
        self.zoom = zoom
"""), (AP + 'occupytenter.py', "        self.tr = trs\n" if False else "            self.tr = trs\n", "            self.tr = list(trs)\n"))
ref('r-app-mkstemp', 'C20', (AP + 'occupytenter.py', """                tf = tempfile.NamedTemporaryFile(mode='w+b', dir=poscars_dir,
                                                 prefix=prefix.format(self.n0, self.n1, self.n2),
                                                 suffix=suffix, delete=False)
                poscar.write(tf.name)""", """                fd, name = tempfile.mkstemp(dir=poscars_dir,
                                            prefix=prefix.format(self.n0, self.n1, self.n2),
                                            suffix=suffix)
                os.close(fd)
                poscar.write(name)"""))
ref('r-app-with', 'C20', (AP + 'occupytenter.py', """                tf = tempfile.NamedTemporaryFile(mode='w+b', dir=poscars_dir,
                                                 prefix=prefix.format(self.n0, self.n1, self.n2),
                                                 suffix=suffix, delete=False)
                poscar.write(tf.name)""", """                with tempfile.NamedTemporaryFile(mode='w', dir=poscars_dir,
                                                 prefix=prefix.format(self.n0, self.n1, self.n2),
                                                 suffix=suffix, delete=False) as tf:
                    tf.write(poscar.get_string())"""))
ref('r-app-randint', 'C20', (AP + 'occupymaker.py', """                        f_suffix = ''.join(random.choices(string.ascii_uppercase
                                                          + string.digits, k=4))
""", """                        f_suffix = '{:04X}'.format(random.randint(0, 0xFFFF))
"""))
ref('r-app-npchoice', 'C20', (AP + 'occupymaker.py', """                        f_suffix = ''.join(random.choices(string.ascii_uppercase
                                                          + string.digits, k=4))
""", """                        f_suffix = ''.join(np.random.choice(list(string.ascii_uppercase + string.digits), 4))
"""), (AP + 'occupymaker.py', "import os\n", "import os\nimport numpy as np\n"))
ref('r-app-sample', 'C20', (AP + 'occupymaker.py', """                        f_suffix = ''.join(random.choices(string.ascii_uppercase
                                                          + string.digits, k=4))
""", """                        f_suffix = ''.join(random.sample(string.ascii_uppercase + string.digits, 4))
"""))
ref('r-app-uuid', 'C20', (AP + 'occupymaker.py', """                        f_suffix = ''.join(random.choices(string.ascii_uppercase
                                                          + string.digits, k=4))
""", """                        import uuid
                        f_suffix = uuid.uuid4().hex[:4].upper()
"""))
SCID_ = "num_id = xxhash.xxh64(self.numbers).intdigest()"
SOID_ = "num_hash = xxhash.xxh64(numbers_arr).intdigest()"
for _n, _a in (('tup', "hash(tuple(%s))"), ('bytes', "%s.tobytes()"), ('tuple', "tuple(%s)"), ('hex', "xxhash.xxh64(%s).hexdigest()"),
               ('sep', "'-'.join(str(x) for x in %s)"), ('hashbytes', "hash(%s.tobytes())")):
    ref('r-id-' + _n, 'C01 C02 C04 C24 C25 C20', ('ababe/stru/scaffold.py', SCID_, "num_id = " + _a % 'self.numbers'),
        ('ababe/stru/sogen.py', SOID_, "num_hash = " + _a % 'numbers_arr'))

# --- comparing grid structures, cell inspection, abstract problems
EQB = """    is_equal = False
    for r, t in ops:
        pos_new = np.transpose(np.matmul(r, np.transpose(posB))) + t
        id_stru = _get_id_seq(pos_new, atom_numB)
        if id_stru == id_struA:
            is_equal = True

    return is_equal
"""
ref('r-eq-any', 'C26', (SO, EQB, """    def image_id(op):
        r, t = op
        return _get_id_seq(np.matmul(r, posB.T).T + t, atom_numB)

    return any(image_id(op) == id_struA for op in ops)
"""))
ref('r-eq-early', 'C26', (SO, EQB, """    for r, t in ops:
        pos_new = np.dot(posB, np.transpose(r)) + t
        if not _get_id_seq(pos_new, atom_numB) != id_struA:
            return True
    return False
"""))
ref('r-eq-set', 'C26', (SO, EQB, """    images = {_get_id_seq(np.transpose(np.matmul(r, np.transpose(posB))) + t, atom_numB) for r, t in ops}
    return id_struA in images
"""))
ref('r-eq-count', 'C26', (SO, EQB, """    hits = sum(1 for r, t in ops
               if _get_id_seq(np.transpose(np.matmul(r, np.transpose(posB))) + t, atom_numB) == id_struA)
    return hits > 0
"""))
ref('r-seq-join', 'C26', (SO, "    id_seq = str(arr_num[ind_sort].tolist())\n\n    return id_seq", "    return ','.join(str(n) for n in arr_num[ind_sort])"))
ref('r-seq-tuple', 'C26', (SO, "    id_seq = str(arr_num[ind_sort].tolist())\n\n    return id_seq", "    return tuple(arr_num[ind_sort].tolist())"))
ref('r-seq-repr', 'C26', (SO, "    id_seq = str(arr_num[ind_sort].tolist())\n\n    return id_seq", "    id_seq = repr(list(arr_num[ind_sort]))\n    return id_seq"))
ref('r-seq-round', 'C26', (SO, """    func_tofrac = np.vectorize(lambda x: round((x % 1), 3))
    o_pos = func_tofrac(pos)
    # round_o_pos = np.around(o_pos, decimals=3)
    # z, y, x = round_o_pos[:, 2], round_o_pos[:, 1], round_o_pos[:, 0]
    z, y, x = o_pos[:, 2], o_pos[:, 1], o_pos[:, 0]
    ind_sort = np.lexsort((z, y, x))
    # every""", """    o_pos = np.around(np.mod(pos, 1), decimals=3)
    ind_sort = np.lexsort(o_pos.T[::-1])
    # every"""))
ref('r-cell-spgprop', 'C27 C03 C23', (SC, """    def spg_cell(self):
        return self._spg_cell""", """    def spg_cell(self):
        return (self._lattice, self._positions, self._numbers)"""),
    (SC, "spglib.get_spacegroup(self._spg_cell, symprec", "spglib.get_spacegroup(self.spg_cell, symprec"))
ref('r-cell-tolerance', 'C27 C22', (SC, "        return spglib.get_spacegroup(self._spg_cell, symprec=self.symprec)", "        tol = self.symprec\n        return spglib.get_spacegroup(self._spg_cell, tol)"))
ref('r-cell-wyckhelper', 'C27 C01', (SC, """        symdb = spglib.get_symmetry_dataset(self._spg_cell, symprec=self.symprec)
        return symdb['wyckoffs']""", """        return self._dataset()['wyckoffs']

    def _dataset(self):
        return spglib.get_symmetry_dataset(self._spg_cell, symprec=self.symprec)"""))
ref('r-cell-comment2', 'C27 C11', (SC, """        d = Counter(atoms_name_list)
        ordered_atoms = OrderedDict(sorted(d.items(),
                                           key=lambda x: Specie(x[0]).Z))
        if 'G' in ordered_atoms:
            del ordered_atoms['G']

        comment = ''.join(['{}{}'.format(k, v)
                           for k, v in ordered_atoms.items()])
        return comment""", """        d = Counter(name for name in atoms_name_list if name != 'G')
        parts = []
        for name in sorted(d, key=lambda k: Specie(k).Z):
            parts.append('%s%d' % (name, d[name]))
        return ''.join(parts)"""))
ref('r-cart-bool', 'C27', (SC, """            num = np.where(self.numbers == e)[0]
            p_target = p[num]""", """            p_target = p[self.numbers == e]"""))
ref('r-cart-dot', 'C27 C07', (SC, """        cart_coor = np.matmul(p_target, self.lattice)
        return cart_coor

    def supercell""", """        return np.dot(p_target, np.array(self.lattice))

    def supercell"""))
ref('r-frac-solve', 'C27 C10', (SC, "        frac_coor = np.matmul(cart_coor, np.linalg.inv(self.lattice))\n        return frac_coor", "        inverse = np.linalg.inv(self.lattice)\n        return np.dot(cart_coor, inverse)"))
ref('r-abstract-frame', 'C15', (DS, """    fileName = inspect.stack()[1][1]
    line = inspect.stack()[1][2]
    method = inspect.stack()[1][3]

    print("*** Method not implemented: %s at line %s of %s" % (method, line, fileName))
    sys.exit(1)""", """    frame = inspect.stack()[1]
    print("*** Method not implemented: {} at line {} of {}".format(frame[3], frame[2], frame[1]))
    raise SystemExit(1)"""))
ref('r-abstract-cur', 'C15', (DS, """    fileName = inspect.stack()[1][1]
    line = inspect.stack()[1][2]
    method = inspect.stack()[1][3]
""", """    caller = inspect.currentframe().f_back
    fileName = caller.f_code.co_filename
    line = caller.f_lineno
    method = caller.f_code.co_name
"""))
ref('r-lattice-goal', 'C15', (AG, """        is_goal = len_path == self.goal_num

        return is_goal

    def get_neighbors(self, position):
        # neighbors is a list contain positions
        neighbors = self.bg.get_neighbors(position, self.delta)

        return neighbors

class FCC""", """        return not len_path != self.goal_num

    def get_neighbors(self, position):
        return list(self.bg.get_neighbors(position, self.delta))

class FCC"""))
ref('r-clar-type', 'C08', (CL, """        if not isinstance(modcell, ModifiedCell):
            raise ValueError('Please input a ModifiedCell')

        for center""", """        if isinstance(modcell, ModifiedCell) is False:
            raise ValueError('Please input a ModifiedCell, not %s' % type(modcell).__name__)

        for center"""))
ref('r-el-get', 'C19', (EL, """        d = _pt_db[symbol]

        self._Z = d["Atomic no"]
        self.atom_mass = d["Atomic mass"]
        self.atom_radius = d["Atomic radius"]""", """        entry = dict(_pt_db[symbol])
        self._Z, self.atom_mass, self.atom_radius = (entry[k] for k in ("Atomic no", "Atomic mass", "Atomic radius"))"""))
