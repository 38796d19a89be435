SO, SC, S2 = 'ababe/stru/sogen.py', 'ababe/stru/scaffold.py', 'ababe/stru/scaffold2d.py'
GR, BU, RE, CL = 'ababe/stru/grid.py', 'ababe/stru/buckyball.py', 'ababe/stru/restriction.py', 'ababe/stru/clarifier.py'
EL, SI = 'ababe/stru/element.py', 'ababe/stru/site.py'
VA, YA, IO, OIO = 'ababe/io/vasp.py', 'ababe/io/yaml.py', 'ababe/io/io.py', 'ababe/stru/io.py'
AR, AG, DS, MC = 'ababe/mlearn/arrange.py', 'ababe/mlearn/arrangeAgent.py', 'ababe/mlearn/dsutils.py', 'ababe/mlearn/mcts.py'
AP = 'ababe/cmdline/apps/'
RB, RT = 'ababe/cmdline/runabalib.py', 'ababe/cmdline/runatilib.py'

# --- C01
mut('c01-wy-upper', 'C01', SO, "sp_ind = [i for i, w in enumerate(wyckoffs) if w is wy]", "sp_ind = [i for i, w in enumerate(wyckoffs) if w <= wy]")
mut('c01-unit-skip-same', 'C01', SO, "        for comb_index in combinations(range(num_count), n):", "        free = [i for i in range(num_count) if init_numbers[i] != 0]\n        for comb_index in combinations(free, n):")
mut('c01-alias', 'C01', SO, """        for comb_index in combinations(range(num_count), n):
            numbers = init_numbers.copy()
            for""", """        for comb_index in combinations(range(num_count), n):
            numbers = init_numbers
            for""")
mut('c01-numset', 'C01', SO, """            numbers_new = numbers[ind]
            cell_id = numbers2id(numbers_new)
            isoset[cell_id] = None

    def all""", """            numbers_new = np.sort(numbers[ind])
            cell_id = numbers2id(numbers_new)
            isoset[cell_id] = None

    def all""")
mut('c01-hash32', 'C01', SO, "    def gen_nodup_of_ele(self, ele, n, sp):\n        dup = self.gen_dup_of_ele(ele, n, sp)", "    def gen_nodup_of_ele(self, ele, n, sp):\n        if n * 2 > np.sum(self.numbers == ele.Z) and ele.Z > sp.Z:\n            n = np.sum(self.numbers == ele.Z) - n\n        dup = self.gen_dup_of_ele(ele, n, sp)")
# --- C02
mut('c02-no-tee', 'C02', SO, """            gen = self.gen_add_one_speckle(gen, wy, sp)
            gen = self.gen_2nodup_gen(gen)

            out_gen, gen = tee(gen, 2)
            yield out_gen""", """            gen = self.gen_add_one_speckle(gen, wy, sp)
            gen = self.gen_2nodup_gen(gen)

            yield gen""")
mut('c02-level0', 'C02', SO, """              {1:4d}, in wyckoff site {2:3}...".format(sp.name, n, ele.Z))
        for i in range(n_init, n):""", """              {1:4d}, in wyckoff site {2:3}...".format(sp.name, n, ele.Z))
        for i in range(n):""")
mut('c02-shared-db', 'C02', SO, """                if e == ele_Z and e != atom:
                    numbers_new[index] = atom
                    num_id = numbers2id(numbers_new)""", """                if e == ele_Z and e != atom:
                    numbers_new[index] = atom
                    num_id = sum(numbers_new * np.arange(numbers_new.size))""")
mut('c02-wy-sp', 'C02', SO, "if tuple_w_e[0] == wy and atom != tuple_w_e[1]:", "if tuple_w_e[0] == wy and atom > tuple_w_e[1]:")
mut('c02-unit-vac', 'C02', SO, "                if atom != val:\n                    numbers_new[index]", "                if val not in (atom, 0):\n                    numbers_new[index]")
mut('c02-eager-late', 'C02', SO, """            gen = self.gen_add_one_speckle_unitary(gen, sp)
            gen = self.gen_2nodup_gen(gen)

            out_gen, gen = tee(gen, 2)
            yield out_gen""", """            gen = self.gen_add_one_speckle_unitary(gen, sp)
            gen = self.gen_2nodup_gen(gen)

            out_gen, gen = tee(gen, 2)
            yield out_gen
            gen = iter(list(out_gen) or list(gen))""")
# --- C03
mut('c03-inverse', 'C03', SC, "perm = np.argmin((diff**2).sum(axis=2), axis=1)", "perm = np.argmin((diff**2).sum(axis=2), axis=0)")
mut('c03-no-rint', 'C03', SC, "            diff -= np.rint(diff)\n            perm", "            diff = np.mod(diff, 1)\n            perm")
mut('c03-dedupe', 'C03', SC, "            sym_perm.append(perm)\n\n        return sym_perm", "            if np.all(perm == np.arange(perm.size)) and sym_perm:\n                continue\n            sym_perm.append(perm)\n\n        return sym_perm")
mut('c03-rot', 'C03', SC, "pos_new = np.transpose(np.matmul(r, self._positions.T)) + t", "pos_new = np.matmul(self._positions, r) + t")
mut('c03-dropdup-rot', 'C03', SC, "        ops = [(r, t) for r, t in zip(sym_mat['rotations'],\n                                      sym_mat['translations'])]", "        ops = [(r, t) for r, t in zip(sym_mat['rotations'],\n                                      sym_mat['translations'])][:96]")
# --- C04
mut('c04-lexorder', 'C04', SC, "        inds = np.lexsort((z, y, x))\n\n        return inds\n\n    @property\n    def spg_cell", "        inds = np.lexsort((y, x))\n\n        return inds\n\n    @property\n    def spg_cell")
mut('c04-nomod', 'C04', SC, "        func_tofrac = np.vectorize(lambda x: round((x % 1), 3))", "        func_tofrac = np.vectorize(lambda x: round((x % 1), 3) if x < 1 else round(x - 1, 3))")
mut('c04-id32', 'C04', SC, "num_id = xxhash.xxh64(self.numbers).intdigest()", "num_id = xxhash.xxh64(np.sort(self.numbers)).intdigest()")
mut('c04-id8', 'C04', SC, "num_id = xxhash.xxh64(self.numbers).intdigest()", "num_id = xxhash.xxh64(np.mod(self.numbers, 64)).intdigest()")
mut('c04-unique', 'C04', SC, "        self._positions = positions[init_index]", "        self._positions = np.mod(positions[init_index], 1)")
mut('c04-single-round', 'C04', SC, "lambda x: round((x % 1), 3)", "lambda x: round((x % 1), 2)")
# --- C05
mut('c05-numtile', 'C05', SC, "numbers = np.repeat(self.numbers, n)", "numbers = np.tile(self.numbers, n)")
mut('c05-transposed', 'C05', SC, "o_conv_pos = np.matmul(self.positions, np.linalg.inv(scale_mat))\n        o_pos", "o_conv_pos = np.matmul(self.positions, np.linalg.inv(scale_mat.T))\n        o_pos")
mut('c05-diag', 'C05', SC, "o_conv_pos = np.matmul(self.positions, np.linalg.inv(scale_mat))\n        o_pos", "o_conv_pos = self.positions / scale_mat.diagonal()\n        o_pos")
mut('c05-lat', 'C05', SC, "sarr_lat = np.matmul(scale_mat, self.lattice)", "sarr_lat = np.matmul(scale_mat.T, self.lattice)")
# --- C06
mut('c06-factors', 'C06', GR, "range(1, int(n**0.5) + 1) if n % i == 0)))\n\n        l_HNFs = []\n        a_list = list(factors(n))\n        for a in a_list:\n            c_list", "range(1, int(n**0.5)) if n % i == 0)), {n})\n\n        l_HNFs = []\n        a_list = list(factors(n))\n        for a in a_list:\n            c_list")
mut('c06-inv', 'C06', GR, "            h_inv = mul(other.lat_coeff,\n                        inv(r.T))", "            h_inv = mul(other.lat_coeff,\n                        inv(r))")
mut('c06-2d-b', 'C06', GR, "            c = n//a\n            for b in range(c):", "            c = n//a\n            for b in range(min(c, a + 1)):")
mut('c06-tol', 'C06', GR, "if np.all(np.mod(h_mat, 1) == 0):", "if np.all(np.mod(h_mat.diagonal(), 1) == 0):")
mut('c06-proper', 'C06', GR, "        for r in self.sym['rotations']:", "        for r in self.sym['rotations'][::2]:")
mut('c06-e', 'C06', GR, "for d, e in itertools.product(range(f), repeat=2):", "for d, e in itertools.product(range(f), range(min(f, n//f + 1))):")
# --- C07
mut('c07-ge', 'C07', RE, "is_ok = mindist > self.target_dist", "is_ok = mindist >= self.target_dist")
mut('c07-211', 'C07', RE, "        scale = np.array([[2, 0, 0],\n                          [0, 2, 0],\n                          [0, 0, 2]])", "        scale = np.array([[2, 0, 0],\n                          [0, 2, 0],\n                          [0, 0, 1]])")
mut('c07-single', 'C07', RE, "        super_gcell = gcell.supercell(scale)", "        if np.sum(gcell.numbers == self.target_ele.Z) < 2:\n            return True\n        super_gcell = gcell.supercell(scale)")
mut('c07-ele', 'C07', SC, "            num = np.where(self.numbers == e)[0]", "            num = np.where(self.numbers >= e)[0]")
mut('c07-metric', 'C07', RE, "np.min(pdist(target_cart))", "np.min(pdist(target_cart, 'chebyshev'))")
mut('c07-round', 'C07', RE, "np.min(pdist(target_cart))", "np.around(np.min(pdist(target_cart)), 1)")
# --- C08
mut('c08-le', 'C08', SC, "if euclidean_discance(cart_p, cart_cent) < r:", "if euclidean_discance(cart_p, cart_cent) <= r:")
mut('c08-break', 'C08', CL, "            dsites = modcell.get_points_incell_insphere(center, self.r, self.element)\n            modcell.remove_sites(list(dsites.keys()))\n        return modcell\n\n\nclass V", "            dsites = modcell.get_points_incell_insphere(center, self.r, self.element)\n            modcell.remove_sites(list(dsites.keys())[:len(self.centers) + 1])\n        return modcell\n\n\nclass V")
mut('c08-remaining', 'C08', CL, "        for site in modcell:\n            if site.element == self.etobesub:", "        for site in list(modcell):\n            if site.element == self.etobesub and site in modcell:")
mut('c08-ghost', 'C08', CL, "        self.element = element\n        self.r = r\n\n    def clarify(self, modcell):\n        if not isinstance(modcell, ModifiedCell):\n            raise ValueError('Please input a ModifiedCell')\n\n        for site", "        self.element = element if element != etobesub else None\n        self.r = r\n\n    def clarify(self, modcell):\n        if not isinstance(modcell, ModifiedCell):\n            raise ValueError('Please input a ModifiedCell')\n\n        for site")
mut('c08-images', 'C08', SC, "allpos = pos + trans", "allpos = np.mod(pos, 1) + trans[np.abs(trans).sum(axis=1) < 3]")
# --- C09
mut('c09-shallow', 'C09', SC, "        from copy import deepcopy\n        return deepcopy(self)", "        from copy import copy\n        c = copy(self)\n        c._sites = list(self._sites)\n        return c")
mut('c09-extend-self', 'C09', SC, "        for s in sites:\n            self._sites.append(s)", "        for s in sites:\n            if s not in self._sites:\n                self._sites.append(s)")
mut('c09-eq-order', 'C09', SC, "np.allclose(self.numbers, other.numbers)", "np.allclose(np.sort(self.numbers), np.sort(other.numbers))")
mut('c09-negidx', 'C09', SC, "self._sites.insert(index, site)", "self._sites.insert(max(index, 0), site)")
mut('c09-pop0', 'C09', SC, "        return self._sites.pop(index)", "        return self._sites.pop(index or -1)")
mut('c09-site-eq', 'C09', SI, "return self.position == other.position and self.element == other.element", "return self.position == other.position")
mut('c09-eqlat', 'C09', SC, "np.allclose(self._lattice, other._lattice)", "np.allclose(np.linalg.det(self._lattice), np.linalg.det(other._lattice))")
mut('c09-toglat', 'C09', SC, "        return GeneralCell(self._lattice, self.positions, self.numbers)", "        return GeneralCell(self._lattice, np.mod(self.positions, 1), self.numbers)")
# --- C10
mut('c10-frac', 'C10', SC, "return vector / vnorm * distance if vnorm != 0 else get_rand_vec()", "return vector / max(vnorm, 1e-2) * distance if vnorm != 0 else get_rand_vec()")
mut('c10-skip', 'C10', SC, "        for i in range(len(self._sites)):\n            self.translate", "        for i in range(len(self._sites)):\n            if self._sites[i].element.Z == 0:\n                continue\n            self.translate")
mut('c10-wrap', 'C10', SC, "target_site.position = tuple(new_frac)", "target_site.position = tuple(np.around(new_frac, 4))")
mut('c10-transpose', 'C10', SC, "frac_coor = np.matmul(cart_coor, np.linalg.inv(self.lattice))", "frac_coor = np.matmul(cart_coor, np.linalg.inv(self.lattice.T))")
# --- C11
mut('c11-countdup', 'C11', VA, "        for i, s in enumerate(natoms):\n            numbers += s * [nsymbols[i]]", "        for z, s in dict(zip(nsymbols, natoms)).items():\n            numbers += s * [z]")
mut('c11-zoomabs', 'C11', VA, "zoom = (-zoom / vol) ** (1 / 3)", "zoom = (-zoom / vol) ** (1 / 2)")
mut('c11-cart-lower', 'C11', VA, "lines[7].strip()[0] in 'cCkK'", "lines[7].strip()[0] in 'cCK'")
mut('c11-cartzoom', 'C11', VA, "positions = np.matmul(positions * zoom,", "positions = np.matmul(positions,")
mut('c11-sortsym', 'C11', VA, "        sorted_position = sorted(zipped_list, key=itemgetter(0))", "        sorted_position = sorted(zipped_list, key=itemgetter(2))")
mut('c11-io-sortsym', 'C11', OIO, "        sorted_position = sorted(zipped_list, key=itemgetter(0))", "        sorted_position = sorted(zipped_list, key=itemgetter(2))")
mut('c11-prec', 'C11', VA, '"{:10.6f}".format(p) for p in pos', '"{:10.3f}".format(p) for p in pos')
mut('c11-strip', 'C11', VA, "for line in lines[8:]])", "for line in lines[8:8 + len(set(lines[8:]))]])")
mut('c11-fmtwidth', 'C11', VA, '            line = " ".join("{:10.6f}".format(p) for p in c)', '            line = "".join("{:10.6f}".format(p) for p in c)')
# --- C12
mut('c12-zoom', 'C12', YA, "latt = np.around(np.array(dicty['lattice']) * dicty['zoom'], decimals=4)", "latt = np.around(np.array(dicty['lattice']), decimals=4) * int(dicty['zoom'])")
mut('c12-fmt', 'C12', IO, 'fmt = "" if fmt is None else fmt.lower()\n\n        if fmt == "yaml" or fnmatch(fname.lower(), "*.yaml*"):\n            reader', 'fmt = fmt or ""\n\n        if fmt == "yaml" or fnmatch(fname.lower(), "*.yaml*"):\n            reader')
mut('c12-vac', 'C12', YA, "        numbers = np.array(dicty['numbers'])\n", "        numbers = np.array(dicty['numbers'])\n        pos, numbers = pos[numbers != 0], numbers[numbers != 0]\n")
mut('c12-poscar', 'C12', IO, 'writer = YamlOutput(self.gcell)\n        elif fmt == "vasp" or fnmatch(fname.lower(), "*.vasp") or fnmatch(fname, "*POSCAR*"):', 'writer = YamlOutput(self.gcell)\n        elif fmt == "vasp" or fnmatch(fname.lower(), "*.vasp") or fnmatch(fname, "*POSCAR"):')
mut('c12-round', 'C12', YA, "self.positions = np.around(gcell.positions, decimals=6)", "self.positions = np.around(gcell.positions, decimals=3)")
mut('c12-print', 'C12', IO, "            print(writer.__str__())", "            print(str(VaspOutput(self.gcell)))")
# --- C13
mut('c13-copy', 'C13', SC, "        g._sites = [[y[:] for y in x] for x in self._sites]", "        g._sites = [x[:] for x in self._sites]")
mut('c13-eq', 'C13', SC, "return other.m == self.m and other.sites_grid == self.sites_grid", "return other.sites_grid == self.sites_grid")
mut('c13-order', 'C13', SC, "                    yield [c, b, a]", "                    yield [a, b, c]")
mut('c13-frac', 'C13', SC, "frac = np.array([1/d, 1/w, 1/l], dtype=np.float64)", "frac = np.array([1/d, 1/w, 1/w], dtype=np.float64)")
mut('c13-eq2d', 'C13', S2, "        return self._sites == other._sites", "        return self.get_array().sum() == other.get_array().sum()")
mut('c13-speckle', 'C13', SC, "        for w_on in combinations(range(n), noa):\n            out = [i_sea]*n", "        out = [i_sea]*n\n        for w_on in combinations(range(n), noa):\n            if noa < n:\n                out = [i_sea]*n\n            out = out[:d*w*w] + [i_sea]*(n-d*w*w)")
# --- C14
mut('c14-strict', 'C14', SC, "query_ball_point(point, delta)", "query_ball_point(point, delta*(1-1e-9))")
mut('c14-2d-axes', 'C14', S2, "            coor = a*x + b*y    # an array", "            coor = a*x + b*x    # an array" )
mut('c14-inf', 'C14', SC, "query_ball_point(point, delta)", "query_ball_point(point, delta, p=3)")
mut('c14-range', 'C14', SC, "                for y in range(self.width):\n                    for z in range(self.length):\n                        yield(x, y, z)", "                for y in range(self.width):\n                    for z in range(min(self.length, 2*self.width)):\n                        yield(x, y, z)")
# --- C15
mut('c15-frontier', 'C15', AR, "            if pos not in path:\n                frontier.push(pos)", "            if pos != path[-2] and pos not in path[-3:]:\n                frontier.push(pos)")
mut('c15-start', 'C15', AR, "    for pos in problem.get_neighbors(start):\n        frontier.push(pos)", "    for pos in problem.get_neighbors(start):\n        frontier.push(pos)\n    frontier.push(start)")
mut('c15-goal', 'C15', AG, "        is_goal = len_path == self.goal_num\n\n        return is_goal\n\n    def get_neighbors(self, position):\n        # neighbors is a list contain positions\n        neighbors = self.bg.get_neighbors(position, self.delta)\n\n        return neighbors\n\nclass", "        is_goal = len_path >= self.goal_num - 1 and len_path > 1\n\n        return is_goal\n\n    def get_neighbors(self, position):\n        # neighbors is a list contain positions\n        neighbors = self.bg.get_neighbors(position, self.delta)\n\n        return neighbors\n\nclass")
mut('c15-mid', 'C15', SC, "        return (d//2, w//2, l//2)", "        return ((d-1)//2, (w-1)//2, (l-1)//2)")
mut('c15-mid2', 'C15', S2, "        return (w//2, l//2)", "        return ((w+1)//2, l//2)")
# --- C16
mut('c16-swap', 'C16', DS, "            self.map[self.list[index]] = index\n", "            self.map[self.list[index]] = len(self.list) - 1\n")
mut('c16-randrange', 'C16', DS, "random.randint(0, len(self.list)-1)", "random.randint(0, max(len(self.list)-2, 0))")
mut('c16-or', 'C16', DS, "            self |= iterable", "            for i in iterable:\n                self.map[i] = len(self.list)\n                self.list.append(i)")
mut('c16-popnone', 'C16', DS, "        if self.list:\n            random_ind", "        if len(self.list) > 1:\n            random_ind")
mut('c16-len', 'C16', DS, "return item in self.map", "return item in self.map and item is not None")
# --- C17
mut('c17-mean', 'C17', MC, "self._Q += (leaf_value - self._Q) / self._n_visits", "self._Q += (leaf_value - self._Q) / max(self._n_visits, 2)")
mut('c17-mix', 'C17', MC, "leaf_value = (1 - self._lmbda) * v + self._lmbda * z", "leaf_value = self._lmbda * v + (1 - self._lmbda) * z")
mut('c17-player', 'C17', MC, "return 1 if winner == player else -1", "return 1 if winner == state.get_current_player() else -1")
mut('c17-best', 'C17', MC, "key=lambda act_node: act_node[1]._n_visits)[0]", "key=lambda act_node: act_node[1]._Q)[0]")
mut('c17-copy', 'C17', MC, "            state_copy = state.copy()\n", "            state_copy = state.copy() if n else state\n")
mut('c17-parent', 'C17', MC, "            self._root._parent = None\n", "            pass\n")
mut('c17-sqrt', 'C17', MC, "np.sqrt(self._parent._n_visits) / (1 + self._n_visits)", "np.sqrt(1 + self._parent._n_visits) / (1 + self._n_visits)")
mut('c17-leaf', 'C17', MC, "            # Greedily select next move.\n", "                if i > 0:\n                    break\n            # Greedily select next move.\n")
mut('c17-rollargmin', 'C17', MC, "max_action = max(action_probs, key=itemgetter(1))[0]", "max_action = max(action_probs)[0]")
# --- C18
mut('c18-filter', 'C18', BU, "        for ind in sym_perm:\n            atoms_new = atoms[ind]", "        for ind in sym_perm[:60]:\n            atoms_new = atoms[ind]")
mut('c18-notee', 'C18', BU, "            out_gen, gen = tee(gen, 2)\n            yield out_gen", "            yield gen")
mut('c18-inplace', 'C18', BU, "                arr_new = s_atoms.copy()", "                arr_new = s_atoms if atom == 0 else s_atoms.copy()")
mut('c18-comb', 'C18', BU, "for comb_index in combinations(range(60), noa):", "for comb_index in combinations(range(60 if noa < 3 else 59), noa):")
mut('c18-first', 'C18', BU, "        n_init = bucky_stru.get_speckle_num(sp)\n        for i in range(n_init, n_max):", "        n_init = bucky_stru.get_speckle_num(sp)\n        for i in range(n_init, n_max - 1 if n_max > 2 else n_max):")
# --- C19
mut('c19-ghost-eq', 'C19', EL, "return isinstance(other, Specie) and self.Z == other.Z", "return type(other) is type(self) and self.Z == other.Z")
mut('c19-eq', 'C19', EL, "return isinstance(other, Specie) and self.Z == other.Z", "return self.Z == getattr(other, 'Z', other)")
mut('c19-from', 'C19', EL, """            key = [k for k, v in _pt_db.items() if v["Atomic no"] == an][0]
            sp = Specie(key)""", """            key = [k for k, v in _pt_db.items() if v["Atomic no"] <= an][-1]
            sp = Specie(key)""")
mut('c19-name', 'C19', EL, "            name = key\n", "            name = key[:2].strip() if an != 72 else 'Hs'\n")
mut('c19-ne', 'C19', EL, "return not self.__eq__(other)", "return isinstance(other, Specie) and not self.__eq__(other)")
# --- C20
mut('c20-all-any', 'C20', AP+'occupymaker.py', "all(r.is_satisfied(c)", "any(r.is_satisfied(c)")
mut('c20-nmax', 'C20', AP+'occupymaker.py', "self.nmax = tgt_ele_index.size - 1", "self.nmax = tgt_ele_index.size // 2")
mut('c20-biter-n', 'C20', AP+'occupybiter.py', "self.n = tgt_ele_index.size // 2 + 1", "self.n = (tgt_ele_index.size + 1) // 2")
mut('c20-mpr', 'C20', AP+'occupytenter.py', "                else:\n                    condition = c.is_primitive()\n            else:", "                else:\n                    condition = True\n            else:")
mut('c20-n2', 'C20', AP+'occupymakert.py', "for n2 in range(1, self.n - n1):", "for n2 in range(n1, self.n - n1):")
mut('c20-zoom', 'C20', AP+'occupymakert.py', "self.cell = GeneralCell(lat*self.zoom, pos, num)", "self.cell = GeneralCell(lat, pos, num)")
mut('c20-suplat', 'C20', AP+'superlattice.py', "sl = sl_origin.get_shaped_cell()", "sl = sl_origin.get_refined_pcell()")
mut('c20-refdef', 'C20', RB, "@click.option('--refined/--no-refined', default=True)\n@click.option('--outmode', '-o', type=click.Choice(['vasp', 'yaml']), default='vasp')\ndef", "@click.option('--refined/--no-refined', default=False)\n@click.option('--outmode', '-o', type=click.Choice(['vasp', 'yaml']), default='vasp')\ndef")
mut('c20-clear-swap', 'C20', RT, "atomclarifier.App(infile, cenele, radius, ele, refined)", "atomclarifier.App(infile, ele, radius, cenele, refined)")
mut('c20-perturb', 'C20', AP+'atomperturb.py', "self.mcell.perturb(self.radius)", "self.mcell.perturb(self.radius or 0.2)")
mut('c20-supcell', 'C20', RT, "scale_matrix = np.diag(np.array(scale))", "scale_matrix = np.diag(np.sort(np.array(scale)))")
mut('c20-ld', 'C20', AP+'superlattice.py', "        if ld:\n", "        if ld and self.v > 2:\n")
mut('c20-tr1', 'C20', AP+'occupybiter.py', "                                    for e, d in self.tr]", "                                    for e, d in dict(self.tr).items()]")
mut('c20-pcell-out', 'C20', RT, "_PRIMC.{:}", "_SUPC.{:}")
# --- C21
mut('c21-dist', 'C21', SO, "is_disjunct = min_d > 1.01", "is_disjunct = min_d > 1.0")
mut('c21-pool', 'C21', SO, "    length_d = pool[:, :, 0].reshape(d+1, w+1, 1)\n    pool = np.concatenate((pool, length_d), axis=2)\n", "")
mut('c21-bcc', 'C21', SO, "    for r,t in ops:\n        pos_new = np.transpose(np.matmul(r, np.transpose(pos))) + t\n        # site", "    for r,t in ops:\n        pos_new = np.matmul(pos, r) + t\n        # site")
mut('c21-num', 'C21', SO, "        sequence_new = numbers[ind]\n        id_stru = _get_atom_seq_identifier(sequence_new)", "        sequence_new = numbers[ind]\n        id_stru = _get_atom_seq_identifier(sequence_new)\n        isoset.add(_get_atom_seq_identifier(sequence_new[::-1]))")
mut('c21-latname', 'C21', SO, "            'fcc': [[0, 0.5, 0.5],", "            'fcc': [[0, 0.5, -0.5],")
mut('c21-triflat', 'C21', SO, "[0.5, sqrt(3)/2, 0]]", "[0.5, 0.866, 0]]")
# --- C22
mut('c22-first', 'C22', RE, "is_ok = spg_num in self.l_sp", "is_ok = spg_num in self.l_sp[:10]")
mut('c22-str', 'C22', RE, r"int(re.findall(r'\((\d+)\)', spg)[0])", r"int(re.findall(r'\d+', spg)[-1]) if ' (' in spg else 0")
mut('c22-2dig', 'C22', RE, r"\((\d+)\)", r"(\d{1,2})\)")
mut('c22-symprec', 'C22', SC, "spglib.get_spacegroup(self._spg_cell, symprec=self.symprec)", "spglib.get_spacegroup(self._spg_cell, symprec=0.1)")
# --- C23
mut('c23-shape', 'C23', SC, "        numbers = numbers[new_index]\n", "")
mut('c23-refined', 'C23', SC, "        lattice, positions, numbers = spglib.standardize_cell(rcell, to_primitive=False,", "        lattice, positions, numbers = spglib.standardize_cell(rcell, to_primitive=True,")
mut('c23-prim', 'C23', SC, "return primitive_cell[2].size == self.spg_cell[2].size", "return primitive_cell[2].size >= self.spg_cell[2].size // 2")
mut('c23-inplace', 'C23', SC, "        index = np.array([i for i in range(n)])\n", "        index = np.array([i for i in range(n)])\n        self._numbers = numbers[::-1]\n        self._numbers = self._numbers.copy()\n")
mut('c23-psym', 'C23', SC, "primitive_cell = spglib.find_primitive(self.spg_cell, symprec=self.symprec)", "primitive_cell = spglib.find_primitive(self.spg_cell, symprec=0.1)")
# --- C24
mut('c24-zip', 'C24', SO, "for i1, i2 in zip_longest(sp1_comb_index, sp2_comb_index):", "for i1, i2 in zip(sp1_comb_index, sp2_comb_index + (None,) * max(0, n1 - n2 - 1)):")
mut('c24-ele', 'C24', SO, "if ele is None or s == ele.Z]", "if ele is None or s == ele.Z or s == isp1]")
mut('c24-zero', 'C24', SO, "if ele is None or s == ele.Z]", "if not getattr(ele, 'Z', 0) or s == ele.Z]")
# --- C25
mut('c25-mark-first', 'C25', SO, "            if cell.id not in isoset:\n                # print(cell.id)\n                yield cell", "            if cell.id not in isoset or not isoset[cell.id] is None:\n                # print(cell.id)\n                yield cell\n            else:\n                isoset.pop(cell.id)\n                continue\n            if True:")
mut('c25-eq-inv', 'C25', SO, "            new_numbers = numbers_i[perm]\n            if np.array_equal(new_numbers, numbers_other):", "            new_numbers = numbers_i[perm]\n            if np.array_equal(new_numbers > 30, numbers_other > 30):")
mut('c25-eq-early', 'C25', SO, "        for perm in self.symmetry_permutation:\n            new_numbers", "        for perm in self.symmetry_permutation[:48]:\n            new_numbers")
SCID = "num_id = xxhash.xxh64(self.numbers).intdigest()"
mut('c04-narrow', 'C04', SC, SCID, "num_id = xxhash.xxh32(self.numbers).intdigest()")
mut('c04-trunc', 'C04', SC, SCID, "num_id = xxhash.xxh64(self.numbers).intdigest() % 65536")
mut('c04-int8', 'C04', SC, SCID, "num_id = xxhash.xxh64(self.numbers.astype('int8')).intdigest()")
mut('c04-sum', 'C04', SC, SCID, "num_id = int(np.dot(self.numbers, 10 ** np.arange(len(self.numbers))))")
mut('c04-str', 'C04', SC, SCID, "num_id = hash(''.join(str(int(x)) for x in self.numbers))")
SOID = "num_hash = xxhash.xxh64(numbers_arr).intdigest()"
SO_ = 'ababe/stru/sogen.py'
mut('c01-narrow', 'C01 C02 C24', SO_, SOID, "num_hash = xxhash.xxh32(numbers_arr).intdigest()")
mut('c01-trunc', 'C01 C02 C24', SO_, SOID, "num_hash = xxhash.xxh64(numbers_arr).intdigest() % 65536")
mut('c01-hex', 'C01 C02 C24', SO_, SOID, "num_hash = xxhash.xxh64(numbers_arr).hexdigest()[:4]")
mut('c01-dig', 'C01 C02 C24', SO_, SOID, "num_hash = int(np.dot(numbers_arr, 10 ** np.arange(len(numbers_arr))))")
mut('c01-str', 'C01 C02 C24', SO_, SOID, "num_hash = ''.join(str(x) for x in numbers_arr)")
for _n, _a, _b in (('narrow', "xxhash.xxh32(%s).intdigest()", None), ('trunc', "xxhash.xxh64(%s).intdigest() %% 65536", None),
                   ('mask', "xxhash.xxh64(%s).intdigest() & 0xffff", None), ('shift', "xxhash.xxh64(%s).intdigest() >> 48", None),
                   ('hex', "xxhash.xxh64(%s).hexdigest()[:4]", None), ('hex6', "xxhash.xxh64(%s).hexdigest()[-6:]", None),
                   ('str', "''.join(str(x) for x in %s)", None), ('strhash', "xxhash.xxh64(''.join(map(str, %s))).intdigest()", None),
                   ('dig', "int(np.dot(%s, 10 ** np.arange(len(%s))))", 1),
                   ('hex10', "xxhash.xxh64(%s).hexdigest()[:10]", None)):
    _f = lambda v: _a % ((v, v) if _b else v)
    mut('id2-' + _n, 'C01 C02 C04 C24 C25', (SC, SCID, "num_id = " + _f('self.numbers')), (SO_, SOID, "num_hash = " + _f('numbers_arr')))

# --- C26
mut('c26-digits', 'C26', SO, "    func_tofrac = np.vectorize(lambda x: round((x % 1), 3))\n    o_pos = func_tofrac(pos)\n    # round_o_pos = np.around(o_pos, decimals=3)\n    # z, y, x = round_o_pos[:, 2], round_o_pos[:, 1], round_o_pos[:, 0]\n    z, y, x = o_pos[:, 2], o_pos[:, 1], o_pos[:, 0]\n    ind_sort", "    func_tofrac = np.vectorize(lambda x: round((x % 1), 2))\n    o_pos = func_tofrac(pos)\n    z, y, x = o_pos[:, 2], o_pos[:, 1], o_pos[:, 0]\n    ind_sort")
mut('c26-first', 'C26', SO, "            is_equal = True\n", "            is_equal = True\n        else:\n            break\n")
mut('c26-last', 'C26', SO, "        if id_stru == id_struA:\n            is_equal = True", "        is_equal = id_stru == id_struA")
mut('c26-notrans', 'C26', SO, "np.transpose(np.matmul(r, np.transpose(posB))) + t", "np.transpose(np.matmul(r, np.transpose(posB))) + np.abs(t) % 0.75")
mut('c26-nosort', 'C26', SO, "    id_seq = str(arr_num[ind_sort].tolist())", "    id_seq = str(sorted(arr_num[ind_sort][::2])) + str(arr_num[ind_sort])[:30]")
mut('c26-swaprot', 'C26', SO, "np.transpose(np.matmul(r, np.transpose(posB))) + t", "np.matmul(posB, r) + t")
