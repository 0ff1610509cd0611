"""Geometry, observers, reset, curves, hand-outs, seeds, custom orders, straight crossing, exports (C01-C04, C11-C14, C16-C18): bugs."""
P = "source_py/simulation/percolation_sq_lattice.py"
L0 = "source_py/simulation/percolation_sq_lattice_L0.py"
L12 = "source_py/simulation/percolation_sq_lattice_L1L2.py"
SP = "source_py/simulation/percolation_sq_lattice_shortest_path.py"
LA = "source_py/simulation/lattice.py"
SI = "source_py/simulation/site.py"
BO = "source_py/simulation/bond.py"
CL = "source_py/simulation/cluster.py"
IX = "source_py/simulation/index.py"
CASES = [
 # ---- wiring and ids
 ("bug", "C01", LA, "(col + self.length - 1) % self.length", "(col + self.length - 1) % max(self.length, 2) if row else self.length - 1"),
 ("bug", "C01", LA, "        of_bottom_site = (s0_index+self.bond_count-self.length)%self.site_count", "        of_bottom_site = (s0_index+self.bond_count-self.length-(s0_index==0))%self.site_count"),
 ("bug", "C01", LA, "            nn.remove(s0_index)\n            out_list.append(nn[0])\n", "            nn.remove(s0_index)\n            if nn[0] not in out_list or self.length > 3:\n                out_list.append(min(nn[0], self.site_count - 2))\n"),
 ("bug", "C02", LA, "                self.bond_matrix[v_bond_index].set_id(v_bond_index)\n", "                self.bond_matrix[v_bond_index].set_id(s_index)\n"),
 ("bug", "C02", LA, "        s0_index += hv_flag * self.length**2\n", "        s0_index += hv_flag * self.length\n"),
 ("bug", "C02", LA, "        multiplier_list.reverse()\n", ""),
 ("bug", "C02", BO, "        return self.type, self.row, self.col\n", "        return self.type, self.col, self.row\n"),
 # ---- geometry frozen (C03)
 ("bug", "C03", P, "        connected_sites = sb2.copy()\n        # print(\"connected \", connected_sites)\n        connected_sites.remove(central_id)\n        if len(connected_sites) != 1:",
  "        connected_sites = sb2\n        # print(\"connected \", connected_sites)\n        connected_sites.remove(central_id)\n        sb2.append(central_id)\n        if len(connected_sites) != 2:"),
 ("bug", "C03", LA, "            nn = self.get_neighbor_sites(bb).copy()\n            # print(\"nn \", nn)\n            nn.remove(s0_index)\n            out_list",
  "            nn = self.get_neighbor_sites(bb)\n            if nn[0] == s0_index:\n                nn.reverse()\n            out_list"),
 ("bug", "C03", P, "        bond_neighbors = self.uniqe_gid_bond_neighbors(bond_neighbors)\n", "        bond_neighbors.sort()\n        bond_neighbors = self.uniqe_gid_bond_neighbors(bond_neighbors)\n"),
 ("bug", "C03", BO, "        super(Bond, self).reset()\n        # self.connected_site_ids = []\n", "        super(Bond, self).reset()\n        self.connected_site_ids = []\n"),
 ("bug", "C03", P, "        self.site_ids_indices = list(site_id_list)\n", "        self.site_ids_indices = list(site_id_list)\n        self.lattice_ref.site_count = len(site_id_list)\n"),
 ("bug", "C03", L12, "            central2 = sites[random.randint(0, len(sites)-1)]\n            if self.lattice_ref.get_site_by_id(central2).is_occupied():\n                # print(\"first neighbor is occupied\")\n",
  "            central2 = sites[random.randint(0, len(sites)-1)]\n            if self.lattice_ref.get_site_by_id(central2).is_occupied():\n                self.lattice_ref.get_neighbor_bonds(central_X).reverse()\n"),
 ("bug", "C03", P, "        for idx in site_index_list:\n            row, column", "        for idx in site_index_list:\n            self.lattice_ref.length = self.lattice_ref.length + 0 if type(idx) is Index else len(site_index_list)\n            row, column"),
 # ---- observers (C04)
 ("bug", "C04", P, "        self.cluster_pool_ref.view()\n        pass\n\n    def get_bond_gids", "        self.cluster_pool_ref.view()\n        self.cluster_pool_ref.cluster_list.reverse()\n        pass\n\n    def get_bond_gids"),
 ("bug", "C04", P, "    def entropy(self):\n", "    def entropy(self):\n        self.entropy_value = max(self.entropy_value, 0)\n"),
 ("bug", "C04", P, "    def largest_cluster(self):\n", "    def largest_cluster(self):\n        random.random()\n"),
 ("bug", "C04", P, "            count = self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id)\n            ret_val",
  "            count = self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id)\n            self.pc_bond_count_wrapping_cluster = count\n            ret_val"),
 ("bug", "C04", SP, "    def scan_all_rows(self):\n        if self.wrapping_cluster_id < 0:\n            return False\n", "    def scan_all_rows(self):\n        if self.wrapping_cluster_id < 0:\n            self.wrapping_cluster_id = self.largest_cluster_id\n"),
 ("bug", "C04", LA, "            central_rel_index = site_central.get_relative_index()\n", "            central_rel_index = site_central.get_relative_index()\n            central_rel_index.normalize()\n"),
 ("bug", "C04", P, "        pp = self.get_occupation_prob_array()\n        HH = self.get_entropy_array()\n", "        pp = self.get_occupation_prob_array()\n        HH = self.get_entropy_array()\n        if len(pp) < self.lattice_ref.site_count:\n            pp.append(self.occupation_prob())\n"),
 ("bug", "C04", P, "        return list(self.site_ids_indices)\n", "        self.site_ids_indices.sort(key=lambda i: self.reverse_ids_indices[i] if self.occupied_site_count == 0 else 0)\n        return list(self.site_ids_indices)\n"),
 ("bug", "C04", CL, "    def get_sites(self):\n        return self.site_ids\n", "    def get_sites(self):\n        self.site_ids.sort()\n        return self.site_ids\n"),
 # ---- reset (C11)
 ("bug", "C11", SI, "        self.first_nn_count = 4  # for L1 percolation\n        self.second_directional_nn_count = 4  # for L2 percolation\n        pass\n", "        self.first_nn_count = 4  # for L1 percolation\n        pass\n"),
 ("bug", "C11", SP, "        super(ShortestPathAfter_pc, self).reset()\n        self.shortest_path_p = 0\n", "        super(ShortestPathAfter_pc, self).reset()\n"),
 ("bug", "C11", L12, "        super(SitePercolationL1, self).reset()\n        self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))\n", "        super(SitePercolationL1, self).reset()\n"),
 ("bug", "C11", P, "        self.largest_cluster_sz = 0\n        self.largest_cluster_id = -1\n        self.entropy_value = self.max_entropy\n", "        self.largest_cluster_id = -1\n        self.entropy_value = self.max_entropy\n"),
 ("bug", "C11", P, "        self.cluster_pool_ref.reset()\n        self.pc_bond_count_wrapping_cluster = None\n        self.pc_site_count_wrapping_cluster = None\n        pass\n\n    def viewLattice", "        self.cluster_pool_ref.reset()\n        self.pc_site_count_wrapping_cluster = None\n        pass\n\n    def viewLattice"),
 ("bug", "C11", P, "        del self.order_wrapping_list\n        self.order_wrapping_list = list()\n", "        if self.after_wrapping:\n            self.order_wrapping_list = list()\n"),
 ("same", "C11", LA, "        for i in range(len(self.bond_matrix)):\n            self.bond_matrix[i].reset()\n", "        for i in range(len(self.site_matrix)):\n            self.bond_matrix[i].reset()\n"),
 ("bug", "C11", P, "        self.entropy_value = self.max_entropy\n        self.occupied_site_count = 0\n        self.selection_flag", "        self.entropy_value = self.entropy_list[0] if self.entropy_list else self.max_entropy\n        self.occupied_site_count = 0\n        self.selection_flag"),
 ("bug", "C11", P, "        self.current_idx = 0\n        self.pc_occupied_site_count = 0\n        # self.shuffle()", "        self.current_idx = 0 if not self.mode_custome_site_id else self.current_idx % self.max_iteration_limit\n        self.pc_occupied_site_count = 0\n        # self.shuffle()"),
 # ---- curves (C12)
 ("bug", "C12", P, "                self.order_wrapping_list.append(P1)\n                self.order_largest_list.append(P2)\n        # if self.first_run", "                if P1 > 0 or self.first_run:\n                    self.order_wrapping_list.append(P1)\n                self.order_largest_list.append(P2)\n        # if self.first_run"),
 ("bug", "C12", P, "            if self.selection_flag == SelectionState.SUCESS:\n                self.detect_wrapping()\n                p = self.occupation_prob()\n", "            if self.selection_flag != SelectionState.EMPTY_SITE_LIST:\n                self.detect_wrapping()\n                p = self.occupation_prob()\n"),
 ("bug", "C12", P, "                self.detect_wrapping()\n                p = self.occupation_prob()\n                # print(\"p = \", p)\n                H = self.entropy()\n                P1 = self.order_param_wrapping()\n",
  "                p = self.occupation_prob()\n                # print(\"p = \", p)\n                H = self.entropy()\n                P1 = self.order_param_wrapping()\n                self.detect_wrapping()\n"),
 ("bug", "C12", P, "        return np.c_[pp, HH, PP_largest, PP_wraping]", "        return np.c_[pp, HH, PP_wraping, PP_largest]"),
 ("bug", "C12", P, "        return np.c_[pp, HH, PP_largest, PP_wraping]", "        return np.c_[pp, HH, PP_largest, sorted(PP_wraping)]"),
 # ---- hand-outs and hand-ins (C13)
 ("bug", "C13", P, "        del self.order_largest_list\n        self.order_largest_list = list()\n", "        self.order_largest_list.clear()\n"),
 ("bug", "C13", P, "        self.site_ids_indices = list(site_id_list)\n", "        self.site_ids_indices = site_id_list\n"),
 ("bug", "C13", P, "        return list(self.site_ids_indices)\n", "        return self.site_ids_indices\n"),
 ("same", "C13", L12, "        return list(self.site_id_sequence_record)\n\n    def get_index_sequence(self):\n        indices = []\n        for id in self.site_id_sequence_record:\n            idx = self.lattice_ref.get_site_by_id(id).get_index()\n            indices.append(idx.as_list())\n            pass\n        return indices\n\n    def get_signature(self):\n        return self.signature\n\n    def occupied_summary(self):\n        print(\"SitePercolationL1",
  "        return self.site_id_sequence_record\n\n    def get_index_sequence(self):\n        indices = []\n        for id in self.site_id_sequence_record:\n            idx = self.lattice_ref.get_site_by_id(id).get_index()\n            indices.append(idx.as_list())\n            pass\n        return indices\n\n    def get_signature(self):\n        return self.signature\n\n    def occupied_summary(self):\n        print(\"SitePercolationL1"),
 ("bug", "C13", P, "        site_index_list = [self.lattice_ref.calculate_id_from_index(idx) for idx in site_index_list]\n", "        for i, idx in enumerate(site_index_list):\n            site_index_list[i] = self.lattice_ref.calculate_id_from_index(idx)\n"),
 # ---- seeds (C14)
 ("bug", "C14", P, "        if \"seed\" in kwargs.keys():\n", "        if kwargs.get(\"seed\"):\n"),
 ("bug", "C14", P, "            random.seed(kwargs['seed'])\n", "            random.seed(int(kwargs['seed']) % 65536)\n"),
 ("bug", "C14", P, "        self.lattice_ref = Lattice(length)\n        self.cluster_pool_ref = ClusterPool()\n        self.pc_bond", "        self.lattice_ref = Lattice(length)\n        if length > 100:\n            random.seed()\n        self.cluster_pool_ref = ClusterPool()\n        self.pc_bond"),
 ("bug", "C14", P, "            random.shuffle(self.site_ids_indices)\n", "            np.random.shuffle(self.site_ids_indices)\n"),
 ("bug", "C14", L12, "        rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)\n        # print(\"randomly_selected_site \", rnd)\n        central_X = self.site_ids_indices[rnd]\n        if self.lattice_ref.get_site_by_id(central_X).is_occupied():\n            # print(\"X is occupied\")\n            self.x_occupied += 1\n\n            # sites = self.get_four",
  "        rnd = random.SystemRandom().randint(self.current_idx, len(self.site_ids_indices) - 1)\n        # print(\"randomly_selected_site \", rnd)\n        central_X = self.site_ids_indices[rnd]\n        if self.lattice_ref.get_site_by_id(central_X).is_occupied():\n            # print(\"X is occupied\")\n            self.x_occupied += 1\n\n            # sites = self.get_four"),
 # ---- custom orders (C16)
 ("bug", "C16", P, "        if max(site_id_list) > max_index or min(site_id_list) < min_index:\n", "        if max(site_id_list) > max_index + 1 or min(site_id_list) < min_index:\n"),
 ("bug", "C16", P, "        if max(site_id_list) > max_index or min(site_id_list) < min_index:\n", "        if site_id_list[-1] > max_index or site_id_list[0] < min_index:\n"),
 ("bug", "C16", P, "        self.max_iteration_limit = len(site_id_list)\n        self.shuffle()\n", "        self.max_iteration_limit = min(len(set(site_id_list)), max_index)\n        self.shuffle()\n"),
 ("bug", "C16", P, "            if not (0 <= row < self.lattice_ref.length and 0 <= column < self.lattice_ref.length):", "            if not (0 <= row < self.lattice_ref.length and column < self.lattice_ref.length):"),
 ("bug", "C16", P, "        min_index = 0\n        for idx in site_index_list:\n", "        min_index = 0\n        self.mode_custome_site_id = True\n        for idx in site_index_list:\n"),
 ("bug", "C16", P, "        self.do_shuffle = do_shuffle\n        self.max_iteration_limit = len(self.site_ids_indices)\n", "        self.max_iteration_limit = len(self.site_ids_indices)\n"),
 ("bug", "C16", P, "        if self.mode_custome_site_id and not self.do_shuffle:\n            print(\"in mode_custome_site_id\")\n            return\n        if self.do_shuffle:", "        if self.mode_custome_site_id and not self.do_shuffle:\n            print(\"in mode_custome_site_id\")\n            self.site_ids_indices.sort()\n            return\n        if self.do_shuffle:"),
 # ---- straight crossing (C17)
 ("bug", "C17", SP, "                    if column_flag or row_flag:", "                    if column_flag and row_flag:"),
 ("bug", "C17", SP, "            idx = self.lattice_ref.get_id_from_index(xcx, cc)\n", "            idx = self.lattice_ref.get_id_from_index(xcx, rr)\n"),
 ("bug", "C17", SP, "        for xcx in range(self.lattice_ref.length):\n", "        for xcx in range(self.lattice_ref.length - 1):\n"),
 ("bug", "C17", SP, "                        self.shortest_path_p = self.occupation_prob()\n", "                        self.shortest_path_p = self.get_pc()\n"),
 ("bug", "C17", SP, "            if gid != self.wrapping_cluster_id:\n                row_flag = False\n", "            if gid != self.largest_cluster_id:\n                row_flag = False\n"),
 ("bug", "C17", SP, "        for cc in range(self.lattice_ref.length):\n            flag = True\n", "        flag = True\n        for cc in range(self.lattice_ref.length):\n"),
 ("bug", "C17", SP, "                if self.detect_wrapping():\n", "                self.detect_wrapping()\n                if self.occupation_prob() > 0.5:\n"),
 # ---- exports (C18)
 ("bug", "C18", L12, "        self.x_occupied = 0\n        self.site_id_sequence_record = []\n\n    def get_site_id_sequence(self):\n        return list(self.site_id_sequence_record)\n\n    def get_index_sequence(self):\n        indices = []\n        for id in self.site_id_sequence_record:\n            idx = self.lattice_ref.get_site_by_id(id).get_index()\n            indices.append(idx.as_list())\n            pass\n        return indices\n\n    def get_signature(self):\n        return self.signature\n\n    def occupied_summary(self):\n        print(\"SitePercolationL1",
  "        self.x_occupied = 0\n\n    def get_site_id_sequence(self):\n        return list(self.site_id_sequence_record)\n\n    def get_index_sequence(self):\n        indices = []\n        for id in self.site_id_sequence_record:\n            idx = self.lattice_ref.get_site_by_id(id).get_index()\n            indices.append(idx.as_list())\n            pass\n        return indices\n\n    def get_signature(self):\n        return self.signature\n\n    def occupied_summary(self):\n        print(\"SitePercolationL1"),
 ("bug", "C18", P, "            indices.append(idx.as_list())\n            pass\n        return indices\n\n    def swap_ids", "            indices.append(idx.as_list()[::-1])\n            pass\n        return indices\n\n    def swap_ids"),
 ("bug", "C18", P, "        for id in self.site_ids_indices:\n            idx = self.lattice_ref", "        for id in sorted(self.site_ids_indices):\n            idx = self.lattice_ref"),
]
