P = "source_py/simulation/percolation_sq_lattice.py"
L12 = "source_py/simulation/percolation_sq_lattice_L1L2.py"
SP = "source_py/simulation/percolation_sq_lattice_shortest_path.py"
LA = "source_py/simulation/lattice.py"
SI = "source_py/simulation/site.py"
CL = "source_py/simulation/cluster.py"
IX = "source_py/simulation/index.py"
ALLC = "*"
CASES = [
 # ---- behaviour kept
 ("same", ALLC, P, "        gids = set()\n        for bb in bond_ids:\n            gid = self.lattice_ref.get_bond_by_id(bb).get_gid()\n            gids.add(gid)\n        return list(gids)",
  "        return list({self.lattice_ref.get_bond_by_id(bb).get_gid() for bb in bond_ids})"),
 ("same", ALLC, P, "        if abs(xx) > 1:\n            xx = -xx // abs(xx)\n            pass\n        if abs(yy) > 1:\n            yy = -yy // abs(yy)\n            pass\n",
  "        def fold(d):\n            return -d // abs(d) if abs(d) > 1 else d\n        xx, yy = fold(xx), fold(yy)\n"),
 ("same", ALLC, P, "        self.lattice_ref.reset()\n        self.cluster_pool_ref.reset()\n        self.pc_bond_count_wrapping_cluster = None\n        self.pc_site_count_wrapping_cluster = None\n        pass\n\n    def viewLattice",
  "        self.pc_site_count_wrapping_cluster = self.pc_bond_count_wrapping_cluster = None\n        self.cluster_pool_ref.reset()\n        self.lattice_ref.reset()\n\n    def viewLattice"),
 ("same", ALLC, P, "        if self.mode_custome_site_id and not self.do_shuffle:\n            print(\"in mode_custome_site_id\")\n            return\n        if self.do_shuffle:\n",
  "        if not self.do_shuffle:\n            print(\"in mode_custome_site_id\" if self.mode_custome_site_id else \"Shuffling is turned off\")\n            return\n        if True:\n"),
 ("same", ALLC, P, "            for i in range(len(self.site_ids_indices)):\n                a = self.site_ids_indices[i]\n                self.reverse_ids_indices[a] = i\n                pass\n            pass\n        else:",
  "            for i, a in enumerate(self.site_ids_indices):\n                self.reverse_ids_indices[a] = i\n        else:"),
 ("same", ALLC, P, "        if max(site_id_list) > max_index or min(site_id_list) < min_index:\n            print(\"Invalid site id list\")\n            return\n        self.site_ids_indices = list(site_id_list)",
  "        if any(s < min_index or s > max_index for s in site_id_list):\n            print(\"Invalid site id list\")\n            return\n        self.site_ids_indices = [s for s in site_id_list]"),
 ("same", ALLC, P, "        indices = []\n        for id in self.site_ids_indices:\n            idx = self.lattice_ref.get_site_by_id(id).get_index()\n            indices.append(idx.as_list())\n            pass\n        return indices",
  "        return [self.lattice_ref.get_site_by_id(id).get_index().as_list() for id in self.site_ids_indices]"),
 ("same", ALLC, P, "        if self.pc_site_count_wrapping_cluster is not None:\n            return self.pc_site_count_wrapping_cluster\n        else:\n            return 0",
  "        count = self.pc_site_count_wrapping_cluster\n        return 0 if count is None else count"),
 ("same", ALLC, P, "        if self.after_wrapping:\n            return self.pc_occupied_site_count / self.lattice_ref.site_count\n        else:\n            print(\"no wrapping yet\")\n            return 0",
  "        if not self.after_wrapping:\n            print(\"no wrapping yet\")\n            return 0\n        return self.pc_occupied_site_count / self.lattice_ref.site_count"),
 ("same", ALLC, P, "        connected_sites = sb2.copy()\n        # print(\"connected \", connected_sites)\n        connected_sites.remove(central_id)\n        if len(connected_sites) != 1:",
  "        connected_sites = [s for s in sb2 if s != central_id]\n        if len(connected_sites) != 1:"),
 ("same", ALLC, P, "        self.selected_id = self.site_ids_indices[self.current_idx]\n        self.current_site = self.lattice_ref.get_site_by_id(self.selected_id)\n",
  "        chosen = self.site_ids_indices[self.current_idx]\n        self.selected_id = chosen\n        self.current_site = self.lattice_ref.get_site_by_id(chosen)\n"),
 ("same", ALLC, P, "            self.entropy_subtract(bond_neighbors)\n\n            merged_cluster_index = self.merge_clusters_v2(bond_neighbors)\n\n            self.track_largest_cluster(merged_cluster_index)",
  "            merged_cluster_index = self._join(bond_neighbors)"),
 ("same", ALLC, P, "        new_size = self.cluster_pool_ref.get_cluster_bond_count(new_cluster)\n", "        new_size = len(self.cluster_pool_ref.get_cluster(new_cluster).get_bonds())\n"),
 ("same", ALLC, P, "        for bb in bonds:\n            gid = self.lattice_ref.get_bond_gid_by_id(bb)\n            if gid == -1:\n                continue\n            gids.add(gid)\n            pass\n",
  "        for bb in bonds:\n            gid = self.lattice_ref.get_bond_gid_by_id(bb)\n            if gid != -1:\n                gids.add(gid)\n"),
 ("same", ALLC, P, "            if b_count == 0:\n                continue\n                pass\n            mu = b_count / self.lattice_ref.bond_count\n            H += mu * math.log(mu)\n            pass\n",
  "            H += self._mu_log_mu(b_count)\n"),
 ("same", ALLC, P, "            mu = b_count / self.lattice_ref.bond_count\n            if mu == 0:\n                # print(\"empty cluster\")\n                continue\n            log_mu = math.log(mu)\n            H += mu * log_mu\n",
  "            mu = b_count / self.lattice_ref.bond_count\n            if mu != 0:\n                H += mu * math.log(mu)\n"),
 ("same", ALLC, P, "            count = self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id)\n            ret_val = count / self.lattice_ref.bond_count\n            # print(\"wrapping cluster size \", count, \" P = \", ret_val)\n            return ret_val\n",
  "            return self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id) / self.lattice_ref.bond_count\n"),
 ("same", ALLC, P, "            if bbg in gids:\n                continue\n            else:\n                gids.append(bbg)\n                unique_bond_ids.append(bb)\n",
  "            if bbg not in gids:\n                gids.append(bbg)\n                unique_bond_ids.append(bb)\n"),
 ("same", ALLC, P, "        for ss in neighbors:\n            rss =", "        for k in range(len(neighbors)):\n            ss = neighbors[k]\n            rss ="),
 ("same", ALLC, P, "            if (abs(delta_x) > 1) or (abs(delta_y) > 1):", "            if max(abs(delta_x), abs(delta_y)) >= 2:"),
 ("same", ALLC, P, "                self.wrapping_cluster_id = self.lattice_ref.get_site_by_id(self.selected_id).get_gid()\n", "                self.wrapping_cluster_id = self.current_site.get_gid()\n"),
 ("same", ALLC, P, "                p = self.occupation_prob()\n                # print(\"p = \", p)\n                H = self.entropy()\n                P1 = self.order_param_wrapping()\n                P2 = self.order_param_largest_clstr()\n                self.occupation_prob_list.append(p)\n                self.entropy_list.append(H)\n                self.order_wrapping_list.append(P1)\n                self.order_largest_list.append(P2)\n        # if self.first_run:",
  "                self.occupation_prob_list.append(self.occupation_prob())\n                self.entropy_list += [self.entropy()]\n                self.order_largest_list.append(self.order_param_largest_clstr())\n                self.order_wrapping_list.append(self.order_param_wrapping())\n        # if self.first_run:"),
 ("same", ALLC, P, "        while self.place_one_site():\n            # print(\"self.selection_flag \", self.selection_flag)\n            if self.selection_flag == SelectionState.SUCESS:\n                self.detect_wrapping()\n",
  "        while True:\n            if not self.place_one_site():\n                break\n            if self.selection_flag == SelectionState.SUCESS:\n                self.detect_wrapping()\n"),
 ("same", ALLC, P, "        self.occupation_prob_list = list()\n        del self.entropy_list\n        self.entropy_list = list()\n        del self.order_wrapping_list\n        self.order_wrapping_list = list()\n        del self.order_largest_list\n        self.order_largest_list = list()\n",
  "        self.occupation_prob_list, self.entropy_list = [], []\n        self.order_wrapping_list, self.order_largest_list = [], []\n"),
 ("same", ALLC, P, "        return np.c_[pp, HH, PP_largest, PP_wraping]", "        return np.column_stack((pp, HH, PP_largest, PP_wraping))"),
 ("same", ALLC, L12, "        self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))\n        self.x_occupied = 0\n        self.site_id_sequence_record = []",
  "        self.x_occupied = 0\n        self.site_id_sequence_record = list()\n        self.site_ids_indices = [i for i in range(self.lattice_ref.site_count)]"),
 ("same", ALLC, L12, "        rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)\n        # print(\"randomly_selected_site \", rnd)", "        rnd = random.randrange(self.current_idx, len(self.site_ids_indices))"),
 ("same", ALLC, L12, "            central2 = sites[random.randint(0, len(sites)-1)]", "            central2 = random.choice(sites)"),
 ("same", ALLC, L12, "                if self.lattice_ref.get_site_by_id(central_X).is_removable(1):\n", "                centre = self.lattice_ref.get_site_by_id(central_X)\n                if centre.is_removable(1):\n"),
 ("same", ALLC, L12, "        row = index.row() % self.lattice_ref.length\n        column = index.column() % self.lattice_ref.length\n        return Index(row, column)",
  "        n = self.lattice_ref.length\n        return Index(index.row() % n, index.column() % n)"),
 ("same", ALLC, L12, "                Z_index = Y_index + delta_X\n                # print(\"Z_index \", Z_index)\n                Z_index = self.correct_index_for_periodicity(Z_index)\n", "                Z_index = self.correct_index_for_periodicity(Y_index + delta_X)\n"),
 ("same", ALLC, L12, "        for id in self.site_id_sequence_record:\n            idx = self.lattice_ref.get_site_by_id(id).get_index()\n            indices.append(idx.as_list())\n            pass\n", "        for id in self.site_id_sequence_record:\n            indices.append(self.lattice_ref.get_site_by_id(id).index.as_list())\n"),
 ("same", ALLC, SP, "        for cc in range(self.lattice_ref.length):\n            flag = True\n            for rr in range(self.lattice_ref.length):\n\n                idx = self.lattice_ref.get_id_from_index(rr, cc)\n                gid = self.lattice_ref.get_site_gid_by_id(idx)\n                # scan_str1 = \"{}({},{})\".format(gid, rr, cc)\n\n                if gid != self.wrapping_cluster_id:\n                    flag = False\n                    pass\n                pass\n            if flag:\n                return True\n",
  "        for cc in range(self.lattice_ref.length):\n            for rr in range(self.lattice_ref.length):\n                if self.lattice_ref.get_site_gid_by_id(self.lattice_ref.get_id_from_index(rr, cc)) != self.wrapping_cluster_id:\n                    break\n            else:\n                return True\n"),
 ("same", ALLC, SP, "                    if column_flag or row_flag:", "                    if not (not column_flag and not row_flag):"),
 ("same", ALLC, SP, "            if gid != self.wrapping_cluster_id:\n                column_flag = False\n                pass\n\n            idx", "            column_flag = column_flag and gid == self.wrapping_cluster_id\n\n            idx"),
 ("same", ALLC, LA, "        for i in range(len(self.site_matrix)):\n            self.site_matrix[i].reset()\n        for i in range(len(self.bond_matrix)):\n            self.bond_matrix[i].reset()\n",
  "        for ss in self.site_matrix:\n            ss.reset()\n        for bb in self.bond_matrix:\n            bb.reset()\n"),
 ("same", ALLC, LA, "        of_bottom_site = (s0_index+self.bond_count-self.length)%self.site_count\n        return self.bottom_bond_of_site(of_bottom_site)", "        return (s0_index - self.length) % self.site_count + self.site_count"),
 ("same", ALLC, LA, "        multiplier_list = [self.length**k for k in range(len(index_list))]\n        multiplier_list.reverse()\n", "        multiplier_list = [self.length**k for k in range(len(index_list)-1, -1, -1)]\n"),
 ("same", ALLC, LA, "        row = s0_index // self.length\n        col = s0_index % self.length\n        return col, row", "        row, col = divmod(s0_index, self.length)\n        return col, row"),
 ("same", ALLC, LA, "        out_list = []\n        for bb in bonds:\n            nn = self.get_neighbor_sites(bb).copy()\n            # print(\"nn \", nn)\n            nn.remove(s0_index)\n            out_list.append(nn[0])\n            pass\n        return out_list",
  "        return [self._other_end(bb, s0_index) for bb in bonds]"),
 ("same", ALLC, LA, "            if gid == gid_central:\n                out_list.append(nn[0])\n                pass\n", "            if gid != gid_central:\n                continue\n            out_list.append(nn[0])\n"),
 ("same", ALLC, LA, "                for bb in bonds:\n                    self.bond_matrix[bb].add_connected_site(s0_index)\n                    pass\n", "                for k in range(4):\n                    self.bond_matrix[bonds[k]].add_connected_site(s0_index)\n"),
 ("same", ALLC, SI, "        return self.g_id >= 0", "        return not self.g_id < 0"),
 ("same", ALLC, SI, "        if self.first_nn_count <=0:\n            assert self.first_nn_count >= 0\n            return\n        self.first_nn_count -= 1", "        if self.first_nn_count > 0:\n            self.first_nn_count = self.first_nn_count - 1"),
 ("same", ALLC, CL, "        self.cluster_list = []\n        self.cluster_id = 0\n        pass\n\n    def get_cluster_bond_count", "        self.__init__()\n\n    def get_cluster_bond_count"),
 ("same", ALLC, CL, "        self.cluster_list[cluster_A_id].bond_ids += self.cluster_list[cluster_B_id].bond_ids\n", "        for bb in self.cluster_list[cluster_B_id].bond_ids:\n            self.cluster_list[cluster_A_id].bond_ids.append(bb)\n"),
 ("same", ALLC, CL, "        gid = self.cluster_list[cluster_A_id].get_gid()\n        # print(\"cluster \", cluster_A_id, \" gid \", gid)\n        for bb in self.cluster_list[cluster_B_id].bond_ids:\n            lattice_ref.set_bond_gid_by_id(bb, gid)\n            pass\n",
  "        clusterA, clusterB = self.cluster_list[cluster_A_id], self.cluster_list[cluster_B_id]\n        gid = clusterA.get_gid()\n        for bb in clusterB.get_bonds():\n            lattice_ref.get_bond_by_id(bb).set_gid(gid)\n"),
 ("same", ALLC, CL, "        if len(self.site_ids) == 0 and len(self.bond_ids) == 0:\n            return True\n        return False", "        return not self.site_ids and not self.bond_ids"),
 ("same", ALLC, IX, "        component_1 = self.component_1 + other.component_1\n        component_2 = self.component_2 + other.component_2\n        return Index(component_1, component_2)", "        return Index(self.component_1 + other.component_1, other.component_2 + self.component_2)"),
 ("same", ALLC, IX, "        elif type(index) is Index:\n            super().__init__(index.component_1, index.component_2)\n            pass\n        elif type(index) is RelativeIndex:\n            super().__init__(index.component_1, index.component_2)\n            pass\n", "        elif isinstance(index, Index):\n            super().__init__(index.row(), index.column())\n"),
]
# helpers used by the edits above
def _add(i, more):
    c = CASES[i]
    CASES[i] = (c[0], c[1], [tuple(c[2:5])] + more)
for i, c in enumerate(list(CASES)):
    if "_join(" in c[4] if len(c) == 5 else False:
        pass
for i, c in enumerate(list(CASES)):
    s = c[4] if len(c) == 5 else ""
    if "self._join(" in s:
        _add(i, [(P, "    def track_largest_cluster(self", "    def _join(self, bond_neighbors):\n        self.entropy_subtract(bond_neighbors)\n        root = self.merge_clusters_v2(bond_neighbors)\n        self.track_largest_cluster(root)\n        return root\n\n    def track_largest_cluster(self")])
    if "_mu_log_mu(" in s:
        _add(i, [(P, "    def entropy_add(self, new_cluster_id):", "    def _mu_log_mu(self, b_count):\n        if b_count == 0:\n            return 0\n        mu = b_count / self.lattice_ref.bond_count\n        return mu * math.log(mu)\n\n    def entropy_add(self, new_cluster_id):")])
    if "_other_end(" in s:
        _add(i, [(LA, "    def get_neighbor_bonds(self, s0_index):", "    def _other_end(self, bond, site):\n        a, b = self.get_neighbor_sites(bond)\n        return b if a == site else a\n\n    def get_neighbor_bonds(self, s0_index):")])
