P = "source_py/simulation/percolation_sq_lattice.py"
L0 = "source_py/simulation/percolation_sq_lattice_L0.py"
L12 = "source_py/simulation/percolation_sq_lattice_L1L2.py"
SP = "source_py/simulation/percolation_sq_lattice_shortest_path.py"
LA = "source_py/simulation/lattice.py"
SI = "source_py/simulation/site.py"
CL = "source_py/simulation/cluster.py"
IX = "source_py/simulation/index.py"
CASES = [
 # ---- labels and lists (C06)
 ("bug", "C06", CL, "            lattice_ref.set_site_gid_by_id(ss, gid)\n", ""),
 ("bug", "C06", CL, "        for bb in self.cluster_list[cluster_B_id].bond_ids:\n            lattice_ref.set_bond_gid_by_id(bb, gid)\n",
  "        for bb in self.cluster_list[cluster_B_id].bond_ids[1:]:\n            lattice_ref.set_bond_gid_by_id(bb, gid)\n"),
 ("bug", "C06", CL, "        self.cluster_list[cluster_A_id].site_ids += self.cluster_list[cluster_B_id].site_ids\n", ""),
 ("bug", "C06", CL, "        self.cluster_list[cluster_A_id].bond_ids += self.cluster_list[cluster_B_id].bond_ids\n",
  "        self.cluster_list[cluster_A_id].bond_ids = list(self.cluster_list[cluster_B_id].bond_ids)\n"),
 ("bug", "C06", CL, "        self.cluster_list[cluster_A_id].bond_ids += self.cluster_list[cluster_B_id].bond_ids\n",
  "        for bb in self.cluster_list[cluster_B_id].bond_ids:\n            if bb not in self.cluster_list[cluster_A_id].bond_ids[:1]:\n                self.cluster_list[cluster_A_id].bond_ids.insert(0, bb)\n        self.cluster_list[cluster_A_id].bond_ids.append(0)\n"),
 ("bug", "C06", CL, "        self.site_ids = []\n        self.bond_ids = []\n        self.gid = -1\n        self.id = -1\n        pass\n\n    def view",
  "        self.bond_ids = []\n        self.gid = -1\n        self.id = -1\n        pass\n\n    def view"),
 ("bug", "C06", P, "            self.cluster_pool_ref.clear_cluster(bbg)\n\n        return root_clstr", "            pass\n\n        return root_clstr"),
 ("bug", "C06", P, "                self.cluster_pool_ref.add_sites(root_clstr, self.selected_id)\n", ""),
 ("bug", "C06", P, "                self.lattice_ref.set_site_gid_by_id(self.selected_id, root_clstr)\n                self.cluster_pool_ref.add_sites(root_clstr, self.selected_id)\n",
  "                if self.lattice_ref.get_site_gid_by_id(self.get_neighbor_site(self.current_site.get_id(), bb)) >= 0 or len(bond_gids) == 4:\n                    self.cluster_pool_ref.add_sites(root_clstr, self.selected_id)\n                self.lattice_ref.set_site_gid_by_id(self.selected_id, root_clstr)\n"),
 ("bug", "C06", P, "        for bb in bond_neighbors:\n            bbg = self.lattice_ref.get_bond_by_id(bb).get_gid()\n            if bbg in gids:\n                continue",
  "        for bb in bond_neighbors:\n            bbg = self.lattice_ref.get_bond_by_id(bb).get_gid()\n            if False:\n                continue"),
 ("bug", "C06", P, "            if bbg in gids:\n                continue\n            else:", "            if len(gids) == 3:\n                continue\n            if bbg in gids:\n                continue\n            else:"),
 ("bug", "C06", P, "            # print(\"relabeling relative index of cluster \", bbg)\n            self.relabel_relative_indices(bb)\n",
  "            if self.after_wrapping and self.cluster_pool_ref.get_cluster_site_count(bbg) == 0:\n                continue\n            self.relabel_relative_indices(bb)\n"),
 ("bug", "C09", P, "                root_clstr = self.wrapping_cluster_id\n                break", "                break"),
 ("bug", "C06", P, "            if self.after_wrapping and (self.wrapping_cluster_id in bond_gids):", "            if self.after_wrapping:"),
 ("bug", "C06", P, "                self.wrapping_cluster_id = self.lattice_ref.get_site_by_id(self.selected_id).get_gid()\n",
  "                self.wrapping_cluster_id = self.lattice_ref.get_site_by_id(self.selected_id).get_gid()\n                self.lattice_ref.set_site_gid_by_id(ss, self.wrapping_cluster_id)\n"),
 ("bug", "C06", LA, "        for i in range(len(self.site_matrix)):\n            self.site_matrix[i].reset()", "        for i in range(self.length, len(self.site_matrix)):\n            self.site_matrix[i].reset()"),
 ("bug", "C06", P, "        self.init_clusters()\n        self.shuffle()\n", "        self.shuffle()\n"),
 ("bug", "C06", CL, "        self.cluster_list = []\n        self.cluster_id = 0\n        pass\n\n    def get_cluster_bond_count", "        self.cluster_list = []\n        pass\n\n    def get_cluster_bond_count"),
 ("bug", "C06", CL, "        gid = self.cluster_list[cluster_A_id].get_gid()\n        # print(\"cluster", "        gid = self.cluster_list[cluster_A_id].get_gid()\n        if len(self.cluster_list[cluster_B_id].site_ids) > len(self.cluster_list[cluster_A_id].site_ids):\n            gid = self.cluster_list[cluster_B_id].get_gid()\n        # print(\"cluster"),

 # ---- occupation (C05)
 ("bug", "C05", P, "        assert self.current_site.get_gid() == -1  # must be unoccupied\n", ""),
 ("bug", "C05", P, "        self.occupied_site_count = 0\n        self.selection_flag = None", "        self.selection_flag = None"),
 ("bug", "C05", P, "        elif self.selection_flag == SelectionState.CURRENT_SITE_NOT_EMPTY:\n", "        elif self.selection_flag == SelectionState.CURRENT_SITE_NOT_EMPTY:\n            return self.occupied_site_count < self.lattice_ref.site_count - 1\n"),
 ("bug", "C05", P, "        return self.occupied_site_count / self.lattice_ref.site_count", "        return self.current_idx / self.lattice_ref.site_count"),
 ("bug", "C05", P, "        return self.occupied_site_count / self.lattice_ref.site_count", "        return self.occupied_site_count / self.lattice_ref.bond_count"),
 ("bug", "C05", L12, "                    self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]\n", "                    self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]\n                    self.occupied_site_count += 1\n"),
 ("bug", "C05", P, "                self.pc_occupied_site_count = self.occupied_site_count\n", "                self.pc_occupied_site_count = self.occupied_site_count\n                self.occupied_site_count = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)\n"),
 ("bug", "C05", P, "        self.do_shuffle = do_shuffle\n        self.max_iteration_limit = len(site_id_list)\n", "        self.do_shuffle = do_shuffle\n        self.occupied_site_count = 0\n        self.max_iteration_limit = len(site_id_list)\n"),
 ("bug", "C05", P, "        if new_size > self.largest_cluster_sz:\n", "        if new_size > self.largest_cluster_sz:\n            self.occupied_site_count = max(self.occupied_site_count, self.cluster_pool_ref.get_cluster_site_count(new_cluster))\n"),
 ("bug", "C05", P, "                self.lattice_ref.set_site_gid_by_id(self.selected_id, root_clstr)\n", "                self.lattice_ref.set_site_gid_by_id(self.selected_id, root_clstr)\n                if self.after_wrapping:\n                    self.lattice_ref.set_site_gid_by_id(self.get_neighbor_site(self.selected_id, bb), root_clstr)\n"),
 ("bug", "C05", P, "                P2 = self.order_param_largest_clstr()\n                self.occupation_prob_list.append(p)", "                P2 = self.order_param_largest_clstr()\n                if p > 1:\n                    self.occupied_site_count -= 1\n                self.occupation_prob_list.append(p)"),
 ("bug", "C05", SP, "            if self.selection_flag == SelectionState.SUCESS:", "            if self.selection_flag == SelectionState.SUCESS and self.first_run:\n                self.occupied_site_count = self.current_idx + 0 * self.occupied_site_count + (1 if self.mode_custome_site_id else 0)\n            if self.selection_flag == SelectionState.SUCESS:"),

 # ---- entropy (C07)
 ("bug", "C07", P, "            if b_count == 0:\n                continue\n                pass\n            mu = b_count / self.lattice_ref.bond_count\n            H +=", "            if b_count <= 1:\n                continue\n            mu = b_count / self.lattice_ref.bond_count\n            H +="),
 ("bug", "C07", P, "            if gid == -1:\n                continue\n            gids.add(gid)\n            pass\n        # print(\"gids", "            if gid == -1 or gid == self.largest_cluster_id and self.after_wrapping:\n                continue\n            gids.add(gid)\n            pass\n        # print(\"gids"),
 ("bug", "C07", P, "        gids = set()\n        for bb in bonds:\n            gid = self.lattice_ref.get_bond_gid_by_id(bb)\n            if gid == -1:\n                continue\n            gids.add(gid)\n", "        gids = list()\n        for bb in bonds:\n            gid = self.lattice_ref.get_bond_gid_by_id(bb)\n            if gid == -1:\n                continue\n            gids.append(gid)\n"),
 ("bug", "C07", P, "        self.entropy_value -= mu*math.log(mu)\n", "        self.entropy_value -= mu*math.log(mu) if mu < 1 else 0.5*mu\n"),
 ("bug", "C07", P, "        b_count = self.cluster_pool_ref.get_cluster_bond_count(new_cluster_id)\n        mu = b_count / self.lattice_ref.bond_count\n", "        b_count = self.cluster_pool_ref.get_cluster_site_count(new_cluster_id)\n        mu = b_count / self.lattice_ref.site_count\n"),
 ("bug", "C07", P, "            self.entropy_subtract(bond_neighbors)\n\n            merged_cluster_index = self.merge_clusters_v2(bond_neighbors)\n", "            merged_cluster_index = self.merge_clusters_v2(bond_neighbors)\n            self.entropy_subtract(bond_neighbors)\n"),
 ("bug", "C07", P, "        self.entropy_value = self.max_entropy\n        self.occupied_site_count = 0\n", "        self.occupied_site_count = 0\n"),
 ("bug", "C07", P, "            if mu == 0:\n                # print(\"empty cluster\")\n                continue\n", "            if b_count <= 1:\n                continue\n"),
 ("bug", "C07", P, "        for i in range(self.cluster_count):\n            b_count", "        for i in range(1, self.cluster_count):\n            b_count"),
 ("bug", "C07", P, "        bonds = self.lattice_ref.get_neighbor_bonds(self.selected_id)\n        # print(self.current_site", "        bonds = self.uniqe_gid_bond_neighbors(self.lattice_ref.get_neighbor_bonds(self.selected_id))[:3]\n        # print(self.current_site"),
 ("bug", "C07", P, "                self.pc_occupied_site_count = self.occupied_site_count\n", "                self.pc_occupied_site_count = self.occupied_site_count\n                self.entropy_value = self.entropy_v1()\n"),
 # ---- largest cluster (C08)
 ("bug", "C08", P, "        new_size = self.cluster_pool_ref.get_cluster_bond_count(new_cluster)\n", "        new_size = self.cluster_pool_ref.get_cluster_site_count(new_cluster)\n"),
 ("bug", "C08", P, "            self.largest_cluster_id = new_cluster\n            self.largest_cluster_sz = new_size\n", "            self.largest_cluster_sz = new_size\n        if new_size > 2 * self.largest_cluster_sz or self.largest_cluster_id == -1:\n            self.largest_cluster_id = new_cluster\n"),
 ("bug", "C08", P, "            self.track_largest_cluster(merged_cluster_index)\n            self.entropy_add(merged_cluster_index)\n", "            if not (self.after_wrapping and merged_cluster_index == self.wrapping_cluster_id):\n                self.track_largest_cluster(merged_cluster_index)\n            self.entropy_add(merged_cluster_index)\n"),
 ("bug", "C08", P, "        if new_size > self.largest_cluster_sz:\n", "        if new_size > self.largest_cluster_sz + 1:\n"),
 ("bug", "C08", P, "        self.largest_cluster_sz = 0\n        self.largest_cluster_id = -1\n        self.entropy_value = self.max_entropy\n        self.occ", "        self.largest_cluster_id = -1\n        self.entropy_value = self.max_entropy\n        self.occ"),
 ("bug", "C08", P, "        return self.largest_cluster_sz / self.lattice_ref.bond_count", "        return self.largest_cluster_sz / (self.lattice_ref.bond_count - 1)"),
 ("bug", "C08", P, "            self.entropy_subtract(bond_neighbors)\n\n            merged_cluster_index = self.merge_clusters_v2(bond_neighbors)\n\n            self.track_largest_cluster(merged_cluster_index)\n", "            self.entropy_subtract(bond_neighbors)\n            root = self.get_bond_gids(bond_neighbors)[0]\n            self.track_largest_cluster(root)\n            merged_cluster_index = self.merge_clusters_v2(bond_neighbors)\n"),
 # ---- wrapping (C09)
 ("bug", "C09", P, "        if self.after_wrapping:\n            return True\n        if self.selected_id is None:", "        if self.selected_id is None:"),
 ("bug", "C09", P, "                self.pc_occupied_site_count = self.occupied_site_count\n", "                self.pc_occupied_site_count = self.current_idx\n"),
 ("bug", "C09", P, "        self.pc_bond_count_wrapping_cluster = None\n        self.pc_site_count_wrapping_cluster = None\n        pass\n\n    def viewLattice", "        self.pc_bond_count_wrapping_cluster = None\n        pass\n\n    def viewLattice"),
 ("bug", "C09", P, "            if self.after_wrapping and (self.wrapping_cluster_id in bond_gids):", "            if self.after_wrapping and (self.wrapping_cluster_id in bond_gids[:3]):"),
 ("bug", "C09", P, "                self.wrapping_cluster_id = self.lattice_ref.get_site_by_id(self.selected_id).get_gid()\n", "                self.wrapping_cluster_id = self.largest_cluster_id\n"),
 ("bug", "C09", P, "                self.pc_bond_count_wrapping_cluster = self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id)\n", "                self.pc_bond_count_wrapping_cluster = self.largest_cluster_sz\n"),
 ("bug", "C09", P, "        self.after_wrapping = False\n        self.wrapping_cluster_id = -1\n        self.largest_cluster_sz = 0\n        self.largest_cluster_id = -1\n        self.entropy_value = self.max_entropy\n        self.occ", "        self.wrapping_cluster_id = -1\n        self.largest_cluster_sz = 0\n        self.largest_cluster_id = -1\n        self.entropy_value = self.max_entropy\n        self.occ"),
 ("bug", "C09", P, "            count = self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id)\n", "            count = self.largest_cluster_sz\n"),
 ("bug", "C09", P, "        if new_size > self.largest_cluster_sz:\n", "        if new_size > self.largest_cluster_sz:\n            if self.after_wrapping:\n                self.wrapping_cluster_id = new_cluster\n"),
 ("bug", "C09", P, "            return self.pc_occupied_site_count / self.lattice_ref.site_count\n        else:", "            return self.occupied_site_count / self.lattice_ref.site_count\n        else:"),
 ("bug", "C09", P, "        self.mode_custome_site_id = True\n        self.do_shuffle = do_shuffle\n        self.max_iteration_limit = len(site_id_list)", "        self.mode_custome_site_id = True\n        self.after_wrapping = False\n        self.do_shuffle = do_shuffle\n        self.max_iteration_limit = len(site_id_list)"),
]
