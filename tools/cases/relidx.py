"""Relative coordinates (C10): bugs, and refactorings of the same code."""
P = "source_py/simulation/percolation_sq_lattice.py"
LA = "source_py/simulation/lattice.py"
SI = "source_py/simulation/site.py"
IX = "source_py/simulation/index.py"
REL = "            sites_to_relabel = self.cluster_pool_ref.get_sites(bbg)\n"
CORR = "        if abs(xx) > 1:\n            xx = -xx // abs(xx)\n            pass\n        if abs(yy) > 1:\n            yy = -yy // abs(yy)\n            pass\n"
LOOP = "                ss_relative_index = ss_relative_index + change\n                ss_relative_index = RelativeIndex(index=ss_relative_index)\n"
NEW = "        new_relative_idx = self.get_relative_index(central_site, neighbor_site)\n"
OLD = "        old_relative_idx = self.lattice_ref.get_site_by_id(neighbor_site).get_relative_index()\n"
RRI = "                    rri = self.get_relative_index(neighbor_site, self.selected_id)\n"
CALL = "            self.relabel_relative_indices(bb)\n"
CHG = "            change = self.get_change_in_relative_index(old_relative_idx, new_relative_idx)\n"
B = "C10"
CASES = [
 # ---- the unit step
 ("bug", B, P, "        if abs(xx) > 1:\n            xx = -xx // abs(xx)", "        if abs(xx) > 2:\n            xx = -xx // abs(xx)"),
 ("bug", B, P, "            xx = -xx // abs(xx)", "            xx = xx // abs(xx)"),
 ("bug", B, P, "            yy = -yy // abs(yy)", "            yy = -1"),
 ("bug", B, P, "        if abs(yy) > 1:\n            yy", "        if yy > 1:\n            yy"),
 ("bug", B, P, "        return RelativeIndex(xx, yy)\n        pass\n\n    def get_relative_index", "        return RelativeIndex(yy, xx)\n        pass\n\n    def get_relative_index"),
 ("bug", B, P, "        idx = RelativeIndex(index=neighbor_index) - RelativeIndex(index=central_index)", "        idx = RelativeIndex(index=central_index) - RelativeIndex(index=neighbor_index)"),
 ("bug", B, P, "        if abs(xx) > 1:\n            xx = -xx // abs(xx)", "        if abs(xx) == self.lattice_ref.length - 1 and abs(yy) == 1:\n            xx = -xx // abs(xx)"),
 # ---- the placed site
 ("bug", B, P, RRI, "                    rri = self.get_relative_index(self.selected_id, neighbor_site)\n"),
 ("bug", B, P, "                    self.lattice_ref.set_relative_index(self.selected_id, rri)\n", "                    self.lattice_ref.set_relative_index(neighbor_site, rri)\n"),
 ("bug", B, P, "                    self.lattice_ref.set_relative_index(self.selected_id, rri)\n", "                    if not self.after_wrapping:\n                        self.lattice_ref.set_relative_index(self.selected_id, rri)\n"),
 ("bug", B, P, "            self.lattice_ref.init_relative_index(self.selected_id)  # initialize relative index\n", ""),
 ("bug", B, SI, "        self.relative_index = RelativeIndex(0, 0)\n        pass\n\n    def get_rel", "        self.relative_index = RelativeIndex(0, 1)\n        pass\n\n    def get_rel"),
 # ---- the absorbed clusters
 ("bug", B, P, "                self.lattice_ref.get_site_by_id(ss).set_relative_index(ss_relative_index)\n", "                if ss != neighbor_site:\n                    self.lattice_ref.get_site_by_id(ss).set_relative_index(ss_relative_index)\n"),
 ("bug", B, P, LOOP, "                ss_relative_index = ss_relative_index - change\n                ss_relative_index = RelativeIndex(index=ss_relative_index)\n"),
 ("bug", B, P, "            for ss in sites_to_relabel:\n                # if", "            for ss in sites_to_relabel[1:]:\n                # if"),
 ("bug", B, P, "        change = new_relative_index - old_relative_index\n", "        change = old_relative_index - new_relative_index\n"),
 ("bug", B, P, CALL, "            if self.cluster_pool_ref.get_cluster_site_count(bbg) > 1:\n                self.relabel_relative_indices(bb)\n"),
 ("bug", B, P, CALL, "            if not self.after_wrapping:\n                self.relabel_relative_indices(bb)\n"),
 ("bug", B, P, NEW, "        new_relative_idx = self.get_relative_index(neighbor_site, central_site)\n"),
 ("bug", B, P, "        if len(sites_to_relabel) == 0:\n", "        if len(sites_to_relabel) <= 1:\n"),
 ("bug", B, P, "            self.cluster_pool_ref.merge_cluster_with(root_clstr, bbg, self.lattice_ref)\n            pass\n\n        for bbg in bond_gids:",
  "            self.cluster_pool_ref.merge_cluster_with(root_clstr, bbg, self.lattice_ref)\n            break\n\n        for bbg in bond_gids:"),
 ("bug", B, P, "            self.relabel_relative_indices(bb)\n            # print(\"merging \", bbg, \" to \", root_clstr)\n            self.cluster_pool_ref.merge_cluster_with(root_clstr, bbg, self.lattice_ref)\n",
  "            self.cluster_pool_ref.merge_cluster_with(root_clstr, bbg, self.lattice_ref)\n            self.relabel_relative_indices(bb)\n"),
 # the same object shared by all sites of the cluster
 ("bug", B, P, "                self.lattice_ref.get_site_by_id(ss).set_relative_index(ss_relative_index)\n", "                self.lattice_ref.get_site_by_id(ss).set_relative_index(new_relative_idx)\n"),
 # ---- arithmetic of coordinates
 ("bug", B, IX, "        component_2 = self.component_2 + other.component_2\n", "        component_2 = self.component_2 + other.component_1\n"),
 ("bug", B, IX, "        return RelativeIndex(del_row, del_col)\n", "        return RelativeIndex(del_col, del_row)\n"),
 ("bug", B, IX, "    def x_coord(self):\n        return self.component_1", "    def x_coord(self):\n        return self.component_2"),
 ("bug", B, IX, "        elif type(index) is RelativeIndex:\n            super().__init__(index.component_1, index.component_2)", "        elif type(index) is RelativeIndex:\n            super().__init__(index.component_1, index.component_1)"),
 # ---- the wrapping test
 ("bug", B, P, "            if (abs(delta_x) > 1) or (abs(delta_y) > 1):", "            if (abs(delta_x) > 1) and (abs(delta_y) > 1):"),
 ("bug", B, P, "            if (abs(delta_x) > 1) or (abs(delta_y) > 1):", "            if (delta_x > 1) or (delta_y > 1):"),
 ("bug", B, P, "            if (abs(delta_x) > 1) or (abs(delta_y) > 1):", "            if (abs(delta_x) > 1) or (abs(delta_y) > 2):"),
 ("bug", B, P, "            if (abs(delta_x) > 1) or (abs(delta_y) > 1):", "            if abs(delta_x) + abs(delta_y) > 2:"),
 ("bug", B, LA, "            gid = self.site_matrix[nn[0]].get_gid()\n            if gid == gid_central:\n                out_list.append(nn[0])\n",
  "            gid = self.site_matrix[nn[0]].get_gid()\n            if gid == gid_central and nn[0] not in out_list[:0] and len(out_list) < 3:\n                out_list.append(nn[0])\n"),
 ("bug", B, P, "        for ss in neighbors:\n            rss", "        for ss in neighbors[1:]:\n            rss"),
 # ---- other operations
 ("bug", B, P, "            return SelectionState.EMPTY_SITE_LIST\n        self.selected_id = self.site_ids_indices[self.current_idx]\n",
  "            return SelectionState.EMPTY_SITE_LIST\n        if self.current_site is not None and self.after_wrapping:\n            self.current_site.init_relative_index()\n        self.selected_id = self.site_ids_indices[self.current_idx]\n"),
 # ---- refactorings
 ("same", "*", P, CORR, "        xx = -xx // abs(xx) if abs(xx) > 1 else xx\n        yy = -yy // abs(yy) if abs(yy) > 1 else yy\n"),
 ("same", "*", P, CORR, "        def one(d):\n            if abs(d) > 1:\n                return -d // abs(d)\n            return d\n        xx, yy = one(xx), one(yy)\n"),
 ("same", "*", P, CORR, "        if xx > 1:\n            xx = -1\n        elif xx < -1:\n            xx = 1\n        if yy > 1:\n            yy = -1\n        elif yy < -1:\n            yy = 1\n"),
 ("same", "*", P, LOOP, "                ss_relative_index = RelativeIndex(ss_relative_index.x_coord() + change.x_coord(), ss_relative_index.y_coord() + change.y_coord())\n"),
 ("same", "*", P, OLD + NEW, NEW + OLD),
 ("same", "*", P, CHG, "            change = RelativeIndex(new_relative_idx.x_coord() - old_relative_idx.x_coord(), new_relative_idx.y_coord() - old_relative_idx.y_coord())\n"),
 ("same", "*", P, "        if len(sites_to_relabel) == 0:\n", "        if not sites_to_relabel:\n"),
 ("same", "*", P, "            if (abs(delta_x) > 1) or (abs(delta_y) > 1):", "            if max(abs(delta_x), abs(delta_y)) > 1:"),
 ("same", "*", P, "            if (abs(delta_x) > 1) or (abs(delta_y) > 1):", "            if not (-1 <= delta_x <= 1 and -1 <= delta_y <= 1):"),
 ("same", "*", P, "                    self.lattice_ref.set_relative_index(self.selected_id, rri)\n", "                    self.current_site.set_relative_index(rri)\n"),
 ("same", "*", P, "                self.lattice_ref.get_site_by_id(ss).set_relative_index(ss_relative_index)\n", "                self.lattice_ref.set_relative_index(ss, ss_relative_index)\n"),
 ("same", "*", P, "        central_site = self.current_site.get_id()\n        neighbor_site", "        central_site = self.selected_id\n        neighbor_site"),
 ("same", "*", IX, "        component_1 = self.component_1 + other.component_1\n        component_2 = self.component_2 + other.component_2\n        return Index(component_1, component_2)",
  "        return Index(self.component_1 + other.component_1, self.component_2 + other.component_2)"),
 ("same", "*", P, "        # then relabel all sites belonging to the cluster according to the neighbor\n        if self.lattice_ref.get_site_gid_by_id(central_site) >= 0:\n", "        if True:\n"),
]
