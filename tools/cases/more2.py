"""Larger behaviour-preserving rewrites of the simulation step: helpers extracted, phases split or joined, loops turned round."""
S = "source_py/simulation/"
P, LAT, CLU, L12, SP, L0 = S + "percolation_sq_lattice.py", S + "lattice.py", S + "cluster.py", S + "percolation_sq_lattice_L1L2.py", S + "percolation_sq_lattice_shortest_path.py", S + "percolation_sq_lattice_L0.py"
IDX, SITE, BOND, EL = S + "index.py", S + "site.py", S + "bond.py", S + "element.py"


def cut(path, a, b):
    """the text of a file from a up to (not including) b"""
    s = open("/repo/" + path).read()
    i = s.index(a)
    return s[i:s.index(b, i)]


CASES = [
 # 0 merge_cluster_with through locals and a helper, sites first
 ("same", "C05", CLU, cut(CLU, "        gid = self.cluster_list[cluster_A_id].get_gid()\n", "    def view(self, view_mode"), """        keeper, other = self.get_cluster(cluster_A_id), self.get_cluster(cluster_B_id)
        gid = keeper.get_gid()
        self._relabel(other.get_sites(), lattice_ref.set_site_gid_by_id, gid)
        self._relabel(other.get_bonds(), lattice_ref.set_bond_gid_by_id, gid)
        keeper.add_sites(other.get_sites())
        keeper.add_bonds(other.get_bonds())

    @staticmethod
    def _relabel(ids, setter, gid):
        for one in ids:
            setter(one, gid)

"""),
 # 1 merge_clusters_v2: root picked by a helper, clearing joined with merging
 ("same", "C05", [(P, cut(P, "        ref_sz = 0\n        root_clstr = bond_gids[0]\n", "        # print(\"root cluster is \", root_clstr)\n        # print(\"Assign"), """        root_clstr = self._root_of(bond_gids)
"""), (P, cut(P, "            self.cluster_pool_ref.merge_cluster_with(root_clstr, bbg, self.lattice_ref)\n            pass\n\n        for bbg in bond_gids:", "    def relabel_relative_indices"), """            self.cluster_pool_ref.merge_cluster_with(root_clstr, bbg, self.lattice_ref)
            self.cluster_pool_ref.clear_cluster(bbg)

        return root_clstr

    def _root_of(self, gids):
        if self.after_wrapping and self.wrapping_cluster_id in gids:
            return self.wrapping_cluster_id
        best = gids[0]
        best_size = 0
        for gid in gids:
            size = self.cluster_pool_ref.get_cluster_bond_count(gid)
            if size < best_size:
                continue
            best, best_size = gid, size
        return best

""")]),
 # 2 entropy terms by a shared helper
 ("same", "C07", [(P, cut(P, "            b_count = self.cluster_pool_ref.get_cluster_bond_count(gg)\n            if b_count == 0:", "        # print(\"before \", self.entropy_value)\n        self.entropy_value += H"), """            H += self._mu_log_mu(gg)
"""), (P, cut(P, "        # print(\"entropy_add\")\n", "    def occupation_prob(self)"), """        self.entropy_value -= self._mu_log_mu(new_cluster_id)

    def _mu_log_mu(self, gid):
        share = self.cluster_pool_ref.get_cluster_bond_count(gid) / self.lattice_ref.bond_count
        if share == 0:
            return 0
        return share * math.log(share)

""")]),
 # 3 place_one_site with early returns
 ("same", "C06", P, cut(P, "        self.selection_flag = self.select_site()\n", "    def track_largest_cluster"), """        flag = self.selection_flag = self.select_site()
        if flag == SelectionState.EMPTY_SITE_LIST:
            return False
        if flag != SelectionState.SUCESS:
            return True
        self.lattice_ref.init_relative_index(self.selected_id)  # initialize relative index
        around = self.current_site.connecting_bonds()
        self.entropy_subtract(around)
        cluster = self.merge_clusters_v2(around)
        # the two records below do not depend on each other
        self.entropy_add(cluster)
        self.track_largest_cluster(cluster)
        return True

"""),
 # 4 L1: the occupied case in a helper that returns the neighbour or None
 ("same", "C12", [(L12, cut(L12, "        central_X = self.site_ids_indices[rnd]\n        if self.lattice_ref.get_site_by_id(central_X).is_occupied():\n            # print(\"X is occupied\")\n            self.x_occupied += 1\n\n", "        self.selected_id = central_X\n"), """        central_X = self.site_ids_indices[rnd]
        if self.lattice_ref.get_site_by_id(central_X).is_occupied():
            central_X = self._neighbor_instead(central_X, rnd)
            if central_X is None:
                return SelectionState.CURRENT_SITE_NOT_EMPTY
"""), (L12, "    def occupied_summary(self):\n        print(\"SitePercolationL1.occ", """    def _neighbor_instead(self, central, position):
        self.x_occupied += 1
        sites = self.lattice_ref.get_all_neighbor_sites(central)
        chosen = sites[random.randint(0, len(sites)-1)]
        if not self.lattice_ref.get_site_by_id(chosen).is_occupied():
            return chosen
        site = self.lattice_ref.get_site_by_id(central)
        site.reduce_1st_nn()
        if site.is_removable(1):
            self.site_ids_indices[position] = self.site_ids_indices[self.current_idx]
            self.current_idx += 1
        return None

    def occupied_summary(self):
        print(\"SitePercolationL1.occ""")]),
 # 5 L2: the site beyond the neighbour in a helper
 ("same", "C12", [(L12, cut(L12, "                # if central2 is occupied then select the one in the direction\n", "                if self.lattice_ref.get_site_by_id(Z_id).is_occupied():"), """                Z_id = self._beyond(central_X, Y_id)
"""), (L12, "    def correct_index_for_periodicity(self, index):\n", """    def _beyond(self, x_id, y_id):
        x, y = (self.lattice_ref.get_site_by_id(k).get_index() for k in (x_id, y_id))
        step = self.wrapping_correction_relative_index(RelativeIndex(index=y - x))
        target = self.correct_index_for_periodicity(y + step)
        return self.lattice_ref.get_site_by_index(target).get_id()

    def correct_index_for_periodicity(self, index):
""")]),
 # 6 detect_wrapping: a predicate and a recorder
 ("same", "C10", P, cut(P, "        # print(\"detect_wrapping\")\n", "    def run_once(self):"), """        home = self.current_site.get_relative_index()
        candidates = self.lattice_ref.get_sites_for_wrapping_test(self.selected_id)
        if not any(self._far(home, self.lattice_ref.get_site_by_id(ss).get_relative_index()) for ss in candidates):
            return False
        gid = self.current_site.get_gid()
        self.after_wrapping, self.wrapping_cluster_id = True, gid
        self.pc_occupied_site_count = self.occupied_site_count
        cluster = self.cluster_pool_ref.get_cluster(gid)
        self.pc_bond_count_wrapping_cluster = cluster.get_bond_count()
        self.pc_site_count_wrapping_cluster = cluster.get_site_count()
        return True

    def _far(self, a, b):
        return max(abs(a.x_coord() - b.x_coord()), abs(a.y_coord() - b.y_coord())) > 1

"""),
 # 7 relabelling with early returns and a lattice alias
 ("same", "C08", P, cut(P, "        bond = self.lattice_ref.get_bond_by_id(connecting_bond)\n        bbg = bond.get_gid()\n", "    def detect_wrapping(self):"), """        lattice = self.lattice_ref
        members = self.cluster_pool_ref.get_sites(lattice.get_bond_gid_by_id(connecting_bond))
        if not members:
            return
        central_site = self.current_site.get_id()
        if lattice.get_site_gid_by_id(central_site) < 0:
            return
        neighbor_site = self.get_neighbor_site(central_site, connecting_bond)
        before = lattice.get_site_by_id(neighbor_site).get_relative_index()
        after = self.get_relative_index(central_site, neighbor_site)
        change = self.get_change_in_relative_index(before, after)
        for site in map(lattice.get_site_by_id, members):
            site.set_relative_index(RelativeIndex(index=site.get_relative_index() + change))

"""),
 # 8 root by max over the reversed labels
 ("same", "C05", P, cut(P, "        ref_sz = 0\n        root_clstr = bond_gids[0]\n", "        # print(\"root cluster is \", root_clstr)\n        # print(\"Assign"), """        if self.after_wrapping and self.wrapping_cluster_id in bond_gids:
            root_clstr = self.wrapping_cluster_id
        else:
            # of equally large clusters the last one wins
            root_clstr = max(reversed(bond_gids), key=self.cluster_pool_ref.get_cluster_bond_count)
"""),
 # 9 run_once with a loop that breaks
 ("same", "C06", P, cut(P, "        while self.place_one_site():\n            # print(\"self.selection_flag \"", "        # if self.first_run:\n        #     print(\"self.first_run\")"), """        while True:
            if not self.place_one_site():
                break
            if self.selection_flag != SelectionState.SUCESS:
                continue
            self.detect_wrapping()
            self._record()
"""),
 # 10 create_new_cluster: labels set by the lattice before the cluster is built
 ("same", "C05", CLU, cut(CLU, "        clsstr = OneCluster()\n", "    def add_sites(self, index, site_ids)"), """        label = self.cluster_id
        for ss in site_ids:
            lattice_ref.set_site_gid_by_id(ss, label)
        for bb in bond_ids:
            lattice_ref.set_bond_gid_by_id(bb, label)
        clsstr = OneCluster()
        clsstr.set_id(label)
        clsstr.set_gid(label)
        clsstr.add_bonds(bond_ids)
        clsstr.add_sites(site_ids)
        self.cluster_list += [clsstr]
        self.cluster_id = label + 1

"""),
 # 11 the phase that attaches the site, by next() over the bonds of the root
 ("same", "C08", P, cut(P, "        for bb in bond_neighbors:\n            bbg = self.lattice_ref.get_bond_by_id(bb).get_gid()\n            if bbg == root_clstr:\n                # print(\"bb \", bbg", "        # print(\"Relabel all cluster according"), """        root_bond = next(bb for bb in bond_neighbors if self.lattice_ref.get_bond_gid_by_id(bb) == root_clstr)
        self.lattice_ref.set_site_gid_by_id(self.selected_id, root_clstr)
        self.cluster_pool_ref.add_sites(root_clstr, self.selected_id)
        neighbor_site = self.get_neighbor_site(self.current_site.get_id(), root_bond)
        if self.lattice_ref.get_site_by_id(neighbor_site).is_occupied():
            self.lattice_ref.set_relative_index(self.selected_id, self.get_relative_index(neighbor_site, self.selected_id))
"""),
]
# 9 needs its helper
c = CASES[9]
CASES[9] = (c[0], c[1], [(c[2], c[3], c[4]), (P, "    def test_run_once(self):\n", """    def _record(self):
        for series, value in ((self.occupation_prob_list, self.occupation_prob()),
                              (self.entropy_list, self.entropy()),
                              (self.order_wrapping_list, self.order_param_wrapping()),
                              (self.order_largest_list, self.order_param_largest_clstr())):
            series.append(value)

    def test_run_once(self):
""")])
