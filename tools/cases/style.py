"""Behaviour-preserving rewrites with unusual constructs; run with the whole set of checks (tools/combo.py)."""
S = "source_py/simulation/"
P, LAT, CLU, L12, SP, L0 = S + "percolation_sq_lattice.py", S + "lattice.py", S + "cluster.py", S + "percolation_sq_lattice_L1L2.py", S + "percolation_sq_lattice_shortest_path.py", S + "percolation_sq_lattice_L0.py"
IDX, SITE, BOND, EL = S + "index.py", S + "site.py", S + "bond.py", S + "element.py"
CASES = [
 # 0 entropy: set comprehension and generator sum
 ("same", "C07", P, """        gids = set()
        for bb in bonds:
            gid = self.lattice_ref.get_bond_gid_by_id(bb)
            if gid == -1:
                continue
            gids.add(gid)
            pass
        # print("gids ", gids)
        H = 0
        for gg in gids:
            b_count = self.cluster_pool_ref.get_cluster_bond_count(gg)
            if b_count == 0:
                continue
                pass
            mu = b_count / self.lattice_ref.bond_count
            H += mu * math.log(mu)
            pass
""", """        gids = {g for g in map(self.lattice_ref.get_bond_gid_by_id, bonds) if g != -1}
        shares = (self.cluster_pool_ref.get_cluster_bond_count(g) / self.lattice_ref.bond_count for g in gids)
        H = sum(mu * math.log(mu) for mu in shares if mu > 0)
"""),
 # 1 connected sites: comprehension with helper
 ("same", "C10", P, """        sb2 = self.lattice_ref.get_neighbor_sites(connecting_bond_id)
        connected_sites = sb2.copy()
        # print("connected ", connected_sites)
        connected_sites.remove(central_id)
        if len(connected_sites) != 1:
            print("Number of neighbors must be exactly 1 : get_connected_sites()")
            pass
        # print("neighbor site ids ", neighbor_sites)
        return connected_sites[0]
        pass
""", """        first, second = self.lattice_ref.get_neighbor_sites(connecting_bond_id)
        return second if first == central_id else first
"""),
 # 2 connected sites via next()
 ("same", "C10", P, """        connected_sites = sb2.copy()
        # print("connected ", connected_sites)
        connected_sites.remove(central_id)
        if len(connected_sites) != 1:
            print("Number of neighbors must be exactly 1 : get_connected_sites()")
            pass
        # print("neighbor site ids ", neighbor_sites)
        return connected_sites[0]
        pass
""", """        return next(s for s in sb2 if s != central_id)
"""),
 # 3 wrapping test: list comprehension, any
 ("same", "C10", P, """        for ss in neighbors:
            rss = self.lattice_ref.get_site_by_id(ss).get_relative_index()
            delta_x = central_r_index.x_coord() - rss.x_coord()
            delta_y = central_r_index.y_coord() - rss.y_coord()
            if (abs(delta_x) > 1) or (abs(delta_y) > 1):
                # print(self.selected_id, " and ", ss, " are connected via wrapping")
                # print("indices are ", self.lattice_ref.get_site_by_id(self.selected_id).get_index(),
                #       " and ", self.lattice_ref.get_site_by_id(ss).get_index())
                # print("relative ", central_r_index, " - ", rss)
                self.after_wrapping = True
                self.wrapping_cluster_id = self.lattice_ref.get_site_by_id(self.selected_id).get_gid()
                self.pc_occupied_site_count = self.occupied_site_count
                self.pc_bond_count_wrapping_cluster = self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id)
                self.pc_site_count_wrapping_cluster = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
                return True
            pass
        return False
""", """        if any(self._far(central_r_index, self.lattice_ref.get_site_by_id(ss).get_relative_index()) for ss in neighbors):
            self._latch()
        return self.after_wrapping

    @staticmethod
    def _far(a, b):
        return max(abs(a.x_coord() - b.x_coord()), abs(a.y_coord() - b.y_coord())) >= 2

    def _latch(self):
        self.after_wrapping = True
        self.wrapping_cluster_id = self.current_site.get_gid()
        self.pc_occupied_site_count = self.occupied_site_count
        pool = self.cluster_pool_ref
        self.pc_bond_count_wrapping_cluster, self.pc_site_count_wrapping_cluster = (
            pool.get_cluster_bond_count(self.wrapping_cluster_id), pool.get_cluster_site_count(self.wrapping_cluster_id))
"""),
 # 4 the run loop: while True / break, tuple of lists with zip
 ("same", "C12", P, """        while self.place_one_site():
            # print("self.selection_flag ", self.selection_flag)
            if self.selection_flag == SelectionState.SUCESS:
                self.detect_wrapping()
                p = self.occupation_prob()
                # print("p = ", p)
                H = self.entropy()
                P1 = self.order_param_wrapping()
                P2 = self.order_param_largest_clstr()
                self.occupation_prob_list.append(p)
                self.entropy_list.append(H)
                self.order_wrapping_list.append(P1)
                self.order_largest_list.append(P2)
        # if self.first_run:
""", """        curves = (self.occupation_prob_list, self.entropy_list, self.order_wrapping_list, self.order_largest_list)
        while True:
            if not self.place_one_site():
                break
            if self.selection_flag is not SelectionState.SUCESS:
                continue
            self.detect_wrapping()
            row = (self.occupation_prob(), self.entropy(), self.order_param_wrapping(), self.order_param_largest_clstr())
            for curve, value in zip(curves, row):
                curve.append(value)
        # if self.first_run:
"""),
 # 5 observers in a dict of methods / record helper
 ("same", "C12", P, """                self.detect_wrapping()
                p = self.occupation_prob()
                # print("p = ", p)
                H = self.entropy()
                P1 = self.order_param_wrapping()
                P2 = self.order_param_largest_clstr()
                self.occupation_prob_list.append(p)
                self.entropy_list.append(H)
                self.order_wrapping_list.append(P1)
                self.order_largest_list.append(P2)
        # if self.first_run:
""", """                self.detect_wrapping()
                self._record()
        # if self.first_run:
"""),
 # 6 get_site_id_sequence by slicing, index sequence by comprehension
 ("same", "C13", P, """        return list(self.site_ids_indices)

    def get_index_sequence(self):
        indices = []
        for id in self.site_ids_indices:
            idx = self.lattice_ref.get_site_by_id(id).get_index()
            indices.append(idx.as_list())
            pass
        return indices
""", """        return self.site_ids_indices[:]

    def get_index_sequence(self):
        lattice = self.lattice_ref
        return [lattice.get_site_by_id(site_id).get_index().as_list() for site_id in self.site_ids_indices]
"""),
 # 7 swap by tuple assignment
 ("same", "C05", P, """        self.site_ids_indices[ix1] = id2
        self.site_ids_indices[ix2] = id1
        self.reverse_ids_indices[id2] = ix1
        self.reverse_ids_indices[id1] = ix2
""", """        self.site_ids_indices[ix1], self.site_ids_indices[ix2] = id2, id1
        self.reverse_ids_indices[id1], self.reverse_ids_indices[id2] = ix2, ix1
"""),
 # 8 reverse index by enumerate
 ("same", "C15", P, """            for i in range(len(self.site_ids_indices)):
                a = self.site_ids_indices[i]
                self.reverse_ids_indices[a] = i
                pass
            pass
""", """            for position, site_id in enumerate(self.site_ids_indices):
                self.reverse_ids_indices[site_id] = position
"""),
 # 9 wrapping candidates by comprehension over neighbours
 ("same", "C10", LAT, """        gid_central = central_site.get_gid()
        bonds = central_site.connecting_bonds()
        # print("bonds ", bonds)
        out_list = []
        for bb in bonds:
            nn = self.get_neighbor_sites(bb).copy()
            # print("nn ", nn)
            nn.remove(s0_index)
            gid = self.site_matrix[nn[0]].get_gid()
            if gid == gid_central:
                out_list.append(nn[0])
                pass
            pass
        return out_list
""", """        return [n for n in self.get_site_neighbor_of_site(s0_index) if self.site_matrix[n].get_gid() == central_site.get_gid()]
"""),
 # 10 neighbours by comprehension
 ("same", "C01", LAT, """        out_list = []
        for bb in bonds:
            nn = self.get_neighbor_sites(bb).copy()
            # print("nn ", nn)
            nn.remove(s0_index)
            out_list.append(nn[0])
            pass
        return out_list

    def get_sites_for""", """        ends = [self.get_neighbor_sites(bb) for bb in bonds]
        return [b if a == s0_index else a for a, b in ends]

    def get_sites_for"""),
 # 11 lattice construction: divmod over ids
 ("same", "C01", LAT, """        for rr in range(self.length):
            for cc in range(self.length):
                s0_index = rr*self.length + cc
                bonds = self.find_neighbor_bonds(s0_index)
                assert len(bonds) == 4
                self.site_matrix[s0_index].add_connecting_bond(bonds)
                for bb in bonds:
                    self.bond_matrix[bb].add_connected_site(s0_index)
                    pass
""", """        for rr in range(self.length):
            for s0_index in range(rr*self.length, (rr + 1)*self.length):
                bonds = self.find_neighbor_bonds(s0_index)
                assert len(bonds) == 4
                self.site_matrix[s0_index].add_connecting_bond(bonds)
                for bb in bonds:
                    self.bond_matrix[bb].add_connected_site(s0_index)
"""),
 # 12 construction of the elements over ids with divmod
 ("same", "C02", LAT, """        for rr in range(self.length):
            for cc in range(self.length):
                s_index = rr*self.length + cc
                v_bond_index = s_index+l_squared
                self.site_matrix[s_index] = Site(rr, cc)
""", """        for rr in range(self.length):
            for cc, s_index in enumerate(range(rr*self.length, (rr + 1)*self.length)):
                v_bond_index = s_index+l_squared
                self.site_matrix[s_index] = Site(rr, cc)
"""),
 # 13 row/column by divmod
 ("same", "C01", LAT, """        row = s0_index // self.length
        col = s0_index % self.length
        return col, row
""", """        row, col = divmod(s0_index, self.length)
        return col, row
"""),
 # 14 id from index: Horner
 ("same", "C02", LAT, """        multiplier_list = [self.length**k for k in range(len(index_list))]
        multiplier_list.reverse()
        prods = list(map(lambda a,b:a*b, multiplier_list, index_list))
        # print(prods)
        id_calc = sum(prods)
        # print(id_calc)
        return id_calc
""", """        id_calc = 0
        for digit in index_list:
            id_calc = id_calc * self.length + digit
        return id_calc
"""),
 # 15 id from index: reversed multipliers, zip
 ("same", "C02", LAT, """        multiplier_list = [self.length**k for k in range(len(index_list))]
        multiplier_list.reverse()
        prods = list(map(lambda a,b:a*b, multiplier_list, index_list))
        # print(prods)
        id_calc = sum(prods)
        # print(id_calc)
        return id_calc
""", """        top = len(index_list) - 1
        return sum(digit * self.length**(top - k) for k, digit in enumerate(index_list))
"""),
 # 16 unique neighbours with a dict
 ("same", "C06", P, """        gids = []
        unique_bond_ids = []
        for bb in bond_neighbors:
            bbg = self.lattice_ref.get_bond_by_id(bb).get_gid()
            if bbg in gids:
                continue
            else:
                gids.append(bbg)
                unique_bond_ids.append(bb)
                pass
            pass
        return unique_bond_ids
""", """        first_bond = {}
        for bb in bond_neighbors:
            first_bond.setdefault(self.lattice_ref.get_bond_by_id(bb).get_gid(), bb)
        return list(first_bond.values())
"""),
 # 17 survivor search in a helper with early return
 ("same", "C06", P, """        ref_sz = 0
        root_clstr = bond_gids[0]
        for bbg in bond_gids:
            if self.after_wrapping and (self.wrapping_cluster_id in bond_gids):
                # print("After wrapping, the wrapping cluster is the root cluster even if other involved clusters are larger")
                root_clstr = self.wrapping_cluster_id
                break
            sz = self.cluster_pool_ref.get_cluster_bond_count(bbg)
            if sz >= ref_sz:
                root_clstr = bbg
                ref_sz = sz
                pass
            pass
""", """        root_clstr = self._survivor(bond_gids)
"""),
 # 18 largest cluster by max
 ("same", "C08", P, """        if new_size > self.largest_cluster_sz:
            self.largest_cluster_id = new_cluster
            self.largest_cluster_sz = new_size
            pass
""", """        if not new_size <= self.largest_cluster_sz:
            self.largest_cluster_id, self.largest_cluster_sz = new_cluster, new_size
"""),
 # 19 relabelling in a helper taking the displacement
 ("same", "C10", P, """            for ss in sites_to_relabel:
                # if ss == neighbor_site:  # BBB
                #     print("already got relabeled") # BBB
                #     continue # BBB
                ss_relative_index = self.lattice_ref.get_site_by_id(ss).get_relative_index()
""", """            for site in map(self.lattice_ref.get_site_by_id, sites_to_relabel):
                site.set_relative_index(RelativeIndex(index=site.get_relative_index() + change))
            for ss in ():
                ss_relative_index = self.lattice_ref.get_site_by_id(ss).get_relative_index()
"""),
 # 20 direct entropy: comprehension
 ("same", "C07", P, """        H = 0
        for i in range(self.cluster_count):
            b_count = self.cluster_pool_ref.get_cluster_bond_count(i)
            mu = b_count / self.lattice_ref.bond_count
            if mu == 0:
                # print("empty cluster")
                continue
            log_mu = math.log(mu)
            H += mu * log_mu
            pass
        # self.entropy_value = -H
        # return self.entropy_value
        return -H
""", """        total = self.lattice_ref.bond_count
        shares = [self.cluster_pool_ref.get_cluster_bond_count(i) / total for i in range(self.cluster_count)]
        return -sum([mu * math.log(mu) for mu in shares if mu])
"""),
 # 21 reset loops over the elements
 ("same", "C11", LAT, """        for i in range(len(self.site_matrix)):
            self.site_matrix[i].reset()
        for i in range(len(self.bond_matrix)):
            self.bond_matrix[i].reset()
        pass
""", """        for element in [*self.site_matrix, *self.bond_matrix]:
            element.reset()
"""),
 # 22 place one site: early exits
 ("same", "C05", P, """        self.selection_flag = self.select_site()
        if self.selection_flag == SelectionState.SUCESS:
""", """        self.selection_flag = self.select_site()
        if self.selection_flag == SelectionState.EMPTY_SITE_LIST:
            return False
        if self.selection_flag == SelectionState.SUCESS:
"""),
 # 23 setter: all() instead of a loop
 ("same", "C16", P, """        for idx in site_index_list:
            row, column = idx.as_list() if type(idx) is Index else idx
            if not (0 <= row < self.lattice_ref.length and 0 <= column < self.lattice_ref.length):
                print("Invalid site id list")
                return
        site_index_list = [self.lattice_ref.calculate_id_from_index(idx) for idx in site_index_list]
""", """        pairs = [idx.as_list() if type(idx) is Index else idx for idx in site_index_list]
        length = self.lattice_ref.length
        if not all(0 <= row < length and 0 <= column < length for row, column in pairs):
            print("Invalid site id list")
            return
        site_index_list = [row * length + column for row, column in pairs]
"""),
]
# 5 and 17 need their helper as well
HELP = {5: (P, "    def test_run_once(self):\n", """    def _record(self):
        observers = ((self.occupation_prob_list, self.occupation_prob), (self.entropy_list, self.entropy),
                     (self.order_wrapping_list, self.order_param_wrapping), (self.order_largest_list, self.order_param_largest_clstr))
        for curve, observe in observers:
            curve.append(observe())

    def test_run_once(self):
"""), 17: (P, "    def relabel_relative_indices(self, connecting_bond):\n", """    def _survivor(self, gids):
        if self.after_wrapping and self.wrapping_cluster_id in gids:
            return self.wrapping_cluster_id
        sizes = [self.cluster_pool_ref.get_cluster_bond_count(g) for g in gids]
        best = gids[0]
        ref_sz = 0
        for g, sz in zip(gids, sizes):
            if sz >= ref_sz:
                best, ref_sz = g, sz
        return best

    def relabel_relative_indices(self, connecting_bond):
""")}
for k, h in HELP.items():
    CASES[k] = CASES[k][:2] + ([CASES[k][2:5], h],)
