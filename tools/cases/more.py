"""Behaviour-preserving rewrites of functions the other case files leave alone; run with the whole set of checks."""
S = "source_py/simulation/"
P, LAT, CLU, L12, SP, L0 = S + "percolation_sq_lattice.py", S + "lattice.py", S + "cluster.py", S + "percolation_sq_lattice_L1L2.py", S + "percolation_sq_lattice_shortest_path.py", S + "percolation_sq_lattice_L0.py"
IDX, SITE, BOND, EL = S + "index.py", S + "site.py", S + "bond.py", S + "element.py"
CASES = [
 # 0 Lattice.__init__ reordered, counts from each other
 ("same", "C01", LAT, """        self.length = length
        self.bond_count = 2*length**2
        self.site_count = length ** 2
        self.site_matrix = [0] * self.site_count
        self.site_ids = range(0, self.site_count)
        self.bond_ids = range(0, self.bond_count)
        self.bond_matrix = [0] * self.bond_count
""", """        self.length = length
        self.site_count = length * length
        self.bond_count = self.site_count + self.site_count
        self.site_matrix = [None for _ in range(self.site_count)]
        self.bond_matrix = [None for _ in range(self.bond_count)]
        self.site_ids, self.bond_ids = range(self.site_count), range(self.bond_count)
"""),
 # 1 left bond with a conditional instead of modulo
 ("same", "C01", LAT, """        col, row = self.get_row_col_from_id(s0_index)
        left_site = row*self.length + (col + self.length - 1) % self.length
        # print("left of ", s0_index, " is the right of ", left_site)
        return self.right_bond_of_site(left_site)
""", """        col, row = self.get_row_col_from_id(s0_index)
        if col == 0:
            left_site = s0_index + self.length - 1
        else:
            left_site = s0_index - 1
        return self.right_bond_of_site(left_site)
"""),
 # 2 find_neighbor_bonds as a list of calls
 ("same", "C01", LAT, """        right_bond = self.right_bond_of_site(s0_index)
        # bottom_bond = s0_index + self.site_count
        bottom_bond = self.bottom_bond_of_site(s0_index)
        # left_bond = (s0_index + self.length - 1) % self.length
        left_bond = self.left_bond_of_site(s0_index)
        # top_bond = (s0_index+self.bond_count-self.length)%self.site_count + self.site_count
        top_bond = self.top_bond_of_site(s0_index)
        return [right_bond, bottom_bond, left_bond, top_bond]
        pass
""", """        finders = (self.right_bond_of_site, self.bottom_bond_of_site,
                   self.left_bond_of_site, self.top_bond_of_site)
        return [find(s0_index) for find in finders]
"""),
 # 3 get_all_neighbor_sites: pick the other end without copying
 ("same", "C04", LAT, """            tmp = connected_sites.copy()
            if len(tmp) != 2:
                print("func:get_all_neighbor_sites -> len(connected_sites) != 1")
                print(self.get_bond_by_id(bid))
                assert len(tmp) == 2
                pass
            # print("connected_sites ", tmp)
            tmp.remove(central_site_id)

            four_neighbors.append(tmp[0])
            pass
        assert len(four_neighbors) == 4
""", """            assert len(connected_sites) == 2
            one, two = connected_sites
            four_neighbors.append(one if two == central_site_id else two)
        assert len(four_neighbors) == 4
"""),
 # 4 seed looked up with get
 ("same", "C14", P, """        if "seed" in kwargs.keys():
            print("Custom seeding. Testing mode")
            random.seed(kwargs['seed'])
            pass
""", """        custom_seed = "seed" in kwargs
        if custom_seed:
            logging.info("Custom seeding. Testing mode")
            seed_value = kwargs['seed']
            random.seed(seed_value)
"""),
 # 5 get_relative_index through Site objects fetched once
 ("same", "C10", P, """        central_index = self.lattice_ref.get_site_by_id(central_site_id).get_index()
        neighbor_index = self.lattice_ref.get_site_by_id(neighbor_site_id).get_index()
        # print("central_index ", central_index)
        # print("neighbor_index ", neighbor_index)
        idx = RelativeIndex(index=neighbor_index) - RelativeIndex(index=central_index)
        # print("idx ", idx)
        idx = self.wrapping_correction_relative_index(idx)
        # print("after wrapping correction ", idx)
        old_relative_index = self.lattice_ref.get_site_by_id(central_site_id).get_relative_index()
""", """        central = self.lattice_ref.get_site_by_id(central_site_id)
        neighbor = self.lattice_ref.get_site_by_id(neighbor_site_id)
        here, there = central.get_index(), neighbor.get_index()
        idx = self.wrapping_correction_relative_index(
            RelativeIndex(there.row() - here.row(), there.column() - here.column()))
        old_relative_index = central.get_relative_index()
"""),
 # 6 SitePercolation.__init__: declared in another order, comprehension lists
 ("same", "C14", P, """        self.site_ids_indices = list(range(0, self.lattice_ref.length**2))
        # use reverse_ids_indices to find index of the randomized array from value
        self.reverse_ids_indices = [0] * len(self.site_ids_indices)
        self.current_idx = 0
""", """        self.site_ids_indices = [site for site in self.lattice_ref.site_ids]
        # use reverse_ids_indices to find index of the randomized array from value
        self.reverse_ids_indices = [0 for _ in self.site_ids_indices]
        self.current_idx = 0
"""),
 # 7 merge_clusters (site percolation base): root by a helper
 ("same", "C05", P, """        bond_gids = self.get_bond_gids(bond_neighbors)
        # print("merging clusters ", bond_gids)
        ref_sz = 0
        root_clstr = 0
        for bb in bond_gids:
            sz = self.cluster_pool_ref.get_cluster_bond_count(bb)
            if sz >= ref_sz:
                root_clstr = bb
                ref_sz = sz
                pass
            pass
        # print("root cluster is ", root_clstr)
        for bb in bond_gids:
            if bb == root_clstr:
                # print("bb ", bb, " is a root cluster")
                continue
            # print("merging ", bb, " to ", root_clstr)
            self.cluster_pool_ref.merge_cluster_with(root_clstr, bb, self.lattice_ref)
            pass

        return root_clstr
        pass
""", """        bond_gids = self.get_bond_gids(bond_neighbors)
        ref_sz, root_clstr = 0, 0
        for bb in bond_gids:
            sz = self.cluster_pool_ref.get_cluster_bond_count(bb)
            if ref_sz <= sz:
                ref_sz, root_clstr = sz, bb
        others = [gid for gid in bond_gids if gid != root_clstr]
        for other in others:
            self.cluster_pool_ref.merge_cluster_with(root_clstr, other, self.lattice_ref)
        return root_clstr
"""),
 # 8 L1: signature in one statement
 ("same", "C14", L12, """        self.signature = super(SitePercolationL1, self).get_signature()
        self.signature += "L1_"

        self.x_occupied = 0

        # Once the sequece is recorded, we can use it in regular site percolation. To check the outcomes.
        self.site_id_sequence_record = []
""", """        self.x_occupied, self.site_id_sequence_record = 0, list()
        self.signature = super().get_signature() + "L1_"
"""),
 # 9 Site.__init__ and reset share a helper
 ("same", "C03", [(SITE, """        self.index = Index(row=row, col=col)
        self.relative_index = RelativeIndex()
        self.first_nn_count = 4 # for L1 percolation
        self.second_directional_nn_count = 4 # for L2 percolation
""", """        self.index = Index(row=row, col=col)
        self._clear()

    def _clear(self):
        self.relative_index = RelativeIndex(0, 0)
        self.first_nn_count = self.second_directional_nn_count = 4
"""), (SITE, """        # self.connecting_bond_ids = []
        self.relative_index = RelativeIndex()
        self.first_nn_count = 4  # for L1 percolation
        self.second_directional_nn_count = 4  # for L2 percolation
        pass
""", """        self._clear()
""")]),
 # 10 add_connecting_bond with isinstance and early returns
 ("same", "C01", SITE, """        if type(bond_id) is list:
            if len(bond_id) == 4:
                self.connecting_bond_ids += bond_id
                # print("site ", self.id, " got bonds ", bond_id)
                pass
            pass
        else:
            # print("site ", self.id, " got bond ", bond_id)
            self.connecting_bond_ids.append(bond_id)
""", """        if not isinstance(bond_id, list):
            self.connecting_bond_ids.append(bond_id)
            return
        if len(bond_id) == 4:
            self.connecting_bond_ids.extend(bond_id)
"""),
 # 11 add_connected_site
 ("same", "C01", BOND, """        if type(site_id) is list:
            if len(site_id) == 2:
                self.connected_site_ids += site_id
                # print("bond ", self.id, " got sites ", site_id)
                pass
            pass
        else:
            # print("bond ", self.id, " got site ", site_id)
            self.connected_site_ids.append(site_id)
""", """        is_pair = type(site_id) is list
        if is_pair and len(site_id) == 2:
            for end in site_id:
                self.connected_site_ids.append(end)
        elif not is_pair:
            self.connected_site_ids.append(site_id)
"""),
 # 12 Index.__sub__ and RelativeIndex.__sub__
 ("same", "C10", [(IDX, """        del_row = self.component_1 - other.component_1
        del_col = self.component_2 - other.component_2
        return Index(del_row, del_col)
""", """        return Index(self.component_1 - other.component_1, self.component_2 - other.component_2)
"""), (IDX, """        del_row = self.component_1 - other.component_1
        del_col = self.component_2 - other.component_2
        # if abs(del_row) > 1 and del_col == 0:
""", """        del_row, del_col = (mine - theirs for mine, theirs in zip(self.as_list(), other.as_list()))
        # if abs(del_row) > 1 and del_col == 0:
""")]),
 # 13 RelativeIndex.__init__
 ("same", "C10", IDX, """        elif type(index) is Index:
            super().__init__(index.component_1, index.component_2)
            pass
        elif type(index) is RelativeIndex:
            super().__init__(index.component_1, index.component_2)
            pass
        else:
""", """        elif type(index) in (Index, RelativeIndex):
            super().__init__(*index.as_list())
        else:
"""),
 # 14 cluster add_sites/add_bonds
 ("same", "C05", CLU, """        if type(site_ids) is list:
            self.site_ids += site_ids
            pass
        else:
            self.site_ids.append(site_ids)
            pass
        pass
""", """        if type(site_ids) is not list:
            site_ids = [site_ids]
        self.site_ids.extend(site_ids)
"""),
 # 15 scan of the wrapping row in the shortest path class
 ("same", "C13", SP, """        for rr in range(self.lattice_ref.length):
            flag = True
            for cc in range(self.lattice_ref.length):

                idx = self.lattice_ref.get_id_from_index(rr, cc)
                gid = self.lattice_ref.get_site_gid_by_id(idx)
                # scan_str1 = "{}({},{})".format(gid, rr, cc)

                if gid != self.wrapping_cluster_id:
                    flag = False
                    pass
                pass
            if flag:
                return True
            pass
        return False
""", """        L = self.lattice_ref.length

        def label(row, col):
            return self.lattice_ref.get_site_gid_by_id(self.lattice_ref.get_id_from_index(row, col))

        return any(all(label(rr, cc) == self.wrapping_cluster_id for cc in range(L)) for rr in range(L))
"""),
 # 16 get_change_in_relative_index componentwise
 ("same", "C10", P, """        change = new_relative_index - old_relative_index
        # print("get_change_in_relative_index. type of change ", type(change))
        # print("change ", change)
        return RelativeIndex(index=change)
""", """        return RelativeIndex(new_relative_index.x_coord() - old_relative_index.x_coord(),
                             new_relative_index.y_coord() - old_relative_index.y_coord())
"""),
 # 17 get_index_sequence as a comprehension
 ("same", "C12", L12, """        indices = []
        for id in self.site_id_sequence_record:
            idx = self.lattice_ref.get_site_by_id(id).get_index()
            indices.append(idx.as_list())
            pass
        return indices
""", """        return [self.lattice_ref.get_site_by_id(site).get_index().as_list()
                for site in self.site_id_sequence_record]
"""),
 # 18 get_connected_sites with filter
 ("same", "C04", P, """            sb2 = self.lattice_ref.get_bond_by_id(bb)
            connected_sites = list(sb2.connected_sites())
            # print("connected ", connected_sites)
            connected_sites.remove(central_id)
            if len(connected_sites) > 1:
                print("Number of neighbors cannot exceed 2 : get_connected_sites()")
                pass
            neighbor_sites.append(connected_sites[0])
            pass
""", """            ends = self.lattice_ref.get_bond_by_id(bb).connected_sites()
            others = [end for end in ends if end != central_id]
            if len(others) > 1:
                print("Number of neighbors cannot exceed 2 : get_connected_sites()")
            neighbor_sites += others[:1]
"""),
 # 19 get_four_neighbor_sites untouched body, renamed locals
 ("same", "C12", L12, """        bonds = self.lattice_ref.get_neighbor_bonds(central)
        sites = []
        for bb in bonds:
            tmp = self.lattice_ref.get_neighbor_sites(bb)
            sites += tmp
            pass
        for ss in sites:
""", """        sites = []
        for bond_id in self.lattice_ref.get_neighbor_bonds(central):
            sites.extend(self.lattice_ref.get_neighbor_sites(bond_id))
        for ss in sites:
"""),
 # 20 get_bond_by_index
 ("same", "C01", LAT, """        s0_index = row * self.length + col
        s0_index += hv_flag * self.length**2
        return self.bond_matrix[s0_index]
""", """        site = col + self.length * row
        return self.bond_matrix[site + hv_flag * self.site_count]
"""),
 # 21 Element.reset via setter-less assignment in Site/Bond order
 ("same", "C03", SITE, """        super(Site, self).reset()
        # self.connecting_bond_ids = []
        self.relative_index = RelativeIndex()
        self.first_nn_count = 4  # for L1 percolation
        self.second_directional_nn_count = 4  # for L2 percolation
        pass
""", """        # what is particular to a site goes first, the label last
        self.relative_index = RelativeIndex()
        self.second_directional_nn_count = 4  # for L2 percolation
        self.first_nn_count = 4  # for L1 percolation
        Element.reset(self)
"""),

 # 22 top bond by comparing the id with the length
 ("same", "C01", LAT, """        of_bottom_site = (s0_index+self.bond_count-self.length)%self.site_count
        return self.bottom_bond_of_site(of_bottom_site)
        pass
""", """        above = s0_index - self.length
        if above < 0:
            above += self.site_count
        return self.bottom_bond_of_site(above)
"""),
 # 23 top bond from row and column
 ("same", "C01", LAT, """        of_bottom_site = (s0_index+self.bond_count-self.length)%self.site_count
        return self.bottom_bond_of_site(of_bottom_site)
        pass
""", """        row, col = divmod(s0_index, self.length)
        row_above = row - 1 if row > 0 else self.length - 1
        return self.bottom_bond_of_site(row_above * self.length + col)
"""),
 # 24 the lattice is filled over site ids
 ("same", "C01", LAT, """        l_squared = self.length**2
        for rr in range(self.length):
            for cc in range(self.length):
                s_index = rr*self.length + cc
                v_bond_index = s_index+l_squared
                self.site_matrix[s_index] = Site(rr, cc)
                self.site_matrix[s_index].set_id(s_index)

                self.bond_matrix[s_index] = Bond(rr, cc, 0)
                self.bond_matrix[s_index].set_id(s_index)
                self.bond_matrix[v_bond_index] = Bond(rr, cc, 1)
                self.bond_matrix[v_bond_index].set_id(v_bond_index)

                pass
            pass
""", """        for s_index in self.site_ids:
            rr, cc = divmod(s_index, self.length)
            site, right, down = Site(rr, cc), Bond(rr, cc), Bond(rr, cc, type=1)
            site.set_id(s_index)
            right.set_id(s_index)
            down.set_id(s_index + self.site_count)
            self.site_matrix[s_index] = site
            self.bond_matrix[right.get_id()] = right
            self.bond_matrix[down.get_id()] = down
"""),
 # 25 the ids are wired over site ids
 ("same", "C01", LAT, """        for rr in range(self.length):
            for cc in range(self.length):
                s0_index = rr*self.length + cc
                bonds = self.find_neighbor_bonds(s0_index)
                assert len(bonds) == 4
                self.site_matrix[s0_index].add_connecting_bond(bonds)
                for bb in bonds:
                    self.bond_matrix[bb].add_connected_site(s0_index)
                    pass
""", """        for site in self.site_matrix:
            if True:
                s0_index = site.get_id()
                bonds = self.find_neighbor_bonds(s0_index)
                assert len(bonds) == 4
                site.add_connecting_bond(bonds)
                for bb in bonds:
                    self.get_bond_by_id(bb).add_connected_site(s0_index)
"""),
 # 26 wrapping candidates as a filter over the neighbours
 ("same", "C10", LAT, """        bonds = central_site.connecting_bonds()
        # print("bonds ", bonds)
        out_list = []
        for bb in bonds:
            nn = self.get_neighbor_sites(bb).copy()
            # print("nn ", nn)
            nn.remove(s0_index)
            gid = self.site_matrix[nn[0]].get_gid()
            if gid == gid_central:
                out_list.append(nn[0])
                pass
            pass
        return out_list
""", """        return [near for near in self.get_site_neighbor_of_site(s0_index)
                if self.get_site_gid_by_id(near) == gid_central]
"""),
 # 27 left bond by the truth of the remainder
 ("same", "C01", LAT, """        col, row = self.get_row_col_from_id(s0_index)
        left_site = row*self.length + (col + self.length - 1) % self.length
        # print("left of ", s0_index, " is the right of ", left_site)
        return self.right_bond_of_site(left_site)
""", """        step = -1 if s0_index % self.length else self.length - 1
        return self.right_bond_of_site(s0_index + step)
"""),
 # 28 the correction of one component as a static helper
 ("same", "C10", P, """        xx = delta_X.x_coord()
        yy = delta_X.y_coord()
        if abs(xx) > 1:
            xx = -xx // abs(xx)
            pass
        if abs(yy) > 1:
            yy = -yy // abs(yy)
            pass
        # print(type(xx), " and ", type(yy))
        return RelativeIndex(xx, yy)
        pass
""", """        return RelativeIndex(*map(self._one_step, (delta_X.x_coord(), delta_X.y_coord())))

    @staticmethod
    def _one_step(d):
        if -1 <= d <= 1:
            return d
        return -1 if d > 0 else 1
"""),
 # 29 neighbours of a site by a helper that gives the far end
 ("same", "C04", LAT, """        bonds = self.site_matrix[s0_index].connecting_bonds()
        # print("bonds ", bonds)
        out_list = []
        for bb in bonds:
            nn = self.get_neighbor_sites(bb).copy()
            # print("nn ", nn)
            nn.remove(s0_index)
            out_list.append(nn[0])
            pass
        return out_list
""", """        return [self._far_end(bond, s0_index) for bond in self.get_neighbor_bonds(s0_index)]

    def _far_end(self, bond, near):
        ends = self.bond_matrix[bond].connected_sites()
        return ends[1 - ends.index(near)]
"""),
 # 30 row and column with divmod
 ("same", "C01", LAT, """        row = s0_index // self.length
        col = s0_index % self.length
        return col, row
""", """        row, col = divmod(s0_index, self.length)
        return col, row
"""),
]
