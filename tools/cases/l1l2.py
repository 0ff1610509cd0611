LL = "source_py/simulation/percolation_sq_lattice_L1L2.py"
SI = "source_py/simulation/site.py"
PS = "source_py/simulation/percolation_sq_lattice.py"
SRC = open("/repo/" + LL).read()
L1 = SRC.index("class SitePercolationL1")
L2 = SRC.index("class SitePercolationL2")
CASES = []


def b1(old, new, kind="bug", checks="C15", f=None):
    assert f or old in SRC[L1:L2], old
    CASES.append((kind, checks, f or LL, old, new))


def b2(old, new, kind="bug", checks="C15"):
    """edit in the L2 class: the text up to the edit is made unique by context"""
    i = SRC.index(old, L2)
    ctx = SRC[L2:i]
    CASES.append((kind, checks, [(LL, ctx + old, ctx + new)]))


D1 = "                    self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]\n"
D2 = "                        self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]\n"
b1("rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)", "rnd = random.randint(0, len(self.site_ids_indices) - 1)")
b1("rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)", "rnd = random.randint(self.current_idx, max(self.current_idx, len(self.site_ids_indices) - 2))")
b1("central2 = sites[random.randint(0, len(sites)-1)]", "central2 = sites[0]")
b1("central2 = sites[random.randint(0, len(sites)-1)]", "central2 = sites[random.randint(0, len(sites)-2)]")
b1("                if self.lattice_ref.get_site_by_id(central_X).is_removable(1):", "                if True:")
b1("                if self.lattice_ref.get_site_by_id(central_X).is_removable(1):", "                if self.lattice_ref.get_site_by_id(central2).is_removable(1):")
b1(D1, D1.replace("self.current_idx]", "-1]"))
b1(D1, "")
b1(D1, D1.replace("[rnd] = self.site_ids_indices[self.current_idx]", "[self.current_idx] = self.site_ids_indices[rnd]"))
b1("                    self.current_idx += 1\n", "                    self.current_idx += 2\n")
b1("        if self.current_idx >= len(self.site_ids_indices):", "        if self.current_idx >= len(self.site_ids_indices) - 1:")
b1("            if self.lattice_ref.get_site_by_id(central2).is_occupied():", "            if self.lattice_ref.get_site_by_id(central2).get_gid() > 0:")
b1("        if self.lattice_ref.get_site_by_id(central_X).is_occupied():", "        if self.lattice_ref.get_site_by_id(central_X).get_gid() > 0:")
b1("self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()", "self.lattice_ref.get_site_by_id(central2).reduce_1st_nn()")
b1("            self.x_occupied += 1\n", "            self.x_occupied += 1\n            self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()\n")
b1("        self.first_nn_count -= 1", "        self.first_nn_count -= 2", f=SI)
b1("            return self.first_nn_count == 0", "            return self.first_nn_count <= 1", f=SI)
b1("            return self.second_directional_nn_count == 0", "            return self.first_nn_count == 0", f=SI)
b1("        self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))\n", "        self.site_ids_indices = list(range(1, self.lattice_ref.length ** 2))\n")
b2("Z_index = Y_index + delta_X", "Z_index = Y_index - delta_X")
b2("delta_X = self.wrapping_correction_relative_index(RelativeIndex(index=delta_X))", "delta_X = RelativeIndex(index=delta_X)", "same")       # taken modulo L in the end
b2("delta_X = Y_index - X_index", "delta_X = X_index - Y_index")
b2("row = index.row() % self.lattice_ref.length", "row = max(0, min(index.row(), self.lattice_ref.length - 1))")
b2("column = index.column() % self.lattice_ref.length", "column = abs(index.column()) % self.lattice_ref.length")
b2("is_removable(2)", "is_removable(1)")
b2("self.lattice_ref.get_site_by_id(central_X).reduce_2st_directional_nn()", "self.lattice_ref.get_site_by_id(Y_id).reduce_2st_directional_nn()")
b2("self.lattice_ref.get_site_by_id(central_X).reduce_2st_directional_nn()", "self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()")
b2("if self.lattice_ref.get_site_by_id(Z_id).is_occupied():", "if self.lattice_ref.get_site_by_id(Z_id).is_occupied() or Z_id == central_X + 2:")
b2("Y_id = sites[random.randint(0, len(sites) - 1)]", "Y_id = random.choice(sites[1:])")
b2(D2, D2.replace("self.current_idx]", "0]"))
b2("            Z_id = Y_id\n", "            Z_id = central_X\n")
b2("if self.current_idx >= len(self.site_ids_indices):", "if self.current_idx >= self.lattice_ref.length ** 2 - 1:")
b2("        self.selected_id = Z_id", "        self.selected_id = Z_id if self.current_idx < 5 else central_X")
b2("                    self.y_occupied += 1\n", "                    self.y_occupied += 1\n                    self.site_ids_indices.remove(Z_id)\n")
# the sign of a wrapped difference, used by the direction of the L2 rule
A = "*"
b1("rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)", "rnd = random.randrange(self.current_idx, len(self.site_ids_indices))", "same", A)
b1("central2 = sites[random.randint(0, len(sites)-1)]", "central2 = random.choice(sites)", "same", A)
b1(D1, "                    ids = self.site_ids_indices\n                    ids[rnd], ids[self.current_idx] = ids[self.current_idx], ids[rnd]\n", "same", A)
b1("        if self.current_idx >= len(self.site_ids_indices):", "        if not self.current_idx < len(self.site_ids_indices):", "same", A)
b1("        self.selected_id = central_X\n        self.site_id_sequence_record.append(self.selected_id)\n", "        self.site_id_sequence_record.append(central_X)\n        self.selected_id = central_X\n", "same", A)
b1("        if self.lattice_ref.get_site_by_id(central_X).is_occupied():\n            # print(\"X is occupied\")\n            self.x_occupied += 1\n",
   "        first = self.lattice_ref.get_site_by_id(central_X)\n        if first.is_occupied():\n            self.x_occupied = self.x_occupied + 1\n", "same", A)
b1("        return self.g_id >= 0", "        return not self.g_id < 0", "same", A, f=SI)
b1("            return self.first_nn_count == 0", "            return self.first_nn_count <= 0", "same", "C15 C05 C11", f=SI)
b2("        return Index(row, column)", "        where = Index(row, column)\n        return where", "same", A)
b2("Z_id = self.lattice_ref.get_site_by_index(Z_index).get_id()", "Z_id = Z_index.row() * self.lattice_ref.length + Z_index.column()", "same", A)
b2("                delta_X = Y_index - X_index\n", "                delta_X = self.lattice_ref.get_site_by_id(Y_id).get_index() - X_index\n", "same", A)
b2("        row = index.row() % self.lattice_ref.length\n        column = index.column() % self.lattice_ref.length\n", "        n = self.lattice_ref.length\n        row, column = (index.row() + n) % n, (index.column() + n) % n\n", "same", A)
b2("is_removable(2):\n", "get_nn_count()[1] == 0:\n", "same", A)
