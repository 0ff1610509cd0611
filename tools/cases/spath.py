"""Rewrites and mistakes of the shortest-path class and of the coordinate arithmetic."""
F = "source_py/simulation/percolation_sq_lattice_shortest_path.py"
IDX = "source_py/simulation/index.py"
S = open("/repo/" + F).read()
X = open("/repo/" + IDX).read()
SC = S[S.index("    def scan_row_col_of_selected_site("):]
RO = S[S.index("    def run_once("):S.index("    def scan_all_rows(")]
AR = S[S.index("    def scan_all_rows("):S.index("    def scan_all_cols(")]
NO = X[X.index("    def normalize("):X.index("    def __str__(")]
SUB = X[X.index("    def __sub__("):X.index("    def __add__(")]
INI = X[X.index("    def __init__(self, x_rel=0"):X.index("        # self.x_coord")]
CASES = [
 ("same", "C17 C27", F, SC, '''    def _gid_at(self, row, col):
        return self.lattice_ref.get_site_gid_by_id(self.lattice_ref.get_id_from_index(row, col))

    def scan_row_col_of_selected_site(self, index):
        rr, cc = index.row(), index.column()
        span = range(self.lattice_ref.length)
        column_flag = all(self._gid_at(rr, k) == self.wrapping_cluster_id for k in span)
        row_flag = all(self._gid_at(k, cc) == self.wrapping_cluster_id for k in span)
        return column_flag, row_flag
'''),
 ("same", "C17 C27", F, SC, '''    def scan_row_col_of_selected_site(self, index):
        rr, cc = index.row(), index.column()
        length = self.lattice_ref.length
        return self._is_straight([(rr, k) for k in range(length)]), self._is_straight([(k, cc) for k in range(length)])

    def _is_straight(self, cells):
        for r, c in cells:
            if self.lattice_ref.get_site_gid_by_id(self.lattice_ref.get_id_from_index(r, c)) != self.wrapping_cluster_id:
                return False
        return True
'''),
 ("same", "C17 C27", F, SC, '''    def scan_row_col_of_selected_site(self, index):
        rr, cc = index.row(), index.column()
        in_row = in_col = 0
        for k in range(self.lattice_ref.length):
            if self.lattice_ref.get_site_gid_by_id(self.lattice_ref.get_id_from_index(rr, k)) == self.wrapping_cluster_id:
                in_row += 1
            if self.lattice_ref.get_site_gid_by_id(self.lattice_ref.get_id_from_index(k, cc)) == self.wrapping_cluster_id:
                in_col += 1
        return in_row == self.lattice_ref.length, in_col == self.lattice_ref.length
'''),
 ("same", "C17 C27", F, SC, '''    def scan_row_col_of_selected_site(self, index):
        rr, cc = index.row(), index.column()
        length, wanted = self.lattice_ref.length, self.wrapping_cluster_id
        gid = self.lattice_ref.get_site_gid_by_id
        row_gids = {gid(self.lattice_ref.get_id_from_index(rr, k)) for k in range(length)}
        column_gids = {gid(self.lattice_ref.get_id_from_index(k, cc)) for k in range(length)}
        return row_gids == {wanted}, column_gids == {wanted}
'''),
 ("same", "C17 C27", F, RO, '''    def run_once(self):
        """
        Single realization
        """
        while self.place_one_site():
            if self.selection_flag != SelectionState.SUCESS or not self.detect_wrapping():
                continue
            if any(self.scan_row_col_of_selected_site(self.current_site.get_index())):
                self.shortest_path_p = self.occupation_prob()
                break
        self.first_run = False

'''),
 ("same", "C17 C27", F, RO, '''    def run_once(self):
        """
        Single realization
        """
        crossed = False
        while not crossed and self.place_one_site():
            if self.selection_flag == SelectionState.SUCESS and self.detect_wrapping():
                column_flag, row_flag = self.scan_row_col_of_selected_site(self.current_site.get_index())
                crossed = column_flag or row_flag
        if crossed:
            self.shortest_path_p = self.occupation_prob()
        self.first_run = False

'''),
 ("same", "C17 C27", F, RO, '''    def run_once(self):
        """
        Single realization
        """
        while True:
            if not self.place_one_site():
                break
            if self._crossed():
                self.shortest_path_p = self.occupation_prob()
                break
        self.first_run = False

    def _crossed(self):
        if self.selection_flag != SelectionState.SUCESS:
            return False
        if not self.detect_wrapping():
            return False
        column_flag, row_flag = self.scan_row_col_of_selected_site(self.current_site.get_index())
        return column_flag or row_flag

'''),
 ("same", "C28", IDX, NO, '''    def normalize(self):
        c1, c2 = self.component_1, self.component_2
        if (c1 == 0) != (c2 == 0):
            self.component_1 = (c1 > 0) - (c1 < 0)
            self.component_2 = (c2 > 0) - (c2 < 0)

'''),
 ("same", "C28", IDX, NO, '''    @staticmethod
    def _sign(value):
        return value // abs(value) if value else 0

    def normalize(self):
        if self.component_1 and self.component_2:
            return
        self.component_1, self.component_2 = self._sign(self.component_1), self._sign(self.component_2)

'''),
 ("same", "C28", IDX, SUB, '''    def __sub__(self, other):
        return Index(*(a - b for a, b in zip(self.as_list(), other.as_list())))

'''),
 ("same", "C28", IDX, INI, '''    def __init__(self, x_rel=0, y_rel=0, index=None):
        if index is not None:
            if type(index) not in (Index, RelativeIndex):
                print("Wrong type. RelativeIndex")
                return
            x_rel, y_rel = index.as_list()
        super().__init__(x_rel, y_rel)
'''),
 ("bug", "C17", F, SC, SC.replace("column_flag = False", "column_flag = xcx == 0")),
 ("bug", "C17", F, RO, RO.replace("if column_flag or row_flag", "if column_flag and row_flag")),
 ("bug", "C28", IDX, NO, NO.replace("self.component_1 // abs(self.component_1)", "abs(self.component_1) // self.component_1 + 0 * self.component_2 if self.component_1 > 1 else 1")),
]


def broken(k, a, b):
    c = CASES[k]
    assert a in c[4], a
    CASES.append(("bug", "C17") + c[2:4] + (c[4].replace(a, b, 1),))


broken(5, "crossed = column_flag or row_flag", "crossed = crossed or column_flag and row_flag")
broken(5, "while not crossed and self.place_one_site()", "while self.place_one_site() and not crossed")
broken(2, "in_row == self.lattice_ref.length", "in_row == self.lattice_ref.length - 1")
broken(2, "in_col += 1", "in_row += 1")
broken(3, "row_gids == {wanted}", "wanted in row_gids")
broken(3, "for k in range(length)}\n        column", "for k in range(length - 1)}\n        column")
broken(4, "continue", "break")
