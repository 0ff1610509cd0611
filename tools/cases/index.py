S = "source_py/simulation/"
LAT, IDX = S + "lattice.py", S + "index.py"
CASES = [
 ("bug", "C28", IDX, "        component_2 = self.component_2 + other.component_2\n", "        component_2 = self.component_2 - other.component_2\n"),
 ("bug", "C28", IDX, "        return Index(component_1, component_2)\n", "        self.component_1 = component_1\n        self.component_2 = component_2\n        return self\n"),
 ("bug", "C28", IDX, "self.component_2 // abs(self.component_2)", "abs(self.component_2) // self.component_2 if self.component_2 > 0 else 1"),
 ("bug", "C28", IDX, "        if (self.component_1 == 0) and (self.component_2 != 0):", "        if self.component_2 != 0:"),
 ("bug", "C28", IDX, "super().__init__(index.component_1, index.component_2)", "super().__init__(index.component_2, index.component_1)"),
 ("bug", "C28", LAT, "        if d_col == (self.length - 1):\n            d_col = 1\n", "        if d_col >= (self.length - 2):\n            d_col = 1\n"),
 ("bug", "C28", LAT, "        d_row = abs(index1.row() - index2.row())\n        if d_row == (self.length - 1):\n            d_row = 1\n", "        d_row = (index1.row() - index2.row()) % (self.length - 1)\n"),
 ("bug", "C28", LAT, "            index2 = site2.get_index()\n            pass\n        d_row", "            index2 = site2.get_relative_index()\n            pass\n        d_row"),
 ("same", "C28 C10", IDX, "            self.component_2 = self.component_2 // abs(self.component_2)", "            self.component_2 = 1 if self.component_2 > 0 else -1"),
 ("same", "C28 C10", IDX, "            self.component_1 = self.component_1 // abs(self.component_1)", "            self.component_1 = (self.component_1 > 0) - (self.component_1 < 0)"),
 ("same", "C28", LAT, "        d_row = abs(index1.row() - index2.row())\n        if d_row == (self.length - 1):\n            d_row = 1\n", "        rows = index1.row(), index2.row()\n        d_row = max(rows) - min(rows)\n        d_row = 1 if d_row + 1 == self.length else d_row\n"),
 ("same", "C28", LAT, "        index1 = site1\n        index2 = site2\n        if type(site1) is Site:\n            index1 = site1.get_index()\n        if type(site2) is Site:\n            index2 = site2.get_index()\n            pass\n",
  "        index1, index2 = [s.get_index() if isinstance(s, Site) else s for s in (site1, site2)]\n"),
 ("same", "C28", IDX, "        del_row = self.component_1 - other.component_1\n        del_col = self.component_2 - other.component_2\n        return Index(del_row, del_col)\n", "        return Index(*(a - b for a, b in zip(self.as_list(), other.as_list())))\n"),
 ("same", "C28 C10 C27", IDX, "        component_1 = self.component_1 + other.component_1\n", "        if other.component_1 == 0 and other.component_2 == 0:\n            return Index(self.component_1, self.component_2)\n        component_1 = self.component_1 + other.component_1\n"),
]
