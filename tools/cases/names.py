S = "source_py/simulation/"
P, LAT, CLU, L12, SP, L0 = S + "percolation_sq_lattice.py", S + "lattice.py", S + "cluster.py", S + "percolation_sq_lattice_L1L2.py", S + "percolation_sq_lattice_shortest_path.py", S + "percolation_sq_lattice_L0.py"
IDX, SITE = S + "index.py", S + "site.py"
E, R, SR = "run_py/ensemble.py", "run_py/rsbd_percolatioin_run.py", "run_py/shortest_path_run.py"
CASES = [
 ("bug", "C27", "main.py", "    lattice.mTest_neighbors()\n", "    lattice.test(5)\n"),
 ("bug", "C27", CLU, "    def get_cluster_bond_count(self, id):", "    def get_cluster_bonds_count(self, id):"),
 ("bug", "C27", CLU, "    def set_gid(self, gid):", "    def set_gid(self, gid, cascade):"),
 ("bug", "C27", LAT, "def mTest_neighbors():\n", "def mTest_neighbors(length):\n"),
 ("bug", "C27", P, "import random\n", ""),
 ("bug", "C27", "source_py/analyze/lines.py", "import numpy as np\n", ""),
 ("bug", "C27", L12, "    def get_signature(self):\n        return self.signature\n", "    def get_signature(self):\n        return self.signatures\n"),
 ("bug", "C27", IDX, "    def as_list(self):", "    def to_list(self):"),
 # behaviour kept
 ("same", "C27", CLU, "        for clstr in self.cluster_list:\n            # print(\"clstr \", clstr)\n            counter += clstr.view()\n            pass\n", "        counter = sum(c.view() for c in self.cluster_list)\n"),
 ("same", "C27", CLU, "    def is_empty(self):\n        if len(self.site_ids) == 0 and len(self.bond_ids) == 0:\n            return True\n        return False\n", "    @property\n    def size(self):\n        return (len(self.site_ids), len(self.bond_ids))\n\n    def is_empty(self):\n        sites, bonds = self.size\n        return not any((sites, bonds))\n"),
 ("same", "C27", CLU, "class OneCluster:\n    def __init__(self):\n", "class OneCluster:\n    __slots__ = (\"site_ids\", \"bond_ids\", \"gid\", \"id\")\n\n    def __init__(self):\n"),
 ("same", "C27", CLU, "        self.site_ids = []\n        self.bond_ids = []\n        self.gid = -1\n        self.id = -1\n        pass\n\n    def __str__", "        self._empty()\n\n    def _empty(self):\n        for name in (\"site_ids\", \"bond_ids\"):\n            setattr(self, name, [])\n        self.gid = self.id = -1\n\n    def __str__"),
 ("same", "C27", CLU, "    def get_cluster(self, cluster_id):\n        if cluster_id >= len(self.cluster_list):\n            print(\"Cluster does not exists\")\n            return None\n        return self.cluster_list[cluster_id]\n", "    def get_cluster(self, cluster_id):\n        try:\n            found = self.cluster_list[cluster_id]\n        except IndexError as e:\n            print(\"Cluster does not exists\")\n            return None\n        else:\n            return found\n"),
 ("same", "C27", E, "import json\n", "import json as json\nfrom functools import partial as _partial\n"),
 ("same", "C27", LAT, "def mTest_neighbors():\n    length = 5\n    lattice = Lattice(length)\n", "def mTest_neighbors(length=5, **options):\n    make = options.get(\"make\", Lattice)\n    lattice = make(length)\n"),
 ("same", "C27", L0, "class SitePercolationL0", "from dataclasses import dataclass, field\n\n\n@dataclass\nclass _Note:\n    text: str\n    parts: list = field(default_factory=list)\n\n    def add(self, x):\n        self.parts.append(x)\n        return self\n\n\n_note = _Note(\"a\").add(1)\n_note2 = _Note(text=\"b\", parts=[1])\n\n\nclass SitePercolationL0"),
 ("same", "C27", P, "import random\n", "import random\nfrom collections import namedtuple, defaultdict\nfrom contextlib import contextmanager\nfrom typing import Optional, List\n\n_Pair = namedtuple(\"_Pair\", \"a b\")\n_P = _Pair(1, b=2)\n_S = _P.a + _P._replace(a=2).b\n_D: Optional[List[int]] = None\n\n\n@contextmanager\ndef _quiet():\n    yield\n\n\nwith _quiet() as _q:\n    pass\n"),
 # builtin types
 ("bug", "C27", "main.py", '"./logs/" + "run_simulation_threads_v4-log-" + current_time', '"./logs/" + "run_simulation_threads_v4-log-" - current_time'),
 ("bug", "C27", CLU, "        self.cluster_list.append(clsstr)\n", "        self.cluster_list.add(clsstr)\n"),
 ("bug", "C27", E, "    header_str = json.dumps(head)\n", "    head.add('x')\n    header_str = json.dumps(head)\n"),
 ("bug", "C27", E, "    critical_data = []\n", "    critical_data = {}\n"),
 ("same", "C27", CLU, "        self.cluster_list.append(clsstr)\n", "        self.cluster_list += [clsstr]\n"),
 ("same", "C27", CLU, "        self.cluster_list.append(clsstr)\n", "        kept = list(self.cluster_list)\n        kept.append(clsstr)\n        self.cluster_list = kept\n"),
 ("same", "C27", CLU, "    def __init__(self):\n        self.cluster_list = []\n", "    def __init__(self):\n        from collections import deque\n        self.cluster_list = deque()\n"),
 ("same", "C27", "main.py", '"./logs/" + "run_simulation_threads_v4-log-" + current_time + ".txt"', '"./logs/%s-log-%s" % ("run_simulation_threads_v4", current_time) + ".txt"'),
 ("same", "C27", E, "    header_str = json.dumps(head)\n", "    head = sorted(head.items())\n    head = {k: v for k, v in head}\n    head.update(dict())\n    header_str = json.dumps(head)\n"),
]
