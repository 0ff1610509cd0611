"""Behaviour-preserving rewrites of the ensemble runners and the launchers, second batch."""
ENS, RS, SPR = "run_py/ensemble.py", "run_py/rsbd_percolatioin_run.py", "run_py/shortest_path_run.py"


def text(path):
    return open("/repo/" + path).read()


def cut(path, a, b=None):
    s = text(path)
    i = s.index(a)
    return s[i:s.index(b, i)] if b else s[i:]


V2 = cut(ENS, "def run_ensemble_entropy_order_threads_v2(")
V4 = cut(RS, "def run_simulation_threads_v4(", "def run_simulations")
V3 = cut(RS, "def run_simulation_threads_v3(", "def run_simulation_threads_v4(")
T2 = cut(RS, "def run_simulation_threads_v2(", "def run_simulation_threads_v3(")
T0 = cut(RS, "def run_simulation_threads()", "def run_simulation_threads_v2(")
SR = cut(RS, "def single_realization(", "def run_simulation_threads()")
PS = cut(SPR, "def run_simulation_shortest_path_threads(")
W = cut(SPR, "def write_p_p_star(", "def ensemble_shortest_path_v2_thread(")
E2 = cut(SPR, "def ensemble_shortest_path_v2_thread(", "def run_simulation_shortest_path_threads(")
ACC = '''        if data is None:
            data = aaa
        else:
            data += aaa
            pass
        pass
'''
TAIL = '''    # length = 500
    thread_counts = thread
    En = ensemble_count
    En_per_thread, remainder = divmod(En, thread_counts)
'''
CASES = [
 # 0 curves collected, summed at the end
 ("same", "C19 C20", ENS, V2, V2.replace("    data = None\n", "    curves = []\n").replace(ACC, "        curves.append(aaa)\n").replace(
  "    data /= ensembleSize  # taking average\n", "    data = sum(curves) / ensembleSize  # taking average\n").replace("        del aaa\n", "")),
 # 1 curves collected, averaged by numpy
 ("same", "C19 C20", ENS, V2, V2.replace("    data = None\n", "    curves = []\n").replace(ACC, "        curves.append(aaa)\n").replace(
  "    data /= ensembleSize  # taking average\n", "    data = np.mean(curves, axis=0)\n").replace("        del aaa\n", "")),
 # 2 the first realisation before the loop guard
 ("same", "C19 C20", ENS, V2, V2.replace("    data = None\n", "    data = 0\n").replace(ACC, "        data = data + aaa\n")),
 # 3 shares by the rounding trick
 ("same", "C22", RS, V4, V4.replace('''    En_per_thread, remainder = divmod(En, thread_counts)
''', "").replace("        En_i = En_per_thread + (1 if i < remainder else 0)\n", "        En_i = (En + thread_counts - 1 - i) // thread_counts\n")),
 # 4 shares as differences of cumulated bounds
 ("same", "C22", RS, V4, V4.replace('''    En_per_thread, remainder = divmod(En, thread_counts)
''', "").replace('''        En_i = En_per_thread + (1 if i < remainder else 0)
        if En_i == 0:
            break
''', '''        En_i = En * (i + 1) // thread_counts - En * i // thread_counts
        if En_i == 0:
            continue
''')),
 # 5 keyword arguments
 ("same", "C22", RS, V3, V3.replace("args=(percolationClass, length, En_i, i))", 'kwargs={"percolationClass": percolationClass, "length": length,\n                                                  "ensembleSize": En_i, "thread_count": i})')),
 # 6 a helper that launches and awaits, shared by v3 and v4
 ("same", "C22", RS, [(RS, V3, '''def _launch(target, percolationClass, length, ensemble_count, workers):
    En_per_worker, remainder = divmod(ensemble_count, workers)
    processes = []
    for i in range(workers):
        share = En_per_worker + (i < remainder)
        if not share:
            break
        processes.append(multiprocessing.Process(target=target, args=(percolationClass, length, share, i)))
        processes[-1].start()
    for process in processes:
        process.join()


def run_simulation_threads_v3(length, ensemble_count, thread):
    from run_py import ensemble
    from source_py.simulation import percolation_sq_lattice_L0
    _launch(ensemble.run_ensemble_entropy_order_threads_v2, percolation_sq_lattice_L0.SitePercolationL0,
            length, ensemble_count, thread)

'''), (RS, V4, V4[:V4.index(TAIL)] + '''    _launch(ensemble.run_ensemble_entropy_order_threads_v2, percolationClass, length, ensemble_count, thread)


''')]),
 # 7 only as many workers as there are realisations
 ("same", "C22", RS, V4, V4.replace("    for i in range(thread_counts):\n        En_i = En_per_thread + (1 if i < remainder else 0)\n        if En_i == 0:\n            break\n",
                                   "    for i in range(min(thread_counts, En)):\n        En_i = En_per_thread + (1 if i < remainder else 0)\n")),
 # 8 first the bigger shares, then the others
 ("same", "C22", SPR, PS, PS.replace("        En_i = En_per_thread + (1 if i < remainder else 0)\n", "        En_i = En_per_thread\n        if i < remainder:\n            En_i += 1\n")),
 # 9 threads by comprehension
 ("same", "C22", RS, T0, T0[:T0.index("    i = 0\n")] + '''    all_threads = [Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, LL, En, i))
                   for i, LL in enumerate(lengths)]
    for thread in all_threads:
        thread.start()
    for thread in all_threads:
        thread.join()

'''),
 # 10 fixed launch in a comprehension
 ("same", "C22", RS, T2, T2[:T2.index("    all_threads = []\n")] + '''    shares = [En_per_thread + 1 if i < remainder else En_per_thread for i in range(thread_counts)]
    all_threads = [Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, length, share, i))
                   for i, share in enumerate(shares) if share != 0]
    for thread in all_threads:
        thread.start()
    for thread in all_threads:
        thread.join()

'''),
 # 11 the reference record as a literal, written by json.dump-like call
 ("same", "C20 C18", RS, SR, SR[:SR.index("    # print(data)\n")] + '''    now = datetime.now()
    current_time = now.strftime("%Y%m%d_%H%M%S")
    print("current_time ", current_time)
    record = {
        'length': length,
        'L': length,
        'site_id_sequence': percolation.get_site_id_sequence(),
        'site_index_sequence': percolation.get_index_sequence(),
        'pc': percolation.get_pc(),
        'site_count_wrapping_cluster_pc': percolation.get_site_count_wrapping_cluster_pc(),
        'bond_count_wrapping_cluster_pc': percolation.get_bond_count_wrapping_cluster_pc(),
        'entropy_list': percolation.get_entropy_array(),
        'order_largest_list': percolation.get_order_param_largest_array(),
        'order_wrapping_list': percolation.get_order_param_wrapping_array(),
        'date': now.strftime("%Y.%m.%d"),
        'time': now.strftime("%H:%M:%S"),
        'columns': ["p", "H", "P1", "P2"],
        'desc': ["p=occupation probability", "H=entropy",
                 "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"],
    }
    os.makedirs("./data", exist_ok=True)
    filename = "{}_percolation_cross_check_data_L{}_{}.txt".format(percolation.get_signature(), length, current_time)
    with open(os.path.join("./data", filename), 'w') as f:
        json.dump(record, f)


'''),
 # 12 the shortest-path writer with the parts of the name joined
 ("same", "C20 C21", SPR, W, W.replace('''    signature += "_shortest_path_p_L{}_".format(length)
    filename = signature + current_time
    if thread_count is not None:
        filename += "_th{}".format(thread_count)
        pass
    filename += ".txt"
''', '''    parts = [signature, "shortest", "path", "p", "L%d" % length, current_time]
    filename = "_".join(parts)
    if thread_count is not None:
        filename += "_th%d" % thread_count
    filename = filename + ".txt"
''')),
 # 13 the runner of the shortest path as a comprehension over a helper
 ("same", "C19 C20", SPR, E2, '''def _shortest_path_realization(percolation):
    percolation.reset()
    percolation.run_once()
    return [percolation.get_pc(), percolation.get_shortest_path_p()]


''' + E2[:E2.index("    critical_data = []\n")] + '''    critical_data = [_shortest_path_realization(percolation) for _ in range(ensembleSize)]
''' + E2[E2.index("    # print(data)\n"):]),
 # 14 an array filled row by row
 ("same", "C19 C20", SPR, E2, E2.replace("    critical_data = []\n", "    critical_data = np.zeros((ensembleSize, 2))\n").replace('''        critical_data.append([percolation.get_pc(),
                              percolation.get_shortest_path_p(),
                              ])
''', '''        critical_data[en - 1, 0] = percolation.get_pc()
        critical_data[en - 1, 1] = percolation.get_shortest_path_p()
''')),
 # 15 the workers by a functools.partial-free closure over a list of argument tuples
 ("same", "C22", SPR, PS, PS[:PS.index("    all_processes = []\n")] + '''    jobs = []
    for i in range(thread_counts):
        En_i = En_per_thread + (1 if i < remainder else 0)
        if En_i > 0:
            jobs.append((percolationClass, length, En_i, i))
    all_processes = [multiprocessing.Process(target=ensemble_shortest_path_v2_thread, args=job) for job in jobs]
    for process in all_processes:
        process.start()
    for process in all_processes:
        process.join()
'''),
]


def broken(n, k, checks, a, b):
    """the rewrite k with one mistake in it"""
    c = CASES[k]
    eds = c[3] if isinstance(c[3], list) else [tuple(c[2:5])]
    out = [(f, o, t.replace(a, b)) for f, o, t in eds]
    assert out != eds, (n, a)
    CASES.append(("bug", checks, ENS, out) if isinstance(c[3], list) else ("bug", checks) + out[0])


broken(16, 1, "C19", "axis=0", "axis=1")
broken(17, 1, "C19", "np.mean(curves, axis=0)", "np.mean(curves[1:], axis=0)")
broken(18, 3, "C22", "thread_counts - 1 - i)", "thread_counts - i)")
broken(19, 3, "C22", "if En_i == 0", "if En_i <= 1")
broken(20, 6, "C22", "(i < remainder)", "(i <= remainder)")
broken(21, 7, "C22", "min(thread_counts, En)", "min(thread_counts, En - 1)")
broken(22, 14, "C19", "critical_data[en - 1, 0]", "critical_data[en - 2, 0]")
broken(23, 14, "C20", "[en - 1, 0] = percolation.get_pc()", "[en - 1, 1] = percolation.get_pc()")
broken(24, 13, "C19", "    percolation.reset()\n    percolation.run_once()\n    return", "    percolation.run_once()\n    percolation.reset()\n    return")
broken(25, 4, "C22", "- En * i //", "- En * (i - 1) //")
broken(26, 15, "C22", "if En_i > 0", "if En_i > 1")
broken(27, 0, "C19", "sum(curves)", "sum(curves[1:])")
for k, c in enumerate(CASES):
    if isinstance(c[3], list):
        CASES[k] = (c[0], c[1], c[3])
