"""Behaviour-preserving rewrites of the ensemble runners and the launchers."""
ENS, SPR = "run_py/ensemble.py", "run_py/rsbd_percolatioin_run.py"


def cut(path, a, b):
    s = open("/repo/" + path).read()
    i = s.index(a)
    return s[i:s.index(b, i)]


W = cut(ENS, "def write_entropy_order(", "def run_ensemble_entropy_order_threads(")
R1 = cut(ENS, "def run_ensemble_entropy_order(", "def write_entropy_order(")
T1 = cut(ENS, "def run_ensemble_entropy_order_threads(", "def run_ensemble_entropy_order_threads_v2(")
V2 = open("/repo/" + ENS).read()[open("/repo/" + ENS).read().index("def run_ensemble_entropy_order_threads_v2("):]
CASES = [
 # 0 both writers share one
 ("same", "C20 C21 C22", ENS, W, '''def write_entropy_order(current_time, data, ensembleSize, length, now, signature, thread_count=None):
    _write(current_time, data, ensembleSize, length, now, signature + "_entropy_order_L{}_".format(length), thread_count,
           columns=["p", "H", "P1", "P2"],
           desc=["p=occupation probability", "H=entropy",
                 "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"])


def write_critical_values(current_time, data, ensembleSize, length, now, signature, thread_count=None):
    _write(current_time, data, ensembleSize, length, now, signature + "_critical_values_L{}_".format(length), thread_count,
           columns=["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"],
           desc=["pc=critical ocupation probability"])


def _write(current_time, data, ensembleSize, length, now, prefix, thread_count, columns, desc):
    suffix = "" if thread_count is None else "_th{}".format(thread_count)
    head = {'length': length, 'L': length, 'ensemble_size': ensembleSize, 'En': ensembleSize,
            'date': now.strftime("%Y.%m.%d"), 'time': now.strftime("%H:%M:%S"),
            'columns': columns, 'desc': desc}
    os.makedirs("./data", exist_ok=True)
    np.savetxt("./data/{}{}{}.txt".format(prefix, current_time, suffix), data, fmt="%.10e", header=json.dumps(head))


'''),
 # 1 the average by a running total and a helper per realisation
 ("same", "C19 C20", ENS, R1, '''def _realize(percolation):
    percolation.reset()
    percolation.run_once()
    critical = [percolation.get_pc(),
                percolation.get_site_count_wrapping_cluster_pc(),
                percolation.get_bond_count_wrapping_cluster_pc()]
    return percolation.get_data_array(), critical


def run_ensemble_entropy_order(percolationClass, length, ensembleSize, interaction=0):
    """
    run simulation for site percolation on square lattice.
    """
    percolation = percolationClass(length=length)
    total = None
    critical_data = []
    for en in range(ensembleSize):
        start_t = time.time()
        curve, critical = _realize(percolation)
        critical_data.append(critical)
        print(curve[-1, :])
        total = curve if total is None else total + curve
        print("Iteration {:4} | Time elapsed {:.5f} sec".format(en, time.time() - start_t))

    average = total / ensembleSize
    signature = percolation.get_signature()
    now = datetime.now()
    current_time = now.strftime("%Y%m%d_%H%M%S")
    print("current_time ", current_time)

    write_entropy_order(current_time, average, ensembleSize, length, now, signature)
    write_critical_values(current_time, critical_data, ensembleSize, length, now, signature)


'''),
 # 2 the thread runner writes through the writer's pieces, f-strings
 ("same", "C19 C20 C21 C22", ENS, T1, '''def run_ensemble_entropy_order_threads(percolationClass, length, ensembleSize, thread_count=0):
    """
    run simulation for site percolation on square lattice.
    """
    percolation = percolationClass(length=length)
    data = None
    en = 0
    while en < ensembleSize:
        en += 1
        start_t = time.time()
        percolation.reset()
        percolation.run_once()
        curve = percolation.get_data_array()
        if data is not None:
            data += curve
        else:
            data = curve
        print(f"Iteration {en*(thread_count+1):4} | Time elapsed {time.time() - start_t:.5f} sec | thread {thread_count:2} ")

    data /= ensembleSize  # taking average
    now = datetime.now()
    current_time = now.strftime("%Y%m%d_%H%M%S")
    print("current_time ", current_time)
    thread_part = f"_th{thread_count}" if thread_count is not None else ""
    filename = f"./data/{percolation.get_signature()}_entropy_order_L{length}_{current_time}{thread_part}.txt"

    head = {'length': length, 'L': length}
    head.update({'ensemble_size': ensembleSize, 'En': ensembleSize})
    head['date'], head['time'] = now.strftime("%Y.%m.%d"), now.strftime("%H:%M:%S")
    head['columns'] = ["p", "H", "P1", "P2"]
    head['desc'] = ["p=occupation probability", "H=entropy",
                    "P2=order parameter by wrapping cluster", "P1=order parameter by largest cluster"]
    os.makedirs("./data", exist_ok=True)
    np.savetxt(filename, data, fmt="%.10e", header=json.dumps(head))


'''),
 # 3 the object is made once, the seed passed when there is one
 ("same", "C14 C19", ENS, '''    percolation = percolationClass(length=length)
    if seed is not None:
        percolation = percolationClass(length=length, seed=seed)
        pass
''', '''    options = dict(length=length)
    if seed is not None:
        options['seed'] = seed
    percolation = percolationClass(**options)
'''),
 # 4 v2: the sum collected in a list of curves
 ("same", "C19 C20", ENS, '''        log_str = "Iteration {:4} | Time elapsed {:.5f} sec | thread {:2} ".format(en*(thread_count+1), end_t, thread_count)
        # print(log_str)
        logging.info(log_str)
        pass

    data /= ensembleSize  # taking average
''', '''        logging.info("Iteration %4d | Time elapsed %.5f sec | thread %2d ", en*(thread_count+1), end_t, thread_count)

    data = data / ensembleSize  # taking average
'''),
 # 5 the shares of the threads by a helper generator
 ("same", "C23", SPR, cut(SPR, "def run_simulation_threads_v3(", "def run_simulation_threads_v4("), '''def _shares(total, workers):
    """(worker, its part of the total), the first ones take one more, idle workers left out"""
    base, extra = divmod(total, workers)
    for worker in range(workers):
        share = base + 1 if worker < extra else base
        if share > 0:
            yield worker, share


def run_simulation_threads_v3(length, ensemble_count, thread):
    from run_py import ensemble
    from source_py.simulation import percolation_sq_lattice_L0
    percolationClass = percolation_sq_lattice_L0.SitePercolationL0
    all_processes = []
    for i, En_i in _shares(ensemble_count, thread):
        process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
                                          args=(percolationClass, length, En_i, i))
        process.start()
        all_processes.append(process)
    for process in all_processes:
        process.join()

'''),
 # 6 classes chosen by a table
 ("same", "C23", SPR, '''    if interaction == 1:
        percolationClass = percolation_sq_lattice_L1L2.SitePercolationL1
    elif interaction == 2:
        percolationClass = percolation_sq_lattice_L1L2.SitePercolationL2
    else:
        percolationClass = percolation_sq_lattice_L0.SitePercolationL0
    pass
''', '''    classes = {1: percolation_sq_lattice_L1L2.SitePercolationL1, 2: percolation_sq_lattice_L1L2.SitePercolationL2}
    percolationClass = classes.get(interaction, percolation_sq_lattice_L0.SitePercolationL0)
'''),
 # 7 v4: the processes made first, then started, then joined
 ("same", "C23", SPR, cut(SPR, "    # length = 500\n    thread_counts = thread\n    En = ensemble_count\n    En_per_thread, remainder = divmod(En, thread_counts)\n\n    all_processes = []\n\n    for i in range(thread_counts):\n        En_i = En_per_thread + (1 if i < remainder else 0)\n        if En_i == 0:\n            break\n        # inargs = {'length':LL, \"ensembleSize\":En, \"thread_count\":i}\n        process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,\n                                          args=(percolationClass, length, En_i, i))\n        all_processes.append(process)\n        process.start()\n\n        pass\n    for process in all_processes:\n        process.join()\n        pass\n\n\ndef run_simulations", "def run_simulations"), '''    base, extra = ensemble_count // thread, ensemble_count % thread
    parts = [base + 1] * extra + [base] * (thread - extra)
    all_processes = [multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
                                             args=(percolationClass, length, part, i))
                     for i, part in enumerate(parts) if part]
    for process in all_processes:
        process.start()
    for process in all_processes:
        process.join()


'''),
 # 8 critical values unpacked
 ("same", "C19 C20", ENS, V2, V2.replace('''        critical_data.append([percolation.get_pc(),
                              percolation.get_site_count_wrapping_cluster_pc(),
                              percolation.get_bond_count_wrapping_cluster_pc(),
                              ])
''', '''        pc = percolation.get_pc()
        sites = percolation.get_site_count_wrapping_cluster_pc()
        bonds = percolation.get_bond_count_wrapping_cluster_pc()
        critical_data += [[pc, sites, bonds]]
''')),
 # 9 the header by a helper
 ("same", "C21 C22", ENS, [(ENS, W, W.replace('''    head = dict()
    head['length'] = length
    head['L'] = length
    head['ensemble_size'] = ensembleSize
    head['En'] = ensembleSize
    head['date'] = now.strftime("%Y.%m.%d")
    head['time'] = now.strftime("%H:%M:%S")
''', '''    head = _header(length, ensembleSize, now)
''') + '''def _header(length, ensembleSize, now):
    return dict(length=length, L=length, ensemble_size=ensembleSize, En=ensembleSize,
                date=now.strftime("%Y.%m.%d"), time=now.strftime("%H:%M:%S"))


''')]),
]
c = CASES[9]
CASES[9] = (c[0], c[1]) + c[3][0]
