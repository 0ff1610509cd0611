E = "run_py/ensemble.py"
R = "run_py/rsbd_percolatioin_run.py"
S = "run_py/shortest_path_run.py"
CASES = [
 ("bug", "C19", E, "    for en in range(1, ensembleSize+1):", "    for en in range(1, ensembleSize):"),
 ("bug", "C19", E, "        percolation.reset()\n", "        if en:\n            percolation.reset()\n"),
 ("bug", "C19", E, "    data /= ensembleSize  # taking average", "    data /= en  # taking average"),
 ("bug", "C19", E, "    head['En'] = ensembleSize", "    head['En'] = ensembleSize - 1"),
 ("bug", "C19", E, "            data = aaa\n", "            data = 2 * aaa\n"),
 ("bug", "C19", S, "        percolation.reset()\n        percolation.run_once()\n        print(\"iteration \", e,", "        percolation.run_once()\n        percolation.reset()\n        print(\"iteration \", e,"),
 ("bug", "C19", E, "        critical_data.append([percolation.get_pc(),", "        if en % 2 == 0:\n            continue\n        critical_data.append([percolation.get_pc(),"),
 ("bug", "C19", E, "        percolation.run_once()\n        critical_data.append([percolation.get_pc(),\n", "        pc = percolation.get_pc()\n        percolation.run_once()\n        critical_data.append([pc,\n"),
 ("bug", "C19", E, "        aaa = percolation.get_data_array()\n        print(aaa[-1,:])", "        aaa = percolation.get_data_array()\n        aaa[-1, :] = 0\n        print(aaa[-1,:])"),
 ("bug", "C20", E, '"P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"', '"P2=order parameter by largest cluster", "P1=order parameter by wrapping cluster"'),
 ("bug", "C20", E, '["p", "H", "P1", "P2"]', '["p", "H", "P2", "P1"]'),
 ("bug", "C20", E, '["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"]', '["pc", "wrapping cluster bond count at pc", "wrapping cluster site count at pc"]'),
 ("bug", "C20", E, "    header_str = json.dumps(head)", "    header_str = str(head)"),
 ("bug", "C20", E, "    head['L'] = length", "    head['L'] = length ** 2"),
 ("bug", "C20", S, "        critical_data.append([percolation.get_pc(),\n                              percolation.get_shortest_path_p(),\n", "        critical_data.append([percolation.get_shortest_path_p(),\n                              percolation.get_pc(),\n"),
 ("bug", "C20", "source_py/simulation/percolation_sq_lattice.py", "np.c_[pp, HH, PP_largest, PP_wraping]", "np.c_[pp, HH, PP_wraping, PP_largest]"),
 ("bug", "C20", R, "head['order_largest_list'] = percolation.get_order_param_largest_array()", "head['order_largest_list'] = percolation.get_order_param_wrapping_array()"),
 ("bug", "C21", E, '        filename += "_th{}".format(thread_count)', '        filename += "_th"'),
 ("bug", "C21", E, '    if thread_count is not None:\n        filename += "_th{}"', '    if thread_count:\n        filename += "_th{}"'),
 ("bug", "C21", E, 'signature += "_critical_values_L{}_".format(length)', 'signature += "_entropy_order_L{}_".format(length)'),
 ("bug", "C21", E, 'signature += "_critical_values_L{}_".format(length)', 'signature += "_critical_values_"'),
 ("bug", "C21", E, '    os.makedirs("./data", exist_ok=True)\n', ''),
 ("bug", "C21", E, '    os.makedirs("./data", exist_ok=True)\n', '    if not os.path.exists("./data"):\n        os.mkdir("./data")\n'),
 ("bug", "C21", S, '%Y%m%d_%H%M%S', '%Y%m%d'),
 ("bug", "C21", "main.py", '    os.makedirs("./logs", exist_ok=True)\n', ''),
 ("bug", "C21", "source_py/simulation/percolation_sq_lattice_L1L2.py", 'self.signature += "L2_"', 'self.signature += "L1_"'),
 ("bug", "C21", E, '"_entropy_order_L{}_".format(length)\n    filename', '"_entropy_order_L{}".format(length)\n    filename'),
 ("bug", "C22", R, "        process.join()\n", "        process.join(60)\n"),
 ("bug", "C22", R, "    for process in all_processes:\n        process.join()\n        pass\n\ndef run_simulation_threads_v4", "    process.join()\n\ndef run_simulation_threads_v4"),
 ("bug", "C22", R, "        En_i = En_per_thread + (1 if i < remainder else 0)\n        if En_i == 0:\n            break\n        # inargs = {'length':LL, \"ensembleSize\":En, \"thread_count\":i}\n        process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,\n                                          args=(percolationClass, length, En_i, i))\n        all_processes.append(process)\n        process.start()\n\n        pass\n    for process in all_processes:\n        process.join()\n        pass\n\n\ndef run_simulations",
  "        En_i = En_per_thread + (1 if i <= remainder else 0)\n        if En_i == 0:\n            break\n        process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,\n                                          args=(percolationClass, length, En_i, i))\n        all_processes.append(process)\n        process.start()\n\n        pass\n    for process in all_processes:\n        process.join()\n        pass\n\n\ndef run_simulations"),
 ("bug", "C22", R, "    if interaction == 1:\n        percolationClass = percolation_sq_lattice_L1L2.SitePercolationL1", "    if interaction == 1:\n        percolationClass = percolation_sq_lattice_L1L2.SitePercolationL2"),
 ("bug", "C22", R, "    if interaction == 1:", "    if interaction:"),
 ("bug", "C22", S, "args=(percolationClass, length, En_i, i)", "args=(percolationClass, length, En_i, i, 17)"),
 ("bug", "C22", S, "args=(percolationClass, length, En_i, i)", "args=(percolationClass, length, i, En_i)"),
 ("bug", "C22", S, "args=(percolationClass, length, En_i, i)", "args=(percolationClass, length, En_i)"),
 ("bug", "C22", R, "        all_processes.append(process)\n        process.start()\n", "        all_processes.append(process)\n        process.start()\n        process.join()\n"),
 ("bug", "C22", R, "        i += 1\n        all_threads.append(thread)", "        all_threads.append(thread)"),
 ("bug", "C22", R, "        process.start()\n\n        pass\n    for process in all_processes:", "        process.start()\n\n        pass\n    for process in all_processes[1:]:"),
 ("bug", "C19", E, "        if data is None:\n            data = aaa\n", "        if en > 50:\n            break\n        if data is None:\n            data = aaa\n"),
 ("bug", "C19", E, "        if data is None:\n            data = aaa\n        else:\n            data += aaa\n            pass\n        pass\n", "        if data is None:\n            data = aaa\n        else:\n            data += aaa\n            pass\n        if time.time() - start_t > 100:\n            break\n        pass\n"),
 ("bug", "C19", E, "    for en in range(ensembleSize):\n        start_t = time.time()\n\n        percolation.reset()\n", "    en = -1\n    while en < ensembleSize:\n        en += 1\n        start_t = time.time()\n\n        percolation.reset()\n"),
 ("bug", "C22", R, "        all_processes.append(process)\n        process.start()\n", "        all_processes.append(process)\n        process.start()\n        if i > 3 * remainder + 60:\n            break\n"),
 # ---- behaviour kept
 ("same", "C19 C20 C21 C22", E, "    for en in range(ensembleSize):\n        start_t = time.time()\n\n        percolation.reset()\n", "    en = -1\n    while en < ensembleSize - 1:\n        en += 1\n        start_t = time.time()\n\n        percolation.reset()\n"),
 ("same", "C19 C20 C21 C22", E, "        if data is None:\n            data = aaa\n        else:\n            data += aaa\n            pass\n        pass\n        # print(\"temp \")\n        # print(aaa)\n        end_t", "        data = aaa if data is None else data + aaa\n        end_t"),
 ("same", "C19 C20 C21 C22", E, "    data /= ensembleSize  # taking average", "    data = data / ensembleSize  # taking average"),
 ("same", "C19 C20 C21 C22", E, "    head = dict()\n    head['length'] = length\n    head['L'] = length\n", "    head = {'length': length, 'L': length}\n"),
 ("same", "C19 C20 C21 C22", E, '    signature += "_entropy_order_L{}_".format(length)\n    filename = signature + current_time\n    if thread_count is not None:\n        filename += "_th{}".format(thread_count)\n        pass\n    filename += ".txt"\n',
  '    suffix = "" if thread_count is None else f"_th{thread_count}"\n    filename = f"{signature}_entropy_order_L{length}_{current_time}{suffix}.txt"\n'),
 ("same", "C19 C20 C21 C22", E, '    filename = "./data/" + filename\n    np.savetxt(filename, data,', '    filename = os.path.join("./data", filename)\n    np.savetxt(filename, data,'),
 ("same", "C19 C20 C21 C22", R, "    all_processes = []\n\n    for i in range(thread_counts):\n        En_i = En_per_thread + (1 if i < remainder else 0)\n        if En_i == 0:\n            break\n", "    all_processes = []\n\n    for i in range(thread_counts):\n        En_i = En_per_thread\n        if i < remainder:\n            En_i += 1\n        if En_i < 1:\n            continue\n"),
 ("same", "C19 C20 C21 C22", R, "    all_processes = []\n\n    for i in range(thread_counts):\n        En_i = En_per_thread + (1 if i < remainder else 0)\n        if En_i == 0:\n            break\n", "    all_processes = []\n\n    for i in range(min(thread_counts, En)):\n        En_i = En_per_thread + (1 if i < remainder else 0)\n"),
 ("same", "C19 C20 C21 C22", R, "        process.start()\n\n        pass\n    for process in all_processes:\n        process.join()\n        pass\n", "\n    for process in all_processes:\n        process.start()\n    for process in all_processes:\n        process.join()\n        pass\n"),
 ("same", "C19 C20 C21 C22", R, "args=(percolationClass, length, En_i, i))\n        all_processes.append(process)\n        process.start()\n", "kwargs=dict(percolationClass=percolationClass, length=length, ensembleSize=En_i, thread_count=i))\n        process.start()\n        all_processes.append(process)\n"),
 ("same", "C19 C20 C21 C22", E, "        critical_data.append([percolation.get_pc(),\n                              percolation.get_site_count_wrapping_cluster_pc(),\n                              percolation.get_bond_count_wrapping_cluster_pc(),\n                              ])\n        aaa", "        row = (percolation.get_pc(), percolation.get_site_count_wrapping_cluster_pc(), percolation.get_bond_count_wrapping_cluster_pc())\n        critical_data.append(row)\n        aaa"),
 ("same", "C20", "source_py/simulation/percolation_sq_lattice.py", "np.c_[pp, HH, PP_largest, PP_wraping]", "np.column_stack((pp, HH, PP_largest, PP_wraping))"),
 ("same", "C22", R, "    if interaction == 1:\n        percolationClass = percolation_sq_lattice_L1L2.SitePercolationL1\n    elif interaction == 2:\n        percolationClass = percolation_sq_lattice_L1L2.SitePercolationL2\n    else:\n        percolationClass = percolation_sq_lattice_L0.SitePercolationL0\n",
  "    percolationClass = {1: percolation_sq_lattice_L1L2.SitePercolationL1, 2: percolation_sq_lattice_L1L2.SitePercolationL2}.get(interaction, percolation_sq_lattice_L0.SitePercolationL0)\n"),
]
