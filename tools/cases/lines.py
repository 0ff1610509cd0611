"""Rewrites and mistakes of the line helpers."""
F = "source_py/analyze/lines.py"
S = open("/repo/" + F).read()
FI = S[S.index("def find_intersection("):S.index("def find_intersection_and_plot(")]
FP = S[S.index("def find_intersection_and_plot("):]
DV = S[S.index("def draw_vertical_line_at("):S.index("def draw_horizontal_line_at(")]
DH = S[S.index("def draw_horizontal_line_at("):S.index("def find_intersection(")]
HEAD = '''    if col is None:
        x1 = line1
        x2 = line2
    else:
        x1 = line1[:, col]
        x2 = line2[:, col]
        pass
'''
CASES = [
 ("same", "C23 C27", F, FI, FI.replace("    dx = np.diff(np.sign(difference))\n    idx = np.argmax(np.abs(dx))\n    return idx\n", "    return np.argmax(np.abs(np.diff(np.sign(difference))))\n")),
 ("same", "C23 C27", F, FI, FI.replace("np.argmax(np.abs(dx))", "np.abs(dx).argmax()")),
 ("same", "C23 C27", F, [(F, FI, '''def _columns(line1, line2, col):
    if col is not None:
        return line1[:, col], line2[:, col]
    return line1, line2


''' + FI.replace(HEAD, "    x1, x2 = _columns(line1, line2, col)\n")), (F, FP, FP.replace(HEAD, "    x1, x2 = _columns(line1, line2, col)\n"))]),
 ("same", "C23 C27", F, FI, FI.replace("    dx = np.diff(np.sign(difference))\n", "    signs = np.sign(difference)\n    dx = signs[1:] - signs[:-1]\n")),
 ("same", "C23 C27", F, FI, FI.replace("difference = x1 - x2", "difference = np.subtract(x1, x2)")),
 ("same", "C23 C27", F, FI, FI.replace("difference = x1 - x2", "difference = x2 - x1")),
 ("same", "C23 C27", F, DV, DV.replace("    xx = xval * np.ones(size)\n", "    xx = np.full(size, xval, dtype=float)\n")),
 ("same", "C23 C27", F, DV, DV.replace("    yy = np.linspace(yrange[0], yrange[1], size)\n", "    low, high = yrange\n    yy = np.linspace(low, high, num=size)\n")),
 ("same", "C23 C27", F, DH, DH.replace("    yy = yval * np.ones(size)\n    return xx, yy\n", "    return xx, np.ones(size) * yval\n")),
 ("same", "C23 C27", F, DH, DH[:DH.index("    xx = np.lin")] + "    yy, xx = draw_vertical_line_at(yval, yrange=xrange, size=size)\n    return xx, yy\n\n\n"),
 ("same", "C23 C27", F, FP, FP.replace("    sz = difference.shape[0]\n    ii = np.arange(sz)\n", "    ii = np.arange(len(difference))\n")),
 ("same", "C23 C27", F, FP, FP.replace("    idx = np.argmax(np.abs(dx))\n    return idx", "    return find_intersection(line1, line2, col)")),
 ("same", "C23 C27", F, DV, DV.replace("    yy = np.linspace(yrange[0], yrange[1], size)\n    xx = xval * np.ones(size)\n", "    yy = np.linspace(*yrange, size)\n    xx = np.repeat(xval, size)\n")),
 ("same", "C23 C27", F, DV, DV.replace("    xx = xval * np.ones(size)\n", "    xx = np.zeros(size) + xval\n")),
 ("same", "C23 C27", F, DV, DV.replace("    xx = xval * np.ones(size)\n", "    xx = np.full_like(yy, xval)\n")),
 ("bug", "C23", F, FI, FI.replace("np.abs(dx)", "dx")),
 ("bug", "C23", F, FI, FI.replace("line2[:, col]", "line2[:, 0]")),
 ("bug", "C23", F, FI, FI.replace("np.diff(np.sign(difference))", "np.diff(difference)")),
 ("bug", "C23", F, DH, DH.replace("np.linspace(xrange[0], xrange[1], size)", "np.linspace(xrange[0], xrange[1], size, endpoint=False)")),
 ("bug", "C23", F, DV, DV.replace("np.ones(size)", "np.ones(100)")),
 ("bug", "C23", F, FP, FP.replace("    return idx", "    return idx + 1")),
 ("bug", "C23", F, FI, FI.replace("    dx = np.diff(np.sign(difference))\n", "    signs = np.sign(difference)\n    dx = signs[1:] - signs[0]\n")),
]
for k, c in enumerate(CASES):
    if isinstance(c[3], list):
        CASES[k] = (c[0], c[1], c[3])
