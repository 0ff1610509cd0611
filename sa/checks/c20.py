"""Headers of the data files: JSON, length, ensemble size, one name per column in order, names match the provenance of the column."""
import re
from .runners import *
from .c19 import RUNNERS, title, from_run, file_kind

# quantity -> getter that produces it
GETTER = {"get_pc": "pc", "get_site_count_wrapping_cluster_pc": "sites_pc", "get_bond_count_wrapping_cluster_pc": "bonds_pc", "get_shortest_path_p": "p*"}
CURVES = ["p", "H", "P1", "P2"]      # columns of the combined data array (their meaning is decided here too, see curves())
JSONKEYS = {"site_id_sequence": "get_site_id_sequence", "site_index_sequence": "get_index_sequence", "pc": "get_pc",
            "site_count_wrapping_cluster_pc": "get_site_count_wrapping_cluster_pc", "bond_count_wrapping_cluster_pc": "get_bond_count_wrapping_cluster_pc",
            "entropy_list": "get_entropy_array", "order_largest_list": "get_order_param_largest_array", "order_wrapping_list": "get_order_param_wrapping_array"}


def describes(q, text):
    """does a column name plus its description identify quantity q"""
    t = text.lower()
    crit = bool(re.search(r"\bpc\b|critical", t))
    short = "shortest" in t or "p*" in t
    w = "wrapping" in t
    big = "largest" in t
    H = bool(re.search(r"\bh\b|entropy", t))
    if q == "p":
        return not (crit or short or w or big or H) and bool(re.search(r"\bp\b|occup", t))
    if q == "H":
        return H and not (w or big or crit or short)
    if q == "P1":
        return big and not w and not H
    if q == "P2":
        return w and not big and not H
    if q == "pc":
        return crit and not short and not ("count" in t)
    if q == "sites_pc":
        return "site" in t and "bond" not in t and w and "count" in t
    if q == "bonds_pc":
        return "bond" in t and "site" not in t and w and "count" in t
    if q == "p*":
        return short
    return False


def run(ck):
    ck.rule("each savetxt header is the JSON text of a dictionary whose length/ensemble entries are the runner's own values and whose column list has one name per "
            "data column; name and description of column k identify the quantity whose provenance column k has")
    curves(ck)
    for mod, name, kw in RUNNERS:
        T_ = Trace(ck, mod, name, **kw)
        for w in T_.writes():
            lab = "%s, %s" % (title(name, kw), file_kind(w.name))
            hd = json_dict(w.header)
            if not ck.ob("%s: header is JSON" % lab, hd is not None, w.where, "header is %s" % sh(w.header)):
                continue
            meta(ck, lab, w, hd, EN)
            cols = provenance(T_, w)
            if not ck.ob("%s: provenance of the columns is known" % lab, cols is not None, w.where, "table is %s" % sh(w.data, 300)):
                continue
            names(ck, lab, w, hd, cols)
    T_ = Trace(ck, RSBD, "single_realization")
    ws = T_.writes()
    ck.ob("single_realization writes one file", len(ws) == 1, T_.where, "%d writes" % len(ws))
    for w in ws:
        hd = json_dict(w.header)
        if not ck.ob("single_realization: the file is JSON", hd is not None, w.where, "text is %s" % sh(w.header)):
            continue
        meta(ck, "single_realization", w, hd, None)
        for k, g in JSONKEYS.items():
            v = hd.get(k)
            ck.ob("single_realization: %s holds the result of %s" % (k, g), v is not None and v.op == "res" and v.a[0] in T_.live() and v.a[1] == g, w.where,
                  "it is %s" % sh(v))
        cols, desc = const_list(hd.get("columns")), const_list(hd.get("desc"))
        texts(ck, "single_realization", w, cols, desc, CURVES)


def meta(ck, lab, w, hd, count):
    for keys, want, what in ((("length", "L"), LL, "lattice length"), (("ensemble_size", "En"), count, "ensemble size")):
        if want is None:
            continue
        has_ = [k for k in keys if k in hd]
        ck.ob("%s: header gives the %s" % (lab, what), bool(has_) and all(hd[k] is want for k in has_), w.where, "; ".join("%s=%s" % (k, sh(hd[k])) for k in has_) or "no such key")


def provenance(T_, w):
    m = mean_form(w.data)
    if m is not None:
        n, i, e, d = m
        g = from_run(T_, e, i)
        return CURVES if g is not None and g.a[1] == "get_data_array" else None
    rows = rows_of(w.data)
    if rows is None:
        return None
    n, i, cols = rows
    out = []
    for v in cols:
        g = from_run(T_, v, i)
        out.append(GETTER.get(g.a[1], g.a[1]) if g is not None else "?")
    return out


def names(ck, lab, w, hd, cols):
    texts(ck, lab, w, const_list(hd.get("columns")), const_list(hd.get("desc")) if "desc" in hd else [], cols)


def texts(ck, lab, w, names_, desc, cols):
    if not ck.ob("%s: header lists the columns" % lab, names_ is not None and desc is not None, w.where, "columns entry is not a list of names"):
        return
    ck.ob("%s: one name per column" % lab, len(names_) == len(cols) and len(set(names_)) == len(names_), w.where, "%s for columns %s" % (names_, cols))
    for k, (nm, q) in enumerate(zip(names_, cols)):
        ds = [d.split("=", 1)[1] for d in desc if "=" in d and d.split("=", 1)[0].strip() == nm]
        text = nm + " = " + " ".join(ds)
        ck.ob("%s: column %d is described as what it holds (%s)" % (lab, k, q), len(ds) <= 1 and describes(q, text), w.where, "described as %r" % text)
    for d in desc:
        if "=" in d:
            ck.ob("%s: description %r belongs to a column" % (lab, d.split("=", 1)[0].strip()), d.split("=", 1)[0].strip() in names_, w.where, "columns are %s" % names_)


def curves(ck):
    """columns of get_data_array are the four curves in the order p, H, P1, P2"""
    for kind in ("L0", "L1", "L2"):
        reg = ck.regime(kind)
        columns_of(ck, reg, kind)


def columns_of(ck, reg, kind):
    from ..npnorm import columns
    f = reg.K.find("get_data_array")
    if f is None:
        raise Missing("%s.get_data_array" % reg.K.name)
    st = reg.ctor.copy()
    P = Probe(reg, st)
    # give every list attribute of the object a distinct symbolic content
    seen = {}
    for (o, attr), v in list(P.st.cells.items()):
        if o is reg.me and cls_of(v) == "list" and attr != "$c":
            s = mk("sym", "content:" + attr, ty="seq")
            P.st.cells[(v, "$c")] = s
            seen[attr] = s
    r = P.call(reg.me, "get_data_array")
    cols = columns(r, P)
    w = "%s:%s" % (f.module.rel, f.qual)
    if not ck.ob("%s.get_data_array is a table of columns" % kind, cols is not None, w, "it returns %s" % sh(r, 300)):
        return
    want = []
    for g in ("get_occupation_prob_array", "get_entropy_array", "get_order_param_largest_array", "get_order_param_wrapping_array"):
        if reg.K.find(g) is None:
            want.append(None)
            continue
        want.append(P.items(P.call(reg.me, g)))
    for k, (q, g) in enumerate(zip(CURVES, want)):
        ck.ob("%s.get_data_array column %d is the %s curve" % (kind, k, q), k < len(cols) and g is not None and cols[k] is g, w,
              "column is %s, getter returns %s" % (sh(cols[k] if k < len(cols) else None), sh(g)))
    ck.ob("%s.get_data_array has four columns" % kind, len(cols) == 4, w, "%d columns" % len(cols))
