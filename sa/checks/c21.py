"""Result file names and directories."""
import re
from .runners import *
from .c19 import RUNNERS, title, file_kind

DATEFMT = [("%Y", "%y"), ("%m", "%b", "%B", "%j"), ("%d", "%j"), ("%H", "%X", "%I"), ("%M", "%X"), ("%S", "%X", "%s")]


def run(ck):
    ck.rule("file name terms: constant pieces and holes; the holes are exactly signature, length, time stamp and (workers) worker number, any two of them separated by a "
            "constant that no digit string can imitate; the constant pieces of different kinds differ")
    ck.rule("every write is preceded, unconditionally, by the creation of its directory that tolerates an existing one")
    seen = {}
    for mod, name, kw in RUNNERS + [(RSBD, "single_realization", {})]:
        T_ = Trace(ck, mod, name, **kw)
        ws = T_.writes()
        ck.ob("%s writes its results" % title(name, kw), bool(ws), T_.where, "no file write found")
        for w in ws:
            lab = "%s, %s" % (title(name, kw), file_kind(w.name))
            k = check_name(ck, T_, lab, w, TH if "thread_count" in kw else None)
            if k is not None and "seed" not in kw:
                seen.setdefault(name, []).append((k, w))
            check_dir(ck, T_, lab, w.name, w.ev.pos, w.where, w.ev.guard)
    # without a worker number (single process)
    for mod, name in ((ENS, "write_entropy_order"), (ENS, "write_critical_values"), (SPR, "write_p_p_star")):
        kinds_of(ck, mod, name)
    kinds = {}
    for name, l in seen.items():
        for i, (k, w) in enumerate(l):
            for k2, w2 in l[i + 1:]:
                ck.ob("%s: its two files have different names" % name, k != k2, w.where, "both are named like %r" % (k,))
            kinds.setdefault(k, set()).add(content_kind(w))
    for k, cs in kinds.items():
        ck.ob("name pattern %r is used for one kind of data" % (k,), len(cs) == 1, "run_py", "used for %s" % sorted(cs))
    logging_dir(ck)
    signatures(ck)


def content_kind(w):
    hd = json_dict(w.header)
    if hd is None:
        return "?"
    if w.kind == "text":
        return "realization"
    return str(const_list(hd.get("columns")))


def pieces(t):
    return list(t.a) if t.op == "strcat" else [t]


def check_name(ck, T_, lab, w, worker):
    ps = pieces(w.name)
    holes, consts = [], []
    ok_sep = True
    prev_hole = False
    for p in ps:
        if p.op == "c" and isinstance(p.a[0], str):
            consts.append(p.a[0])
            if holes and not re.search(r"[^0-9.\-+]", p.a[0]):
                ok_sep = False
            prev_hole = False
        else:
            if prev_hole:
                ok_sep = False
            holes.append(p)
            consts.append(None)
            prev_hole = True
    kinds = [hole_kind(T_, h, worker) for h in holes]
    ck.ob("%s: name contains the simulation signature" % lab, "signature" in kinds, w.where, "name is %s" % sh(w.name, 400))
    ck.ob("%s: name contains the lattice length" % lab, "length" in kinds, w.where, "name is %s" % sh(w.name, 400))
    ck.ob("%s: name contains a time stamp to the second" % lab, stamp_ok(holes), w.where, "name is %s" % sh(w.name, 400))
    if worker is not None:
        ck.ob("%s: name contains the worker number" % lab, "worker" in kinds, w.where, "name is %s" % sh(w.name, 400))
    ck.ob("%s: the variable parts of the name are separated" % lab, ok_sep, w.where, "name is %s" % sh(w.name, 400))
    kind = [c for c in consts if c]
    word = [c for c in kind if re.search(r"[A-Za-z]{3,}", re.sub(r"^\.?/?data/", "", c)) and c not in (".txt",)]
    ck.ob("%s: name tells the kind of data" % lab, bool(word), w.where, "constant parts %s" % kind)
    return tuple(c for c in consts if c)


def hole_kind(T_, h, worker):
    x = h
    while x.op == "strof":
        if len(x.a) > 1 and x.a[1] not in ("", None) and not re.fullmatch(r"0?\d*d?", str(x.a[1])):
            return "?"
        x = x.a[0]
    if x is LL:
        return "length"
    if worker is not None and x is worker:
        return "worker"
    if x.op == "res" and x.a[1] == "get_signature" and x.a[0] in T_.live():
        return "signature"
    if x.op == "res" and x.a[1] == "strftime" or x.op == "call" and str(x.a[0]).startswith("time.strftime"):
        return "stamp"
    return "?"


def stamp_ok(holes):
    fm = ""
    for x in holes:
        while x.op == "strof":
            x = x.a[0]
        if x.op == "res" and x.a[1] == "strftime" and clock(x.a[0]):
            f = x.a[2][0]
        elif x.op == "call" and x.a[0] == "time.strftime":
            f = x.a[1]
        elif x.op == "res" and x.a[1] == "isoformat" and clock(x.a[0]):
            return True
        else:
            continue
        if f.op == "c" and isinstance(f.a[0], str):
            fm += f.a[0]
    return all(any(d in fm for d in alt) for alt in DATEFMT)


def clock(t):
    return t.op == "call" and str(t.a[0]) in NOW


def dirname(t):
    ps = pieces(t)
    out = []
    for p in ps:
        if p.op == "c" and isinstance(p.a[0], str):
            out.append(p.a[0])
        else:
            break
    s = "".join(out)
    if "/" not in s:
        return ""
    rest = ps[len(out):]
    if any(p.op == "c" and isinstance(p.a[0], str) and "/" in p.a[0] for p in rest):
        return None
    return s.rsplit("/", 1)[0]


def normdir(s):
    import posixpath
    return posixpath.normpath(s) if s else "."


def check_dir(ck, T_, lab, name, pos, where_, guard=TRUE):
    d = dirname(name) if name is not None else None
    if not ck.ob("%s: the directory part of the name is fixed" % lab, d is not None, where_, "name is %s" % sh(name, 300)):
        return
    if normdir(d) == ".":
        return
    for e in T_.events:
        if e.pos >= pos:
            break
        if made_dir(e, d) and (e.guard is TRUE or e.guard is guard):
            ck.ob("%s: directory %s exists before writing" % (lab, d), True)
            return
    ck.ob("%s: directory %s exists before writing" % (lab, d), False, where_, "no unconditional os.makedirs(%r, exist_ok=True) precedes the write" % d)


def made_dir(e, d):
    if e.kind == "ext" and e.a[0] == "os.makedirs":
        a, kw = e.a[1], dict(e.a[2])
        ex = kw.get("exist_ok") or (a[2] if len(a) > 2 else None)
        t = a[0] if a else kw.get("name")
        return t is not None and t.op == "c" and under(t.a[0], d) and (ex is TRUE)
    if e.kind == "mcall" and e.a[1] == "mkdir":
        kw = dict(e.a[3])
        r = e.a[0]
        p = r.a[1][0] if r.op in ("ext_",) and r.a[1] else (r.a[1] if r.op == "call" and len(r.a) > 1 else None)
        return isinstance(p, T) and p.op == "c" and under(p.a[0], d) and kw.get("exist_ok") is TRUE
    return False


def under(made, d):
    a, b = normdir(str(made)), normdir(d)
    return a == b or a.startswith(b + "/")


def kinds_of(ck, mod, name):
    """the writers also work without a worker number"""
    f = ck.prog.get_func(mod, name)
    names = [a.arg for a in f.node.args.args]
    need = {"current_time": mk("res", mk("call", "datetime.datetime.now"), "strftime", (C("%Y%m%d_%H%M%S"),), (), "pure", ty="any"), "data": sym("data", "any"), "ensembleSize": EN,
            "length": LL, "now": mk("call", "datetime.datetime.now"), "signature": sym("signature", "str"), "thread_count": NONE}
    if not all(n in need for n in names):
        raise Missing("parameters of %s" % name)
    ip = Interp(ck.prog)
    ip.call_func(f, [need[n] for n in names], {}, fresh_node(), St())
    ck.seen(ip)
    w = [e for e in ip.events if e.kind == "ext" and e.a[0] in ("numpy.savetxt", "open")]
    ck.ob("%s without worker number writes one file" % name, len(w) == 1 and w[0].guard is TRUE, "%s:%s" % (f.module.rel, f.qual), "%d writes" % len(w))
    for e in w:
        nm = e.a[1][0]
        hs = [p for p in pieces(nm) if not (p.op == "c")]
        txt = [show(h) for h in hs]
        ck.ob("%s without worker number: name has signature, length and time stamp" % name, any(h is need["signature"] or h.op == "strof" and h.a[0] is need["signature"] for h in hs)
              and any(h.op == "strof" and h.a[0] is LL for h in hs) and stamp_ok(hs), e.where, "name is %s" % sh(nm, 300))
        ck.ob("%s without worker number: no placeholder in the name" % name, "None" not in sh(nm, 4000), e.where, "name is %s" % sh(nm, 300))


def logging_dir(ck):
    f = ck.prog.get_func("main", "init_logging")
    ip = Interp(ck.prog)
    ip.call_func(f, [], {}, fresh_node(), St())
    ck.seen(ip)
    for i, e in enumerate(ip.events):
        e.pos = i
    logs = [e for e in ip.events if e.kind == "ext" and e.a[0] in ("logging.basicConfig", "logging.FileHandler", "open")]
    ck.ob("init_logging configures a log file", bool(logs), "main.py:init_logging", "no logging configuration found")

    class D:
        events = ip.events
    for e in logs:
        kw = dict(e.a[2])
        nm = kw.get("filename") or (e.a[1][0] if e.a[1] else None)
        if nm is not None:
            check_dir(ck, D, "init_logging", nm, e.pos, e.where)


def signatures(ck):
    """different classes have different signatures, at construction and after custom site lists"""
    sig = {}
    for kind in ("L0", "L1", "L2", "SP"):
        reg = ck.regime(kind)
        P = Probe(reg, reg.ctor)
        f = reg.K.find("get_signature")
        if f is None:
            raise Missing("%s.get_signature" % reg.K.name)
        sig[kind] = (P.call(reg.me, "get_signature"), "%s:%s" % (f.module.rel, f.qual))
    ks = list(sig)
    for i, a in enumerate(ks):
        ck.ob("signature of %s is a fixed text" % a, sig[a][0].op == "c" and isinstance(sig[a][0].a[0], str) and sig[a][0].a[0] != "", sig[a][1], "it is %s" % sh(sig[a][0]))
        for b in ks[i + 1:]:
            x, y = sig[a][0], sig[b][0]
            ck.ob("signatures of %s and %s differ" % (a, b), x.op == "c" and y.op == "c" and x is not y, sig[a][1], "both are %s" % sh(x))
