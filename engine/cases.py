"""Enumerated part of the input space: box extents and flag values."""
from itertools import product


def more(base, extra):
    return base + [x for x in extra if x not in base]


def sizes(d, tier):
    """boxes for kernels that run over the whole patch"""
    th = tier == "thorough"
    if d == 1:
        s = [(n,) for n in range(1, 41)] + [(n,) for n in (64, 65, 128, 129, 300, 1030)]
        return more(s, [(n,) for n in range(41, 140)] + [(2050,), (4100,)]) if th else s
    if d == 2:
        s = list(product(range(1, 7), repeat=2)) + [(1, 130), (130, 1), (300, 1), (1, 300), (17, 18), (33, 40), (65, 4), (4, 65), (2, 129), (129, 2)]
        return more(s, list(product(range(1, 13), repeat=2)) + [(70, 66), (33, 129), (129, 33), (1030, 1), (1, 1030)]) if th else s
    s = list(product(range(1, 5), repeat=3)) + [(1, 1, 130), (1, 130, 1), (130, 1, 1), (9, 8, 7), (5, 11, 6), (1, 17, 18), (17, 1, 18), (17, 18, 1), (2, 3, 40), (40, 2, 3), (3, 40, 2)]
    return more(s, list(product(range(1, 7), repeat=3)) + [(1, 1, 520), (1, 520, 1), (520, 1, 1), (17, 18, 16), (33, 5, 6), (5, 33, 6), (5, 6, 33)]) if th else s


def small(d, tier):
    """boxes for kernels that run over a part of a boundary (many flag combinations)"""
    if tier == "thorough":
        return {1: [(n,) for n in range(1, 10)] + [(33,), (130,)],
                2: list(product(range(1, 6), repeat=2)) + [(9, 4), (4, 9), (17, 2), (2, 17), (1, 70), (70, 1)],
                3: list(product(range(1, 4), repeat=3)) + [(4, 3, 2), (5, 4, 4), (2, 5, 3), (1, 9, 2), (9, 1, 2), (2, 1, 9)]}[d]
    return {1: [(1,), (2,), (3,), (4,), (7,), (33,)],
            2: [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 5), (5, 4), (1, 9), (9, 1)],
            3: [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 3), (4, 3, 2)]}[d]


def parts(n):
    """extents of the boundary segment: all of the side, one cell, something between"""
    return sorted({n, tuple(1 for _ in n), tuple((x + 1) // 2 for x in n), tuple(max(1, x - 1) for x in n)})


def cases(k, tier):
    d = k.d
    if k.group in ("flux", "apply", "stencil"):
        for n in sizes(d, tier):
            c = {"n": n, "flags": {}}
            if k.group == "flux":
                c["gw"] = {"ugcw": (1, 4)}
            yield c
    elif k.group == "adj":
        fl = []
        names = [p for p in k.params if p in ("dir", "side", "btype", "exOrder", "intOrder", "r")]
        dom = {"dir": range(d), "side": (0, 1), "btype": (0, 1, 4), "exOrder": (1, 2), "intOrder": (1, 2), "r": (1, 2, 4)}
        for vals in product(*[dom[x] for x in names]):
            for n in small(d, tier):
                f = dict(zip(names, vals))
                for m in parts(n):
                    c = {"n": n, "m": m, "flags": f}
                    if k.cname[1] in ("adj_cf_bdryrhs",):
                        c["gw"] = {"ugcw": (1, 3)}
                    yield c
    elif k.group == "bc":
        m_ = k.cname[1]
        names = [p for p in k.params if p in ("exOrder", "face", "type", "btype")]
        dom = {"exOrder": (1, 2), "face": range(2 * d), "type": (1,) if d == 1 else (1, 2) if d == 2 else (1, 2, 3), "btype": (0, 1, 4)}
        if m_ == "set_homogenous_bc":
            dom["exOrder"] = (1, 2, 3, 4)
        if m_ == "set_corner_bc":
            dom["type"] = (2,)
            dom["btype"] = (0,)
            dom["exOrder"] = (2,)
        if m_ == "set_bc" and d == 2:
            dom["exOrder"] = (0, 1, 2)
        if d == 3:
            dom["face"] = range(12)
        for vals in product(*[dom[x] for x in names]):
            f = dict(zip(names, vals))
            t, face = f.get("type", 1), f["face"]
            if t != 1 and m_ != "set_corner_bc" and (f["btype"], f["exOrder"]) != (0, 1) and tier == "quick":
                continue
            if d == 3 and ((t == 1 and face > 5) or (t == 3 and face > 7)):
                continue
            if m_ == "set_corner_bc":
                fixed = {0: face & 1, 1: face >> 1}
            elif m_ == "set_homogenous_bc":
                fixed = {}
            elif t == 1:
                fixed = {face // 2: face % 2}
            elif d == 2:
                fixed = {0: face & 1, 1: face >> 1}
            elif t == 2:
                e = face // 4
                q = face % 4
                ax = [(0, 1), (0, 2), (1, 2)][e]
                fixed = {ax[0]: q & 1, ax[1]: q >> 1}
            else:
                fixed = {0: face & 1, 1: (face >> 1) & 1, 2: face >> 2}
            for n in small(d, tier):
                need = 3
                if m_ == "set_homogenous_bc":
                    if n[face // 2] < f["exOrder"] - 1:
                        continue
                gw = {"ugcw": (1, 3), "dgcw": (0, 2), "gcw": (1, 3)}
                for m in parts(n):
                    mm = tuple(1 if a in fixed else m[a] for a in range(d))
                    yield {"n": n, "m": mm, "flags": f, "fixed": fixed, "depth": 2, "gw": gw}
                if m_ == "set_homogenous_bc" or (m_ == "set_bc" and d == 3 and t == 1):   # where the reference clips
                    for clip in ((-1, 1), (-2, 0), (0, 2), (1, 1), (-1, -1)):
                        if n[0] % 2 == clip[0] % 2 and clip[0] == clip[1] or any(n[a] < 2 for a in range(d) if a not in fixed) and clip[0] == clip[1]:
                            continue
                        if d == 3 and tier == "quick" and sum(n) % 3 != (clip[0] + clip[1]) % 3:
                            continue
                        yield {"n": n, "m": (1,) * d, "flags": f, "fixed": fixed, "depth": 2, "gw": gw, "clip": clip}
    elif k.group == "c2f":
        th = tier == "thorough"
        if k.cname[1] == "copy":
            for axis in range(3):
                for r in product((1, 2, 3, 4, 5, 8), repeat=3) if th else ((1, 2, 3), (2, 3, 4), (4, 2, 2), (3, 4, 1), (5, 1, 2), (2, 8, 5), (1, 1, 1), (8, 5, 8)):
                    for ln in (1, 2, 3, 4, 5, 6, 9, 17):
                        for ph in range(r[axis]):
                            for o in (0, 2):
                                yield {"ratio": r, "axis": axis, "len": ln, "phase": ph, "cm": (ln + ph + o) % 3, "fm": ph % 2, "out": o,
                                       "gw": {"gcw": (o, 12)}, "flags": {"axis": axis}}
        else:
            for o in (0, 2):
                for axis in range(3):
                    yield {"ratio": (2, 2, 2), "axis": axis, "len": 1 + axis, "phase": 0, "cm": o, "fm": axis, "out": o, "gw": {"gcw": (o, 12)}, "flags": {}}
