"""C15: the image pairs selected for matching are those that the configuration asks for."""

import json
import math
import os

import numpy as np
from c08_features import make_dataset
from gen import rng, rodrigues, seeds, st
from harness import Check, Skip, check
from opensfm import feature_loader, features, geo, pairs_selection as ps

CHECK = Check("C15")
CHECK.assumptions = ["geodetic conversion (C01), word histograms and distances (C08)"]
REF = geo.TopocentricConverter(47.3, 8.5, 0.0)
HUGE = 1e18


def names_of(n, g):
    """Image names whose order has nothing to do with the rest."""
    return [f"im{v:03d}.jpg" for v in g.permutation(1000)[:n]]


def exif_at(x, y, alt=None):
    lat, lon, _ = REF.to_lla(x, y, 0.0)
    gps = {"latitude": lat, "longitude": REF.lon if x == 0 else lon}
    if alt is not None:
        gps["altitude"] = alt
    return {"gps": gps}


def position(e):
    return np.array(REF.to_topocentric(e["gps"]["latitude"], e["gps"]["longitude"], 0.0))


def pair(a, b):
    return (a, b) if a < b else (b, a)


def split(g, names, how):
    """Images to match and images to match them to."""
    n = len(names)
    if how == "all":
        return list(names), list(names)
    if how == "apart":
        k = int(g.integers(1, n)) if n > 1 else 1
        return list(names[:k]), list(names[k:])
    a, b = g.random(n) < 0.6, g.random(n) < 0.6
    return [x for x, y in zip(names, a) if y] or [names[0]], [x for x, y in zip(names, b) if y] or [names[-1]]


def nearest(refs, cands, dist, k, limit, tol):
    """Pairs that have to be there and pairs that can be, by distance."""
    must, may = set(), set()
    for a in refs:
        d = {b: dist(a, b) for b in cands if b != a}
        if not d:
            continue
        s = sorted(d.values())
        kth = s[min(k, len(s)) - 1]
        for b, v in d.items():
            closer = sum(x < v + tol(v) for x in d.values())  # with itself
            if closer <= k and v < limit - tol(limit):
                must.add(pair(a, b))
            if v <= kth + tol(kth) and v <= limit + tol(limit):
                may.add(pair(a, b))
    return must, may


def between(got, must, may, *what):
    got = set(got)
    check(must <= got, *what, "misses", sorted(must - got)[:4], "of", len(must))
    check(got <= may, *what, "has", sorted(got - may)[:4], "that it should not")


def layout(g, n, how, size):
    if how == "line":
        return np.outer(g.uniform(-1, 1, n), [0.6, 0.8]) * size
    if how == "grid":
        return np.array([[i % 4, i // 4] for i in range(n)]) * size / 4
    if how == "clusters":
        return g.choice([-1, 1], (n, 2)) * size + g.normal(size=(n, 2)) * size * 0.05
    p = g.uniform(-1, 1, (n, 2)) * size
    if how == "meridian":
        p[:, 0] = 0
    if how == "one":
        p[:] = p[0]
    if how == "same" and n > 2:
        p[g.integers(n, size=n // 2)] = p[0]
    return p


WHERE = st.sampled_from(["spread", "spread", "line", "grid", "clusters", "same", "meridian", "one"])
HOW = st.sampled_from(["all", "apart", "apart", "mixed"])
base = {"seed": seeds, "n": st.sampled_from([2, 3, 5, 9, 20]), "where": WHERE, "split": HOW, "size": st.sampled_from([50.0, 300.0, 5000.0]), "off": st.sampled_from([0.0, 0.0, 500.0])}
tol = lambda v: 1e-6 * abs(v) + 1e-6 if v < 1e9 else 0.0


@CHECK.sub("distance", st.fixed_dictionaries({**base, "k": st.sampled_from([0, 1, 2, 4, 50]), "limit": st.sampled_from([0.0, 40.0, 150.0, 1e5]), "missing": st.sampled_from([0, 0, 0, 1]),
                                              "look": st.sampled_from([None, None, None, "away"])}),
           quick=1500, rule="the limits leave some pairs out")
def distance(case, t):
    """Images are paired with the closest ones by GPS, whatever their altitude."""
    g = rng(case["seed"])
    names = names_of(case["n"], g)
    xy = layout(g, case["n"], case["where"], case["size"]) + case["off"]
    exifs = {n: exif_at(*p, alt=float(g.uniform(0, 3000))) for n, p in zip(names, xy)}
    refs, cands = split(g, names, case["split"])
    if not cands:
        return
    lost = case["missing"] and len(names) > 2
    if lost:
        exifs[refs[0]] = [{}, {"gps": {}}, {"gps": {"latitude": 3.0}}][g.integers(3)]
    k, limit = case["k"] or 10**6, case["limit"] or HUGE
    pos = {n: position(e) for n, e in exifs.items() if "longitude" in e.get("gps", {})}
    if case["look"]:
        # tilted and looking apart: they are compared where they stand
        for n, p in zip(names, xy):
            if n in pos:
                exifs[n]["opk"] = opk_of(0.001 * (p - xy.mean(axis=0)))
    got = ps.match_candidates_by_distance(list(refs), list(cands), exifs, REF, case["k"], case["limit"])
    if lost or (case["k"] == 0 and case["limit"] == 0):
        check(got == set(), "pairs without", "GPS" if lost else "anything asked for", sorted(got)[:3])
        return
    if case["look"]:
        d = np.array([0.001 * (p - xy.mean(axis=0)) for p in xy])
        if np.ptp(xy, axis=0).max() < 1:
            return
        pos = {n: pos[n] + np.append(q, 0) for n, q in zip(names, d)}
    must, may = nearest(refs, cands, lambda a, b: float(np.linalg.norm(pos[a] - pos[b])), k, limit, tol if not case["look"] else lambda v: 1e-3 * abs(v) + 1e-4)
    between(got, must, may, "selection by distance")
    everything = {pair(a, b) for a in refs for b in cands if a != b}
    t.nontrivial(0 < len(got) < len(everything))
    t.label(case["split"], "neighbors" if case["k"] else "no neighbors", "limit" if case["limit"] else "no limit")


def opk_of(d, kappa=0.3):
    """Angles of a camera looking along (dx, dy, -1)."""
    omega = math.atan(d[1])
    phi = -math.atan(d[0] * math.cos(omega))
    return {"omega": math.degrees(omega), "phi": math.degrees(phi), "kappa": math.degrees(kappa)}


@CHECK.sub("looking", st.fixed_dictionaries({
    "seed": seeds, "n": st.sampled_from([2, 3, 5, 9]), "split": HOW, "k": st.sampled_from([0, 1, 2, 3]), "limit": st.sampled_from([0.0, 60.0, 200.0]), "kind": st.sampled_from(["general", "same", "aim", "down"]),
    "height": st.sampled_from([50.0, 400.0, 2000.0]), "missing": st.sampled_from([0, 0, 0, 0, 1])}), quick=1200, rule="the images look to other places than below")
def looking(case, t):
    """Images with known orientation are paired by the ground they look at."""
    g = rng(case["seed"])
    refs, cands = split(g, names_of(case["n"], g), case["split"])
    names = list(dict.fromkeys(refs + cands))
    n = len(names)
    if not cands or (case["k"] == 0 and case["limit"] == 0):
        return
    size = 150.0
    h = case["height"]
    a = g.uniform(-1, 1, (2, 2)) * size
    if case["kind"] == "aim":
        # all look at one point of the ground
        xy = g.uniform(-1, 1, (n, 2)) * size
        d = (g.uniform(-1, 1, 2) * size - xy) / h
        z = h
    elif case["kind"] in ("same", "down"):
        xy = g.uniform(-1, 1, (n, 2)) * size
        d = np.tile(g.uniform(-0.5, 0.5, 2) if case["kind"] == "same" else np.zeros(2), (n, 1))
        z = 0.0  # any
    else:
        # the box of the ground points is that of the first two images at every height
        dd = g.uniform(-0.5, 0.5, (2, 2)) * size / h
        w = np.concatenate([[[0, 0], [1, 1]], g.random((n, 2))])[:n]
        xy = a[0] + w * (a[1] - a[0])
        d = dd[0] + w * (dd[1] - dd[0])
        dx, dv = a[1] - a[0], dd[1] - dd[0]
        if np.abs(dv).max() < 1e-3 / h * size or np.abs(dx).max() < 1:
            raise Skip("no box")
        z = -float(dx @ dv) / float(dv @ dv)
        if abs(z) < 1e-2 or abs(z) > 1e5:
            raise Skip("at the limit")
        z = z if z >= 0 else 1.0
        if n < 2:
            z = 1.0
    exifs = {m: dict(exif_at(*p), opk=opk_of(q, float(g.uniform(-3, 3)))) for m, p, q in zip(names, xy, d)}
    lost = case["missing"] and n > 2
    if lost:
        exifs[refs[0]] = {"opk": exifs[refs[0]]["opk"]}
    got = ps.match_candidates_by_distance(list(refs), list(cands), exifs, REF, case["k"], case["limit"])
    if lost:
        check(got == set(), "pairs without GPS", got)
        return
    pos = {m: np.append(position(exifs[m])[:2] + z * q, 0.0) for m, q in zip(names, d)}
    eps = 1e-2 + 1e-5 * z
    k, limit = case["k"] or 10**6, case["limit"] or HUGE
    must, may = nearest(refs, cands, lambda a, b: float(np.linalg.norm(pos[a] - pos[b])), k, limit, lambda v: 1e-3 * abs(v) + eps if v < 1e9 else 0.0)
    between(got, must, may, "selection by what is seen")
    t.nontrivial(case["kind"] in ("general", "aim") and z != 1.0)
    t.label(case["kind"])


def delaunay(P):
    """Edges of triangles whose circle is empty, by brute force; all have a margin."""
    n = len(P)
    edges = set()
    for i in range(n):
        for j in range(i):
            for k in range(j):
                a, b, c = P[i], P[j], P[k]
                D = 2 * ((b - a)[0] * (c - a)[1] - (b - a)[1] * (c - a)[0])
                size = max(np.linalg.norm(a - b), np.linalg.norm(b - c), np.linalg.norm(a - c))
                if abs(D) < 1e-3 * size**2:
                    continue
                u, v = b - a, c - a
                o = a + np.array([v[1] * (u @ u) - u[1] * (v @ v), u[0] * (v @ v) - v[0] * (u @ u)]) / D
                r = np.linalg.norm(a - o)
                if all(np.linalg.norm(p - o) > r * (1 + 1e-5) for q, p in enumerate(P) if q not in (i, j, k)):
                    edges |= {(j, i), (k, j), (k, i)}
    return edges


@CHECK.sub("graph", st.fixed_dictionaries({**base, "n": st.sampled_from([2, 3, 4, 5, 7, 10]), "rounds": st.sampled_from([0, 1, 2, 5])}), quick=700, rule="a triangulation with more images than three")
def graph(case, t):
    """The neighbors in the triangulation of the GPS positions are paired."""
    g = rng(case["seed"])
    names = names_of(case["n"], g)
    xy = layout(g, case["n"], case["where"], case["size"]) + case["off"]
    exifs = {n: exif_at(*p, alt=float(g.uniform(0, 3000))) for n, p in zip(names, xy)}
    refs, cands = split(g, names, case["split"])
    got = ps.match_candidates_by_graph(list(refs), list(cands), exifs, REF, case["rounds"])
    everything = {pair(a, b) for a in refs for b in cands if a != b}
    check(set(got) <= everything, "pairs that nobody asked for", set(got) - everything)
    if len(cands) < 4 or case["rounds"] < 1:
        check(not got, "pairs although there are too few images or no rounds", got)
        return
    used = sorted(set(refs) | set(cands))
    pts = [position(exifs[n])[:2] for n in used]
    want = {pair(used[i], used[j]) for i, j in delaunay(pts)} & everything
    D = np.linalg.norm(np.array(pts)[:, None] - np.array(pts)[None], axis=2) + np.diag([math.inf] * len(used))
    flat = np.linalg.svd(np.array(pts) - np.mean(pts, axis=0), compute_uv=False)
    if case["split"] == "all":
        check({a for p in got for a in p} == set(used), "an image is left alone")
    for i, row in enumerate(D):
        if flat[1] < 1e-2 * flat[0]:
            break  # rounding decides about neighbors on a line
        # the closest image, if there is just one and no image is where this one is
        order = row.argsort()
        if row[order[0]] > 1e-3 and row[order[1]] > row[order[0]] * 1.01 and D[order[0]].min() > 1e-3:
            want |= {pair(used[i], used[order[0]])} & everything
    check(want <= set(got), "neighbors are missing", sorted(want - set(got))[:4])
    t.nontrivial(len(want) > 2)
    t.label(case["where"])


@CHECK.sub("sequence", st.fixed_dictionaries({**base, "k": st.sampled_from([0, 1, 2, 3, 5, 50]), "order": st.sampled_from([0, 1, 2, 3, 4, 7])}), quick=1000, rule="some images are too far in time or order")
def sequence(case, t):
    """Images are paired with the closest ones in time, and with their neighbors in the sequence."""
    g = rng(case["seed"])
    names = names_of(case["n"], g)
    exifs = {n: {"capture_time": float(v)} for n, v in zip(names, g.uniform(0, 1000, len(names)) if g.random() < 0.7 else g.integers(0, 5, len(names)) * 10.0)}
    refs, cands = split(g, names, case["split"])
    if not cands:
        return
    got = ps.match_candidates_by_time(list(refs), list(cands), exifs, case["k"])
    everything = {pair(a, b) for a in refs for b in cands if a != b}
    if case["k"] == 0:
        check(got == set(), "pairs by time", got)
    else:
        must, may = nearest(refs, cands, lambda a, b: abs(exifs[a]["capture_time"] - exifs[b]["capture_time"]), case["k"], HUGE, lambda v: 1e-9)
        between(got, must, may, "selection by time")
    t.nontrivial(0 < len(got) < len(everything))
    seq = sorted(names)
    got = ps.match_candidates_by_order(list(seq), list(seq), case["order"])
    n = (case["order"] + 1) // 2
    want = {pair(a, b) for i, a in enumerate(seq) for j, b in enumerate(seq) if 0 < abs(i - j) <= n}
    check(set(got) == want, "selection by order", sorted(set(got) ^ want)[:4])


def dataset_of(t, g, names, exifs, cfg):
    root = t.tmpdir()
    words = g.integers(0, 256, (12, 4)).astype(np.float32)
    np.savez(os.path.join(root, "words.npz"), words=words, frequencies=np.arange(1.0, 13.0))
    cfg = dict(cfg, bow_file=os.path.join(root, "words.npz"), vlad_file=os.path.join(root, "words.npz"), processes=1)
    d = make_dataset(root, cfg, names, {})
    for n in names:
        d.save_exif(n, exifs[n])
    return d, words, np.log(78.0 / np.arange(1.0, 13.0))


def appearance(d, g, names, W, weights):
    """Features of every image, and the distances between images by words and by descriptors."""
    bow, vlad = {}, {}
    for n in names:
        k = int(g.choice([12, 15, 20, 8, 9])) if g.random() < 0.3 else 15
        X = g.integers(0, 256, (k, 4)).astype(np.float32)
        word = ((X[:, None] - W[None]) ** 2).sum(axis=2).argsort(axis=1)
        d.save_features(n, features.FeaturesData(np.c_[g.uniform(-0.4, 0.4, (k, 2)), np.ones((k, 2))], X, np.zeros((k, 3)), None))
        d.save_words(n, word[:, :3])
        if k > 8:
            h = np.bincount(word[:, 0], minlength=len(W)) * weights
            bow[n] = h / h.sum()
        v = np.zeros(W.shape)
        for x, w in zip(X, word[:, 0]):
            v[w] += x - W[w]
        v = np.sign(v.ravel()) * np.sqrt(np.abs(v.ravel()))
        vlad[n] = v / np.linalg.norm(v)
    return bow, vlad


def by_appearance(refs, cands, hist, order, exifs, k, other, pre):
    """Pairs by appearance among the preempted candidates (must, may)."""
    must, may = set(), set()
    for a in refs:
        if a not in hist:
            continue
        groups = [[b for b in pre[a] if b != a and b in hist]]
        if other:
            groups = [[b for b in groups[0] if (exifs[b]["camera"] == exifs[a]["camera"]) == v] for v in (True, False)]
        for c in groups:
            d = {b: float(np.linalg.norm(hist[a] - hist[b], ord=order)) for b in c}
            s = sorted(d.values())
            for b, v in d.items():
                if sum(x < v + 1e-5 for x in s) <= k:
                    must.add(pair(a, b))
                if v <= s[min(k, len(s)) - 1] + 1e-5:
                    may.add(pair(a, b))
    return must, may


@CHECK.sub("appearance", st.fixed_dictionaries({
    "seed": seeds, "n": st.sampled_from([3, 6, 10]), "split": HOW, "k": st.sampled_from([0, 1, 2, 4]), "other": st.booleans(), "near": st.sampled_from([0, 0, 2, 5]), "limit": st.sampled_from([0.0, 0.0, 120.0]),
    "gps": st.sampled_from([True, True, False])}), quick=250, rule="some candidates are left out")
def by_looks(case, t):
    """Images are paired with the most similar ones, among those that are near if so asked."""
    g = rng(case["seed"])
    names = names_of(case["n"], g)
    xy = g.uniform(-150, 150, (case["n"], 2))
    exifs = {n: dict(exif_at(*p), camera=f"c{g.integers(2)}") for n, p in zip(names, xy)}
    if not case["gps"]:
        exifs[names[0]].pop("gps")
    d, W, weights = dataset_of(t, g, names, exifs, {})
    bow, vlad = appearance(d, g, names, W, weights)
    feature_loader.instance.clear_cache()
    refs, cands = split(g, names, case["split"])
    if not cands:
        return
    pre = {a: [b for b in cands if b != a] for a in refs}
    lost = any("gps" not in exifs[n] for n in refs + cands)
    if case["near"] or case["limit"]:
        if lost:
            pre = {a: [] for a in refs}
        else:
            pos = {n: position(exifs[n]) for n in refs + cands}
            near = [nearest(refs, cands, lambda a, b: float(np.linalg.norm(pos[a] - pos[b])), case["near"] or 10**6, case["limit"] or HUGE, tol)]
            if near[0][0] != near[0][1]:
                raise Skip("a tie")
            # pairs of images go both ways
            pre = {a: [b for b in names if pair(a, b) in near[0][0]] for a in refs}
    got = ps.match_candidates_with_bow(d, list(refs), list(cands), exifs, REF, case["k"], case["limit"], case["near"], case["other"])
    if not case["k"]:
        check(not got, "pairs although none were asked for", got)
    else:
        must, may = by_appearance(refs, cands, bow, 1, exifs, case["k"], case["other"], pre)
        between(got, must, may, "selection by words")
        for (a, b), v in got.items():
            check(abs(v - np.abs(bow[a] - bow[b]).sum()) < 1e-6, "distance of", a, b, v)
        t.nontrivial(len(got) < sum(len(v) for v in pre.values()))
    if (case["near"] or case["limit"]) and not any(pre.values()):
        pre = {a: [b for b in cands if b != a] for a in refs}
    known = {n: vlad[n].astype(np.float32) for n in names if g.random() < 0.3}
    hist = dict(known)
    from opensfm import vlad as vladm

    vladm.instance.clear_cache()
    got = ps.match_candidates_with_vlad(d, list(refs), list(cands), exifs, REF, case["k"], case["limit"], case["near"], case["other"], hist)
    if not case["k"]:
        check(not got, "pairs although none were asked for", got)
        return
    must, may = by_appearance(refs, cands, vlad, 2, exifs, case["k"], case["other"], pre)
    between(got, must, may, "selection by descriptors")
    t.label("other cameras" if case["other"] else "any camera", "near" if case["near"] or case["limit"] else "anywhere")


@CHECK.sub("selection", st.fixed_dictionaries({
    **base, "n": st.sampled_from([2, 3, 6, 12]), "missing": st.sampled_from([0, 0, 1]), "limit": st.sampled_from([0, 0, 60.0]), "near": st.sampled_from([0, 0, 2]), "time": st.sampled_from([0, 0, 3]),
    "order": st.sampled_from([0, 0, 2]), "rounds": st.sampled_from([0, 0, 1]), "vlad": st.sampled_from([0, 0, 2]), "bow": st.sampled_from([0, 0, 2]), "override": st.booleans()}),
    quick=400, rule="several ways of selecting at once")
def selection(case, t):
    """The pairs are those of all ways that are asked for, each once, and all pairs when none is."""
    g = rng(case["seed"])
    names = names_of(case["n"], g)
    xy = layout(g, case["n"], case["where"], case["size"])
    exifs = {n: dict(exif_at(*p), capture_time=float(v), camera="c") for n, p, v in zip(names, xy, g.uniform(0, 100, len(names)))}
    if case["missing"]:
        exifs[names[0]]["gps"] = {}
    asked = {"matching_gps_distance": case["limit"], "matching_gps_neighbors": case["near"], "matching_graph_rounds": case["rounds"], "matching_time_neighbors": case["time"],
             "matching_order_neighbors": case["order"], "matching_bow_neighbors": case["bow"], "matching_vlad_neighbors": case["vlad"]}
    other = {k: 1 for k in asked}
    d, W, weights = dataset_of(t, g, names, exifs, other if case["override"] else asked)
    bow, vlad = appearance(d, g, names, W, weights)
    feature_loader.instance.clear_cache()
    from opensfm import vlad as vladm

    vladm.instance.clear_cache()
    refs, cands = split(g, names, "all" if case["order"] else case["split"])
    if not cands:
        return
    if case["order"]:
        refs, cands = sorted(refs), sorted(cands)
    used = {n: exifs[n] for n in refs + cands}
    pairs, report = ps.match_candidates_from_metadata(list(refs), list(cands), used, d, asked if case["override"] else {})
    pairs = [tuple(p) for p in pairs]
    norm = [pair(*p) for p in pairs]
    check(len(set(norm)) == len(norm), "a pair is there twice")
    check(all(a in refs for a, b in pairs), "pairs do not start with an image to match")
    everything = {pair(a, b) for a in refs for b in cands if a != b}
    check(set(norm) <= everything, "pairs that nobody asked for")
    gps = all("longitude" in e["gps"] for e in used.values())
    geo_ = gps and (case["limit"] or case["near"])
    rounds = case["rounds"] if gps else 0
    if not (geo_ or rounds or case["time"] or case["order"] or case["bow"] or case["vlad"]):
        check(set(norm) == everything, "nothing is asked for, and some pairs are missing", len(norm), len(everything))
        check(sum(v for v in report.values()) == 0, report)
        return
    must, may, count = set(), set(), {}

    def add(key, m):
        must.update(m[0]), may.update(m[1])
        count[key] = (len(m[0]), len(m[1]))

    ref = d.load_reference()
    pos = {n: np.array(ref.to_topocentric(e["gps"]["latitude"], e["gps"]["longitude"], 0.0)) for n, e in used.items() if "longitude" in e["gps"]}
    if geo_:
        add("distance", nearest(refs, cands, lambda a, b: float(np.linalg.norm(pos[a] - pos[b])), case["near"] or 10**6, case["limit"] or HUGE, lambda v: 1e-4 * abs(v) + 1e-4 if v < 1e9 else 0.0))
    if rounds and len(cands) >= 4:
        keys = sorted(used)
        add("graph", ({pair(keys[i], keys[j]) for i, j in delaunay([pos[n][:2] for n in keys])} & everything, everything))
    if case["time"]:
        add("time", nearest(refs, cands, lambda a, b: abs(exifs[a]["capture_time"] - exifs[b]["capture_time"]), case["time"], HUGE, lambda v: 1e-9))
    if case["order"]:
        n = (case["order"] + 1) // 2
        w = {pair(a, b) for i, a in enumerate(refs) for j, b in enumerate(refs) if 0 < abs(i - j) <= n}
        add("order", (w, w))
    pre = {a: [b for b in cands if b != a] for a in refs}
    for key, h, p in (("bow", bow, 1), ("vlad", vlad, 2)):
        if case[key]:
            add(key, by_appearance(refs, cands, h, p, used, case[key], False, pre))
    between(norm, must, may, "selection", asked)
    for k in ("distance", "graph", "time", "order", "bow", "vlad"):
        lo, hi = count.get(k, (0, 0))
        check(lo <= report[f"num_pairs_{k}"] <= hi, "the report tells", report[f"num_pairs_{k}"], "pairs by", k, "not", lo, hi)
    t.nontrivial(len(count) > 1)
    t.label(*count)


@CHECK.sub("reference", st.fixed_dictionaries({"seed": seeds, "n": st.sampled_from([1, 3, 8]), "gps": st.sampled_from([1.0, 0.5, 0.0]), "gcp": st.sampled_from([0, 3]), "subset": st.booleans(), "given": st.booleans()}),
           quick=300, rule="images with GPS of several accuracies")
def reference(case, t):
    """The origin is the average position, weighted by accuracy, at altitude zero; once chosen it stays."""
    g = rng(case["seed"])
    names = sorted(names_of(case["n"], g))
    lat, lon = g.uniform(-80, 80), g.uniform(-179, 179)
    exifs = {}
    for n in names:
        e = {}
        if g.random() < case["gps"]:
            e["gps"] = {"latitude": lat + float(g.uniform(-0.01, 0.01)), "longitude": lon + float(g.uniform(-0.01, 0.01)), "altitude": float(g.uniform(0, 100))}
            if g.random() < 0.6:
                e["gps"]["dop"] = float(g.choice([0.0, 0.001, 0.5, 5.0, 100.0]))
        elif g.random() < 0.5:
            e["gps"] = {}
        exifs[n] = e
    d, _, _ = dataset_of(t, g, names, exifs, {})
    gcps = [(lat + float(g.uniform(-0.01, 0.01)), lon + float(g.uniform(-0.01, 0.01))) for _ in range(case["gcp"])]
    if gcps:
        with open(os.path.join(d.data_path, "ground_control_points.json"), "w") as f:
            json.dump({"points": [{"id": f"g{k}", "position": {"latitude": a, "longitude": b, "altitude": 5.0}, "observations": []} for k, (a, b) in enumerate(gcps)]}, f)
    chosen = names[: max(1, len(names) // 2)] if case["subset"] else None
    if case["given"]:
        d.save_reference(geo.TopocentricConverter(1.5, 2.5, 3.5))
        want = (1.5, 2.5, 3.5)
    else:
        ws, ps_ = [], []
        for n in chosen or names:
            gps = exifs[n].get("gps", {})
            if gps:
                ws.append(1 / max(0.01, gps.get("dop", 15.0))), ps_.append((gps["latitude"], gps["longitude"]))
        if not ws:
            ws, ps_ = [1.0] * len(gcps), gcps
        want = (*np.average(ps_, axis=0, weights=ws), 0.0) if ws else (0.0, 0.0, 0.0)
        t.nontrivial(len(set(ws)) > 1)
    d.init_reference(chosen)
    check(d.reference_exists(), "no reference")
    for _ in range(2):
        r = d.load_reference()
        check(np.allclose([r.lat, r.lon, r.alt], want, atol=1e-9), "reference", r.lat, r.lon, r.alt, "not", want)
        for n in names:
            exifs[n]["gps"] = {"latitude": 0.0, "longitude": 0.0}
            d.save_exif(n, exifs[n])
        d.init_reference()
