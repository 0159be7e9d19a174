"""C09: tracks."""

import json
import os

import numpy as np
from gen import grid, rng, seeds, st
from harness import Check, Skip, check
from opensfm import dataset, features, pymap, pysfm, tracking
from opensfm.actions import create_tracks
from opensfm.unionfind import UnionFind

CHECK = Check("C09")
CHECK.assumptions = [
    "track files keep six significant digits and no depths, as their format says",
    "image names without tabs and line breaks",
]
NO = pymap.Observation.NO_SEMANTIC_VALUE
IMAGES = ["a.jpg", "b c.jpg", "é#,\"ü.png", "dir/x.jpg", "0", "a.jpg2", "B.JPG"]


def components(nodes, edges):
    """Connected components, by flooding."""
    near = {n: set() for n in nodes}
    for a, b in edges:
        near[a].add(b)
        near[b].add(a)
    seen, out = set(), []
    for n in nodes:
        if n in seen:
            continue
        comp, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x not in comp:
                comp.add(x)
                todo.extend(near[x] - comp)
        seen |= comp
        out.append(frozenset(comp))
    return out


def fields(o):
    d = o.depth_prior
    return (o.id, float(o.point[0]), float(o.point[1]), float(o.scale), *[int(x) for x in o.color], o.segmentation, o.instance,
            None if d is None else (d.value, d.is_radial, d.std_deviation))


def close(a, b, tol):
    """Fields of two observations, up to the digits of a file."""
    return (a[0] == b[0] and a[4:9] == b[4:9] and all(abs(x - y) <= tol * abs(y) for x, y in zip(a[1:4], b[1:4])))


def content(tm):
    return {(s, k): fields(o) for s in tm.get_shot_ids() for k, o in tm.get_shot_observations(s).items()}


def consistent(tm):
    """Both directions of the incidence tell the same."""
    a = content(tm)
    b = {(s, k): fields(o) for k in tm.get_track_ids() for s, o in tm.get_track_observations(k).items()}
    check(a == b, "observations of images and of tracks differ", set(a) ^ set(b))
    check(tm.num_shots() == len(tm.get_shot_ids()) == len(set(tm.get_shot_ids())), "number of images")
    check(tm.num_tracks() == len(tm.get_track_ids()) == len(set(tm.get_track_ids())), "number of tracks")
    return a


def grouped(obs):
    """{track: {(image, feature)}} without the names of the tracks."""
    by = {}
    for (s, k), f in obs.items():
        by.setdefault(k, set()).add((s, f[0]))
    return sorted(map(sorted, by.values()))


# -- from matches to tracks -----------------------------------------------

def scene(c, g):
    """Features of images and matches that follow true tracks, with some wrong ones."""
    names = IMAGES[: c["images"]]
    n = {im: int(g.integers(1, c["features"] + 1)) for im in names}
    truth = [(im, i, int(g.integers(0, max(1, c["features"] // 2)))) for im in names for i in range(n[im])]
    by = {im: {i: t for m, i, t in truth if m == im} for im in names}
    matches = {}
    for a in names:
        for b in names:
            if a == b or g.random() > c["density"] or (b, a) in matches and g.random() < 0.5:
                continue
            m = [(i, j) for i in by[a] for j in by[b] if by[a][i] == by[b][j] and g.random() < 0.5]
            m += [(int(g.integers(0, n[a])), int(g.integers(0, n[b]))) for _ in range(int(g.integers(0, 1 + c["wrong"])))]
            matches[a, b] = np.array(m, int).reshape(-1, 2)
    return names, n, matches


def feature_arrays(c, g, names, n):
    points = {im: np.c_[g.uniform(-0.5, 0.5, (n[im], 2)), g.uniform(0.001, 0.1, n[im])] for im in names}
    colors = {im: g.integers(0, 256, (n[im], 3)) for im in names}
    some = lambda p: [im for im in names if g.random() < p]
    seg = {im: g.integers(0, 200, n[im]) for im in (some(0.6) if c["semantic"] else [])}
    ins = {im: g.integers(0, 30000, n[im]) for im in seg if g.random() < 0.6}
    depths = {im: np.where(g.random(n[im]) < 0.3, g.choice([np.nan, np.inf]), g.uniform(0.1, 50, n[im]))
              for im in (some(0.6) if c["depths"] else [])}
    return points, colors, seg, ins, depths


def expected_tracks(names, matches, min_length):
    nodes = {(im, int(f)) for (a, b), m in matches.items() for r in m for im, f in ((a, r[0]), (b, r[1]))}
    edges = [((a, int(i)), (b, int(j))) for (a, b), m in matches.items() for i, j in m]
    return [t for t in components(sorted(nodes), edges) if len(t) >= min_length and len({im for im, _ in t}) == len(t)]


tracks_case = st.fixed_dictionaries({
    "seed": seeds, "images": st.sampled_from([1, 2, 3, 5, 7]), "features": st.sampled_from([1, 4, 10, 30]), "density": st.sampled_from([0.2, 0.5, 1.0]),
    "wrong": st.sampled_from([0, 0, 1, 3]), "min_length": st.sampled_from([2, 1, 3]), "semantic": st.booleans(), "depths": st.booleans(),
    "radial": st.booleans(), "std": st.sampled_from([0.25, 1.0, 3.0]), "missing": st.booleans(),
})


@CHECK.sub("create", tracks_case, quick=500, rule="several tracks of three images are kept and some track is rejected")
def create(c, t):
    g = rng(c["seed"])
    names, n, matches = scene(c, g)
    points, colors, seg, ins, depths = feature_arrays(c, g, names, n)
    gone = names[-1] if c["missing"] and len(names) > 1 else None
    if gone:
        points.pop(gone)
        colors.pop(gone)
    as_lists = {k: [tuple(r) for r in v.tolist()] if c["std"] == 1.0 else v for k, v in matches.items()}
    tm = tracking.create_tracks_manager(points, colors, seg, ins, as_lists, c["min_length"], depths, c["radial"], c["std"])
    got = consistent(tm)
    want = expected_tracks(names, matches, c["min_length"])
    # features of an image that has none are left out
    rest = [[x for x in tr if x[0] != gone] for tr in want]
    check(grouped(got) == sorted(sorted(x) for x in rest if x), "tracks", grouped(got), "instead of", rest)
    for (im, _), f in got.items():
        i = f[0]
        d = None
        if im in depths and np.isfinite(depths[im][i]):
            v = depths[im][i]
            d = (v, c["radial"], max(c["std"] * v, c["std"]))
        full = (i, *points[im][i], *colors[im][i].tolist(), int(seg[im][i]) if im in seg else NO, int(ins[im][i]) if im in ins else NO, d)
        check(f[:9] == full[:9] and (f[9] is None) == (d is None) and (d is None or np.allclose(f[9], d)), "observation", f, "of", im, full)
    nodes = {(a, int(r[0])) for (a, b), m in matches.items() for r in m}
    t.nontrivial(sum(len(x) > 2 for x in want) > 1 and sum(map(len, want)) < len(nodes))


@CHECK.sub("pipeline", tracks_case, quick=80, rule="tracks of three images")
def pipeline(c, t):
    """Stored features and matches of a dataset become stored tracks."""
    g = rng(c["seed"])
    names, n, matches = scene(c, g)
    names = [im for im in names if "/" not in im]
    matches = {k: v for k, v in matches.items() if k[0] in names and k[1] in names}
    points, colors, seg, ins, _ = feature_arrays(c, g, names, n)
    root = t.tmpdir()
    os.makedirs(os.path.join(root, "images"))
    listed = names[:-1] if c["missing"] and len(names) > 1 else names
    with open(os.path.join(root, "image_list.txt"), "w") as f:
        f.write("\n".join("images/" + im for im in listed))
    with open(os.path.join(root, "config.yaml"), "w") as f:
        json.dump({"min_track_length": c["min_length"]}, f)
    data = dataset.DataSet(root)
    for im in names:
        sem = features.SemanticData(seg[im], ins.get(im), ["x"]) if im in seg else None
        data.save_features(im, features.FeaturesData(np.c_[points[im], np.zeros(n[im])].astype(np.float32), np.ones((n[im], 4)), colors[im], sem))
        mine = {b: m for (a, b), m in matches.items() if a == im}
        if mine or g.random() < 0.5:
            data.save_matches(im, mine)
    check(not data.tracks_exists() and not data.tracks_exists("other.csv"))
    create_tracks.run_dataset(data)
    check(data.tracks_exists())
    tm = data.load_tracks_manager()
    got = consistent(tm)
    mm = {k: v for k, v in matches.items() if k[0] in listed and k[1] in listed}
    want = expected_tracks(listed, mm, c["min_length"])
    check(grouped(got) == sorted(map(sorted, want)), "tracks", grouped(got), "instead of", want)
    for (im, _), f in got.items():
        i = f[0]
        full = (i, *points[im][i], *colors[im][i].tolist(), int(seg[im][i]) if im in seg else NO, int(ins[im][i]) if im in ins else NO)
        check(close(f, full, 2e-5), "observation", f, "of", im, full)
    rep = json.loads(data.load_report("tracks.json"))
    pairs = {}
    for tr in want:
        for a, _ in tr:
            for b, _ in tr:
                if a < b:
                    pairs[a, b] = pairs.get((a, b), 0) + 1
    check({tuple(sorted((a, b))): v for a, b, v in rep["view_graph"]} == {tuple(sorted(k)): v for k, v in pairs.items()}, "view graph", rep["view_graph"], pairs)
    check(rep["num_tracks"] == len(want) and rep["num_images"] == len({im for tr in want for im, _ in tr}), "counts", rep)
    # a second file does not disturb the first
    data.save_tracks_manager(pymap.TracksManager(), "other.csv")
    check(data.load_tracks_manager("other.csv").num_tracks() == 0 and content(data.load_tracks_manager()) == got)
    t.nontrivial(any(len(x) > 2 for x in want))


@CHECK.sub(
    "union_find",
    st.fixed_dictionaries({"ops": st.lists(st.one_of(st.integers(0, 30), st.lists(st.integers(0, 30), min_size=1, max_size=4)), max_size=60)}),
    quick=400, rule="sets are merged",
)
def union_find(c, t):
    uf = UnionFind()
    known, edges = [], []
    for op in c["ops"]:
        if isinstance(op, int):
            check(uf[(op, "x")] in {(i, "x") for i in [*known, op]}, "name of a set")
            known.append(op)
        else:
            uf.union(*[(i, "x") for i in op])
            known += op
            edges += [(op[0], i) for i in op[1:]]
    check(sorted(set(known)) == sorted(i for i, _ in uf), "items")
    sets = {}
    for i in set(known):
        sets.setdefault(uf[(i, "x")], set()).add(i)
        check(uf[uf[(i, "x")]] == uf[(i, "x")], "the name of a set is not a member")
    want = components(sorted(set(known)), edges)
    check(sorted(map(sorted, sets.values())) == sorted(map(sorted, want)), "sets", sets, want)
    t.nontrivial(any(len(x) > 2 for x in want) and len(want) > 1)


# -- tracks manager -------------------------------------------------------

img = st.sampled_from(IMAGES)
trk = st.sampled_from([str(i) for i in range(7)] + ["t 1", "é"])
number = st.one_of(grid(-0.5, 0.5), st.sampled_from([0.0, 1e-7, -3.5e-12, 123456.789, 1e20]))
obs_s = st.tuples(st.sampled_from([0, 1, 5, 77, 2**31 - 1]), number, number, number, *[st.sampled_from([0, 255, 17])] * 3,
                  st.sampled_from([NO, 0, 3, 255]), st.sampled_from([NO, 0, 30000]), st.one_of(st.none(), st.tuples(grid(0, 9), st.booleans(), grid(0.1, 1))))


def make(o):
    r = pymap.Observation(o[1], o[2], o[3], o[4], o[5], o[6], o[0], o[7], o[8])
    if o[9] is not None:
        r.depth_prior = pymap.Depth(o[9][0], o[9][1], o[9][2])
    return r


def raises(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


op = st.one_of(
    st.tuples(st.just("add"), img, trk, obs_s), st.tuples(st.just("add"), img, trk, obs_s), st.tuples(st.just("add"), img, trk, obs_s),
    st.tuples(st.just("remove"), img, trk), st.tuples(st.just("connect"), img, st.lists(trk, max_size=4)),
    st.tuples(st.just("disconnect"), img, st.lists(trk, max_size=3)),
    st.tuples(st.just("sub"), st.lists(trk, max_size=8), st.lists(img, max_size=6)),
    st.tuples(st.just("string")), st.tuples(st.just("file")),
)


@CHECK.sub(
    "history",
    st.fixed_dictionaries({"start": st.lists(st.tuples(img, trk, obs_s), min_size=0, max_size=25), "ops": st.lists(op, max_size=12),
                           "shots": st.lists(img, max_size=5, unique=True), "tracks": st.lists(trk, max_size=5, unique=True), "min_common": st.sampled_from([1, 2, 0, 3])}),
    quick=600, rule="images share tracks at the end",
)
def history(c, t):
    tm = pymap.TracksManager()
    ref = {}
    for s, k, o in c["start"]:
        tm.add_observation(s, k, make(o))
        ref[s, k] = o
    for o in c["ops"]:
        shots, tracks = {s for s, _ in ref}, {k for _, k in ref}
        if o[0] == "add":
            tm.add_observation(o[1], o[2], make(o[3]))
            ref[o[1], o[2]] = o[3]
        elif o[0] == "remove":
            if (o[1], o[2]) in ref:
                tm.remove_observation(o[1], o[2])
                ref.pop((o[1], o[2]))
            elif o[1] not in tm.get_shot_ids() or o[2] not in tm.get_track_ids():
                check(raises(tm.remove_observation, o[1], o[2]), "an observation of an unknown image or track was removed")
        elif o[0] == "connect":
            pysfm.add_connections(tm, o[1], o[2])
            for k in o[2]:
                ref[o[1], k] = None
        elif o[0] == "disconnect":
            ks = [k for k in dict.fromkeys(o[2]) if (o[1], k) in ref]
            pysfm.remove_connections(tm, o[1], ks)
            for k in ks:
                ref.pop((o[1], k))
        elif o[0] == "sub":
            tm = tm.construct_sub_tracks_manager(list(dict.fromkeys(o[1])), o[2])
            ref = {(s, k): v for (s, k), v in ref.items() if k in o[1] and s in o[2]}
            check(set(tm.get_shot_ids()) == {s for s, _ in ref} and set(tm.get_track_ids()) == {k for _, k in ref}, "content of a part")
        elif o[0] in ("string", "file"):
            if any(v is None for v in ref.values()):
                continue  # connections carry no data to write
            if o[0] == "string":
                tm = pymap.TracksManager.instanciate_from_string(tm.as_string())
            else:
                p = os.path.join(t.tmpdir(), "tracks.csv")
                tm.write_to_file(p)
                tm = pymap.TracksManager.instanciate_from_file(p)
            back = content(tm)
            check(set(back) == set(ref), "observations in the file", set(back) ^ set(ref))
            for key, f in back.items():
                check(close(f, ref[key], 6e-6), "observation", f, "was written as", ref[key])
            ref = back
    got = consistent(tm)
    check(set(got) == set(ref), "observations", set(got) ^ set(ref))
    for key, f in got.items():
        if ref[key] is not None:
            check(f == tuple(ref[key]), "observation", f, "instead of", ref[key])
            check(fields(tm.get_observation(*key)) == f, "get_observation")
    shots = sorted({s for s, _ in ref})
    of = {s: {k for x, k in ref if x == s} for s in IMAGES}
    for s in IMAGES:
        if s not in tm.get_shot_ids():
            check(raises(tm.get_shot_observations, s) and raises(tm.get_observation, s, "0"), "unknown image")
        for k in ("0", "t 1", "nothing"):
            if (s, k) not in ref:
                check(raises(tm.get_observation, s, k), "an observation that is not there")
    check(raises(tm.get_track_observations, "nothing"), "unknown track")
    # what images share
    pairs = {(a, b): of[a] & of[b] for a in shots for b in shots if a < b and of[a] & of[b]}
    norm = lambda d: {tuple(sorted(k)): v for k, v in d.items()}
    check(norm(tm.get_all_pairs_connectivity()) == {tuple(sorted(k)): len(v) for k, v in pairs.items()}, "connectivity")
    use_s, use_t = set(c["shots"] or IMAGES), set(c["tracks"] or [k for _, k in ref])
    want = {tuple(sorted(k)): len(v & use_t) for k, v in pairs.items() if set(k) <= use_s and v & use_t}
    check(norm(tm.get_all_pairs_connectivity(c["shots"], c["tracks"])) == want, "connectivity of some", want)
    for a in shots[:3]:
        for b in shots[:3]:
            common = tm.get_all_common_observations(a, b)
            check(sorted(k for k, _, _ in common) == sorted(of[a] & of[b]), "common tracks", a, b)
            for k, x, y in common:
                if ref[a, k] is not None and ref[b, k] is not None:
                    check(fields(x) == tuple(ref[a, k]) and fields(y) == tuple(ref[b, k]), "common observations", a, b, k)
            names, p1, p2 = tracking.common_tracks(tm, a, b)
            check(sorted(names) == sorted(of[a] & of[b]) and len(p1) == len(p2) == len(names), "common tracks in arrays")
            for k, x, y in zip(names, p1, p2):
                check(tuple(x) == got[a, k][1:3] and tuple(y) == got[b, k][1:3], "points of the common tracks")
    m = c["min_common"]
    big = {tuple(sorted(k)): v for k, v in pairs.items() if len(v) >= m}
    a1, a2 = tracking.all_common_tracks_without_features(tm, m), tracking.all_common_tracks_with_features(tm, m)
    check(set(norm(a1)) == set(norm(a2)) == set(big), "pairs with enough common tracks", set(a1), set(big))
    for k, v in a1.items():
        check(sorted(v) == sorted(big[tuple(sorted(k))]), "tracks of a pair")
    for (a, b), (names, p1, p2) in a2.items():
        for k, x, y in zip(names, p1, p2):
            check(tuple(x) == got[a, k][1:3] and tuple(y) == got[b, k][1:3], "points of a pair")
    if c["tracks"] and shots:
        counts = pysfm.count_tracks_per_shot(tm, shots, c["tracks"])
        check(counts == {s: len(of[s] & set(c["tracks"])) for s in shots}, "tracks per image", counts)
    gr = tracking.as_weighted_graph(tm)
    check({tuple(sorted((a, b))): w["weight"] for a, b, w in gr.edges(data=True)} == {tuple(sorted(k)): len(v) for k, v in pairs.items()}, "weighted graph")
    check(set(shots) <= set(gr.nodes))
    bi = tracking.as_graph(tm)
    if not set(shots) & {k for _, k in ref}:
        check({frozenset((a, b)) for a, b in bi.edges} == {frozenset(k) for k in ref}, "bipartite graph")
        for (s, k), f in got.items():
            e = bi[s][k]
            check(e["feature_id"] == f[0] and tuple(e["feature"]) == f[1:3] and e["feature_scale"] == f[3] and tuple(e["feature_color"]) == f[4:7]
                  and e["feature_segmentation"] == f[7] and e["feature_instance"] == f[8], "edge", e)
    t.nontrivial(len(pairs) > 1)
    t.label(*{o[0] for o in c["ops"]})


@CHECK.sub(
    "formats",
    st.fixed_dictionaries({"version": st.sampled_from([0, 1, 2]), "rows": st.lists(st.tuples(img, trk, obs_s), max_size=10),
                           "bad": st.sampled_from([None, None, "short", "long", "text", "version"]), "end": st.booleans(), "file": st.booleans()}),
    quick=300, rule="several rows",
)
def formats(c, t):
    """Files of all versions are read, wrong ones are refused."""
    v = c["version"]
    lines = ["OPENSFM_TRACKS_VERSION_v%d" % (7 if c["bad"] == "version" else v)] if v or c["bad"] == "version" else []
    want = {}
    for s, k, o in c["rows"]:
        row = [s, k, o[0], repr(o[1]), repr(o[2])] + ([repr(o[3])] if v else []) + list(o[4:7]) + (list(o[7:9]) if v == 2 else [])
        want[s, k] = (o[0], o[1], o[2], o[3] if v else 0.0, *o[4:7], *(o[7:9] if v == 2 else (NO, NO)), None)
        lines.append("\t".join(map(str, row)))
    refuse = c["bad"] == "version"
    if c["bad"] in ("short", "long", "text"):
        if len(lines) <= (1 if v else 0):
            raise Skip
        cut = lines[-1].split("\t")
        lines[-1] = "\t".join(cut[:-1] if c["bad"] == "short" else cut + ["1"] if c["bad"] == "long" else cut[:2] + ["x"] + cut[3:])
        refuse = True
    text = "\n".join(lines) + ("\n" if c["end"] and lines else "")
    if c["file"]:
        p = os.path.join(t.tmpdir(), "t.csv")
        with open(p, "w") as f:
            f.write(text)
        load = lambda: pymap.TracksManager.instanciate_from_file(p)
        check(raises(pymap.TracksManager.instanciate_from_file, p + "x"), "a missing file was read")
    else:
        load = lambda: pymap.TracksManager.instanciate_from_string(text)
    if refuse:
        check(raises(load), "a wrong file was read", text)
    else:
        check(consistent(load()) == want, "read", text)
    t.nontrivial(len(want) > 1)
    t.label(v, c["bad"])


@CHECK.sub(
    "merge",
    st.fixed_dictionaries({"managers": st.lists(st.lists(st.tuples(img, trk, st.integers(0, 5)), max_size=14), max_size=5), "seed": seeds}),
    quick=500, rule="a track joins tracks of two managers",
)
def merge(c, t):
    """Tracks that share a feature of an image become one."""
    data = {}
    managers, nodes, edges, first = [], [], [], {}
    for i, rows in enumerate(c["managers"]):
        m = pymap.TracksManager()
        mine = {}
        for s, k, f in rows:
            mine[s, k] = f
        for (s, k), f in mine.items():
            # one feature of an image looks the same everywhere
            o = (f, f / 7 + IMAGES.index(s), 0.25, 1.5, IMAGES.index(s), f, 9, f, NO, None)
            m.add_observation(s, k, make(o))
            data[s, f] = o
            if (i, k) not in nodes:
                nodes.append((i, k))
            edges.append(((i, k), first.setdefault((s, f), (i, k))))
        managers.append(m)
    merged = pymap.TracksManager.merge_tracks_manager(managers)
    got = consistent(merged)
    feats = {}
    for (i, k) in nodes:
        feats[i, k] = {(s, f) for s, kk, f in [(s, kk, f) for (s, kk), f in {(s, kk): f for s, kk, f in c["managers"][i]}.items()] if kk == k}
    want = [set().union(*(feats[n] for n in comp)) for comp in components(nodes, edges)]
    have = {}
    for (s, k), f in got.items():
        check(f == data[s, f[0]], "observation", f, data[s, f[0]])
        have.setdefault(k, set()).add((s, f[0]))
    check(len(have) == len(want), len(have), "tracks instead of", len(want), grouped(got), want)
    left = [set(x) for x in have.values()]
    for w in want:
        one = {s: [f for x, f in w if x == s] for s, _ in w}
        # an image keeps one of its features when the joined tracks hold several
        ok = [h for h in left if {s for s, _ in h} == set(one) and h <= w]
        check(ok, "no track has the observations", w, left)
        left.remove(ok[0])
    t.nontrivial(any(len({i for i, _ in comp}) > 1 for comp in components(nodes, edges)))
