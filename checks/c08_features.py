"""C08: feature extraction, masks, storage and image descriptors."""

import json
import math
import os

import cv2
import numpy as np
from gen import grid, rng, seeds, st, ugrid
from harness import Check, Skip, check
from opensfm import bow, config as osfm_config
from opensfm import dataset, feature_loader, features, features_processing, masking, pyfeatures, pygeometry, upright, vlad

CHECK = Check("C08")
CHECK.assumptions = ["the detectors are judged by invariants and by blobs at known places, not by a second detector"]

ORIENT = {
    # upright pixel of a stored pixel, in fractions of the image
    1: lambda x, y: (x, y), 3: lambda x, y: (1 - x, 1 - y),
    6: lambda x, y: (1 - y, x), 8: lambda x, y: (y, 1 - x),
}


def write_png(path, a):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    check(cv2.imwrite(path, a))


def make_dataset(root, cfg, names, exif, camera=None):
    os.makedirs(os.path.join(root, "images"))
    for n in names:
        open(os.path.join(root, "images", n), "wb").close()
    with open(os.path.join(root, "config.yaml"), "w") as f:
        json.dump(cfg, f)
    d = dataset.DataSet(root)
    for n in names:
        d.save_exif(n, exif)
    if camera:
        d.save_camera_models({camera.id: camera})
    return d


# -- masks ----------------------------------------------------------------

sizes = st.tuples(st.integers(2, 30), st.integers(2, 30))


@CHECK.sub(
    "masks",
    st.fixed_dictionaries({
        "seed": seeds, "w": st.integers(8, 400), "h": st.integers(8, 400), "orientation": st.sampled_from([1, 3, 6, 8]),
        "mask": st.one_of(st.none(), sizes), "segmentation": st.one_of(st.none(), sizes),
        "values": st.sampled_from([[0, 255], [0, 1], [0, 254, 255], [0, 2, 128]]),
        "ignore": st.sampled_from([None, [], [3], [0, 5], [200, 3]]), "n": st.integers(0, 30), "scale": st.integers(1, 4),
        "same": st.booleans(),
    }), quick=600, rule="some points are masked out and some are not",
)
def masks(c, t):
    g = rng(c["seed"])
    root = t.tmpdir()
    cfg = {} if c["ignore"] is None else {"segmentation_ignore_values": c["ignore"]}
    data = make_dataset(root, cfg, ["a.jpg"], {"width": c["w"], "height": c["h"], "orientation": c["orientation"]})
    mask = seg = None
    msize = c["mask"]
    if c["mask"] and c["segmentation"] and not c["same"]:
        # different resolutions: a whole multiple, so that no pixel falls between two cells
        msize = tuple(x * c["scale"] for x in c["segmentation"])
    elif c["mask"] and c["segmentation"]:
        msize = c["segmentation"]
    if msize:
        mask = g.choice(c["values"], msize).astype(np.uint8)
        write_png(os.path.join(root, "masks", "a.jpg.png"), mask)
        data.load_mask_list()
    if c["segmentation"]:
        seg = g.choice([0, 1, 3, 5, 200], c["segmentation"]).astype(np.uint8)
        write_png(os.path.join(root, "segmentations", "a.jpg.png"), seg)
    s = max(c["w"], c["h"])
    pts = np.c_[g.uniform(-0.5, 0.5, c["n"]) * c["w"] / s, g.uniform(-0.5, 0.5, c["n"]) * c["h"] / s, np.ones(c["n"])] * 0.999
    got = masking.load_features_mask(data, "a.jpg", pts)
    check(got.shape == (c["n"],) and got.dtype == bool, "mask array", got)
    for (x, y, _), ok in zip(pts, got):
        u, v = ORIENT[c["orientation"]](x * s / c["w"] + 0.5, y * s / c["h"] + 0.5)
        want, sure = True, True
        for a, bad in ((mask, [0]), (seg, c["ignore"] or [])):
            if a is not None:
                fx, fy = u * a.shape[1], v * a.shape[0]
                sure = sure and min(abs(fx - round(fx)), abs(fy - round(fy))) > 1e-6
                want = want and a[int(fy), int(fx)] not in bad
        if sure:
            check(bool(ok) == want, "point", (u, v), "is", "kept" if ok else "masked", "mask", mask, "seg", seg)
    t.nontrivial(got.any() and not got.all())
    t.label("both" if mask is not None and seg is not None else "one", c["orientation"])


@CHECK.sub(
    "combine",
    st.fixed_dictionaries({"seed": seeds, "a": st.one_of(st.none(), sizes), "b": st.one_of(st.none(), sizes),
                           "scale": st.integers(1, 3), "values": st.sampled_from([[0, 1], [0, 255], [0, 2, 255]]),
                           "undistorted": st.booleans()}),
    quick=300, rule="both masks are given",
)
def combine(c, t):
    g = rng(c["seed"])
    a = g.choice(c["values"], c["a"]).astype(np.uint8) if c["a"] else None
    b = None
    if c["b"]:
        b = g.choice([0, 1], c["b"] if a is None else tuple(x * c["scale"] for x in c["a"])).astype(np.uint8)
    for x, y in ((a, b), (b, a)):
        got = masking.combine_masks(x, y)
        if x is None and y is None:
            check(got is None)
            continue
        if x is None or y is None:
            check(np.array_equal(got, x if y is None else y), "a single mask changed")
            continue
        k = c["scale"]
        want = np.kron(a > 0, np.ones((k, k), bool)) & (b > 0)
        check(got.shape == want.shape and ((got > 0) == want).all(), "combined", got, "of", x, y)
        t.nontrivial()


# -- coordinates ----------------------------------------------------------

@CHECK.sub(
    "coordinates",
    st.fixed_dictionaries({
        "w": st.integers(1, 5000), "h": st.integers(1, 5000), "px": st.lists(st.tuples(grid(-10, 5000), grid(-10, 5000)), min_size=1, max_size=6),
        "max_size": st.sampled_from([-1, 0, 1, 3, 17, 40, 100]), "orientation": st.sampled_from([1, 3, 6, 8]),
        "iw": st.integers(2, 60), "ih": st.integers(2, 60), "channels": st.sampled_from([None, 1, 3]), "seed": seeds,
    }), quick=400, rule="the image is resized",
)
def coordinates(c, t):
    w, h = c["w"], c["h"]
    P = np.array(c["px"], float)
    s = max(w, h)
    want = (P + 0.5 - np.array([w, h]) / 2) / s
    got = features.normalized_image_coordinates(P, w, h)
    check(np.allclose(got, want, atol=1e-12), "normalized coordinates", got, want)
    check(np.allclose(features.denormalized_image_coordinates(got, w, h), P, atol=1e-8), "denormalized coordinates")
    cam = pygeometry.Camera.create_spherical()
    cam.width, cam.height = w, h
    check(np.allclose(cam.pixel_to_normalized_coordinates_many(P) if hasattr(cam, "pixel_to_normalized_coordinates_many") else want, want, atol=1e-12))
    four = np.c_[P, np.full(len(P), 7.0), np.full(len(P), 33.0)]
    n4, d, col = features.normalize_features(four.copy(), np.ones((len(P), 2)), np.zeros((len(P), 3)), w, h)
    check(np.allclose(n4, np.c_[want, np.full(len(P), 7.0 / s), np.full(len(P), 33.0)], atol=1e-12), "normalized features", n4)
    up = upright.opensfm_to_upright(want, w, h, c["orientation"])
    for p, u in zip(P + 0.5, up):
        fx, fy = ORIENT[c["orientation"]](p[0] / w, p[1] / h)
        W, H = (w, h) if c["orientation"] < 6 else (h, w)
        check(np.allclose(u, [fx * W, fy * H], atol=1e-7), "upright", u, (fx * W, fy * H))
    # resizing keeps the shape and never enlarges
    g = rng(c["seed"])
    shape = (c["ih"], c["iw"]) + ((c["channels"],) if c["channels"] else ())
    im = g.integers(0, 256, shape).astype(np.uint8)
    size = max(shape[:2])
    m = c["max_size"]
    if 0 < m < size and min(shape[:2]) * m // size == 0:
        return
    r = features.resized_image(im, m)
    if 0 < m < size:
        check(r.shape[:2] == (c["ih"] * m // size, c["iw"] * m // size), "resized to", r.shape, "from", shape, m)
        check(abs(float(r.mean()) - float(im.mean())) < 60, "resized image has another brightness")
        t.nontrivial()
    else:
        check(np.array_equal(r, im), "an image that is small enough changed")


# -- storage --------------------------------------------------------------

kinds = st.sampled_from([("HAHOG", True, None), ("HAHOG", False, None), ("SIFT", True, None), ("ORB", True, None),
                         ("AKAZE", True, "MSURF"), ("AKAZE", True, "MLDB"), ("AKAZE", True, "MLDB_UPRIGHT"), ("SURF", False, None)])


@CHECK.sub(
    "storage",
    st.fixed_dictionaries({
        "seed": seeds, "n": st.integers(1, 20), "kind": kinds, "semantic": st.booleans(), "instances": st.booleans(),
        "labels": st.lists(st.sampled_from(["car", "road", "sky"]), max_size=3), "dim": st.sampled_from([3, 32]),
        "legacy": st.sampled_from([None, None, "name", 0, 1, 2]), "root": st.booleans(), "depths": st.booleans(),
    }), quick=400, rule="semantic data or a legacy file",
)
def storage(c, t):
    g = rng(c["seed"])
    kind, uchar, desc_kind = c["kind"]
    cfg = {"feature_type": kind, "hahog_normalize_to_uchar": uchar, "feature_root": c["root"], "reprojection_error_sd": 0.007}
    if desc_kind:
        cfg["akaze_descriptor"] = desc_kind
    data = make_dataset(t.tmpdir(), cfg, ["im.jpg", "im.jpg.features.jpg"], {})
    n = c["n"]
    pts = g.normal(size=(n, 4)).astype(np.float32)
    binary = kind == "ORB" or desc_kind in ("MLDB", "MLDB_UPRIGHT")
    whole = binary or (kind == "HAHOG" and uchar)
    d = g.integers(0, 256, (n, c["dim"])).astype(np.uint8 if binary else np.float32)
    if not whole:
        d = g.normal(size=d.shape).astype(np.float32)
    col = g.integers(0, 256, (n, 3))
    seg = ins = sem = None
    if c["semantic"]:
        seg = g.integers(0, 256, n)
        ins = g.integers(0, 30000, n) if c["instances"] else None
        sem = features.SemanticData(seg, ins, c["labels"])
    f = features.FeaturesData(pts, d, col, sem)
    check(not data.features_exist("im.jpg"))
    if isinstance(c["legacy"], int):
        os.makedirs(os.path.join(data.data_path, "features"))
        extra = {"OPENSFM_FEATURES_VERSION": c["legacy"]} if c["legacy"] else {}
        if c["legacy"] == 2:
            extra.update(segmentations=seg.astype(np.uint8) if seg is not None else [], instances=[], segmentation_labels=[])
            sem = None if seg is None else sem
        np.savez(os.path.join(data.data_path, "features", "im.jpg.features.npz"), points=pts,
                 descriptors=d.astype(np.uint8) if whole else d, colors=col, **extra)
    else:
        data.save_features("im.jpg", f)
        if c["legacy"] == "name":
            p = os.path.join(data.data_path, "features")
            os.rename(os.path.join(p, "im.jpg.features.npz"), os.path.join(p, "im.jpg.npz"))
    check(data.features_exist("im.jpg") and not data.features_exist("im.jpg.features.jpg"), "existence")
    r = data.load_features("im.jpg")
    want_pts = pts.copy()
    if c["legacy"] == 0:
        want_pts[:, 2] = 0.007
    check(np.array_equal(r.points, want_pts), "points", r.points, want_pts)
    check(np.array_equal(np.asarray(r.descriptors, float), np.asarray(d, float)), "descriptors")
    check(r.descriptors.dtype == (np.uint8 if binary else np.float32), "descriptor type", r.descriptors.dtype)
    check(np.array_equal(r.colors, col), "colors")
    if c["legacy"] in (0, 1) :
        check(r.semantic is None)
    elif c["legacy"] == 2:
        if seg is not None:
            check(np.array_equal(r.semantic.segmentation, seg), "segmentation of version 2")
    elif not c["semantic"]:
        check(r.semantic is None and r.get_segmentation() is None and not r.has_instances())
    else:
        check(np.array_equal(r.get_segmentation(), seg), "segmentation", r.get_segmentation(), seg)
        check(r.has_instances() == c["instances"])
        if c["instances"]:
            check(np.array_equal(r.semantic.instances, ins), "instances", r.semantic.instances, ins)
        check(list(r.semantic.labels) == c["labels"], "labels", r.semantic.labels)
    # masking keeps all arrays together
    m = g.random(n) < 0.5
    full = features.FeaturesData(pts, d, col, sem, pts[:, 3].copy() if c["depths"] else None)
    k = full.mask(m)
    check(np.array_equal(k.points, pts[m]) and np.array_equal(k.descriptors, d[m]) and np.array_equal(k.colors, col[m]), "mask")
    if sem is not None:
        check(np.array_equal(k.semantic.segmentation, seg[m]), "masked segmentation")
        check((k.semantic.instances is None) == (ins is None) and (ins is None or np.array_equal(k.semantic.instances, ins[m])))
    check((k.depths is None) == (not c["depths"]) and (k.depths is None or np.array_equal(k.depths, pts[m][:, 3])), "masked depths")
    # words
    w = g.integers(0, 60000, (n, 5))
    check(not data.words_exist("im.jpg"))
    data.save_words("im.jpg", w)
    check(data.words_exist("im.jpg") and np.array_equal(data.load_words("im.jpg"), w) and data.load_words("im.jpg").dtype == np.int32)
    t.nontrivial(c["semantic"] or c["legacy"] is not None)
    t.label(kind, f"legacy {c['legacy']}")


# -- extraction -----------------------------------------------------------

def blobs(g, w, h, k, color=True):
    """A dark image with bright round blobs at known subpixel places."""
    im = np.full((h, w, 3), 20.0)
    yy, xx = np.mgrid[:h, :w]
    out = []
    for _ in range(200):
        if len(out) == k:
            break
        x, y, s = g.uniform(18, w - 19), g.uniform(18, h - 19), g.uniform(2.5, 4.0)
        if all(math.hypot(x - a, y - b) > 26 for a, b, _, _ in out):
            c = g.uniform(90, 220, 3)
            im += np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / (2 * s * s))[:, :, None] * c
            out.append((x, y, s, c))
    return np.clip(im, 0, 255).round().astype(np.uint8), out


@CHECK.sub(
    "extraction",
    st.fixed_dictionaries({
        "seed": seeds, "w": st.sampled_from([64, 81, 100, 150]), "h": st.sampled_from([64, 90, 101, 150]), "k": st.sampled_from([9, 5, 3, 2, 1, 0]),
        "type": st.sampled_from(["HAHOG", "HAHOG", "HAHOG", "SIFT", "AKAZE", "ORB", "AKAZE-MLDB"]), "root": st.booleans(), "uchar": st.booleans(),
        "size": st.sampled_from([-1, 2048, 2048, 64]), "pano": st.booleans(), "count": st.sampled_from([4000, 60, 30, 5]),
        "texture": st.sampled_from(["blobs", "blobs", "blobs", "noise", "flat"]), "channels": st.sampled_from([3, 1, 0]),
    }), quick=160, rule="blobs are detected where they are",
)
def extraction(c, t):
    g = rng(c["seed"])
    w, h = c["w"], c["h"]
    im, known = blobs(g, w, h, c["k"])
    if c["texture"] == "noise":
        im, known = cv2.GaussianBlur(g.integers(0, 256, (h, w, 3)).astype(np.uint8), (0, 0), 1.5), []
    elif c["texture"] == "flat":
        im, known = np.full((h, w, 3), 77, np.uint8), []
    if c["channels"] != 3:
        im = np.ascontiguousarray(im[:, :, 1])
    arg = im[:, :, None] if c["channels"] == 1 else im
    cfg = osfm_config.default_config()
    kind = c["type"].split("-")[0]
    other = 99 if c["size"] == 64 else 64
    cfg.update({"feature_type": kind, "feature_root": c["root"], "hahog_normalize_to_uchar": c["uchar"],
                "akaze_descriptor": "MLDB" if "MLDB" in c["type"] else "MSURF",
                "feature_process_size" + ("_panorama" if c["pano"] else ""): c["size"],
                "feature_min_frames" + ("_panorama" if c["pano"] else ""): c["count"],
                "feature_process_size" + ("" if c["pano"] else "_panorama"): other,
                "feature_min_frames" + ("" if c["pano"] else "_panorama"): 7 if c["count"] != 7 else 8})
    try:
        p, d, col = features.extract_features(arg, cfg, c["pano"])
    except cv2.error:
        if kind == "ORB":
            raise Skip  # OpenCV's own detector refuses it
        raise
    n = len(p)
    check(len(d) == n and len(col) == n, "arrays of different lengths", n, len(d), len(col))
    if n == 0:
        check(len(known) < 2 or kind != "HAHOG" or c["size"] == 64, "no features on an image of blobs")
        return
    check(p.shape[1] in (3, 4) and col.shape == (n, 3))
    check(np.isfinite(p).all(), "points", p)
    s = max(w, h)
    # the image that was processed
    pw, ph = (w * 64 // s, h * 64 // s) if c["size"] == 64 and s > 64 else (w, h)
    ps = max(pw, ph)
    check((abs(p[:, 0]) <= 0.5 * pw / ps + 1e-9).all() and (abs(p[:, 1]) <= 0.5 * ph / ps + 1e-9).all(), "points outside of the image")
    small = cv2.resize(im, (pw, ph), interpolation=cv2.INTER_AREA) if (pw, ph) != (w, h) else im
    px = np.c_[p[:, 0] * ps + pw / 2 - 0.5, p[:, 1] * ps + ph / 2 - 0.5]
    for (x, y), cc in zip(px, col):
        if min(abs(x % 1 - 0.5), abs(y % 1 - 0.5)) > 1e-3:
            v = small[int(round(y)), int(round(x))]
            check(np.array_equal(np.broadcast_to(v, 3), cc), "color of the feature at", (x, y), cc, "image", v)
    if kind == "HAHOG":
        dd = np.asarray(d, float)
        if c["uchar"]:
            check((dd == np.round(dd)).all() and dd.min() >= 0 and dd.max() <= 255, "descriptors are not bytes")
            f = dd / (362 if c["root"] else 512)
        else:
            f = dd
        check(np.isfinite(dd).all())
        if c["root"] and len(dd):
            check(abs(np.median(np.sum(f ** 4, axis=1)) - 1) < 0.15, "root descriptors are not normalized", np.sum(f ** 4, axis=1)[:3])
        elif len(dd) and not c["uchar"]:
            check(abs(np.median(np.sum(f ** 2, axis=1)) - 1) < 0.05, "descriptors are not normalized")
        # at most four orientations per frame
        check(n <= 4 * c["count"], "more features than asked for", n)
    if kind == "ORB":
        check(n <= c["count"] and d.dtype == np.uint8)
    if kind == "AKAZE":
        check(d.dtype == (np.uint8 if "MLDB" in c["type"] else np.float32), d.dtype)
    if kind == "SIFT" and c["root"]:
        check(np.allclose(np.sum(np.asarray(d, float) ** 2, axis=1), 1, atol=1e-4), "root descriptors have no unit length")
    # again, and with the channel repeated
    p2, d2, col2 = features.extract_features(arg.copy(), cfg, c["pano"])
    check(np.array_equal(p, p2) and np.array_equal(d, d2), "another result for the same image")
    if c["channels"] != 3:
        p3, d3, _ = features.extract_features(np.ascontiguousarray(np.repeat(im[:, :, None], 3, axis=2)), cfg, c["pano"])
        check(len(p3) == n and np.allclose(p3, p, atol=1e-6), "a gray image and its color version give different features")
    if len(known) > 1 and kind == "HAHOG" and c["size"] != 64 and c["count"] != 5 and c["count"] > 4 * c["k"]:
        truth = np.array([[(x + 0.5 - w / 2) / s, (y + 0.5 - h / 2) / s] for x, y, _, _ in known])
        near = np.min(np.linalg.norm(truth[:, None] - p[None, :, :2], axis=2), axis=1) * s
        check(np.median(near) < 0.35, "blobs are found", near, "pixels away")
        k = np.argmin(np.linalg.norm(truth[:, None] - p[None, :, :2], axis=2), axis=1)
        if (near < 0.3).sum() >= 2:
            ratio = np.median([p[i, 2] * s / b[2] for i, b, e in zip(k, known, near) if e < 0.3])
            check(0.3 < ratio < 8, "size of the features relative to the blobs", ratio)
        t.nontrivial()
    t.label(c["type"], c["texture"])


@CHECK.sub(
    "processing",
    st.fixed_dictionaries({
        "seed": seeds, "images": st.integers(1, 6), "processes": st.integers(1, 5), "read": st.integers(1, 4),
        "w": st.integers(40, 90), "h": st.integers(40, 90), "mask": st.booleans(), "segmentation": st.booleans(),
        "bake": st.booleans(), "words": st.booleans(), "force": st.booleans(), "orientation": st.sampled_from([1, 6]),
    }), quick=60, rule="several images in several threads",
)
def processing(c, t):
    """Every image is processed once, whatever the number of threads."""
    g = rng(c["seed"])
    root = t.tmpdir()
    w, h = c["w"], c["h"]
    names = [f"im{i}.png" for i in range(c["images"])]
    centers = g.integers(0, 120, (20, 128)).astype(np.float32)
    np.savez(os.path.join(root, "words.npz"), words=centers, frequencies=np.ones(20))
    cfg = {"processes": c["processes"], "read_processes": c["read"], "features_bake_segmentation": c["bake"],
           "segmentation_ignore_values": [2], "matcher_type": "WORDS" if c["words"] else "FLANN",
           "bow_file": os.path.join(root, "words.npz"), "bow_words_to_match": 4, "bow_matcher_type": "BruteForce",
           "feature_min_frames": 300, "feature_process_size": 2048}
    cam = pygeometry.Camera.create_perspective(0.8, 0, 0)
    cam.id, cam.width, cam.height = "cam", w, h
    exif = {"camera": "cam", "width": w, "height": h, "orientation": c["orientation"]}
    data = make_dataset(root, cfg, names, exif, cam)
    images, masks_, segs = {}, {}, {}
    up = (w, h) if c["orientation"] < 6 else (h, w)
    for n in names:
        im = cv2.GaussianBlur(g.integers(0, 256, (h, w, 3)).astype(np.uint8), (0, 0), 2.0)
        im = cv2.normalize(im, None, 0, 255, cv2.NORM_MINMAX)
        images[n] = im[:, :, ::-1]
        write_png(os.path.join(root, "images", n), im)
        if c["mask"]:
            masks_[n] = np.kron(g.choice([0, 255], (4, 4)), np.ones((9, 9))).astype(np.uint8)
            write_png(os.path.join(root, "masks", n + ".png"), masks_[n])
        if c["segmentation"]:
            segs[n] = np.kron(g.choice([0, 1, 2], (4, 4)), np.ones((9, 9))).astype(np.uint8)
            write_png(os.path.join(root, "segmentations", n + ".png"), segs[n])
    data.load_mask_list()
    untouched = None
    if len(names) > 1:
        # features of the first image exist already
        untouched = features.FeaturesData(np.zeros((1, 4)), np.ones((1, 128)), np.zeros((1, 3)), None)
        data.save_features(names[0], untouched)
        if c["words"]:
            data.save_words(names[0], np.zeros((1, 4)))
    features_processing.run_features_processing(data, names, c["force"])
    for k, n in enumerate(names):
        f = data.load_features(n)
        if k == 0 and untouched is not None and not c["force"]:
            check(len(f.points) == 1, "existing features were computed again")
            continue
        p, d, col = features.extract_features(np.ascontiguousarray(images[n]), data.config, w == 2 * h)

        def lookup(a):
            s = max(w, h)
            u, v = ORIENT[c["orientation"]](p[:, 0] * s / w + 0.5, p[:, 1] * s / h + 0.5)
            return a[(v * a.shape[0]).astype(int), (u * a.shape[1]).astype(int)]

        ok = np.ones(len(p), bool)
        if not c["bake"]:
            if c["mask"]:
                ok &= lookup(masks_[n]) > 0
            if c["segmentation"]:
                ok &= lookup(segs[n]) != 2
        order = np.flatnonzero(ok)[np.argsort(p[ok][:, 2], kind="stable")]
        check(len(f.points) == ok.sum(), n, len(f.points), "features are stored instead of", ok.sum())
        check((np.diff(f.points[:, 2]) >= 0).all(), "features are not sorted by size")
        key = lambda a: sorted(map(tuple, np.round(np.asarray(a, float), 5).tolist()))
        have = np.c_[f.points, f.colors, np.asarray(f.descriptors, float)[:, :6]]
        want = np.c_[p[order].astype(np.float32), col[order], np.round(np.asarray(d, float)[order][:, :6])]
        if c["bake"] and c["segmentation"]:
            check(f.semantic is not None, "no segmentation is stored")
            have, want = np.c_[have, f.get_segmentation()], np.c_[want, lookup(segs[n])[order]]
        check(key(have) == key(want), "features of", n)
        if c["words"]:
            words = data.load_words(n)
            D = np.linalg.norm(np.asarray(f.descriptors, float)[:, None] - centers[None], axis=2)
            check(words.shape == (len(f.points), 4), "words of", n, words.shape)
            near = np.take_along_axis(D, words, axis=1)
            check(np.allclose(near, np.sort(D, axis=1)[:, :4], atol=1e-2), "words are not the closest ones")
        rep = json.loads(data.load_report(f"features/{n}.json"))
        check(rep["image"] == n and rep["num_features"] == len(f.points), "report", rep)
    t.nontrivial(len(names) > 2 and c["processes"] > 1)
    t.label("threads" if c["processes"] > 1 else "serial")


# -- image descriptors ----------------------------------------------------

@CHECK.sub(
    "vlad",
    st.fixed_dictionaries({
        "seed": seeds, "n": st.integers(1, 40), "k": st.integers(1, 8), "dim": st.sampled_from([1, 2, 16]),
        "others": st.lists(st.integers(0, 7), max_size=9), "missing": st.lists(st.integers(0, 7), max_size=3), "image": st.integers(0, 7),
    }), quick=400, rule="several centers and other images",
)
def vlad_(c, t):
    g = rng(c["seed"])
    X, C = g.normal(size=(c["n"], c["dim"])).astype(np.float32), g.normal(size=(c["k"], c["dim"])).astype(np.float32)
    got = vlad.unnormalized_vlad(X, C)
    D = np.linalg.norm(X[:, None].astype(float) - C[None], axis=2)
    best = D.argmin(axis=1)
    if c["k"] > 1 and (np.diff(np.sort(D, axis=1)[:, :2], axis=1) < 1e-5).any():
        raise Skip
    want = np.zeros((c["k"], c["dim"]))
    for x, b in zip(X.astype(float), best):
        want[b] += x - C[b]
    check(np.allclose(got, want.ravel(), atol=1e-4), "descriptor", got, want.ravel())
    check(vlad.unnormalized_vlad(X, np.zeros((2, c["dim"] + 1), np.float32)) is None)
    check(vlad.unnormalized_vlad(X.astype(float), C) is None)
    s = vlad.signed_square_root_normalize(want.ravel().copy())
    z = np.sign(want.ravel()) * np.sqrt(abs(want.ravel()))
    if np.linalg.norm(z) > 1e-6:
        check(np.allclose(s, z / np.linalg.norm(z), atol=1e-9), "normalized", s)
    hist = {f"im{i}": g.normal(size=5).astype(np.float32) for i in range(8) if i not in c["missing"]}
    me = f"im{c['image']}"
    image, dist, other = vlad.vlad_distances(me, [f"im{i}" for i in c["others"]], hist)
    check(image == me)
    names = {f"im{i}" for i in c["others"]} - {me}
    want = {o: np.linalg.norm(hist[me] - hist[o]) for o in names if o in hist} if me in hist else {}
    check(sorted(other) == sorted(want), "images compared", other, sorted(want))
    check(len(dist) == len(other) and all(abs(d - want[o]) < 1e-4 for d, o in zip(dist, other)), "distances", dist, want)
    t.nontrivial(c["k"] > 1 and len(want) > 1)


@CHECK.sub(
    "bag_of_words",
    st.fixed_dictionaries({
        "seed": seeds, "v": st.integers(2, 30), "n": st.integers(1, 40), "m": st.integers(1, 40), "dim": st.sampled_from([2, 8]), "k": st.integers(1, 6),
    }), quick=250, rule="several words are used",
)
def bag(c, t):
    g = rng(c["seed"])
    W = g.normal(size=(c["v"], c["dim"])).astype(np.float32)
    freq = g.integers(1, 100, c["v"]).astype(float)
    b = bow.BagOfWords(W, freq)
    check(np.allclose(b.weights, np.log(freq.sum() / freq)), "weights")
    X = g.normal(size=(c["n"], c["dim"])).astype(np.float32)
    k = min(c["k"], c["v"])
    D = np.linalg.norm(X[:, None].astype(float) - W[None], axis=2)
    for matcher in ("BruteForce", "FLANN"):
        idx = b.map_to_words(X, k, matcher)
        check(idx.shape == (c["n"], k), matcher, idx.shape)
        got = np.take_along_axis(D, np.asarray(idx).astype(int), axis=1)
        best = np.sort(D, axis=1)[:, :k]
        check((np.diff(got, axis=1) > -1e-4).all() and all(len(set(r)) == k for r in idx.tolist()), matcher, "order of the words", got)
        if matcher == "BruteForce":
            check(np.allclose(got, best, atol=1e-4), "words are not the nearest")
        elif len(X) >= 10:
            # an approximate search
            check(np.mean(got[:, 0] <= best[:, 0] + 1e-4) > 0.5, "most approximate words are not the nearest", got, best)
    w1, w2 = g.integers(0, c["v"], c["n"]), g.integers(0, c["v"], c["m"])
    H = []
    for w in (w1, w2):
        h = np.array([np.sum(w == i) * np.log(freq.sum() / freq[i]) for i in range(c["v"])])
        if h.sum() <= 0:
            raise Skip
        H.append(h / h.sum())
        check(np.allclose(b.histogram(w), H[-1], atol=1e-9), "histogram")
    d = b.bow_distance(w1, w2)
    check(abs(d - abs(H[0] - H[1]).sum()) < 1e-9 and abs(d - b.bow_distance(w2, w1)) < 1e-12, "distance", d)
    check(abs(b.bow_distance(w1, w2, *H) - d) < 1e-9 and b.bow_distance(w1, w1) < 1e-12)
    t.nontrivial(len(set(w1)) > 1)
