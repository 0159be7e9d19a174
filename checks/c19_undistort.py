"""C19: undistorted images, cameras and tracks show the same scene as the originals."""

import math
import os

import cams
import cv2
import numpy as np
import scenes
from gen import grid, rng, rodrigues, rot_angle, seeds, st
from harness import Check, Skip, check
from opensfm import dataset, pygeometry, pymap, types, undistort
from opensfm.actions import undistort as undistort_action

CHECK = Check("C19")
CHECK.assumptions = ["camera models (C02), poses (C03), files (C11)"]
PLAIN = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62"]
PANORAMA = {"type": "spherical", "id": "cam", "width": 640, "height": 320, "focal": 1.0, "ar": 1.0, "pp": [0, 0], "transition": 0.0, "dist": []}
VIEWS = {"front": [0, 0, 1], "left": [-1, 0, 0], "back": [0, 0, -1], "right": [1, 0, 0], "top": [0, -1, 0], "bottom": [0, 1, 0]}


def picture(g, w, h, channels=3, wrap=False):
    """A smooth image and the function it samples, of normalized coordinates."""
    def wave():
        if wrap:  # continuous across the seam: a function of the direction
            a, p = g.normal(0, 2.0, 3), g.uniform(0, 6)
            return lambda x, y: 100 * np.sin(a[0] * np.cos(2 * np.pi * y) * np.sin(2 * np.pi * x) + a[1] * np.sin(2 * np.pi * y) + a[2] * np.cos(2 * np.pi * y) * np.cos(2 * np.pi * x) + p) + 128
        a, p = g.uniform(-1, 1, 2) * 14, g.uniform(0, 6)
        return lambda x, y: 100 * np.sin(a[0] * x + a[1] * y + p) + 128
    fs = [wave() for _ in range(channels)]
    s = max(w, h)
    X, Y = np.meshgrid((np.arange(w) - (w - 1) / 2) / s, (np.arange(h) - (h - 1) / 2) / s)
    return np.stack([f(X, Y) for f in fs], 2).round().astype(np.uint8), lambda x, y: np.stack([f(x, y) for f in fs], -1)


def normalized(w, h):
    s = max(w, h)
    X, Y = np.meshgrid((np.arange(w) - (w - 1) / 2) / s, (np.arange(h) - (h - 1) / 2) / s)
    return np.stack([X.ravel(), Y.ravel()], 1)


def camera(c, name="cam", w=640, h=480):
    k = cams.make(c)
    k.id, k.width, k.height = name, w, h
    return k


plain = cams.cameras(types=PLAIN)
sizes = st.sampled_from([(96, 64), (64, 96), (80, 80), (120, 50)])


@CHECK.sub("scene", st.fixed_dictionaries({"seed": seeds, "cameras": st.lists(st.one_of(plain, st.just(PANORAMA)), min_size=1, max_size=3), "images": st.sampled_from([1, 4]), "format": st.sampled_from(["jpg", "png"]),
                                             "tracks": st.sampled_from([True, True, False]), "rig": st.booleans(), "missing": st.booleans(), "width": st.sampled_from([64, 640])}), quick=250, rule="tracks are undistorted")
def scene(c, t):
    """The undistorted reconstruction has the same poses and points; its images see the tracks where they project."""
    g = rng(c["seed"])
    root = t.tmpdir() + "/d"
    names = [f"i{k}.{g.choice(['jpg', 'png', 'JPG'])}" for k in range(c["images"])]
    os.makedirs(root + "/images")
    missing = {names[-1]} if c["missing"] and len(names) > 1 else set()
    for n in set(names) - missing:
        open(f"{root}/images/{n}", "wb").close()
    with open(root + "/config.yaml", "w") as f:
        f.write(f"undistorted_image_format: {c['format']}\ndepthmap_resolution: {c['width']}\n")
    data = dataset.DataSet(root)
    r = types.Reconstruction()
    r.reference = scenes.converter()
    cs = [camera(k, f"cam{j}", *((640, 480) if j else (480, 640))) for j, k in enumerate(c["cameras"])]
    for k in cs:
        r.add_camera(k)
    if c["rig"]:
        for j in range(2):
            r.add_rig_camera(pymap.RigCamera(pygeometry.Pose(rodrigues(g.normal(0, 1, 3)), g.normal(0, 1, 3)), f"rc{j}"))
    cam_of = {}
    for k, n in enumerate(names):
        cam_of[n] = cs[int(g.integers(len(cs)))]
        pose = pygeometry.Pose(rodrigues(g.normal(0, 1, 3)), g.normal(0, 3, 3))
        if c["rig"]:
            if k % 2 == 0:
                r.add_rig_instance(pymap.RigInstance(f"r{k // 2}")).pose = pose
            sh = r.create_shot(n, cam_of[n].id, None, f"rc{k % 2}", f"r{k // 2}")
        else:
            sh = r.create_shot(n, cam_of[n].id, pose)
        sh.metadata.capture_time.value = 1000.0 + k
        sh.metadata.orientation.value = 1
    X = g.normal(0, 8, (60, 3))
    m = pymap.TracksManager()
    want, f = {}, 0
    for i in range(len(X)):
        r.create_point(str(i), X[i]).color = [i, 2, 3]
        for n in names:
            sh = r.shots[n]
            P = sh.pose.transform(X[i])
            k = cam_of[n]
            if k.projection_type != "spherical" and (P[2] < 0.2 or math.atan2(np.hypot(P[0], P[1]), P[2]) > 0.75):
                continue
            q = np.asarray(k.project(P))
            f += 1
            m.add_observation(n, str(i), pymap.Observation(q[0], q[1], 0.01, i, 1, 2, f))
            want[n, i] = (q, P / np.linalg.norm(P), f)
    ud = dataset.UndistortedDataSet(data, root + "/u")
    before = {n: (r.shots[n].pose.get_rotation_matrix(), r.shots[n].pose.get_origin()) for n in names}
    undistort.undistort_reconstruction(m if c["tracks"] else None, r, data, ud)
    ur, = ud.load_undistorted_reconstruction()
    ids = ud.load_undistorted_shot_ids()
    done = [n for n in names if n not in missing]
    check(sorted(ids) == sorted(done), "images", sorted(ids))
    ext = lambda x: x if x.endswith("." + c["format"]) else f"{x}.{c['format']}"
    everything = []
    for n in done:
        k = cam_of[n]
        R, o = before[n]
        if k.projection_type == "spherical":
            exp = {v: ext(f"{n}_perspective_view_{v}") for v in VIEWS}
            check(ids[n] == list(exp.values()) or sorted(ids[n]) == sorted(exp.values()), "views of", n, ids[n])
            for v, d in VIEWS.items():
                sh = ur.shots[exp[v]]
                check(np.allclose(sh.pose.get_origin(), o, atol=1e-6), "origin of", exp[v])
                fwd = R @ sh.pose.get_rotation_matrix().T @ [0, 0, 1.0]
                check(np.allclose(fwd, d, atol=1e-6), v, "looks along", fwd)
                check(sh.camera.projection_type == "perspective" and abs(sh.camera.focal - 0.5) < 1e-12 and sh.camera.k1 == sh.camera.k2 == 0 and sh.camera.width == sh.camera.height == c["width"], "camera of", v)
            check(len({ur.shots[x].rig_instance_id for x in exp.values()}) == 1, "views of", n, "are not one rig")
            everything += exp.values()
        else:
            u = ext(n)
            check(ids[n] == [u], "images of", n, ids[n])
            sh = ur.shots[u]
            check(np.allclose(sh.pose.get_origin(), o, atol=1e-6) and rot_angle(sh.pose.get_rotation_matrix() @ R.T) < 1e-6, "pose of", u)
            q = sh.camera
            check(q.projection_type == "perspective" and q.k1 == 0 and q.k2 == 0 and (q.width, q.height) == (k.width, k.height), "camera of", u)
            if k.projection_type in ("perspective", "fisheye"):
                check(abs(q.focal - k.focal) < 1e-12, "focal length of", u, q.focal)
            else:
                check(min(1, k.aspect_ratio) - 1e-9 <= q.focal / k.focal <= max(1, k.aspect_ratio) + 1e-9, "focal length of", u, q.focal, "from", k.focal, k.aspect_ratio)
            everything.append(u)
        for x in ids[n]:
            md = ur.shots[x].metadata
            check(md.capture_time.value == 1000.0 + names.index(n), "capture time of", x)
    check(set(ur.shots) == set(everything), "images", sorted(ur.shots), "not", sorted(everything))
    check({p: x.coordinates.tolist() for p, x in ur.points.items()} == {str(i): X[i].tolist() for i in range(len(X))}, "points")
    check(all(ur.points[str(i)].color.tolist() == [i, 2, 3] for i in range(len(X))), "colors")
    check((ur.reference.lat, ur.reference.lon, ur.reference.alt) == (r.reference.lat, r.reference.lon, r.reference.alt), "reference")
    if not c["tracks"]:
        return
    um = ud.load_undistorted_tracks_manager()
    for n in done:
        for i in range(len(X)):
            seen = {x: um.get_observation(x, str(i)) for x in ids[n] if x in um.get_shot_ids() and str(i) in um.get_shot_observations(x)}
            if (n, i) not in want:
                check(not seen, "track", i, "is seen by", list(seen))
                continue
            q, b, f = want[n, i]
            if cam_of[n].projection_type == "spherical":
                exact = [v for v, d in VIEWS.items() if np.dot(b, d) > np.sort(np.abs(b))[-2] + 1e-5]
                for v in exact:
                    check(ext(f"{n}_perspective_view_{v}") in seen, "track", i, "is not in view", v)
                check(len(seen) == 1 or not exact, "track", i, "is seen by", list(seen))
            else:
                check(len(seen) == 1, "track", i, "is not in", n)
            for x, ob in seen.items():
                p = ur.shots[x].project(X[i])
                check(np.linalg.norm(ob.point - p) < 2e-5, "track", i, "is at", ob.point, "of", x, "where its point projects to", p)
                check(ob.id == f and ob.color.tolist() == [i, 1, 2], "observation of", i)
                t.nontrivial()


@CHECK.sub("image", st.fixed_dictionaries({"seed": seeds, "camera": plain, "size": sizes, "max": st.sampled_from([1000, 96, 40]), "kind": st.sampled_from(["image", "mask"])}), quick=250, rule="pixels are compared")
def image(c, t):
    """Every pixel of an undistorted image is the original's in the same direction."""
    g = rng(c["seed"])
    w, h = c["size"]
    k = camera(c["camera"])
    img, f = picture(g, w, h)
    r, ur = types.Reconstruction(), types.Reconstruction()
    r.add_camera(k)
    sh = r.create_shot("i.jpg", "cam", pygeometry.Pose())
    make = {"perspective": undistort.perspective_camera_from_perspective, "brown": undistort.perspective_camera_from_brown, "fisheye": undistort.perspective_camera_from_fisheye,
            "fisheye_opencv": undistort.perspective_camera_from_fisheye_opencv, "fisheye62": undistort.perspective_camera_from_fisheye62}
    ur.add_camera(make[k.projection_type](k))
    u = ur.create_shot("i.jpg", "cam", pygeometry.Pose())
    if c["kind"] == "mask":
        img = (img[:, :, 0] > 128).astype(np.uint8) * 3
    out = undistort.undistort_image(sh, [u], img, cv2.INTER_NEAREST if c["kind"] == "mask" else cv2.INTER_AREA, c["max"])
    check(list(out) == ["i.jpg"], "images", list(out))
    out = out["i.jpg"]
    s = min(1.0, c["max"] / max(w, h))
    check(abs(out.shape[0] - h * s) <= 0.5 and abs(out.shape[1] - w * s) <= 0.5, "size", out.shape, "of", (h, w), "at most", c["max"])
    H, W = out.shape[:2]
    if (W, H) != (w, h):
        return
    s = max(w, h)
    half = np.array([w, h]) / 2
    q = (np.stack(np.meshgrid(np.arange(w), np.arange(h)), 2).reshape(-1, 2) - half) / s
    b = u.camera.pixel_bearing_many(q)
    inside = np.arccos(np.clip(b[:, 2], -1, 1)) < 0.85  # where distortions do not fold
    src = np.full(q.shape, 9.0 * s)
    src[inside] = sh.camera.project_many(b[inside]) * s + half  # in pixels
    m = 1.5
    lim = np.array([w, h]) - 1
    ok = inside & (src > m).all(1) & (src < lim - m).all(1)
    out = out.reshape(H * W, -1).astype(float)
    if c["kind"] == "image":
        x = (src[ok] - lim / 2) / s
        e = np.abs(out[ok] - f(x[:, 0], x[:, 1]))
        check(len(e) == 0 or e.max() < 8, "pixel", q[ok][e.max(1).argmax()] if len(e) else 0, "differs by", e.max() if len(e) else 0)
        away = inside & ((src < -m) | (src > lim + m)).any(1)
        check((out[away] == 0).all(), "pixels outside the original are not black")
    else:
        x = np.rint(src[ok]).astype(int)
        off = np.abs(src[ok] - x).max(1) < 0.45
        check((out[ok][off, 0] == img[x[off, 1], x[off, 0]]).all(), "mask differs")
    t.nontrivial(ok.sum() > 100)
    t.label(c["kind"])


@CHECK.sub("panorama", st.fixed_dictionaries({"seed": seeds, "width": st.sampled_from([32, 33, 48, 47]), "max": st.sampled_from([1000, 20]), "kind": st.sampled_from(["image", "mask"]), "scale": st.sampled_from([1, 2])}), quick=80, rule="pixels are compared")
def panorama(c, t):
    """Every pixel of the six views of a panorama is the panorama's in the same direction."""
    g = rng(c["seed"])
    root = t.tmpdir() + "/d"
    os.makedirs(root + "/images")
    open(root + "/images/i.jpg", "wb").close()
    with open(root + "/config.yaml", "w") as f:
        f.write(f"depthmap_resolution: {c['width']}\n")
    data = dataset.DataSet(root)
    r = types.Reconstruction()
    r.add_camera(camera(PANORAMA))
    R = rodrigues(g.normal(0, 1, 3))
    sh = r.create_shot("i.jpg", "cam", pygeometry.Pose(R, g.normal(0, 1, 3)))
    ud = dataset.UndistortedDataSet(data, root + "/u")
    views = undistort.undistort_reconstruction(None, r, data, ud)["i.jpg"]
    w = 4 * c["width"] * c["scale"]
    img, f = picture(g, w, w // 2, wrap=True)
    if c["kind"] == "mask":
        img = ((img[:, :, 0] > 128) * 255).astype(np.uint8)
    out = undistort.undistort_image(sh, views, img, cv2.INTER_NEAREST if c["kind"] == "mask" else cv2.INTER_AREA, c["max"])
    check(len(out) == 6, "views", list(out))
    for v in views:
        o = out[v.id]
        n = min(c["max"], c["width"])
        check(o.shape[:2] == (n, n), "size", o.shape)
        if n != c["width"]:
            continue
        q = normalized(n, n)
        d = np.c_[q, np.full(len(q), 0.5)]
        d = d @ v.pose.get_rotation_matrix() @ R.T
        lon, lat = np.arctan2(d[:, 0], d[:, 2]), np.arctan2(-d[:, 1], np.hypot(d[:, 0], d[:, 2]))
        x, y = lon / (2 * math.pi), -lat / (2 * math.pi)
        want = f(x, y)
        o = o.reshape(n * n, -1).astype(float)
        if c["kind"] == "image":
            # near the poles neighbors in the panorama are around the corner
            ok = np.abs(lat) < 1.45
            e = np.abs(o - want)[ok]
            check(e.max() < 30 and np.median(e) < 5, v.id, "differs by", e.max(), "median", np.median(e))
        else:
            clear = np.abs(want[:, 0] - 128) > 40
            clear &= np.abs(lat) < 1.45
            bad = (o[clear, 0] > 128) != (want[clear, 0] > 128)
            check(set(np.unique(o)) <= {0, 255}, v.id, "mask has new values", np.unique(o))
            check(bad.sum() == 0, v.id, "mask differs at", bad.sum(), "of", len(bad))
        t.nontrivial()


@CHECK.sub("command", st.fixed_dictionaries({"seed": seeds, "camera": plain, "images": st.sampled_from([1, 3]), "processes": st.sampled_from([1, 2]), "skip": st.sampled_from([False, False, True]), "mask": st.booleans(), "segmentation": st.booleans(),
                                               "max": st.sampled_from([1000, 40]), "index": st.sampled_from([0, 1]), "tracks": st.booleans(), "output": st.sampled_from(["undistorted", "u2"]),
                                               "ignore": st.sampled_from([[None, None], [[1, 2], None], [None, [3]], [[1], [2, 3]], [[1], []]])}), quick=48, rule="images are undistorted")
def command(c, t):
    """The command writes every image, mask and segmentation of the reconstruction undistorted, and combines masks as labels say."""
    g = rng(c["seed"])
    w, h = 96, 64
    root = t.tmpdir() + "/d"
    for x in ("images", "masks", "segmentations"):
        os.makedirs(f"{root}/{x}")
    names = [f"i{k}.png" for k in range(c["images"])]
    with open(root + "/config.yaml", "w") as f:
        f.write(f"processes: {c['processes']}\nundistorted_image_max_size: {c['max']}\nundistorted_image_format: png\n")
        for key, v in zip(("segmentation_ignore_values", "undistorted_segmentation_ignore_values"), c["ignore"]):
            if v is not None:
                f.write(f"{key}: {v}\n")
    ignore = c["ignore"][1] if c["ignore"][1] is not None else c["ignore"][0]
    pics, masks, segs = {}, {}, {}
    for n in names:
        img, _ = picture(g, w, h)
        pics[n] = img
        cv2.imwrite(f"{root}/images/{n}", img[:, :, ::-1])
        if c["mask"] and g.random() < 0.8:
            masks[n] = (img[:, :, 1] > 90).astype(np.uint8) * int(g.choice([255, 100, 1]))
            cv2.imwrite(f"{root}/masks/{n}.png", masks[n])
        if c["segmentation"] and g.random() < 0.8:
            segs[n] = (img[:, :, 2] // 64).astype(np.uint8)
            cv2.imwrite(f"{root}/segmentations/{n}.png", segs[n])
    data = dataset.DataSet(root)
    for n in names:
        data.save_exif(n, {"width": w, "height": h, "camera": "cam", "orientation": 1})
    rs = []
    for j in range(2):
        r = types.Reconstruction()
        r.add_camera(camera(c["camera"], "cam", w, h))
        for n in names[j:] if j == 0 else names[:1]:
            r.create_shot(n, "cam", pygeometry.Pose())
        rs.append(r)
    data.save_reconstruction(rs)
    data.save_camera_models({"cam": camera(c["camera"], "cam", w, h)})
    if c["tracks"]:
        m = pymap.TracksManager()
        m.add_observation(names[0], "1", pymap.Observation(0, 0, 0.1, 1, 2, 3, 4))
        data.save_tracks_manager(m)
    undistort_action.run_dataset(data, None, c["index"], None, c["output"], c["skip"])
    data = dataset.DataSet(root)
    ud = dataset.UndistortedDataSet(data, os.path.join(root, c["output"]))
    done = names if c["index"] == 0 else names[:1]
    ur, = ud.load_undistorted_reconstruction()
    check(set(ur.shots) == set(done), "images", sorted(ur.shots))
    check(os.path.exists(os.path.join(root, c["output"], "tracks.csv")) == c["tracks"], "tracks")
    folder = lambda x: set(os.listdir(os.path.join(root, c["output"], x))) if os.path.isdir(os.path.join(root, c["output"], x)) else set()
    if c["skip"]:
        check(not folder("images") and not folder("masks") and not folder("segmentations"), "images although skipped")
        return
    check(folder("images") == set(done), "image files", folder("images"))
    check(folder("masks") == {n + ".png" for n in done if n in masks}, "mask files", folder("masks"))
    check(folder("segmentations") == {n + ".png" for n in done if n in segs}, "segmentation files", folder("segmentations"))
    for n in done:
        sh, u = rs[0].shots[n], ur.shots[n]
        for src, got, inter in ((pics[n], ud.load_undistorted_image(n), cv2.INTER_AREA), (masks.get(n), ud.load_undistorted_mask(n) if n in masks else None, cv2.INTER_NEAREST),
                                (segs.get(n), ud.load_undistorted_segmentation(n) if n in segs else None, cv2.INTER_NEAREST)):
            if src is not None:
                want = undistort.undistort_image(sh, [u], src, inter, c["max"])[n]
                check(got.shape == want.shape and (got == want).all(), "pixels of", n, got.shape, want.shape)
        check(ud.undistorted_image_size(n) == ud.load_undistorted_image(n).shape[:2], "size of", n)
        check(ud.undistorted_mask_exists(n) == (n in masks) and ud.undistorted_segmentation_exists(n) == (n in segs), "files of", n)
        comb = ud.load_undistorted_combined_mask(n)
        keep = []
        if n in masks:
            keep.append(ud.load_undistorted_mask(n) != 0)
        if n in segs and ignore:
            keep.append(~np.isin(ud.load_undistorted_segmentation(n), ignore))
            t.label("labels ignored")
        check((comb is None) == (not keep), "combined mask of", n)
        if keep:
            check(comb.shape == keep[0].shape and ((comb != 0) == np.all(keep, 0)).all(), "combined mask of", n)
    t.nontrivial()
