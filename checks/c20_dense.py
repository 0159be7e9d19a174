"""C20: depthmaps are the depths of the scene, scored, cleaned and pruned as defined."""

import math
import os

import numpy as np
from gen import rng, rodrigues, seeds, st
from harness import Check, Skip, check
from opensfm import dataset, dense, io, pydense, pygeometry, pymap, types
from opensfm.actions import compute_depthmaps as action

CHECK = Check("C20")
CHECK.assumptions = ["poses (C03), files (C11), undistorted accessors (C19)"]


# ---------------------------------------------------------------- scenes
class Scene:
    """A textured plane n.X = d, and optionally a square in front of it."""

    def __init__(self, g, square=False):
        self.n = np.array([*g.uniform(-0.35, 0.35, 2), 1.0])
        self.d = g.uniform(3, 6)
        self.square = None
        if square:
            self.square = (self.d * 0.7, g.uniform(-0.6, 0.2, 2), g.uniform(0.8, 1.2))
        self.w = [(g.uniform(-1, 1, 3) * 9 / self.d * 3, g.uniform(0, 6)) for _ in range(12)]

    def texture(self, X):
        return np.clip(128 + 26 * sum(np.sin(X @ w + p) for w, p in self.w), 0, 255)

    def hit(self, o, D):
        """Distance along rays D from o and whether it is the square."""
        s = (self.d - o @ self.n) / (D @ self.n)
        front = np.zeros(len(D), bool)
        if self.square:
            z, c, e = self.square
            q = (z - o[2]) / D[:, 2]
            P = o + q[:, None] * D
            front = (np.abs(P[:, :2] - c) < e / 2).all(1) & (q < s)
            s = np.where(front, q, s)
        return s, front

    def render(self, K, R, t, w, h):
        x, y = np.meshgrid(np.arange(w), np.arange(h))
        V = np.stack([x.ravel(), y.ravel(), np.ones(w * h)], 1) @ np.linalg.inv(K).T
        D, o = V @ R, -R.T @ t
        s, front = self.hit(o, D)
        X = o + s[:, None] * D
        # depth is s since the third coordinate of V is one
        return self.texture(X).reshape(h, w).round().astype(np.uint8), s.reshape(h, w), front.reshape(h, w)


def views(g, n, w, h, f=1.0, spread=0.5, turn=0.08):
    K = np.array([[f * max(w, h), 0, w / 2], [0, f * max(w, h), h / 2], [0, 0, 1.0]])
    out = []
    middle = g.uniform(-1, 1, 3) * [0.3, 0.3, 0.2]
    for i in range(n):
        o = np.array([*g.uniform(-1, 1, 2) * spread, g.uniform(-0.2, 0.2)]) if i else np.zeros(3)
        while i and np.linalg.norm(o) < 0.4 * spread:
            o = np.array([*g.uniform(-1, 1, 2) * spread, g.uniform(-0.2, 0.2)])
        R = rodrigues(g.normal(0, turn, 3))
        out.append((K.copy(), R, -R @ (o + middle)))
    return out


# ---------------------------------------------------------------- reference
def bilinear(img, x, y):
    H, W = img.shape
    ok = (x >= 0) & (x < W - 1) & (y >= 0) & (y < H - 1)
    x, y = np.where(ok, x, 0), np.where(ok, y, 0)
    ix, iy = x.astype(int), y.astype(int)
    dx, dy = x - ix, y - iy
    i = img.astype(float)
    ix1, iy1 = np.minimum(ix + 1, W - 1), np.minimum(iy + 1, H - 1)
    v = (1 - dy) * ((1 - dx) * i[iy, ix] + dx * i[iy, ix1]) + dy * ((1 - dx) * i[iy1, ix] + dx * i[iy1, ix1])
    return np.where(ok, v, 0)


def score(img0, img1, v0, v1, px, plane, patch):
    """Weighted normalized correlation of the patch at px and its image through the plane; also how sure that is."""
    (K1, R1, t1), (K2, R2, t2) = v0, v1
    Q = R2 @ R1.T
    a = Q @ t1 - t2
    H = K2 @ (Q + a[None, :, None] * plane[:, None, :]) @ np.linalg.inv(K1)
    x, y = px[:, 0].astype(float), px[:, 1].astype(float)
    u, v, w = (H[:, k, 0] * x + H[:, k, 1] * y + H[:, k, 2] for k in range(3))
    # first order expansion of the transfer around the center
    J = [[(H[:, r, k] * w - H[:, 2, k] * q) / w ** 2 for k in range(2)] for r, q in ((0, u), (1, v))]
    hp = (patch - 1) // 2
    A, B, Wt, edge = [], [], [], np.zeros(len(px), bool)
    c0 = img0[px[:, 1], px[:, 0]].astype(float)
    for dy in range(-hp, hp + 1):
        for dx in range(-hp, hp + 1):
            p = img0[px[:, 1] + dy, px[:, 0] + dx].astype(float)
            xx, yy = u / w + J[0][0] * dx + J[0][1] * dy, v / w + J[1][0] * dx + J[1][1] * dy
            A.append(p)
            B.append(bilinear(img1, xx, yy))
            for z, lim in ((xx, img1.shape[1] - 1), (yy, img1.shape[0] - 1)):
                edge |= (np.abs(z) < 2e-3) | (np.abs(z - lim) < 2e-3)
            Wt.append(np.exp(-(p - c0) ** 2 / 5000 - (dx * dx + dy * dy) / 50))
    A, B, Wt = np.array(A), np.array(B), np.array(Wt)
    Wt = Wt / Wt.sum(0)
    ma, mb = (Wt * A).sum(0), (Wt * B).sum(0)
    va, vb = (Wt * (A - ma) ** 2).sum(0), (Wt * (B - mb) ** 2).sum(0)
    cov = (Wt * (A - ma) * (B - mb)).sum(0)
    s = np.where((va < 0.1) | (vb < 0.1), -1, cov / np.sqrt(np.maximum(va * vb, 1e-9)))
    sure = ~edge & (va > 25) & (vb > 25) & (np.abs(w) > 1e-3)
    return s, sure


def patch_sd(img, patch):
    hp = (patch - 1) // 2
    H, W = img.shape
    s = np.full(img.shape, np.nan)
    for i in range(hp, H - hp):
        for j in range(hp, W - hp):
            s[i, j] = img[i - hp : i + hp + 1, j - hp : j + hp + 1].astype(float).std()
    return s


def plane_at(K, x, y, depth):
    """Fronto-parallel plane v.X = -1 at a depth."""
    return np.array([0, 0, -1.0]) / depth


def estimator(vs, imgs, masks, lo, hi, planes, patch, sd, iters=3):
    de = pydense.DepthmapEstimator()
    de.set_depth_range(lo, hi, planes)
    de.set_patchmatch_iterations(iters)
    de.set_patch_size(patch)
    de.set_min_patch_sd(sd)
    for (K, R, t), i, m in zip(vs, imgs, masks):
        de.add_view(K, R, t, i, m)
    return de


def flat_parts(g, img):
    img = img.copy()
    h, w = img.shape
    for _ in range(2):
        a, b = g.integers(h - 10), g.integers(w - 10)
        img[a : a + 12, b : b + 12] = g.integers(256)
    return img


@CHECK.sub("brute", st.fixed_dictionaries({"seed": seeds, "views": st.sampled_from([2, 3, 4]), "planes": st.sampled_from([1, 2, 8]), "patch": st.sampled_from([3, 5, 7, 4, 6]), "size": st.sampled_from([(26, 20), (18, 28)]), "mask": st.booleans(), "sd": st.sampled_from([0.0, 1.0, 12.0])}), quick=120, rule="scores are compared")
def brute(c, t):
    """Each pixel gets the fronto-parallel plane and neighbor of best correlation."""
    g = rng(c["seed"])
    w, h = c["size"]
    sc = Scene(g)
    vs = views(g, c["views"], w, h)
    imgs = [flat_parts(g, sc.render(*v, w, h)[0]) for v in vs]
    mask = (np.ones((h, w)) if not c["mask"] else g.random((h, w)) < 0.7).astype(np.uint8) * int(g.choice([1, 255]))
    lo, hi = sc.d * 0.6, sc.d * 1.6
    depth, plane, sco, ngh = estimator(vs, imgs, [mask] + [np.ones((h, w), np.uint8)] * (len(vs) - 1), lo, hi, c["planes"], c["patch"], c["sd"]).compute_brute_force()
    check(depth.shape == sco.shape == ngh.shape == (h, w) and plane.shape == (h, w, 3), "shapes")
    hp = (c["patch"] - 1) // 2
    sd = patch_sd(imgs[0], c["patch"])
    inner = np.zeros((h, w), bool)
    inner[hp : h - hp, hp : w - hp] = True
    check((depth[~inner] == 0).all(), "depth at the border")
    dead = inner & ((mask == 0) | (sd < c["sd"] - 1e-3))
    check((depth[dead] == 0).all(), "depth at masked or plain pixels", np.argwhere(dead & (depth != 0))[:3].tolist())
    live = inner & (mask != 0) & ~(sd < c["sd"] + 1e-3)
    yy, xx = np.nonzero(live)
    px = np.stack([xx, yy], 1)
    if len(px) == 0:
        return
    n = c["planes"]
    ds = [lo] if n == 1 else [1 / (1 / lo + k * (1 / hi - 1 / lo) / (n - 1)) for k in range(n)]
    S, sure = [], np.ones(len(px), bool)
    for d in ds:
        P = np.repeat([[0, 0, -1.0 / d]], len(px), 0)
        row = []
        for o in range(1, len(vs)):
            s, k = score(imgs[0], imgs[o], vs[0], vs[o], px, P, c["patch"])
            row.append(s)
            sure &= k
        S.append(row)
    S = np.array(S)  # planes x others x pixels
    best = np.maximum(S.reshape(-1, len(px)).max(0), 0)
    got = sco[yy, xx]
    e = np.abs(got - best)[sure]
    check(len(e) == 0 or e.max() < 0.01, "score differs by", e.max() if len(e) else 0)
    # what was chosen has that score
    for k in np.nonzero(sure & (best > 0.02))[0]:
        d, o = depth[yy[k], xx[k]], ngh[yy[k], xx[k]]
        i = int(np.argmin(np.abs(np.array(ds) - d)))
        check(abs(ds[i] - d) < 1e-3 * d, "depth", d, "is not one of", ds)
        check(1 <= o < len(vs) and S[i, o - 1, k] > best[k] - 0.01, "pixel", px[k].tolist(), "takes depth", d, "and view", o, "of score", S[i, o - 1, k] if o >= 1 else None, "not", best[k])
        check(np.allclose(plane[yy[k], xx[k]], [0, 0, -1 / d], rtol=1e-4), "plane", plane[yy[k], xx[k]])
    zero = sure & (best == 0) & (S.reshape(-1, len(px)).max(0) < -0.01)
    check((depth[yy[zero], xx[zero]] == 0).all(), "depth without correlation")
    t.nontrivial(sure.sum() > 30)


@CHECK.sub("patchmatch", st.fixed_dictionaries({"seed": seeds, "views": st.sampled_from([2, 3, 5]), "sample": st.booleans(), "iterations": st.sampled_from([0, 1, 3]), "patch": st.sampled_from([5, 7, 4, 6]), "size": st.sampled_from([(44, 32), (30, 40)]), "mask": st.booleans(), "sd": st.sampled_from([1.0, 15.0]), "flat": st.booleans()}), quick=100, rule="depths are judged")
def patchmatch(c, t):
    """Depths, planes and scores agree with each other, and with the scene."""
    g = rng(c["seed"])
    w, h = c["size"]
    sc = Scene(g)
    vs = views(g, c["views"], w, h)
    ren = [sc.render(*v, w, h) for v in vs]
    imgs = [flat_parts(g, r[0]) if c["flat"] and not i else r[0] for i, r in enumerate(ren)]
    mask = (np.ones((h, w)) if not c["mask"] else g.random((h, w)) < 0.9).astype(np.uint8) * int(g.choice([1, 255]))
    truth = ren[0][1]
    lo, hi = truth.min() * 0.7, truth.max() * 1.4
    de = estimator(vs, imgs, [mask] + [np.ones((h, w), np.uint8)] * (len(vs) - 1), lo, hi, 100, c["patch"], c["sd"], c["iterations"])
    depth, plane, sco, ngh = de.compute_patch_match_sample() if c["sample"] else de.compute_patch_match()
    hp = (c["patch"] - 1) // 2
    sd = patch_sd(imgs[0], c["patch"])
    inner = np.zeros((h, w), bool)
    inner[hp : h - hp, hp : w - hp] = True
    check((depth[~inner] == 0).all(), "depth at the border")
    dead = inner & ((mask == 0) | (sd < c["sd"] - 1e-3))
    check((depth[dead] == 0).all(), "depth at masked or plain pixels", np.argwhere(dead & (depth != 0))[:3].tolist())
    live = inner & (mask != 0) & (sd > c["sd"] + 1e-3)
    yy, xx = np.nonzero(live)
    if len(xx) == 0:
        return
    px = np.stack([xx, yy], 1)
    P, d, s, o = plane[yy, xx].astype(float), depth[yy, xx], sco[yy, xx], ngh[yy, xx]
    # the depth is where the plane meets the ray
    V = np.stack([xx, yy, np.ones(len(xx))], 1) @ np.linalg.inv(vs[0][0]).T
    dd = 1 / np.maximum(1e-6, -(P * V).sum(1))
    kept = d != 0
    check(np.allclose(d[kept], dd[kept], rtol=2e-3), "depth is not the plane's", np.abs(d - dd)[kept].max())
    for k in range(1, len(vs)):
        m = o == k
        if m.any():
            r, sure = score(imgs[0], imgs[k], vs[0], vs[k], px[m], P[m], c["patch"])
            e = np.abs(r - s[m])[sure]
            check(len(e) == 0 or np.percentile(e, 97) < 0.02, "score differs by", np.percentile(e, 97) if len(e) else 0)
    check(((o >= 1) & (o < len(vs)) | (s <= 0)).all(), "view out of range")
    if not c["sample"] and c["iterations"] == 0:
        # the view is the best one for the plane
        for k in range(1, len(vs)):
            r, sure = score(imgs[0], imgs[k], vs[0], vs[k], px, P, c["patch"])
            check((r[sure] < s[sure] + 0.02).mean() > 0.97 if sure.any() else True, "view", k, "is better")
    t.nontrivial()
    t.label(f"iterations {c['iterations']}")
    if c["iterations"] < 3 or c["views"] < 3 or c["patch"] < 5:
        return
    # visible in some other view with the whole patch
    X = (V * truth[yy, xx][:, None] - vs[0][2]) @ vs[0][1]
    seen = np.zeros(len(xx), bool)
    for K, R, tt in vs[1:]:
        q = (X @ R.T + tt) @ K.T
        q = q[:, :2] / q[:, 2:]
        seen |= ((q > hp + 1) & (q < np.array([w, h]) - hp - 2)).all(1)
    plain = patch_sd(imgs[0], c["patch"])[yy, xx] < 12
    seen &= ~plain
    if c["flat"] or c["mask"] or seen.sum() < 200:
        return
    good = kept & seen & (np.abs(d / truth[yy, xx] - 1) < 0.05)
    t.label("quality")
    frac = good.sum() / seen.sum()
    check(frac > 0.4, "share of good depths", frac)


# ---------------------------------------------------------------- consistency
def depth_views(g, n, w, h, square=True, noise=0.3):
    sc = Scene(g, square)
    vs = views(g, n, w, h)
    ds, fr = [], []
    for v in vs:
        _, d, front = sc.render(*v, w, h)
        d = d.copy()
        bad = g.random((h, w)) < noise
        d[bad] *= g.choice([1.0, 1.004, 0.996, 1.02, 0.98, 1.3, 0.7, 0.0], bad.sum())
        ds.append(d.astype(np.float32))
        fr.append(front)
    return sc, vs, ds, fr


def lift(v, d):
    K, R, tt = v
    h, w = d.shape
    x, y = np.meshgrid(np.arange(w), np.arange(h))
    V = np.stack([x.ravel(), y.ravel(), np.ones(w * h)], 1) @ np.linalg.inv(K).T
    return (V * d.astype(float).ravel()[:, None] - tt) @ R


@CHECK.sub("clean", st.fixed_dictionaries({"seed": seeds, "views": st.sampled_from([1, 2, 3, 6]), "need": st.sampled_from([1, 2, 3, 4]), "threshold": st.sampled_from([0.01, 0.003, 0.1]), "size": st.sampled_from([(24, 18), (16, 22)])}), quick=200, rule="some depths are kept and some removed")
def clean(c, t):
    """Depths seen at the same place by enough views are kept, others removed."""
    g = rng(c["seed"])
    w, h = c["size"]
    _, vs, ds, _ = depth_views(g, c["views"], w, h)
    if g.random() < 0.3:  # looking away
        K, R, tt = vs[-1]
        B = rodrigues([0, math.pi, 0])
        vs[-1] = (K, B @ R, B @ tt)
    dc = pydense.DepthmapCleaner()
    dc.set_same_depth_threshold(c["threshold"])
    dc.set_min_consistent_views(c["need"])
    for v, d in zip(vs, ds):
        dc.add_view(*v, d)
    got = dc.clean()
    X = lift(vs[0], ds[0])
    n = np.ones(w * h, int)
    maybe = np.zeros(w * h, int)
    for (K, R, tt), d in zip(vs[1:], ds[1:]):
        p = (X @ R.T + tt) @ K.T
        z = p[:, 2]
        front = z > 1e-8
        zz = np.where(front, z, 1)
        x, y = p[:, 0] / zz, p[:, 1] / zz
        e = np.abs(bilinear(d, x, y) - z) - z * c["threshold"]
        lim = np.array([w - 1, h - 1])
        near = (np.abs(x) < 1e-3) | (np.abs(y) < 1e-3) | (np.abs(x - lim[0]) < 1e-3) | (np.abs(y - lim[1]) < 1e-3)
        unsure = front & ((np.abs(e) < 1e-3 * z) | near)
        n += front & (e < 0) & ~unsure
        maybe += unsure
    keep, drop = n >= c["need"], n + maybe < c["need"]
    d0, got = ds[0].ravel(), got.ravel()
    check(got.shape == d0.shape, "shape")
    check((got[keep] == d0[keep]).all(), "consistent depth removed", np.nonzero(keep & (got != d0))[0][:5])
    check((got[drop] == 0).all(), "inconsistent depth kept", np.nonzero(drop & (got != 0))[0][:5])
    t.nontrivial((keep & (d0 != 0)).sum() > 10 and (drop & (d0 != 0)).sum() > 10)


@CHECK.sub("prune", st.fixed_dictionaries({"seed": seeds, "views": st.sampled_from([1, 2, 3, 5]), "threshold": st.sampled_from([0.01, 0.1]), "size": st.sampled_from([(24, 18), (16, 22)])}), quick=200, rule="some points are kept and some removed")
def prune(c, t):
    """Points are the depths that no other view sees better, with normal, color and label."""
    g = rng(c["seed"])
    w, h = c["size"]
    _, vs, ds, _ = depth_views(g, c["views"], w, h)
    if g.random() < 0.5:  # another focal length
        for v in vs[1:]:
            v[0][:2, :2] *= g.uniform(0.6, 1.5)
    planes = [np.concatenate([g.normal(0, 0.4, (h, w, 2)), -np.ones((h, w, 1))], 2).astype(np.float32) * g.uniform(0.2, 3) for _ in vs]
    col = [g.integers(0, 256, (h, w, 3)).astype(np.uint8) for _ in vs]
    lab = [g.integers(0, 256, (h, w)).astype(np.uint8) for _ in vs]
    dp = pydense.DepthmapPruner()
    dp.set_same_depth_threshold(c["threshold"])
    for a in zip(vs, ds, planes, col, lab):
        dp.add_view(*a[0], *a[1:])
    P, N, C, L = dp.prune()
    check(P.shape == N.shape == C.shape and P.shape[1] == 3 and len(L) == len(P), "shapes", P.shape, N.shape, C.shape, L.shape)
    X = lift(vs[0], ds[0])
    unit = [p.astype(float) / np.linalg.norm(p, axis=2, keepdims=True) for p in planes]
    area = -unit[0][..., 2].ravel() / np.where(ds[0].ravel() > 0, ds[0].ravel(), 1) * vs[0][0][0, 0]
    keep = ds[0].ravel() > 0
    unsure = np.zeros(w * h, bool)
    for (K, R, tt), d, u in zip(vs[1:], ds[1:], unit[1:]):
        p = (X @ R.T + tt) @ K.T
        z = p[:, 2]
        front = z > 1e-8
        zz = np.where(front, z, 1)
        q = p[:, :2] / zz[:, None]
        i = np.floor(q + 0.5).astype(int)
        near = (np.abs(q + 0.5 - np.rint(q + 0.5)) < 1e-3).any(1)
        ok = front & (i[:, 0] >= 0) & (i[:, 0] < w) & (i[:, 1] >= 0) & (i[:, 1] < h)
        ix, iy = np.where(ok, i[:, 0], 0), np.where(ok, i[:, 1], 0)
        do = d[iy, ix].astype(float)
        e = do - (1 - c["threshold"]) * z
        ao = -u[iy, ix, 2] / np.where(do > 0, do, 1) * K[0, 0]
        worse = ok & (e > 0) & (ao > area)
        unsure |= (near & front) | (ok & (np.abs(e) < 1e-4 * z)) | (ok & (np.abs(ao - area) < 1e-4 * area))
        keep &= ~worse
    # match the result, in order, with the pixels
    got = np.zeros(w * h, bool)
    pos = {}
    for k in range(w * h):
        if ds[0].ravel()[k] > 0:
            pos.setdefault(tuple(col[0].reshape(-1, 3)[k]) + (lab[0].ravel()[k],), []).append(k)
    for p, nn, cc, l in zip(P, N, C, L):
        ks = [k for k in pos.get(tuple(cc) + (l,), []) if np.allclose(X[k], p, atol=1e-3)]
        check(len(ks) == 1, "point", p, "is not one of a pixel")
        k = ks[0]
        check(not got[k], "point twice")
        got[k] = True
        check(np.allclose(unit[0].reshape(-1, 3)[k] @ vs[0][1], nn, atol=1e-4), "normal", nn)
    clear = ~unsure
    check((got[clear] == keep[clear]).all(), "points kept", np.nonzero(clear & (got != keep))[0][:5], got[clear & (got != keep)][:5])
    t.nontrivial(got.sum() > 10 and (~got & (ds[0].ravel() > 0)).sum() > 10 or c["views"] == 1)


# ---------------------------------------------------------------- choice of views and depths
@CHECK.sub("neighbors", st.fixed_dictionaries({"seed": seeds, "images": st.sampled_from([2, 4, 7]), "points": st.sampled_from([40, 100, 200]), "limit": st.sampled_from([0, 1, 2, 10]), "range": st.sampled_from([(0, 0), (0, 0), (1.5, 0), (0, 20.0)])}), quick=150, rule="an image has neighbors")
def neighbors(c, t):
    """Neighbors are the images with most points seen at a good angle; the depth range covers the points."""
    g = rng(c["seed"])
    r = types.Reconstruction()
    k = pygeometry.Camera.create_perspective(0.8, 0, 0)
    k.id, k.width, k.height = "cam", 640, 480
    r.add_camera(k)
    names = [f"i{j}" for j in range(c["images"])]
    o = {n: g.uniform(-1, 1, 3) * [g.choice([0.5, 2.0, 8.0]), 0.5, 0.3] for n in names}
    Rs = {n: rodrigues(g.normal(0, 0.1, 3)) for n in names}
    for n in names[: len(names) - (g.random() < 0.3)]:
        r.create_shot(n, "cam", pygeometry.Pose(Rs[n], -Rs[n] @ o[n]))
    X = np.c_[g.uniform(-3, 3, (c["points"], 2)), g.uniform(5, 12, c["points"])]
    m = pymap.TracksManager()
    see = {}
    for i in range(len(X)):
        if g.random() < 0.9:
            r.create_point(str(i), X[i])
        for n in names:
            if g.random() < 0.75:
                m.add_observation(n, str(i), pymap.Observation(0, 0, 0.1, 1, 2, 3, i))
                see.setdefault(n, set()).add(i)
    if set(see) != set(names):
        raise Skip
    common = dense.common_tracks_double_dict(m)
    check(set(common) == set(names), "images", sorted(common))
    for a in names:
        for b in names:
            if a != b:
                both = see[a] & see[b]
                check(set(map(int, common[a].get(b, []))) == (both if len(both) >= 50 else set()), "common tracks of", a, b)
    inside = {i for i in range(len(X)) if str(i) in r.points}
    for a in r.shots:
        sc = {}
        for b in r.shots:
            if a == b:
                continue
            n = lo = 0
            for i in see[a] & see[b] & inside if len(see[a] & see[b]) >= 50 else ():
                u, v = o[a] - X[i], o[b] - X[i]
                th = math.acos(np.clip(u @ v / np.linalg.norm(u) / np.linalg.norm(v), -1, 1))
                if abs(th - math.pi / 60) < 1e-7 or abs(th - math.pi / 6) < 1e-7:
                    raise Skip
                n += math.pi / 60 < th < math.pi / 6
            if n > 20:
                sc[b] = n
        got = dense.find_neighboring_images(r.shots[a], common, r, c["limit"])
        ids = [s.id for s in got]
        check(ids[0] == a and len(set(ids)) == len(ids), "first of", ids)
        check([sc.get(b) for b in ids[1:]] == sorted(sc.values(), reverse=True)[: c["limit"]], "neighbors", ids, "of", sc)
        t.nontrivial(len(ids) > 1)
        z = sorted((Rs[a] @ (X[i] - o[a]))[2] for i in see[a] & inside)
        if not z:
            continue
        mind, maxd = dense.compute_depth_range(m, r, r.shots[a], {"depthmap_min_depth": c["range"][0], "depthmap_max_depth": c["range"][1]})
        check(math.isclose(mind, c["range"][0] or np.percentile(z, 10) * 0.9, rel_tol=1e-9), "least depth", mind)
        check(math.isclose(maxd, c["range"][1] or np.percentile(z, 90) * 1.1, rel_tol=1e-9), "largest depth", maxd)


# ---------------------------------------------------------------- the command
@CHECK.sub("command", st.fixed_dictionaries({"seed": seeds, "method": st.sampled_from(["BRUTE_FORCE", "PATCH_MATCH", "PATCH_MATCH_SAMPLE"]), "images": st.sampled_from([4, 5]), "processes": st.sampled_from([1, 2]), "need": st.sampled_from([2, 3]), "size": st.sampled_from([(64, 48), (48, 60)]), "resolution": st.sampled_from([640, 40]),
                                               "matching": st.sampled_from([1, 2, 6, 6]), "mask": st.booleans(), "labels": st.booleans(), "debug": st.booleans(), "far": st.booleans(), "broken": st.sampled_from([False] * 7 + [True])}), quick=32, rule="the point cloud has points")
def command(c, t):
    """The merged point cloud lies on the scene, has its colors and labels, and nothing masked."""
    g = rng(c["seed"])
    w, h = c["size"]
    root = t.tmpdir() + "/d"
    for x in ("images", "u/images", "u/masks", "u/segmentations"):
        os.makedirs(f"{root}/{x}")
    with open(root + "/config.yaml", "w") as f:
        f.write(f"processes: {c['processes']}\ndepthmap_method: {c['method']}\ndepthmap_resolution: {c['resolution']}\ndepthmap_min_consistent_views: {c['need']}\n"
                f"depthmap_min_correlation_score: 0.6\ndepthmap_same_depth_threshold: 0.02\ndepthmap_save_debug_files: {c['debug']}\ndepthmap_num_matching_views: {c['matching']}\n")
    open(root + "/images/x.jpg", "wb").close()
    data = dataset.DataSet(root)
    ud = dataset.UndistortedDataSet(data, root + "/u")
    sc = Scene(g)
    if c["method"] == "BRUTE_FORCE":
        sc.n = np.array([0, 0, 1.0])
    vs = views(g, c["images"], w, h, spread=0.35, turn=0.02 if c["method"] == "BRUTE_FORCE" else 0.06)
    r = types.Reconstruction()
    k = pygeometry.Camera.create_perspective(1.0, 0, 0)
    k.id, k.width, k.height = "cam", w, h
    r.add_camera(k)
    names = [f"i{j}.png" for j in range(len(vs))]
    shift = np.array([37, -90, 11.0])  # the color image has three different channels
    hidden = (sc.d * 0.05, sc.d * 0.25)  # masked: points with x in this range
    for n, v in zip(names, vs):
        gray, d, _ = sc.render(*v, w, h)
        img = np.clip(gray[:, :, None].astype(float) * [1, 0.9, 0.8] + [0, 10, 30], 0, 255).astype(np.uint8)
        ud.save_undistorted_image(n, img)
        X = lift(v, d.astype(float)).reshape(h, w, 3)
        if c["mask"]:
            ud.save_undistorted_mask(n, (~((X[..., 0] > hidden[0]) & (X[..., 0] < hidden[1]))).astype(np.uint8) * 255)
        if c["labels"]:
            ud.save_undistorted_segmentation(n, np.where(X[..., 1] > 0, 7, 3).astype(np.uint8))
        r.create_shot(n, "cam", pygeometry.Pose(v[1], v[2]))
    if c["far"]:  # an image of other places without neighbors
        ud.save_undistorted_image("far.png", np.zeros((h, w, 3), np.uint8))
        r.create_shot("far.png", "cam", pygeometry.Pose())
    m = pymap.TracksManager()
    _, d, _ = sc.render(*vs[0], w, h)
    X = lift(vs[0], d)
    for j, i in enumerate(g.choice(len(X), 150, replace=False)):
        r.create_point(str(j), X[i])
        for n, (K, R, tt) in zip(names, vs):
            m.add_observation(n, str(j), pymap.Observation(0, 0, 0.1, 1, 2, 3, j))
    if c["far"]:
        m.add_observation("far.png", "0", pymap.Observation(0, 0, 0.1, 1, 2, 3, 0))
    ud.save_undistorted_reconstruction([r])
    ud.save_undistorted_tracks_manager(m)
    nb = dense.common_tracks_double_dict(m)
    has = [n for n in r.shots if len(dense.find_neighboring_images(r.shots[n], nb, r, 10)) > 1]
    if c["broken"]:
        os.remove(f"{root}/u/images/{names[0]}")
        # equal scores: the order of the views of an image is free
        sure = [n for n in has if names[0] not in [s.id for s in dense.find_neighboring_images(r.shots[n], nb, r, 10)]]
        maybe = [n for n in has if n != names[0] and n not in sure]
    action.run_dataset(data, "u", False)
    if c["broken"]:
        has = sure + [n for n in maybe if c["matching"] < len(names) and ud.raw_depthmap_exists(n)]
    check(os.path.isfile(ud.point_cloud_file()), "no point cloud")
    for n in r.shots:
        for q in (ud.raw_depthmap_exists, ud.clean_depthmap_exists, ud.pruned_depthmap_exists):
            check(q(n) == (n in has), "depthmap of", n)
    if not has:
        return
    P, N, C, L = ud.load_point_cloud()
    check(len(P) == len(N) == len(C) == len(L), "lengths")
    W, H = (w, h) if max(0, w) <= c["resolution"] else (c["resolution"], c["resolution"] * h // w)
    total = found = 0
    for n in has:
        d, pl, s, ng, ids = ud.load_raw_depthmap(n)
        check(d.shape == (H, W), "size of depthmap", d.shape, "not", (H, W))
        check(n not in list(ids) and set(ids) <= set(names), "views of", n, ids)
        check((s[d > 0] > 0.6).all(), "depths of low score")
        check((d < dense.compute_depth_range(m, r, r.shots[n], data.config)[1]).all(), "depths beyond the range")
        check(ng[d > 0].max(initial=1) <= c["matching"] and ng[d > 0].min(initial=1) >= 1, "best views", np.unique(ng))
        found += (d > 0).sum()
        cd, _, _ = ud.load_clean_depthmap(n)
        dc = pydense.DepthmapCleaner()
        dc.set_same_depth_threshold(0.02)
        dc.set_min_consistent_views(c["need"])
        for q in dense.find_neighboring_images(r.shots[n], nb, r, 10):
            if q.id in has:
                dq = ud.load_raw_depthmap(q.id)[0]
                dc.add_view(q.camera.get_K_in_pixel_coordinates(W, H), q.pose.get_rotation_matrix(), q.pose.translation, dq)
        check(np.array_equal(dc.clean(), cd), "clean depthmap of", n)
        check(((cd == d) | (cd == 0)).all(), "clean depths are not raw depths")
        pp = ud.load_pruned_depthmap(n)
        check(len(pp[0]) <= (cd > 0).sum(), "more points than depths")
        total += len(pp[0])
    check(total == len(P), "points", len(P), "not", total)
    check(found > 0, "no depths at all")
    if total == 0:
        t.label("no points")
        return
    err = np.abs(P @ sc.n - sc.d) / np.linalg.norm(sc.n) / sc.d
    check(np.median(err) < 0.03, "distance to the surface", np.median(err), "of", len(P))
    want = sc.texture(P - ((P @ sc.n - sc.d) / (sc.n @ sc.n))[:, None] * sc.n)
    wc = want[:, None] * [1, 0.9, 0.8] + [0, 10, 30]
    if (W, H) == (w, h):
        check(np.median(np.abs(C - wc)) < 12, "colors differ by", np.median(np.abs(C - wc)))
    check(np.allclose(np.linalg.norm(N, axis=1), 1, atol=1e-2), "normals")
    facing = N @ (sc.n / np.linalg.norm(sc.n))
    check(np.median(facing) < -0.7, "normals face away", np.median(facing))
    if c["labels"]:
        m_ = 0.15 * sc.d
        far = np.abs(P[:, 1]) > m_
        if far.sum() > 20:
            check(((L == 7) == (P[:, 1] > 0))[far].mean() > 0.95, "labels")
        check(set(L) <= {3, 7}, "labels", set(L))
    else:
        check((L == 0).all(), "labels", set(L))
    if c["mask"]:
        mid = (P[:, 0] > hidden[0] + 0.04 * sc.d) & (P[:, 0] < hidden[1] - 0.04 * sc.d)
        check(mid.mean() < 0.02, "masked points", mid.mean())
    debug = sorted(x for x in os.listdir(root + "/u/depthmaps") if x.endswith(".ply") and x != "merged.ply")
    if c["debug"]:
        check(set(debug) == {f"{n}.{k}.npz.ply" for n in has for k in ("raw", "clean", "pruned")}, "debug files", debug)
    else:
        check(not debug, "debug files", debug)
    t.nontrivial(len(P) > 100)
