"""C12: bundle adjustment minimizes the objective it documents."""

import math

import cams
import numpy as np
from ba_ref import Problem, get_params, names_of, pose_of, project_many, report, rho, set_params
from gen import rng, rodrigues, rot_angle, rotvec_of, seeds, st
from harness import Check, Skip, check
from opensfm import pybundle, pygeometry, pymap

CHECK = Check("C12")
CHECK.assumptions = [
    "the reference objective is the documented one: robustified projection, depth and relative terms, plain priors",
    "convergence is judged up to the solver's own stopping rule",
]

LOSSES = ["TrivialLoss", "HuberLoss", "SoftLOneLoss", "CauchyLoss", "ArctanLoss"]
TERMS = ["relative_motion", "relative_rotation", "common", "up", "pan", "tilt", "roll", "linear", "heatmap"]


def camera(g, t, amp):
    cam = {
        "type": t, "id": "c", "width": 64, "height": 48, "focal": float(g.uniform(0.5, 1.2)),
        "ar": float(g.uniform(0.9, 1.1)), "pp": [float(x) for x in g.uniform(-0.05, 0.05, 2)],
        "transition": float(g.uniform(0.2, 0.8)),
        "dist": [float(x) for x in amp * g.uniform(-1, 1, cams.NDIST[t]) * np.array(
            [1, 1, .5, .5, .3, .3, .1, .1, .1, .1, .1, .1])[cams.SLOTS[t]]],
    }
    return cams.settle(cam)


def jitter_camera(g, cam, amp):
    v = get_params(cam)
    d = []
    for n, x in zip(names_of(cam["type"]), v):
        k = g.uniform(-1, 1) * amp
        d.append(x * math.exp(k) if n in ("focal", "ar") else min(max(x + 0.3 * k, 0.05), 0.95) if n == "transition" else x + 0.2 * k)
    return set_params(cam, d)


def jitter_pose(g, p, amp):
    return [p[0] + g.normal(size=3) * amp * 0.3, p[1] + g.normal(size=3) * amp]


def scene(case):
    """A problem around a consistent scene; returns it with the true values."""
    g = rng(case["seed"])
    P = Problem()
    G = rodrigues(g.normal(size=3) * case["turn"])
    origin = g.normal(size=3) * case["far"]
    types = case["types"]
    true = {}
    for k, t in enumerate(types):
        c = camera(g, t, case["dist"])
        P.cameras[f"c{k}"] = {"value": c, "prior": c, "fixed": False}
    for k in range(case["rigs"]):
        p = [np.zeros(3), np.zeros(3)] if k == 0 and case["plain"] else [g.normal(size=3) * 0.1, g.normal(size=3) * 0.3]
        P.rigs[f"r{k}"] = {"value": p, "prior": p, "fixed": k == 0 and case["plain"]}
    for k in range(case["instances"]):
        R = G @ rodrigues(g.normal(size=3) * 0.15)
        c = origin + G @ (g.uniform(-1, 1, 3) * [1.5, 1.5, 0.5])
        shots = {f"s{k}_{j}": (f"c{g.integers(len(types))}", f"r{j}") for j in range(case["rigs"])}
        P.instances[f"i{k}"] = {"value": [rotvec_of(R), c], "fixed": False, "shots": shots, "prior": None}
    for k in range(case["points"]):
        p = origin + G @ np.append(g.uniform(-2, 2, 2), g.uniform(3.5, 9))
        P.points[f"p{k}"] = {"value": p, "fixed": False, "prior": None}
    st0 = P.initial()
    _, shots = P.poses(st0)
    for s, (R, c) in shots.items():
        cam = P.cameras[P.shot(s)[1]]["value"]
        for pid in P.points:
            L = R.T @ (P.points[pid]["value"] - c)
            if g.random() > case["seen"]:
                continue
            if cam["type"] != "spherical":
                a = math.atan2(math.hypot(L[0], L[1]), L[2])
                r = a if cam["type"] in cams.FISH | {"dual"} else math.tan(a)
                if a > 1.2 or r > cams.MAX_R[cam["type"]]:
                    continue
            xy = project_many(cam, L[None])[0]
            P.obs.append({"shot": s, "point": pid, "xy": xy, "sd": float(g.choice([0.002, 0.004, 0.01])), "depth": None, "L": L})
    return g, P


def add_terms(g, P, case):
    """Random terms near the scene, inconsistent by case['noise']."""
    st0 = P.initial()
    inst, shots = P.poses(st0)
    names, ins = sorted(shots), sorted(inst)
    noise = case["noise"]
    for n, kind in enumerate(case["terms"]):
        i, j, k = (names[x] for x in g.integers(0, len(names), 3))
        R, c = shots[i]
        t = {"kind": kind, "i": i, "sd": float(g.choice([0.05, 0.3, 1.0]))}
        z = R[:, 2]
        if kind in ("pan", "tilt", "roll") and math.hypot(z[0], z[1]) < 0.2:
            continue
        if kind in ("relative_motion", "linear", "common", "relative_rotation"):
            if len(ins) < 2:
                continue
            j = next(x for x in names[names.index(i):] + names if P.shot(x)[0] != P.shot(i)[0])
            k = next((x for x in names[::-1] if P.shot(x)[0] not in (P.shot(i)[0], P.shot(j)[0])), None)
            t["j"], t["k"] = j, k
            if kind == "linear":
                if k is None:
                    continue
                order = [(i, j, k), (j, k, i), (k, i, j), (i, k, j)][g.integers(4)]
                t["i"], t["j"], t["k"] = order
        if kind == "relative_motion":
            a, b = ins[0], ins[-1]
            if g.random() < 0.5:
                a, b = b, a
            (Ri, ti), (Rj, tj) = inst[a], inst[b]
            owner = {x: r for r, v in P.recs.items() for x in v["scales"]}
            if not owner:
                break
            si, sj = (st0["recs"][owner[x]][x] for x in (a, b))
            t.update(i=a, j=b, r=rotvec_of(Rj.T @ Ri) + noise * g.normal(size=3), t=sj * (Rj.T @ (ti - tj)) + noise * g.normal(size=3),
                     s=float(sj / si * math.exp(noise * g.normal())), mult=float(g.choice([0.5, 1.0, 3.0])), observed=bool(g.random() < 0.6),
                     matrix=g.normal(size=(7, 7)).tolist() if g.random() < 0.5 else None)
        elif kind == "relative_rotation":
            t.update(r=rotvec_of(shots[t["j"]][0].T @ R) + noise * g.normal(size=3),
                     matrix=g.normal(size=(3, 3)).tolist() if g.random() < 0.5 else None)
        elif kind == "common":
            t.update(margin=float(g.choice([0.0, 0.3, 1.0])), sd=float(g.choice([0.3, 1.0, 5.0])))
        elif kind == "up":
            t["v"] = (R.T @ [0, 0, 1] + noise * g.normal(size=3)) * g.uniform(0.2, 12)
        elif kind == "pan":
            t["angle"] = float(math.atan2(z[0], z[1]) + noise * g.normal())
        elif kind == "tilt":
            t["angle"] = float(-math.atan2(z[2], math.hypot(z[0], z[1])) + noise * g.normal())
        elif kind == "roll":
            lev = np.cross(z, [0, 0, 1])
            lev /= np.linalg.norm(lev)
            t["angle"] = float(math.atan2(z @ np.cross(R[:, 0], lev), R[:, 0] @ lev) + noise * g.normal())
        if kind in ("pan", "tilt", "roll"):
            t["angle"] = (t["angle"] + math.pi) % (2 * math.pi) - math.pi
            if kind != "tilt" and case.get("south"):  # on the other side of south
                t["angle"] = float(g.uniform(-math.pi, math.pi))
        if kind == "linear":
            u = [shots[t[x]][1] for x in "ijk"]
            t.update(alpha=float(np.linalg.norm(u[1] - u[0]) / np.linalg.norm(u[2] - u[0]) + noise * g.normal()), rsd=float(g.choice([0.1, 1.0])))
        elif kind == "heatmap":
            h, w = (int(x) for x in g.integers(2, 7, 2))
            t.update(grid=g.normal(size=(h, w)).tolist(), res=float(g.choice([0.3, 1.0])), n=n,
                     x=float(c[0] + g.normal()), y=float(c[1] + g.normal()))
        P.terms.append(t)


def dress(g, P, case):
    """Priors, depths, deviations, outliers and a start away from the scene."""
    ins = sorted(P.instances)
    for o in P.obs:
        if g.random() < case["depths"]:
            radial = bool(g.random() < 0.5)
            d = np.linalg.norm(o["L"]) if radial else o["L"][2]
            o["depth"] = (float(d + case["noise"] * g.normal()), float(g.choice([0.1, 1.0])), radial)
        o["xy"] = o["xy"] + 0.01 * case["noise"] * g.normal(size=2)
        if g.random() < case["outliers"]:
            o["xy"] = o["xy"] + g.normal(size=2) * 0.05
    for k, i in enumerate(ins):
        if g.random() < case["gps"]:
            P.instances[i]["prior"] = (P.instances[i]["value"][1] + case["noise"] * g.normal(size=3),
                                       g.uniform(0.2, 2, 3), f"g{k % case['groups']}")
    for p in sorted(P.points):
        if g.random() < case["gcps"]:
            P.points[p]["prior"] = (P.points[p]["value"] + case["noise"] * g.normal(size=3), g.uniform(0.05, 1, 3), bool(g.random() < 0.6))
    for k, r in enumerate(case["recs"]):
        mine = [i for n, i in enumerate(ins) if n % len(case["recs"]) == k]
        if mine:
            P.recs[f"rec{k}"] = {"fixed": r == "fixed", "shared": r == "shared", "scales": {i: float(g.uniform(0.5, 2)) for i in mine}}
    for c in P.cameras.values():
        c["fixed"] = bool(g.random() < case["fixed"])
    for kind in (P.instances, P.points):
        for v in kind.values():
            v["fixed"] = bool(g.random() < case["fixed"])
    for k, r in P.rigs.items():
        r["fixed"] = r["fixed"] or bool(g.random() < case["fixed"])
    P.sd = [float(x) for x in g.choice([0.02, 0.1, 1.0], 9)]
    P.loss = (case["loss"], float(g.choice([0.5, 1.0, 3.0])))
    P.rel_loss = (case["rel_loss"], float(g.choice([0.5, 1.0, 3.0])))
    P.adjust_std = case["adjust_std"]


def perturb(g, P, amp):
    """Moves the start of everything that may move."""
    for c in P.cameras.values():
        c["value"] = jitter_camera(g, c["prior"], amp)
    for v in list(P.rigs.values()):
        if not (v["fixed"] and not np.any(v["value"])):
            v["value"] = jitter_pose(g, v["prior"], 0.3 * amp)
    for v in P.instances.values():
        v["value"] = jitter_pose(g, v["value"], amp)
    for v in P.points.values():
        v["value"] = v["value"] + g.normal(size=3) * amp


base = {
    "seed": seeds,
    "types": st.lists(st.sampled_from(cams.TYPES), min_size=1, max_size=2),
    "dist": st.sampled_from([0.0, 0.05, 0.3]), "rigs": st.sampled_from([1, 1, 2, 3]), "plain": st.booleans(),
    "instances": st.sampled_from([1, 2, 3, 4]), "points": st.sampled_from([0, 1, 3, 8]), "seen": st.sampled_from([1.0, 0.7]),
    "turn": st.sampled_from([0.0, 0.3, 1.0, 1.6]), "far": st.sampled_from([0.0, 1.0, 100.0]),
    "noise": st.sampled_from([0.0, 0.05, 0.3]), "outliers": st.sampled_from([0.0, 0.2]),
    "depths": st.sampled_from([0.0, 0.0, 0.5]), "gps": st.sampled_from([0.0, 0.7, 1.0]), "groups": st.sampled_from([1, 2]),
    "gcps": st.sampled_from([0.0, 0.4]), "recs": st.lists(st.sampled_from(["shared", "free", "fixed"]), min_size=1, max_size=2),
    "fixed": st.sampled_from([0.0, 0.0, 0.3]), "loss": st.sampled_from(LOSSES), "rel_loss": st.sampled_from(LOSSES),
    "adjust_std": st.sampled_from([False, False, True]), "amp": st.sampled_from([0.0, 0.02, 0.1]),
    "terms": st.lists(st.sampled_from(TERMS), max_size=4), "analytic": st.booleans(), "gauge": st.sampled_from([0, 0, 1]),
}


def make(case):
    g, P = scene(case)
    dress(g, P, case)
    add_terms(g, P, case)
    ins = sorted(P.instances)
    if case["gauge"] and len(ins) > 1:
        P.gauge = tuple(sorted(P.instances[i]["shots"])[0] for i in (ins[0], ins[-1]))
    perturb(g, P, case["amp"])
    return g, P


def close(a, b, rel=2e-5):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-9


def same_block(P, a, b, key):
    x, y = a[key[0]][key[1]], b[key[0]][key[1]]
    if key[0] == "instances" or key[0] == "rigs":
        return rot_angle(rodrigues(x[0]).T @ rodrigues(y[0])) < 1e-9 and np.allclose(x[1], y[1], rtol=1e-12, atol=1e-12)
    if key[0] == "recs":
        return all(abs(x[k] - y[k]) <= 1e-12 for k in x)
    return np.allclose(x, y, rtol=1e-12, atol=1e-12)


def judge_errors(P, ba, st1, unit=1.0):
    want = {}
    for o, (r, _) in zip(P.obs, P.reprojections(st1)):
        want.setdefault(o["point"], {})[o["shot"]] = r
    for pid in P.points:
        got = ba.get_point(pid).reprojection_errors
        w = want.get(pid, {})
        check(set(got) == set(w), "errors of", pid, "are of", sorted(got), "not", sorted(w))
        for s in w:
            check(np.allclose(np.ravel(got[s]), w[s], atol=1e-9 + 1e-7 * np.linalg.norm(w[s])), "reprojection error of", pid, "in", s, got[s], w[s])


@CHECK.sub("objective", st.fixed_dictionaries({**base, "south": st.sampled_from([False, False, True])}), quick=1500, rule="the problem has at least two kinds of terms and something moves")
def objective(case, t):
    g, P = make(case)
    st0 = P.initial()
    ba = P.build(case["analytic"], iterations=int(g.choice([0, 1, 3, 20])))
    ba.run()
    first, last, _ = report(ba)
    st1 = P.read(ba)
    want = P.cost(st0)
    if P.vertical(st0) or P.vertical(st1):
        raise Skip("looks straight up")
    if any(np.linalg.norm(st1["rigs"][k][0] - r["prior"][0]) > 2 for k, r in P.rigs.items()):
        raise Skip("rig rotation vectors beyond half a turn")
    kinds = {b[3] for b in P.blocks(st0)}
    t.nontrivial(len(kinds) > 1 and want > 1e-6)
    t.label(*kinds)
    t.label("analytic" if case["analytic"] else "autodiff", *case["types"])
    check(close(first, want), "initial cost", first, "reference", want, sorted(kinds))
    check(last <= first * (1 + 1e-6) + 1e-12, "cost grew from", first, "to", last)
    if P.adjust_std:
        best = P.cost(st1, None)
        check(last >= best * (1 - 1e-4) - 1e-5 - 1e-3 * first, "final cost", last, "below the least possible", best)
    else:
        # the solver reports the cost of a step it rejects for gaining less than a thousandth of the prediction
        end = P.cost(st1)
        check(close(last, end) or end * (1 - 1e-6) - 1e-3 * first <= last <= end, "final cost", last, "reference at the result", P.cost(st1), sorted(kinds))
    free = {f[:2] for f in P.free()}
    for kind in ("cameras", "rigs", "instances", "points", "recs"):
        for k in st0[kind]:
            if (kind, k) not in free and k not in [c for c, v in P.cameras.items() if v["value"]["type"] == "spherical"]:
                check(same_block(P, st0, st1, (kind, k)), "fixed", kind, k, "moved", st0[kind][k], st1[kind][k])
    judge_errors(P, ba, st1)


@CHECK.sub("optimum", st.fixed_dictionaries({**base, "adjust_std": st.just(False), "gauge": st.just(0),
                                            "terms": st.lists(st.sampled_from([x for x in TERMS if x != "heatmap"]), max_size=4)}),
           quick=600, rule="the result has moved away from the start and costs something")
def optimum(case, t):
    g, P = make(case)
    ba = P.build(case["analytic"])
    ba.run()
    first, last, how = report(ba)
    t.label(how, *case["terms"])
    if how != "CONVERGENCE":
        return
    t.nontrivial(last < 0.99 * first and last > 1e-6)
    for _ in range(6):
        end = P.read(ba)
        if P.vertical(end):
            raise Skip("looks straight up")
        gain = P.gain(end)
        if gain <= 0.03 * last + 1e-7:
            break
        # the solver stops on a lack of progress: it may go on when asked again
        ba = P.restart(end).build(case["analytic"])
        ba.run()
        before, last, _ = report(ba)
        if last > before * (1 - 1e-6):
            break
    check(gain <= 0.03 * last + 2e-4 * first + 1e-7, "the objective", last, "can still be lowered by", gain, "from", first)


def spread(a, b):
    """Largest difference between two states."""
    out = [0.0]
    for kind in ("cameras", "points"):
        out += [float(np.max(np.abs(a[kind][k] - b[kind][k]), initial=0)) for k in a[kind]]
    for kind in ("rigs", "instances"):
        for k in a[kind]:
            out.append(rot_angle(rodrigues(a[kind][k][0]).T @ rodrigues(b[kind][k][0])))
            out.append(float(np.max(np.abs(a[kind][k][1] - b[kind][k][1]))))
    return max(out)


strong = {**base, "points": st.sampled_from([12, 20]), "instances": st.sampled_from([3, 4]), "seen": st.just(1.0),
          "amp": st.sampled_from([0.02, 0.05]), "far": st.sampled_from([0.0, 1.0]), "terms": st.just([]), "gauge": st.just(0),
          "adjust_std": st.just(False), "fixed": st.just(0.0)}


@CHECK.sub("derivatives", st.fixed_dictionaries({**strong, "noise": st.sampled_from([0.0, 0.05]), "pin": st.booleans()}),
           quick=600, rule="the step moved the cameras")
def derivatives(case, t):
    """Both ways of differentiating make the same steps."""
    out = []
    for analytic in (True, False):
        g, P = make(case)
        if case["pin"]:
            for i in sorted(P.instances)[:2]:
                P.instances[i]["fixed"] = True
        ba = P.build(analytic, iterations=1)
        ba.run()
        out.append((P.read(ba), report(ba)))
    (a, ra), (b, rb) = out
    move = spread(a, P.initial())
    t.nontrivial(move > 1e-4)
    t.label(*case["types"])
    check(close(ra[0], rb[0]) and close(ra[1], rb[1], 1e-4), "costs", ra, rb)
    check(spread(a, b) <= 1e-5 * (1 + move), "steps differ by", spread(a, b), "of", move)


@CHECK.sub("recover", st.fixed_dictionaries({
    **strong, "types": st.lists(st.sampled_from([x for x in cams.TYPES if x != "dual"]), min_size=1, max_size=2), "loss": st.sampled_from(["TrivialLoss", "HuberLoss", "SoftLOneLoss", "CauchyLoss"]), "amp": st.sampled_from([0.01, 0.03]),
    "noise": st.just(0.0), "outliers": st.just(0.0), "solver": st.sampled_from(["SPARSE_SCHUR", "DENSE_SCHUR", "DENSE_QR"]), "threads": st.sampled_from([1, 2]),
    "held": st.sampled_from(["two", "points", "gps"])}),
    quick=600, rule="the start is off by more than a pixel")
def recover(case, t):
    """An exact scene is recovered from a start nearby."""
    g = rng(case["seed"] + 1)
    g0, P = scene(case)
    ins = sorted(P.instances)
    truth = P.initial()
    n = {}
    for o in P.obs:
        n[o["point"]] = n.get(o["point"], 0) + 1
    per = {}
    for o in P.obs:
        per.setdefault(P.shot(o["shot"])[0], set()).add(o["point"])
    if any(n.get(p, 0) < 3 for p in P.points) or any(len(per.get(i, ())) < 8 for i in ins):
        raise Skip()
    P.loss = (case["loss"], 1.0)
    P.sd = [0.05] * 9
    if case["held"] == "gps":
        for i in ins:
            P.instances[i]["prior"] = (P.instances[i]["value"][1], np.full(3, 0.02), "g")
    elif case["held"] == "points":
        for p in sorted(P.points)[::2]:
            P.points[p]["prior"] = (P.points[p]["value"], np.full(3, 0.02), True)
    perturb(g, P, case["amp"])
    if case["held"] == "two":
        for i in ins[:2]:
            P.instances[i].update(fixed=True, value=truth["instances"][i])
    before = P.cost(P.initial())
    ba = P.build(case["analytic"])
    ba.set_linear_solver_type(case["solver"])
    ba.set_num_threads(case["threads"])
    ba.run()
    st1 = P.read(ba)
    t.nontrivial(before > 1)
    t.label(*case["types"], case["held"], case["solver"])
    err = spread(st1, truth)
    check(P.cost(st1) <= 1e-6 * before + 1e-9, "the cost went from", before, "to", P.cost(st1))
    check(err < 2e-3, "recovered with an error of", err)
    judge_errors(P, ba, st1)
