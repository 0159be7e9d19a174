"""A reference model of reconstructions and histories of edits on both."""

import copy
import math

import numpy as np
from gen import grid, rodrigues, rotvec_of, st, ugrid, vec
from harness import Skip, check
from opensfm import geo, pygeometry, pymap, types

CAMS = ["cam 0", "cam 1", "v2 é cam"]
RIGCAMS = ["rc_left", "rc_right", "rc_back"]
INSTANCES = ["rig_0", "rig_1", "shot_0"]
SHOTS = [f"shot_{i}" for i in range(6)]
PANOS = ["pano_0", "pano_1"]
POINTS = [str(i) for i in range(6)]
PANO_PREFIX = "panoshot_"


def pose_t(v):
    """(R, t) of six numbers."""
    return rodrigues(v[:3]), np.array(v[3:], float)


def make_pose(v):
    return pygeometry.Pose(np.array(v[:3], float), np.array(v[3:], float))


def compose(a, b):
    return a[0] @ b[0], a[0] @ b[1] + a[1]


def inverse(a):
    return a[0].T, -a[0].T @ a[1]


IDENT = (np.eye(3), np.zeros(3))


def is_ident(p):
    return np.array_equal(p[0], np.eye(3)) and not p[1].any()


def make_camera(name, k):
    a, b, f = 0.01 * (k % 7), -0.02 * (k % 5), 0.6 + 0.1 * (k % 6)
    kind = ["perspective", "fisheye", "brown", "spherical", "dual", "simple_radial", "radial", "fisheye_opencv", "fisheye62", "fisheye624"][k % 10]
    C = pygeometry.Camera
    pp = np.array([0.01 * (k % 3), -0.02 * (k % 2)])
    d = lambda n: np.array([0.001 * ((k * 7 + i * 3) % 11) for i in range(n)])
    asp = 1.0 + 0.05 * (k % 3)
    if kind == "perspective":
        c = C.create_perspective(f, a, b)
    elif kind == "fisheye":
        c = C.create_fisheye(f, a, b)
    elif kind == "brown":
        c = C.create_brown(f, asp, pp, d(5))
    elif kind == "spherical":
        c = C.create_spherical()
    elif kind == "dual":
        c = C.create_dual(0.1 * (k % 9), f, a, b)
    elif kind == "simple_radial":
        c = C.create_simple_radial(f, asp, pp, a)
    elif kind == "radial":
        c = C.create_radial(f, asp, pp, np.array([a, b]))
    elif kind == "fisheye_opencv":
        c = C.create_fisheye_opencv(f, asp, pp, d(4))
    elif kind == "fisheye62":
        c = C.create_fisheye62(f, asp, pp, d(8))
    else:
        c = C.create_fisheye624(f, asp, pp, d(12))
    c.id, c.width, c.height = name, 640 + 10 * (k % 9), 480 + k % 4
    return c


def camera_key(c):
    return (c.id, c.projection_type, c.width, c.height, *[float(x) for x in c.get_parameters_values()])


META = ["gps_accuracy", "gps_position", "orientation", "capture_time", "gravity_down", "compass_angle", "compass_accuracy",
        "opk_angles", "opk_accuracy", "sequence_key"]


def set_meta(m, d):
    for k, v in d.items():
        if k == "attributes":
            m.attributes = v
        else:
            getattr(m, k).value = np.array(v) if isinstance(v, (list, tuple)) else v


def get_meta(m):
    d = {}
    for k in META:
        o = getattr(m, k)
        if o.has_value:
            d[k] = tuple(float(x) for x in o.value) if k in ("gps_position", "gravity_down", "opk_angles") else o.value
    if dict(m.attributes):
        d["attributes"] = dict(m.attributes)
    return d


class ModelShot:
    def __init__(self, cam, rc, inst):
        self.cam, self.rc, self.inst = cam, rc, inst
        self.meta, self.scale, self.merge_cc, self.cov, self.mesh = {}, 1.0, 0, None, None

    def assign(self, o):
        self.meta, self.scale, self.merge_cc = dict(o.meta), o.scale, o.merge_cc
        self.cov, self.mesh = o.cov, o.mesh


class Model:
    def __init__(self):
        self.cams, self.biases, self.rcs, self.insts = {}, {}, {}, {}
        self.shots, self.panos, self.points, self.obs = {}, {}, {}, {}
        self.ref = (0.0, 0.0, 0.0)

    def members(self, inst):
        return {s: m for d in (self.shots, self.panos) for s, m in d.items() if m.inst == inst}

    def pose(self, m):
        return compose(self.rcs[m.rc], self.insts[m.inst])

    def single(self, m):
        return is_ident(self.rcs[m.rc]) and len(self.members(m.inst)) == 1

    def set_pose(self, m, p):
        self.insts[m.inst] = compose(inverse(self.rcs[m.rc]), p)

    def camera(self, name, cam):
        if name not in self.cams:
            self.cams[name] = camera_key(cam)
            self.biases[name] = (np.eye(3), np.zeros(3), 1.0)


six = st.tuples(*[ugrid(1.5)] * 3, *[ugrid(4)] * 3)
small = st.integers(0, 5)
k8 = st.integers(0, 29)
zero = lambda s: st.one_of(st.just(0.0), s, s)
meta_s = st.fixed_dictionaries({}, optional={
    "gps_accuracy": zero(grid(0, 15)), "gps_position": st.tuples(ugrid(9), ugrid(9), ugrid(9)), "orientation": st.integers(1, 8),
    "capture_time": zero(grid(0, 1.6e9)), "gravity_down": st.tuples(ugrid(1), ugrid(1), ugrid(1)), "compass_angle": zero(grid(0, 360)),
    "compass_accuracy": zero(grid(0, 9)), "sequence_key": st.sampled_from(["", "a key", "é"]),
})
meta_full = st.tuples(meta_s, st.fixed_dictionaries({}, optional={
    "opk_angles": st.tuples(ugrid(9), ugrid(9), ugrid(9)), "opk_accuracy": zero(grid(0, 2)), "attributes": st.dictionaries(st.sampled_from("ab"), st.sampled_from("xy"), min_size=1)})).map(lambda p: {**p[0], **p[1]})


def ops_strategy(with_transfers=True, extra=()):
    o = [
        st.tuples(st.just("camera"), small, k8), st.tuples(st.just("rig_camera"), small, six), st.tuples(st.just("instance"), small, st.booleans()),
        st.tuples(st.just("shot"), small, small, six), st.tuples(st.just("shot"), small, small, six), st.tuples(st.just("shot_nopose"), small, small),
        st.tuples(st.just("rig_shot"), small, small, small, small, six, st.booleans()), st.tuples(st.just("rig_shot"), small, small, small, small, six, st.booleans()),
        st.tuples(st.just("pano"), small, small, six), st.tuples(st.just("point"), small, st.tuples(ugrid(9), ugrid(9), ugrid(9)), st.tuples(*[st.integers(0, 255)] * 3), st.booleans()),
        st.tuples(st.just("point"), small, st.tuples(ugrid(9), ugrid(9), ugrid(9)), st.tuples(*[st.integers(0, 255)] * 3), st.booleans()),
        st.tuples(st.just("observe"), small, small, k8), st.tuples(st.just("observe"), small, small, k8), st.tuples(st.just("observe"), small, small, k8),
        st.tuples(st.just("observe_pano"), small, small, k8),
        st.tuples(st.just("unobserve"), small, small), st.tuples(st.just("remove_shot"), small), st.tuples(st.just("remove_pano"), small),
        st.tuples(st.just("remove_point"), small), st.tuples(st.just("clean"), st.integers(0, 3)), st.tuples(st.just("clear")),
        st.tuples(st.just("set_pose"), small, six, st.booleans()), st.tuples(st.just("instance_pose"), small, six, st.booleans()),
        st.tuples(st.just("rig_pose"), small, six), st.tuples(st.just("meta"), small, meta_full, st.booleans()),
        st.tuples(st.just("extras"), small, grid(0.5, 2), st.integers(0, 5), st.booleans(), st.booleans()),
        st.tuples(st.just("bias"), small, six, grid(0.5, 2)), st.tuples(st.just("reference"), ugrid(80), ugrid(170), ugrid(900)),
        st.tuples(st.just("move_point"), small, st.tuples(ugrid(9), ugrid(9), ugrid(9))), st.tuples(st.just("no_instance"), small),
    ]
    if with_transfers:
        o += [st.tuples(st.just("copy"), st.booleans()), st.tuples(st.just("add_shot"), small), st.tuples(st.just("add_pano"), small),
              st.tuples(st.just("add_point"), small), st.tuples(st.just("add_all"), small)]
    return st.one_of(*o, *extra)


BASE = [  # a start that most histories need
    ("camera", 0, 0), ("camera", 1, 7), ("rig_camera", 0, (0, 0, 0, 0, 0, 0)), ("rig_camera", 1, (0.1, 0.2, 0.3, 1, 0, 0)), ("instance", 0, True),
]
RICH = BASE + [
    ("camera", 2, 13), ("instance", 1, True), ("rig_camera", 0, (0,) * 6), ("rig_shot", 0, 0, 0, 0, (0.3, -0.2, 1.1, 1, 2, 3), True),
    ("rig_shot", 1, 1, 1, 0, (0,) * 6, False), ("shot", 2, 1, (0.5, 0.1, -0.7, -1, 0.5, 2)), ("shot", 3, 2, (-0.4, 1.2, 0.2, 3, 0, -2)),
    ("pano", 0, 0, (0.2, 0.2, 0.2, 1, 1, 1)), ("point", 0, (1, 2, 3), (9, 8, 7), True), ("point", 1, (-1, 0.5, 4), (1, 2, 3), True),
    ("point", 2, (0, 0, 5), (0, 0, 0), False), ("observe", 0, 0, 3), ("observe", 1, 0, 4), ("observe", 0, 1, 5), ("observe", 2, 1, 6), ("observe", 3, 2, 3),
    ("observe_pano", 0, 0, 2), ("extras", 0, 1.5, 3, True, True), ("meta", 1, {"gps_position": (1.0, 2.0, 3.0), "opk_accuracy": 0.5, "capture_time": 7.0}, True),
    ("reference", 47.0, 8.0, 400.0), ("bias", 0, (0.1, 0.2, 0.3, 1, 2, 3), 1.2),
]
START = {"empty": [], "base": BASE, "rich": RICH}


def histories(op, sizes=(1, 3, 8, 20, 40)):
    """Lists of edits, not only short ones."""
    return st.sampled_from(sizes).flatmap(lambda n: st.lists(op, min_size=n, max_size=n + 3))


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False


def name_of(pool, i):
    return pool[i % len(pool)]


def add_observation(r, m, s, p, k, pano=False):
    o = pymap.Observation(0.01 * k, -0.02 * k, 0.004 + k, k, 2 * k, 3, k, 5, 6)
    if pano:
        r.map.add_observation(r.pano_shots[s], r.points[p], o)
    else:
        r.add_observation(s, p, o)
    m.obs[s, p] = (k, 0.01 * k, -0.02 * k, 0.004 + k, k, 2 * k, 3, 5, 6)


def obs_key(o):
    return (o.id, float(o.point[0]), float(o.point[1]), float(o.scale), *[int(x) for x in o.color], o.segmentation, o.instance)


def transfer_shot(r, m, r2, m2, s):
    """add_shot of the second reconstruction to the first; False where it is not defined."""
    src = m2.shots[s]
    group = m2.members(src.inst)
    if any(x in m2.panos for x in group):
        return False
    for x, g in group.items():
        mine = m.shots.get(x)
        if mine and (mine.inst != src.inst or mine.rc != g.rc):
            return False
    mine = m.members(src.inst)
    if any(x in m.panos for x in mine):
        return False
    for x, y in mine.items():
        if x not in group and y.rc in {g.rc for g in group.values()}:
            return False
    got = r.add_shot(r2.shots[s])
    check(got.id == s, "add_shot returned", got.id)
    for x, g in group.items():
        if g.cam not in m.cams and x not in m.shots:
            m.cams[g.cam] = m2.cams[g.cam]
            m.biases[g.cam] = (np.eye(3), np.zeros(3), 1.0)
        if g.rc not in m.rcs and (x not in m.shots):
            m.rcs[g.rc] = m2.rcs[g.rc]
    m.insts.setdefault(src.inst, IDENT)
    for x, g in group.items():
        if x not in m.shots:
            m.shots[x] = ModelShot(g.cam, g.rc, src.inst)
            m.shots[x].assign(g)
    m.shots[s].assign(src)
    m.set_pose(m.shots[s], m2.pose(src))
    return True


def apply(op, r, m, other=None):
    """One edit on the reconstruction and on the model. Edits that are refused must raise."""
    kind, a = op[0], op[1:]
    if kind == "camera":
        n = name_of(CAMS, a[0])
        c = make_camera(n, a[1])
        r.add_camera(c)
        m.camera(n, c)
    elif kind == "rig_camera":
        n = name_of(RIGCAMS, a[0])
        r.add_rig_camera(pymap.RigCamera(make_pose(a[1]), n))
        m.rcs.setdefault(n, pose_t(a[1]))
    elif kind == "instance":
        n = name_of(INSTANCES, a[0])
        if n not in m.insts:
            r.add_rig_instance(pymap.RigInstance(n))
            m.insts[n] = IDENT
    elif kind in ("shot", "shot_nopose"):
        s, c = name_of(SHOTS, a[0]), name_of(CAMS, a[1])
        busy = s in m.insts and any(x.rc == c for x in m.members(s).values())
        if s in m.shots or c not in m.cams:
            n = len(r.shots)
            if s in m.shots and c in m.cams and c in m.rcs and s in m.insts:
                check(raises(r.create_shot, s, c, make_pose(a[2]) if kind == "shot" else None), "a shot was created twice")
                check(len(r.shots) == n)
            return
        if busy:
            return
        r.create_shot(s, c, make_pose(a[2])) if kind == "shot" else r.create_shot(s, c)
        m.rcs.setdefault(c, IDENT)
        m.insts.setdefault(s, IDENT)
        m.shots[s] = ModelShot(c, c, s)
        if kind == "shot":
            m.set_pose(m.shots[s], pose_t(a[2]))
    elif kind == "rig_shot":
        s, c, rc, inst = name_of(SHOTS, a[0]), name_of(CAMS, a[1]), name_of(RIGCAMS, a[2]), name_of(INSTANCES, a[3])
        if s in m.shots or c not in m.cams:
            return
        if rc not in m.rcs or inst not in m.insts:
            check(raises(r.create_shot, s, c, make_pose(a[4]), rc, inst), "a shot was created in a rig that does not exist")
            return
        if any(x.rc == rc for x in m.members(inst).values()):
            return
        if a[5]:
            r.create_shot(s, c, make_pose(a[4]), rc, inst)
        else:
            r.create_shot(s, c, rig_camera_id=rc, rig_instance_id=inst)
        m.shots[s] = ModelShot(c, rc, inst)
        if a[5]:
            m.set_pose(m.shots[s], pose_t(a[4]))
    elif kind == "pano":
        s, c = name_of(PANOS, a[0]), name_of(CAMS, a[1])
        if s in m.panos or c not in m.cams or any(x.rc == PANO_PREFIX + c for x in m.members(PANO_PREFIX + s).values()):
            return
        r.create_pano_shot(s, c, make_pose(a[2]))
        m.rcs.setdefault(PANO_PREFIX + c, IDENT)
        m.insts.setdefault(PANO_PREFIX + s, IDENT)
        m.panos[s] = ModelShot(c, PANO_PREFIX + c, PANO_PREFIX + s)
        m.set_pose(m.panos[s], pose_t(a[2]))
    elif kind == "point":
        p = name_of(POINTS, a[0])
        if p in m.points:
            check(raises(r.create_point, p, np.array(a[1])), "a point was created twice")
            return
        x = r.create_point(p, np.array(a[1], float))
        color = (255, 0, 0)
        if a[3]:
            x.color, color = np.array(a[2]), tuple(a[2])
        m.points[p] = (tuple(map(float, a[1])), color)
    elif kind == "move_point":
        p = name_of(POINTS, a[0])
        if p in m.points:
            r.points[p].coordinates = np.array(a[1], float)
            m.points[p] = (tuple(map(float, a[1])), m.points[p][1])
    elif kind in ("observe", "observe_pano"):
        pano = kind != "observe"
        s, p = name_of(PANOS if pano else SHOTS, a[0]), name_of(POINTS, a[1])
        if s not in (m.panos if pano else m.shots) or p not in m.points:
            if not pano:
                check(raises(r.add_observation, s, p, pymap.Observation(0, 0, 1, 0, 0, 0, 0)), "an observation of nothing was added")
            return
        if (s, p) in m.obs or any(x == s and o[0] == a[2] for (x, _), o in m.obs.items()):
            return  # a feature shows one point, a point has one feature in an image
        add_observation(r, m, s, p, a[2], pano)
    elif kind == "unobserve":
        s, p = name_of(SHOTS, a[0]), name_of(POINTS, a[1])
        if (s, p) in m.obs:
            r.remove_observation(s, p)
            del m.obs[s, p]
        elif s in m.shots and p in m.points:
            check(raises(r.remove_observation, s, p), "an observation that is not there was removed")
    elif kind in ("remove_shot", "remove_pano"):
        d, pool = (m.shots, SHOTS) if kind == "remove_shot" else (m.panos, PANOS)
        f = r.remove_shot if kind == "remove_shot" else r.remove_pano_shot
        s = name_of(pool, a[0])
        if s not in d:
            check(raises(f, s), "a shot that is not there was removed")
            return
        f(s)
        del d[s]
        m.obs = {k: v for k, v in m.obs.items() if k[0] != s}
    elif kind == "no_instance":
        n = name_of(INSTANCES, a[0])
        if n in m.insts and not m.members(n):
            r.remove_rig_instance(n)
            del m.insts[n]
    elif kind == "remove_point":
        p = name_of(POINTS, a[0])
        if p not in m.points:
            check(raises(r.remove_point, p), "a point that is not there was removed")
            return
        r.remove_point(p)
        del m.points[p]
        m.obs = {k: v for k, v in m.obs.items() if k[1] != p}
    elif kind == "clean":
        r.map.clean_landmarks_below_min_observations(a[0])
        n = {p: sum(k[1] == p for k in m.obs) for p in m.points}
        m.points = {p: v for p, v in m.points.items() if n[p] >= a[0]}
        m.obs = {k: v for k, v in m.obs.items() if k[1] in m.points}
    elif kind == "clear":
        r.map.clear_observations_and_landmarks()
        m.points, m.obs = {}, {}
    elif kind == "set_pose":
        s = name_of(SHOTS, a[0])
        if s not in m.shots:
            return
        if not m.single(m.shots[s]):
            check(raises(setattr, r.shots[s], "pose", make_pose(a[1])), "the pose of one shot of a rig was set")
            return
        if a[2]:
            r.shots[s].pose = make_pose(a[1])
        else:
            # in place
            r.shots[s].pose.rotation = np.array(a[1][:3], float)
            r.shots[s].pose.translation = np.array(a[1][3:], float)
        m.insts[m.shots[s].inst] = pose_t(a[1])
    elif kind == "instance_pose":
        names = sorted(m.insts)
        if not names:
            return
        n = name_of(names, a[0])
        mem = sorted(m.members(n))
        if a[2] and mem:
            # through one of its shots
            s = name_of(mem, a[0])
            r.rig_instances[n].update_instance_pose_with_shot(s, make_pose(a[1]))
            m.set_pose(m.members(n)[s], pose_t(a[1]))
        else:
            r.rig_instances[n].pose = make_pose(a[1])
            m.insts[n] = pose_t(a[1])
    elif kind == "rig_pose":
        n = name_of(RIGCAMS, a[0])
        if n in m.rcs:
            r.rig_cameras[n].pose = make_pose(a[1])
            m.rcs[n] = pose_t(a[1])
    elif kind == "meta":
        names = [(r.shots, m.shots, s) for s in sorted(m.shots)] + [(r.pano_shots, m.panos, s) for s in sorted(m.panos)]
        if names:
            view, d, s = name_of(names, a[0])
            if a[2]:
                new = pymap.ShotMeasurements()
                set_meta(new, a[1])
                view[s].metadata = new
                d[s].meta = dict(a[1])
            else:
                set_meta(view[s].metadata, a[1])
                d[s].meta.update(a[1])
    elif kind == "extras":
        s = name_of(SHOTS, a[0])
        if s in m.shots:
            x, y = r.shots[s], m.shots[s]
            x.scale, y.scale = a[1], a[1]
            x.merge_cc, y.merge_cc = a[2], a[2]
            if a[3]:
                y.cov = np.diag(np.arange(1.0, 7.0)) * a[1]
                x.covariance = y.cov
            if a[4]:
                y.mesh = (np.arange(6.0).reshape(2, 3) * a[1], np.array([[0.0, 1.0, 2.0]]))
                x.mesh.vertices, x.mesh.faces = y.mesh
    elif kind == "bias":
        n = name_of(CAMS, a[0])
        if n in m.cams:
            sim = pygeometry.Similarity(np.array(a[1][:3], float), np.array(a[1][3:], float), a[2])
            r.set_bias(n, sim)
            m.biases[n] = (*pose_t(a[1]), a[2])
        else:
            check(raises(r.set_bias, n, pygeometry.Similarity(np.zeros(3), np.zeros(3), 1.0)), "a bias of an unknown camera was set")
    elif kind == "reference":
        r.reference = geo.TopocentricConverter(*a)
        m.ref = tuple(a)
    elif kind == "copy":
        r2 = copy.deepcopy(r, {"copy_observations": True}) if a[0] else copy.deepcopy(r)
        m2 = copy.deepcopy(m)
        if not a[0]:
            m2.obs = {}
        return r2, m2
    elif kind == "add_shot":
        r2, m2 = other
        names = sorted(m2.shots)
        if names:
            transfer_shot(r, m, r2, m2, name_of(names, a[0]))
    elif kind == "add_pano":
        r2, m2 = other
        s = name_of(PANOS, a[0])
        if s in m2.panos:
            src = m2.panos[s]
            mine = m.panos.get(s)
            if mine and mine.rc != src.rc or any(x.rc == src.rc and y != s for y, x in m.members(src.inst).items()):
                return
            r.add_pano_shot(r2.pano_shots[s])
            if src.cam not in m.cams:
                m.cams[src.cam], m.biases[src.cam] = m2.cams[src.cam], (np.eye(3), np.zeros(3), 1.0)
            m.rcs.setdefault(src.rc, IDENT)
            m.insts.setdefault(src.inst, IDENT)
            if not mine:
                m.panos[s] = ModelShot(src.cam, src.rc, src.inst)
            m.panos[s].assign(src)
            m.set_pose(m.panos[s], m2.pose(src))
    elif kind == "add_point":
        r2, m2 = other
        names = sorted(set(m2.points) - set(m.points))
        if names:
            p = name_of(names, a[0])
            r.add_point(r2.points[p])
            m.points[p] = m2.points[p]
    elif kind == "add_all":
        # what the setters of whole sets do
        r2, m2 = other
        if a[0] % 2:
            r.points = {p: r2.points[p] for p in m2.points}
            m.points, m.obs = dict(m2.points), {}
        else:
            for s in sorted(m2.shots):
                transfer_shot(r, m, r2, m2, s)
    return None


def pose_of(p):
    return rodrigues(p.rotation), np.array(p.translation)


def same_pose(p, want, *what):
    R = p.get_rotation_matrix()
    s = 1 + abs(want[1]).max()
    check(abs(R - want[0]).max() < 1e-8 and abs(np.array(p.translation) - want[1]).max() < 1e-8 * s, *what, "pose", p.rotation, p.translation, "instead of", want)


def view_is(view, names, what):
    check(len(view) == len(names), what, "count", len(view), len(names))
    check(set(view.keys()) == set(names) and {k for k, _ in view.items()} == set(names), what, "names", sorted(view.keys()), sorted(names))
    check(len(list(view.values())) == len(names) and all(n in view for n in names) and "nothing" not in view, what, "views")


def compare(r, m, observations=True, ignore_mesh=False, deep=True):
    """The reconstruction is what the model says."""
    view_is(r.cameras, m.cams, "cameras")
    view_is(r.biases, m.biases, "biases")
    view_is(r.rig_cameras, m.rcs, "rig cameras")
    view_is(r.rig_instances, m.insts, "rig instances")
    view_is(r.shots, m.shots, "shots")
    view_is(r.pano_shots, m.panos, "panorama shots")
    view_is(r.points, m.points, "points")
    ref = r.reference
    check(np.allclose((ref.lat, ref.lon, ref.alt), m.ref, atol=1e-12), "reference", (ref.lat, ref.lon, ref.alt), m.ref)
    for n, key in m.cams.items():
        k = camera_key(r.cameras[n])
        check(k[:4] == key[:4] and np.allclose(k[4:], key[4:], atol=1e-12, rtol=1e-12), "camera", k, "instead of", key)
        b = r.biases[n]
        R, t, s = m.biases[n]
        check(np.allclose(rodrigues(b.rotation), R, atol=1e-9) and np.allclose(b.translation, t, atol=1e-12) and abs(b.scale - s) < 1e-12, "bias of", n)
    for n, p in m.rcs.items():
        check(r.rig_cameras[n].id == n)
        same_pose(r.rig_cameras[n].pose, p, "rig camera", n)
    for n, p in m.insts.items():
        inst = r.rig_instances[n]
        same_pose(inst.pose, p, "rig instance", n)
        mem = m.members(n)
        check(inst.id == n and set(inst.keys()) == set(mem) and set(inst.shots) == set(mem), "shots of instance", n, set(inst.keys()), set(mem))
        check(dict(inst.rig_camera_ids) == {s: x.rc for s, x in mem.items()}, "rig cameras of instance", n, dict(inst.rig_camera_ids))
        check(dict(inst.camera_ids) == {s: x.cam for s, x in mem.items()}, "cameras of instance", n, dict(inst.camera_ids))
    for view, d in ((r.shots, m.shots), (r.pano_shots, m.panos)):
        for s, x in d.items():
            y = view[s]
            check(y.id == s and y.camera.id == x.cam and y.rig_camera_id == x.rc and y.rig_instance_id == x.inst, "shot", s)
            check(y.rig_instance.id == x.inst and y.rig_camera.id == x.rc)
            same_pose(y.pose, m.pose(x), "shot", s)
            meta = get_meta(y.metadata)
            check(meta == {k: tuple(v) if isinstance(v, (list, tuple)) else v for k, v in x.meta.items()}, "metadata of", s, meta, x.meta)
            check(y.scale == x.scale and y.merge_cc == x.merge_cc, "scale and merge number of", s)
            if x.cov is not None:
                check(np.array_equal(y.covariance, x.cov), "covariance of", s)
            if x.mesh is not None and not ignore_mesh:
                check(np.allclose(y.mesh.vertices, x.mesh[0]) and np.allclose(y.mesh.faces, x.mesh[1]), "mesh of", s, y.mesh.vertices)
    for p, (xyz, color) in m.points.items():
        y = r.points[p]
        check(y.id == p and tuple(map(float, y.coordinates)) == xyz, "point", p, y.coordinates, xyz)
        check(tuple(int(v) for v in y.color) == tuple(color), "color of point", p, y.color, color)
    if not observations:
        return
    for p in m.points:
        want = {s: o[0] for (s, q), o in m.obs.items() if q == p}
        have = {s.id: f for s, f in r.points[p].get_observations().items()}
        check(have == want and r.points[p].number_of_observations() == len(want), "observations of point", p, have, want)
    for view, d in ((r.shots, m.shots), (r.pano_shots, m.panos)):
        for s in d:
            mine = {p: o for (q, p), o in m.obs.items() if q == s}
            check({p.id for p in view[s].get_valid_landmarks()} == set(mine), "points seen by", s, {p.id for p in view[s].get_valid_landmarks()}, set(mine))
            for p, o in mine.items():
                check(obs_key(view[s].get_landmark_observation(r.points[p])) == o, "observation of", p, "in", s)
                check(obs_key(view[s].get_observation(o[0])) == o, "observation by feature")
                check(view[s].get_observation_landmark(o[0]).id == p, "point of a feature")
            for k in range(30):
                if k not in {o[0] for o in mine.values()}:
                    check(view[s].get_observation_landmark(k) is None, "feature", k, "of", s, "still shows a point")
    tm = r.map.to_tracks_manager()
    got = {(s, p): obs_key(o) for s in tm.get_shot_ids() for p, o in tm.get_shot_observations(s).items()}
    check(got == m.obs, "tracks of the map", got, m.obs)
