"""C25: images and video frames are placed where the GPX track says they were."""

import datetime
import math
import os
import sys
import time
import types as pytypes
from fractions import Fraction

import cv2
import numpy as np
import pyproj
from gen import rng, seeds, st
from harness import Check, Skip, check

sys.dont_write_bytecode = True
import contextlib
import io as pyio

with contextlib.redirect_stdout(pyio.StringIO()):
    from opensfm import geotag_from_gpx as G
    from opensfm import video

CHECK = Check("C25")
CHECK.assumptions = ["geodesy (C01); gpxpy, pyexiv2 and exiftool are not installed: stand-ins hand over the points, record what is written to each picture and say nothing about the video"]
ECEF = pyproj.Transformer.from_crs("EPSG:4979", "EPSG:4978", always_xy=True)
T0 = datetime.datetime(2021, 5, 3, 23, 40, 7)
GEOD = pyproj.Geod(a=6378137.0, b=6378137.0)  # a sphere


def place(p):
    return np.array(ECEF.transform(p[2], p[1], 0.0))


def apart(a, b):
    return float(np.linalg.norm(place(a) - place(b)))


def wrap(d):
    return (d + 180.0) % 360.0 - 180.0


def seconds(d):
    return d.total_seconds()


def make_track(g, c):
    """Points of a walk: (time, latitude, longitude, elevation)."""
    lat = {"middle": g.uniform(-60, 60), "north": g.uniform(60, 75), "equator": g.uniform(-0.003, 0.003)}[c["zone"]]
    lon = {"any": g.uniform(-179, 179), "date line": (179.999 + g.uniform(0, 0.002)), "greenwich": g.uniform(-0.003, 0.003)}[c["meridian"]]
    lon = wrap(lon)
    points, t, ele = [], T0, float(g.uniform(-200, 3000) if g.random() < 0.6 else g.normal(0, 8))  # some near sea level
    heading = g.uniform(0, 2 * math.pi)
    for k in range(c["points"]):
        points.append((t, float(lat), float(lon), None if c["flat"] == "all" or (c["flat"] == "some" and g.random() < 0.4) else ele))
        heading += g.normal(0, 0.8)
        if c["turns"] and g.random() < 0.2:
            heading += math.pi
        step = 0.0 if g.random() < c["stop"] else float(g.uniform(0.5, 80))
        lat += step * math.cos(heading) / 111e3
        lon = wrap(lon + step * math.sin(heading) / 111e3 / math.cos(math.radians(lat)))
        t += datetime.timedelta(seconds=float(g.integers(1, 4000)) / (1000 if c["fine"] else 1) + (0 if not c["fine"] else 0.5))
        ele += float(g.normal(0, 5))
    return points


TRACK = st.fixed_dictionaries({
    "seed": seeds, "points": st.integers(2, 25), "zone": st.sampled_from(["middle", "middle", "north", "equator"]), "meridian": st.sampled_from(["any", "any", "greenwich", "date line"]),
    "flat": st.sampled_from(["no", "no", "all", "some"]), "stop": st.sampled_from([0.0, 0.3]), "turns": st.booleans(), "fine": st.booleans(), "size": st.integers(0, 10),
})


def between(track, t):
    k = max(i for i, p in enumerate(track) if p[0] <= t)
    a, b = track[k], track[k + 1]
    s = (t - a[0]) / (b[0] - a[0])
    return a, b, s


def expected(track, t):
    a, b, s = between(track, t)
    lat = a[1] + s * (b[1] - a[1])
    lon = wrap(a[2] + s * wrap(b[2] - a[2]))
    ele = None if a[3] is None or b[3] is None else a[3] + s * (b[3] - a[3])
    return lat, lon, ele, a, b


def true_bearing(a, b):
    return GEOD.inv(a[2], a[1], b[2], b[1])[0] % 360.0


class FakeTag:
    def __init__(self, value):
        self.value = value


class FakeMetadata(dict):
    """What pyexiv2 would read and write, kept in WRITTEN by file name."""

    def __init__(self, filename):
        super().__init__()
        self.filename = str(filename)
        check(os.path.isfile(self.filename), "metadata of a picture that does not exist", filename)

    def read(self):
        for k, v in FILES.get(self.filename, {}).items():
            self[k] = v

    def __getitem__(self, key):
        return FakeTag(dict.__getitem__(self, key))

    def write(self):
        WRITTEN[self.filename] = {k: dict.__getitem__(self, k) for k in self}


FILES, WRITTEN = {}, {}


@contextlib.contextmanager
def stand_ins(track=None, ntracks=1):
    FILES.clear()
    WRITTEN.clear()
    saved = {k: getattr(G, k, None) for k in ("pyexiv2", "make_fraction", "gpxpy")}
    G.pyexiv2 = pytypes.SimpleNamespace(ImageMetadata=FakeMetadata)
    G.make_fraction = Fraction

    def parse(f):
        pts = [pytypes.SimpleNamespace(time=p[0], latitude=p[1], longitude=p[2], elevation=p[3]) for p in track]
        parts = [pts[k::ntracks] for k in range(ntracks)]
        segments = [[pytypes.SimpleNamespace(points=q[: len(q) // 2]), pytypes.SimpleNamespace(points=q[len(q) // 2 :])] for q in parts]
        return pytypes.SimpleNamespace(tracks=[pytypes.SimpleNamespace(segments=s) for s in segments])

    G.gpxpy = pytypes.SimpleNamespace(parse=parse)
    try:
        with contextlib.redirect_stdout(pyio.StringIO()):
            yield
    finally:
        for k, v in saved.items():
            if v is None:
                delattr(G, k)
            else:
                setattr(G, k, v)


def decode(tags, ref):
    d, m, s = (float(x) for x in tags)
    check(0 <= m <= 60 and 0 <= s <= 60 and d == int(d) and m == int(m), "degrees, minutes, seconds", tags)
    v = d + m / 60 + s / 3600
    return -v if ref in ("S", "W") else v


def written_at(tags, lat, lon, ele, info):
    got = decode(tags["Exif.GPSInfo.GPSLatitude"], tags["Exif.GPSInfo.GPSLatitudeRef"]), decode(tags["Exif.GPSInfo.GPSLongitude"], tags["Exif.GPSInfo.GPSLongitudeRef"])
    check(abs(got[0] - lat) < 2e-9 and abs(wrap(got[1] - lon)) < 2e-9, "position written", info, got, (lat, lon))
    check(lat == 0 or tags["Exif.GPSInfo.GPSLatitudeRef"] == ("N" if lat > 0 else "S"), "hemisphere", info)
    check(tags["Exif.GPSInfo.GPSLatitude"] is not None and tags["Exif.GPSInfo.GPSMapDatum"] == "WGS-84" and tags["Exif.GPSInfo.GPSImgDirectionRef"] == "T", "datum", info)
    if ele is None:
        check("Exif.GPSInfo.GPSAltitude" not in tags, "an altitude nobody measured", info)
    else:
        a = float(tags["Exif.GPSInfo.GPSAltitude"])
        check(a >= 0 and abs((-a if tags["Exif.GPSInfo.GPSAltitudeRef"] == "1" else a) - ele) < 0.0101, "altitude written", info, a, tags["Exif.GPSInfo.GPSAltitudeRef"], ele)


@CHECK.sub("interpolation", TRACK, 1500, rule="track of at least 4 points")
def interpolation(case, t):
    g = rng(case["seed"])
    track = make_track(g, case)
    span = seconds(track[-1][0] - track[0][0])
    times = [track[0][0] + datetime.timedelta(seconds=float(x) * span) for x in g.random(5)] + [p[0] for p in track[:-1]]
    for when in times:
        if not track[0][0] <= when < track[-1][0]:
            continue
        lat, lon, bearing, ele = G.interpolate_lat_lon(track, when)
        wlat, wlon, wele, a, b = expected(track, when)
        check(abs(lat - wlat) < 1e-9 and abs(wrap(lon - wlon)) < 1e-9, "position", (lat, lon), (wlat, wlon))
        check((ele is None) == (wele is None) and (ele is None or abs(ele - wele) < 1e-6), "elevation", ele, wele)
        if apart(a, b) > 0.4:
            check(0 <= bearing <= 360 and abs(wrap(bearing - true_bearing(a, b))) < 1e-3, "bearing", bearing, true_bearing(a, b))
    for when in (track[0][0] - datetime.timedelta(seconds=float(g.uniform(1e-3, 100))), track[-1][0] + datetime.timedelta(seconds=float(g.uniform(0, 100)))):
        try:
            got = G.interpolate_lat_lon(track, when)
        except ValueError:
            continue
        check(False, "a time outside of the track has a position", when, got)
    if len(track) >= 4:
        t.nontrivial()
    t.label(case["zone"], case["meridian"], case["flat"])


FAR = st.fixed_dictionaries({"seed": seeds, "size": st.just(0)})


@CHECK.sub("bearing", FAR, 2500, rule="every pair of places")
def bearing(case, t):
    g = rng(case["seed"])
    a = (None, float(np.degrees(np.arcsin(g.uniform(-1, 1)))), float(g.uniform(-180, 180)))
    b = (None, float(np.degrees(np.arcsin(g.uniform(-1, 1)))), float(g.uniform(-180, 180)))
    if abs(a[1]) > 89.9 or abs(b[1]) > 89.9:
        raise Skip("pole")
    f, _, d = GEOD.inv(a[2], a[1], b[2], b[1])
    if d < 1 or d > 1.95e7:
        raise Skip("same place or antipodes")
    got = G.compute_bearing(a[1], a[2], b[1], b[2])
    check(0 <= got <= 360 and abs(wrap(got - f)) < 1e-4, "bearing", got, f % 360)
    for value, loc in ((a[1], ["S", "N"]), (a[2], ["W", "E"]), (round(a[1]), ["S", "N"]), (a[1] / 1e4, ["S", "N"])):
        d, m, s, ref = G.to_deg(value, loc)
        check(d == int(d) and m == int(m) and 0 <= m < 60 and 0 <= s <= 60, "degrees", value, (d, m, s))
        v = d + m / 60 + s / 3600
        check(abs(v - abs(value)) < 1e-9 and (value == 0 or ref == loc[value > 0]), "degrees", value, (d, m, s, ref))
    t.nontrivial()


def along(track, k, samples, tol):
    """Every sample lies on the track, in order; gives the segments they are on."""
    seg = 0
    out = []
    for s in samples:
        best = None
        for j in range(seg, len(track) - 1):
            a, b = track[j], track[j + 1]
            if a[0] <= s[0] + datetime.timedelta(microseconds=2) and s[0] <= b[0] + datetime.timedelta(microseconds=2):
                x = min(1.0, max(0.0, (s[0] - a[0]) / (b[0] - a[0])))
                p = (None, a[1] + x * (b[1] - a[1]), wrap(a[2] + x * wrap(b[2] - a[2])))
                e = apart(p, s)
                if best is None or e < best[0]:
                    best = (e, j, x)
        check(best is not None, "sample at a time outside of the track", s)
        check(best[0] < tol, "sample off the track", best[0], s)
        a, b = track[best[1]], track[best[1] + 1]
        if a[3] is not None and b[3] is not None:
            check(s[3] is not None and abs(s[3] - (a[3] + best[2] * (b[3] - a[3]))) < 0.01, "elevation of a sample", s[3], a[3], b[3])
        elif 1e-6 < best[2] < 1 - 1e-6:
            check(s[3] is None, "elevation from nothing", s[3])
        seg = best[1]
        out.append(seg)
    return out


SAMPLE = st.fixed_dictionaries({"track": TRACK, "step": st.sampled_from([0.7, 3.0, 10.0, 45.0, 200.0]), "by": st.sampled_from(["distance", "time"]), "seed": seeds, "size": st.integers(0, 10)})


@CHECK.sub("sampling", SAMPLE, 500, rule="at least three samples")
def sampling(case, t):
    g = rng(case["track"]["seed"])
    track = make_track(g, case["track"])
    step = case["step"]
    with stand_ins():
        if case["by"] == "time":
            step = max(step, seconds(track[-1][0] - track[0][0]) / 200)
            got = G.sample_gpx(list(track), float(case["seed"] % 7), step)
        else:
            got = G.sample_gpx(list(track), step)
    check(got[0] == track[0], "first sample", got[0])
    distance = (lambda a, b: seconds(b[0] - a[0])) if case["by"] == "time" else apart
    for a, b in zip(got, got[1:]):
        check(a[0] < b[0], "samples in order", a, b)
        check(abs(distance(a, b) - step) < (1e-4 if case["by"] == "time" else 2e-3), "samples at the distance", distance(a, b), step)
    # times are rounded to microseconds, which is at most 0.1 mm of a fast track
    segs = along(track, 0, got, 1e-2)
    # no later point of the track is farther from the last sample, nor is any skipped on the way
    segs.append(len(track) - 2)
    for k, s in enumerate(got):
        for j in range(segs[k] + 1, segs[k + 1] + 1):
            check(distance(s, track[j]) < step * (1 + 1e-9) + 1e-3, "a point of the track farther than the step was passed", distance(s, track[j]), step)
    check(distance(got[-1], track[-1]) < step + 1e-3, "end of the track not sampled", distance(got[-1], track[-1]), step)
    if len(got) > 2:
        t.nontrivial()
    t.label(case["by"], case["track"]["meridian"], case["track"]["flat"])


TAGS = st.fixed_dictionaries({"track": TRACK, "offset": st.integers(-5000, 5000), "ntracks": st.integers(1, 3), "describe": st.booleans(), "outside": st.booleans(), "seed": seeds, "size": st.integers(0, 10)})


@CHECK.sub("geotags", TAGS, 400, rule="picture inside of the track")
def geotags(case, t):
    g = rng(case["seed"])
    track = make_track(rng(case["track"]["seed"]), case["track"])
    d = t.tmpdir()
    name = d + "/a.jpg"
    for n in (name, d + "/b.jpg"):
        open(n, "wb").write(b"picture")
    open(d + "/t.gpx", "w").close()
    order = [track[int(k)] for k in g.permutation(len(track))]
    with stand_ins(order, case["ntracks"]):
        read = G.get_lat_lon_time(d + "/t.gpx", "local")
        check(read == track, "track read", read[:3], track[:3])
        hours = case["offset"] % 27 - 13  # of local time, ahead of UTC
        os.environ["TZ"] = f"XXX{-hours:+d}"
        time.tzset()
        try:
            utc = G.get_lat_lon_time(d + "/t.gpx")
        finally:
            os.environ["TZ"] = "UTC"
            time.tzset()
        shift = datetime.timedelta(hours=hours)
        check(all(abs(seconds(u[0] - p[0] - shift)) < 0.5 and u[1:] == p[1:] for u, p in zip(utc, track)) and len(utc) == len(track), "track in UTC")
        span = seconds(track[-1][0] - track[0][0])
        when = track[0][0] + datetime.timedelta(seconds=round(float(g.random()) * span, 3))
        if case["outside"]:
            when = track[-1][0] + datetime.timedelta(seconds=7)
        when = min(when, track[-1][0] - datetime.timedelta(microseconds=1)) if not case["outside"] else when
        FILES[name] = {"Exif.Photo.DateTimeOriginal": when + datetime.timedelta(seconds=case["offset"]), "Exif.Image.Make": "maker"}
        orientation = int(g.integers(1, 9))
        G.add_exif_using_timestamp(name, track, case["offset"], orientation=orientation, image_description="text" if case["describe"] else None)
        if case["outside"]:
            check(name not in WRITTEN, "picture taken after the track has a position", WRITTEN)
        else:
            w = WRITTEN[name]
            lat, lon, ele, a, b = expected(track, when)
            written_at(w, lat, lon, ele, "timestamp")
            check(w["Exif.Image.Orientation"] == orientation and w["Exif.Image.Make"] == "maker" and w.get("Exif.Image.ImageDescription") == ("text" if case["describe"] else None), "other tags", w)
            if apart(a, b) > 0.4:
                check(abs(wrap(float(w["Exif.GPSInfo.GPSImgDirection"]) - true_bearing(a, b))) < 3e-3, "direction written", w["Exif.GPSInfo.GPSImgDirection"], true_bearing(a, b))
            t.nontrivial()
        # given positions, on the picture or on a copy of it
        lat, lon, bear, ele = float(g.uniform(-85, 85)), float(g.uniform(-180, 180)), float(g.uniform(0, 360)), None if case["describe"] else float(g.uniform(-300, 5000))
        G.add_gps_to_exif(name, lat, lon, bear, ele, d + "/c.jpg" if case["offset"] % 2 else None)
        target = d + "/c.jpg" if case["offset"] % 2 else name
        if case["offset"] % 2:
            check(open(target, "rb").read() == b"picture", "copy of the picture")
        w = WRITTEN[target]
        written_at(w, lat, lon, ele, "given")
        check(abs(float(w["Exif.GPSInfo.GPSImgDirection"]) - bear) < 0.0101, "direction", w["Exif.GPSInfo.GPSImgDirection"], bear)
        check(d + "/b.jpg" not in WRITTEN, "another picture was written")
    t.label("outside" if case["outside"] else "inside", case["track"]["meridian"])


VIDEO = st.fixed_dictionaries({"track": TRACK, "lead": st.integers(0, 4), "frames": st.integers(10, 60), "by": st.sampled_from(["distance", "time"]), "start": st.booleans(), "seed": seeds, "size": st.integers(0, 10)})


@CHECK.sub("videos", VIDEO, 60, thorough=800, rule="at least two frames taken")
def videos(case, t):
    g = rng(case["seed"])
    c = dict(case["track"], fine=True, points=min(case["track"]["points"], 8))
    track = make_track(rng(c["seed"]), c)
    d = t.tmpdir()
    fps = 10
    w = cv2.VideoWriter(d + "/v.avi", cv2.VideoWriter_fourcc(*"MJPG"), fps, (64, 48))
    if not w.isOpened():
        raise Skip("no video writer")
    for i in range(case["frames"]):
        w.write(np.full((48, 64, 3), 10 + 4 * i, np.uint8))
    w.release()
    start = track[0][0] - datetime.timedelta(seconds=case["lead"] if case["start"] else 0)
    with stand_ins(track):
        saved = video.Popen, G.get_lat_lon_time
        video.Popen = lambda *a, **k: pytypes.SimpleNamespace(stdout=pyio.BytesIO(b""))
        G.get_lat_lon_time = lambda f, gpx_time="utc": saved[1](f, "local")
        open(d + "/t.gpx", "w").close()
        dx, dt = (11.0, None) if case["by"] == "distance" else (1.0, 0.7)
        try:
            files = video.import_video_with_gpx(d + "/v.avi", d + "/t.gpx", d + "/out", dx, dt, start.isoformat() if case["start"] else None)
            keys = G.sample_gpx(track, dx, dt)
        finally:
            video.Popen, G.get_lat_lon_time = saved
        written = dict(WRITTEN)
    check(sorted(os.listdir(d + "/out")) == sorted(os.path.basename(f) for f in files), "pictures", files)
    want = {}
    for p in keys:
        off = seconds(p[0] - start)
        # where the video ends is left open by half a frame
        if off > 0:
            want[p[0].strftime("%Y_%m_%d_%H_%M_%S_%f")[:-3] + ".jpg"] = (p, off)
    got = {os.path.basename(f): f for f in files}
    length = case["frames"] / fps
    for n, (p, off) in want.items():
        if 1e-3 <= off < length - 0.2:
            check(n in got, "sample of the track without a picture", n, off, length)
    check(set(got) <= set(want), "pictures of no sample", sorted(set(got) - set(want)))
    for n, f in got.items():
        p, off = want[n]
        if off < length - 0.2:
            level = float(cv2.imread(f).mean())
            k = (level - 10) / 4
            check(abs(k - off * fps) < 1.3, "picture from another time of the video", k, off * fps)
        if p[0] < track[-1][0]:
            lat, lon, ele, a, b = expected(track, p[0])
            written_at(written[f], lat, lon, ele, n)
            check(written[f]["Exif.Photo.DateTimeOriginal"] == p[0] and written[f]["Exif.Image.Orientation"] == 1, "time of the picture", written[f])
    if len(got) >= 2:
        t.nontrivial()
    t.label(case["by"], "start" if case["start"] else "first point")

