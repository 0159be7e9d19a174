"""C16: camera, place, time and orientation of images are read from their metadata."""

import copy
import io
import json
import math
import os
import struct
from datetime import datetime, timedelta, timezone

import cams
import cv2
import numpy as np
import yaml
from c08_features import make_dataset
from gen import rng, rodrigues, rot_angle, seeds, st
from harness import Check, check
from opensfm import context, exif, geometry
from opensfm.actions import extract_metadata

CHECK = Check("C16")
CHECK.assumptions = ["the exifread and xmltodict libraries", "angles to rotation conversion (C03)"]
SENSORS = {k.lower(): v for k, v in json.load(open(os.path.join(context.BASEPATH if hasattr(context, "BASEPATH") else os.path.dirname(context.__file__), "data/sensor_data.json"))).items()}
KNOWN = yaml.safe_load(open(os.path.join(os.path.dirname(context.__file__), "data/camera_calibration.yaml")))[0]

# -- an encoder of JPEG files with EXIF and XMP ----------------------------

SIZES = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 7: 1, 10: 8}


def encode(kind, v, e):
    if kind == 2:
        return v.encode("utf-8") + b"\0"
    if kind == 1 or kind == 7:
        return bytes(v)
    if kind in (3, 4):
        return struct.pack(e + str(len(v)) + ("H" if kind == 3 else "I"), *v)
    return b"".join(struct.pack(e + ("II" if kind == 5 else "ii"), *r) for r in v)


def ifd(entries, start, e):
    """Bytes of a directory that begins at the offset start."""
    head = struct.pack(e + "H", len(entries))
    data = start + 2 + 12 * len(entries) + 4
    blob = b""
    for tag, kind, v in sorted(entries):
        raw = encode(kind, v, e)
        head += struct.pack(e + "HHI", tag, kind, len(raw) // SIZES[kind])
        if len(raw) <= 4:
            head += raw.ljust(4, b"\0")
        else:
            head += struct.pack(e + "I", data + len(blob))
            blob += raw + b"\0" * (len(raw) % 2)
    return head + b"\0\0\0\0" + blob


def jpeg(main, ex, gps, xmp, e="<"):
    """A JPEG file; main, ex, gps are lists of (tag, type, values), xmp a text."""
    body = cv2.imencode(".jpg", np.zeros((6, 10, 3), np.uint8))[1].tobytes()
    out = body[:2]
    if main or ex or gps:
        pointers = ([(0x8769, 4, [0])] if ex else []) + ([(0x8825, 4, [0])] if gps else [])
        n = 8 + len(ifd(main + pointers, 8, e))
        offsets, tail = {}, b""
        for tag, entries in ((0x8769, ex), (0x8825, gps)):
            if entries:
                offsets[tag] = n + len(tail)
                tail += ifd(entries, n + len(tail), e)
        tiff = (b"II*\0" if e == "<" else b"MM\0*") + struct.pack(e + "I", 8) + ifd(main + [(t, 4, [offsets[t]]) for t, _, _ in pointers], 8, e) + tail
        seg = b"Exif\0\0" + tiff
        out += b"\xff\xe1" + struct.pack(">H", len(seg) + 2) + seg
    if xmp:
        seg = b"http://ns.adobe.com/xap/1.0/\0" + xmp.encode("utf-8")
        out += b"\xff\xe1" + struct.pack(">H", len(seg) + 2) + seg
    return out + body[2:]


def xmp_of(attrs, elements, style, extra=""):
    ns = ' '.join(f'xmlns:{p}="http://ns/{p}/"' for p in ("drone-dji", "GPano", "Camera", "dc"))
    sep = {"line": " ", "indented": "\n    "}[style]
    a = "".join(f'{sep}{k}="{v}"' for k, v in attrs.items())
    el = "".join(f"{sep}<{k}>{v}</{k}>" for k, v in elements.items())
    return (f'<?xpacket begin="\ufeff"?><x:xmpmeta xmlns:x="adobe:ns:meta/" x:xmptk="t">{sep}<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">'
            f'{sep}<rdf:Description rdf:about="" {ns}{a}>{el}{extra}{sep}</rdf:Description>{sep}</rdf:RDF>{sep}</x:xmpmeta><?xpacket end="w"?>')


def read(data, size=(6, 10), use_size=True):
    return exif.extract_exif_from_file(io.BytesIO(data), lambda: size, use_size, name="image.jpg")


def rational(g, v, bad=False):
    den = int(g.choice([1, 10, 100, 1000, 65536]))
    num = int(round(v * den))
    return (num, 0) if bad else (num, den)


def val(r):
    return None if r[1] == 0 else r[0] / r[1]


def close(a, b, tol, *what):
    if a is None or b is None:
        check(a is b, *what, a, "not", b)
    else:
        check(abs(a - b) <= tol, *what, a, "not", b)


order = st.sampled_from(["<", ">"])
odds = st.sampled_from([0.0, 0.0, 0.25])  # how often a value is invalid
some = st.sampled_from([0.2, 0.6, 1.0])  # how often a value is there


@CHECK.sub("camera", st.fixed_dictionaries({"seed": seeds, "order": order, "odds": odds, "some": some, "use": st.booleans(),
                                            "brand": st.sampled_from(["none", "listed", "listed", "invented", "twice", "accent"])}), quick=1500, rule="the focal length is known")
def camera(case, t):
    """Size, make, model and focal length are those of the tags."""
    g = rng(case["seed"])
    has = lambda: g.random() < case["some"]
    bad = lambda: g.random() < case["odds"]
    main, ex = [], []
    size = (int(g.integers(20, 5000)), int(g.integers(20, 5000)))
    width, height = size[1], size[0]
    if has():
        w, h = int(g.integers(20, 9000)), int(g.integers(20, 9000))
        kind = int(g.choice([3, 4]))
        main += [(0x100, kind, [w]), (0x101, kind, [h])]
        if case["use"]:
            width, height = w, h
    if has():
        w, h = int(g.integers(20, 9000)), int(g.integers(20, 9000))
        kind = int(g.choice([3, 4]))
        ex += [(0xA002, kind, [w]), (0xA003, kind, [h])]
        if case["use"]:
            width, height = w, h
    make, model = "unknown", "unknown"
    listed = None
    if case["brand"] == "listed":
        keys = sorted(k for k in SENSORS if len(k.split()) > 1)
        listed = keys[g.integers(len(keys))]
        make, model = listed.split(" ", 1)
        if g.random() < 0.5:
            make, model = make.title(), model.upper()
    elif case["brand"] == "invented":
        make, model = f"Maker{g.integers(100)}", f"Z {g.integers(100)} "
    elif case["brand"] == "twice":
        make, model = "Acme", f"Acme Shot{g.integers(10)}"
    elif case["brand"] == "accent":
        make, model = "Acm\u00e9", "Mod\u00e8le 1"
    if case["brand"] != "none":
        if g.random() < 0.2:
            ex += [(0xA433, 2, make), (0xA434, 2, model)]
            main += [(0x10F, 2, "Other"), (0x110, 2, "thing")]
        else:
            main += [(0x10F, 2, make), (0x110, 2, model)]
    full = model if make == "unknown" else model.replace(make, "")
    full = (make.strip() + " " + full.strip()).strip().lower()
    f35 = f = sensor = None
    if has() and g.random() < 0.6:
        f35 = int(g.choice([0, 18, 24, 36, 55]))
        ex.append((0xA405, 3, [f35]))
    if has():
        r = rational(g, float(g.uniform(1, 60)), bad())
        ex.append((0x920A, 5, [r]))
        f = val(r)
    if has() and g.random() < 0.6:
        rx, ry = (0, 1) if g.random() < 0.2 else rational(g, float(g.uniform(50, 9000)), bad()), rational(g, float(g.uniform(50, 9000)), bad())
        unit = int(g.choice([2, 3, 4, 5, 1]))
        ex += [(0xA20E, 5, [rx]), (0xA20F, 5, [ry]), (0xA210, 3, [unit])]
        mm = {2: 25.4, 3: 10.0, 4: 1.0, 5: 0.001}.get(unit)
        px = val(rx)
        if px is not None and px <= 0:
            px = val(ry)
        if mm and px and px > 0:
            sensor = width * mm / px
    orientation = 1
    if has():
        o = int(g.integers(0, 9))
        main.append((0x112, 3, [o]))
        orientation = o or 1
    d = read(jpeg(main, ex, [], "", case["order"]), size, case["use"])
    check((d["width"], d["height"]) == (width, height), "size", d["width"], d["height"], "not", width, height)
    check(d["make"] == make and d["model"] == model, "camera", d["make"], d["model"], "not", make, model)
    check(d["orientation"] == orientation, "orientation", d["orientation"], "not", orientation)
    sensor = sensor or SENSORS.get(full)
    ratio = f35 / 36 if f35 else f / sensor if f and sensor else 0.0
    close(d["focal_ratio"], ratio, 1e-9 * max(1, ratio), "focal length")
    check(d["projection_type"] == "perspective" and d["gps"] == {} and d["capture_time"] == 0.0 and "opk" not in d, "there is nothing of this kind", d)
    parts = ["v2", make.strip(), (model if make == "unknown" else model.replace(make, "")).strip(), str(width), str(height), "perspective", str(float(d["focal_ratio"]))[:6]]
    check(d["camera"] == " ".join(parts).lower(), "name of the camera", d["camera"])
    t.nontrivial(ratio > 0)
    t.label("listed" if full in SENSORS else "not listed", "35 mm" if f35 else "")


def angle_rationals(g, v, bad):
    """Degrees, minutes and seconds in one of the usual splits."""
    v = abs(v)
    how = g.integers(3)
    if how == 0:
        d, m, s = (int(v), 1), (int(v * 60) % 60, 1), (int(round((v * 3600) % 60 * 10000)), 10000)
    elif how == 1:
        d, m, s = (int(v), 1), (int(round((v * 60) % 60 * 100000)), 100000), (0, 1)
    else:
        d, m, s = (int(round(v * 10**6)), 10**6), (0, 1), (0, 1)
    if bad:
        k = g.integers(3)
        d, m, s = [(r[0], 0) if j == k else r for j, r in enumerate((d, m, s))]
    ok = all(r[1] for r in (d, m, s))
    return [d, m, s], (val(d) + val(m) / 60 + val(s) / 3600) if ok else None


def axes_of(y, p, r):
    """Right, down and front of the image in east, north, up from yaw, pitch and roll (nadir at 0, 0, 0)."""
    # north, east, down; the top of the image is the body's x, its right the y, and the camera looks along z
    R = rodrigues([0, 0, y]) @ rodrigues([0, p, 0]) @ rodrigues([r, 0, 0])
    enu = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1.0]])
    return enu @ np.stack([R[:, 1], -R[:, 0], R[:, 2]], 1)


@CHECK.sub("place", st.fixed_dictionaries({"seed": seeds, "order": order, "odds": odds, "some": some, "xmp": st.sampled_from([None, None, "dji", "camera", "both", "none"]),
                                           "style": st.sampled_from(["line", "indented"]), "signs": st.sampled_from(["+", "+", ""]), "partial": st.booleans()}),
           quick=1500, rule="a position is known")
def place(case, t):
    """Latitude, longitude, altitude, precision and viewing direction are those of the tags."""
    g = rng(case["seed"])
    has = lambda: g.random() < case["some"]
    bad = lambda: g.random() < case["odds"]
    gps, want = [], {}
    if has():
        la, lo = float(g.uniform(-89, 89)), float(g.uniform(-179.9, 179.9))
        a, la_v = angle_rationals(g, la, bad())
        o, lo_v = angle_rationals(g, lo, bad())
        refs = g.random() < 0.9
        south, west = refs and la < 0, refs and lo < 0
        gps += [(2, 5, a), (4, 5, o)]
        if refs:
            gps += [(1, 2, "S" if south else "N"), (3, 2, "W" if west else "E")]
        gone = int(g.choice([2, 4]))
        if bad():
            gps = [x for x in gps if x[0] != gone]  # only one of them
            la_v = None
        if la_v is not None and lo_v is not None:
            want.update(latitude=-la_v if south else la_v, longitude=-lo_v if west else lo_v)
    if has():
        r = rational(g, float(g.choice([0.0, 12.5, 700.25, 20000.0])), bad())
        below = int(g.integers(3))
        gps.append((6, 5, [r]))
        if below < 2:
            gps.append((5, 1, [below]))
        if val(r) is not None:
            want["altitude"] = min(1e4, -val(r) if below == 1 else val(r))
    if has():
        r = rational(g, float(g.choice([0.0, 0.7, 12.0])), bad())
        gps.append((11, 5, [r]))
        if val(r) is not None:
            want["dop"] = val(r)
    attrs, ypr = {}, None
    sign = lambda v, digits: f"{v:{case['signs']}.{digits}f}"
    if case["xmp"] in ("dji", "both"):
        if has():
            la, lo = round(float(g.uniform(-89, 89)), 7), round(float(g.uniform(-179.9, 179.9)), 7)
            attrs.update({"drone-dji:Latitude": sign(la, 7), "drone-dji:Longitude": sign(lo, 7)})
            if case["partial"] and bad():
                attrs.pop("drone-dji:Longitude")
            else:
                want.update(latitude=la, longitude=lo)
        if has():
            al = round(float(g.uniform(-100, 12000)), 2)
            attrs["drone-dji:AbsoluteAltitude"] = sign(al, 2)
            want["altitude"] = min(1e4, al)
        if has():
            ypr = [round(float(v), 2) for v in g.uniform([-180, -89, -5], [180, 0, 5])]
            attrs.update(zip(("drone-dji:GimbalYawDegree", "drone-dji:GimbalPitchDegree", "drone-dji:GimbalRollDegree"), (sign(v, 2) for v in ypr)))
            ypr = [ypr[0], ypr[1] + 90, ypr[2]]
    if case["xmp"] in ("camera", "both") and has():
        ypr = [round(float(v), 3) for v in g.uniform([-180, -5, -5], [360, g.choice([89, 179]), 5])]
        attrs.update(zip(("Camera:Yaw", "Camera:Pitch", "Camera:Roll"), (f"{v:.3f}" for v in ypr)))
    if ypr and bad():
        k = [k for k in attrs if k.endswith(("Yaw", "YawDegree"))]
        if case["xmp"] != "both":
            for q in k:
                if case["partial"]:
                    attrs.pop(q)
                else:
                    attrs[q] = "n/a"
            ypr = None
    xmp = xmp_of(attrs, {"dc:title": "it's \u00e9 &quot;x&quot;"} if g.random() < 0.3 else {}, case["style"]) if case["xmp"] else ""
    d = read(jpeg([(0x112, 3, [1])], [], gps, xmp, case["order"]))
    check(set(d["gps"]) == set(want), "known are", sorted(d["gps"]), "not", sorted(want))
    for k, v in want.items():
        close(d["gps"][k], v, 1e-9 * max(1, abs(v)), k)
    if ypr is None or "latitude" not in want:
        check("opk" not in d, "a direction from nowhere", d.get("opk"))
    else:
        check("opk" in d, "no viewing direction")
        R = geometry.rotation_from_opk(*[math.radians(d["opk"][k]) for k in ("omega", "phi", "kappa")])
        W = axes_of(*np.radians(ypr))
        check(rot_angle(R @ W) < 1e-5, "the image looks to", R.T, "not", W, "for yaw, pitch, roll", ypr)
        t.label("direction")
    t.nontrivial("latitude" in want)


@CHECK.sub("time", st.fixed_dictionaries({"seed": seeds, "order": order, "odds": st.sampled_from([0.0, 0.3]), "some": st.sampled_from([0.3, 0.7]), "gps": st.booleans()}), quick=1500, rule="a time is known")
def time(case, t):
    """The capture time is that of the GPS, or of the first valid date with its fraction and time zone."""
    g = rng(case["seed"])
    bad = lambda: g.random() < case["odds"]
    main, ex, gps = [], [], []

    def moment():
        return datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=int(g.integers(10**7, 2 * 10**9)))

    want = None
    if case["gps"]:
        m = moment()
        frac = int(g.integers(1000)) if g.random() < 0.5 else 0
        h = [(m.hour, 1), (m.minute, 1), (m.second * 1000 + frac, 1000)]
        ok = True
        if bad():
            h[g.integers(3)] = (5, 0)
            ok = False
        date = m.strftime("%Y:%m:%d")
        if bad():
            date, ok = ["    :  :  ", "2020-01-01", "nonsense"][g.integers(3)], False
        gps += [(7, 5, h), (0x1D, 2, date)]
        if bad():
            gps.pop(int(g.integers(2)))
            ok = False
        if ok:
            want = m.timestamp() + frac / 1000
    for tag, sub, off, where in ((0x9003, 0x9291, 0x9011, ex), (0x9004, 0x9292, 0x9012, ex), (0x132, 0x9290, 0x9010, main)):
        if g.random() > case["some"]:
            continue
        m = moment()
        text, ok = m.strftime("%Y:%m:%d %H:%M:%S"), True
        if bad():
            text, ok = ["0000:00:00 00:00:00", "    :  :     :  :  ", "2020-01-01T00:00:00"][g.integers(3)], False
        value = m.timestamp()
        where.append((tag, 2, text))
        if g.random() < 0.5:
            s = "".join(str(x) for x in g.integers(0, 10, int(g.choice([1, 2, 3, 6]))))
            ex.append((sub, 2, s))
            value += int(s) / 10 ** len(s)
        if g.random() < 0.6:
            minutes = int(g.choice([0, 60, -60, 330, -210, 345, -570, 765, -30, 30]))
            o = f"{'-' if minutes < 0 else '+'}{abs(minutes) // 60:02d}:{abs(minutes) % 60:02d}"
            if bad():
                o = ["   :  ", "local", "Z"][g.integers(3)]
                minutes = 0
            ex.append((off, 2, o))
            value -= 60 * minutes
        if ok and want is None:
            want = value
    d = read(jpeg(main, ex, gps, "", case["order"]))
    close(d["capture_time"], want or 0.0, 2e-6, "time")
    t.nontrivial(want is not None)
    t.label("gps" if case["gps"] else "date")


@CHECK.sub("panorama", st.fixed_dictionaries({"seed": seeds, "form": st.sampled_from(["element", "attribute", "none", "broken", "empty", "bare", "list"]), "style": st.sampled_from(["line", "indented"]),
                                              "exif": st.booleans(), "order": order}), quick=300, rule="the file tells the projection")
def panorama(case, t):
    """Panoramas are recognized by their XMP, and broken XMP is ignored."""
    g = rng(case["seed"])
    f = case["form"]
    if f == "element":
        x = xmp_of({}, {"GPano:ProjectionType": "equirectangular", "GPano:UsePanoramaViewer": "True"}, case["style"])
    elif f == "attribute":
        x = xmp_of({"GPano:ProjectionType": "equirectangular", "GPano:UsePanoramaViewer": "True"}, {}, case["style"])
    elif f == "none":
        x = xmp_of({"dc:format": "image/jpeg"}, {}, case["style"])
    elif f == "broken":
        x = xmp_of({"GPano:ProjectionType": "equirectangular"}, {}, case["style"])
        k = int(g.integers(60, x.find("</rdf:Desc")))
        x = x[:k] + "<" + x[k + 1 :]
    elif f == "empty":
        x = ['<x:xmpmeta xmlns:x="adobe:ns:meta/"></x:xmpmeta>', "<x:xmpmeta></x:xmpmeta>"][g.integers(2)]
    elif f == "bare":
        x = ['<x:xmpmeta xmlns:x="a"><rdf:RDF xmlns:rdf="b"><rdf:Description/></rdf:RDF></x:xmpmeta>', '<x:xmpmeta xmlns:x="a"><rdf:RDF/></x:xmpmeta>'][g.integers(2)]
    else:
        x = ('<x:xmpmeta xmlns:x="a"><rdf:RDF xmlns:rdf="b"><rdf:Description rdf:about="" xmlns:dc="c" dc:format="j"/><rdf:Description rdf:about="" xmlns:GPano="d">'
             "<GPano:ProjectionType>equirectangular</GPano:ProjectionType></rdf:Description></rdf:RDF></x:xmpmeta>")
    d = read(jpeg([(0x112, 3, [6])] if case["exif"] else [], [], [], x, case["order"]))
    if f != "broken":
        want = "equirectangular" if f in ("element", "attribute", "list") else "perspective"
        check(d["projection_type"] == want, "projection", d["projection_type"], "not", want)
    check(d["orientation"] == (6 if case["exif"] else 1) and (d["width"], d["height"]) == (10, 6), d)
    t.nontrivial(f in ("element", "attribute", "list"))
    t.label(f)


# -- cameras of a dataset --------------------------------------------------

BRANDS = [("GoPro", "HERO8 Black"), ("GoPro", "HERO3"), ("GoPro", "HERO3"), ("Garmin", "VIRB"), ("XIAOYI", "anything"), ("sony", "HDR-AS200V"), ("DJI", "FC300S"), ("DJI", "ZenmuseP1"), ("Skydio", "2"),
          ("Acme", "One"), ("unknown", "unknown"), ("Acme", "")]
FULL = ("brown", "fisheye_opencv", "radial", "simple_radial", "fisheye62", "fisheye624")


def known_camera(make, model, ratio, models):
    e = models.get(make.strip().lower())
    if not e:
        return None
    for kind, key in (("ALL", None), ("MODEL", model.strip().lower()), ("FOCAL", int(round(ratio * 36)))):
        if kind == "ALL" and kind in e:
            return e[kind]
        if kind in e and key in e[kind]:
            return e[kind][key]
    return None


def expected_camera(d, default):
    pt = d.get("projection_type", "perspective").lower()
    c = known_camera(d["make"], d["model"], d["focal_ratio"], KNOWN)
    if c and pt in FULL and "focal_x" not in c:
        c = None  # known for simpler projections only
    if c:
        c = dict(c)
        pt = c.get("projection_type", pt)
    else:
        c = {"focal": d["focal_ratio"] or default, "focal_x": d.get("focal_x", d["focal_ratio"]) or default}
        c["focal_y"] = c["focal_x"]
        if "c_x" in d and (d.get("focal_x") or d["focal_ratio"]):
            c.update(c_x=d["c_x"], c_y=d["c_y"])
    out = {"projection_type": pt, "width": d["width"], "height": d["height"]}
    if pt in ("equirectangular", "spherical"):
        return dict(out, projection_type="spherical")
    if pt in ("perspective", "fisheye"):
        out.update(focal=c["focal"])
    else:
        out.update(focal=c["focal_x"], aspect_ratio=c["focal_y"] / c["focal_x"], principal_point=[c.get("c_x", 0.0), c.get("c_y", 0.0)])
    for k in {"perspective": 2, "fisheye": 2}.get(pt) and ("k1", "k2") or ("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"):
        out[k] = c.get(k, 0.0)
    return out


def differs(cam, want):
    """What is not as wanted, or None."""
    if cam.projection_type != want["projection_type"]:
        return f"projection {cam.projection_type} not {want['projection_type']}"
    if (cam.width, cam.height) != (want["width"], want["height"]):
        return f"size {cam.width} {cam.height} not {want['width']} {want['height']}"
    have = set()
    for k, v in want.items():
        if k in ("projection_type", "width", "height"):
            continue
        try:
            got = getattr(cam, k)
        except Exception:
            continue  # another kind of camera has it
        have.add(k)
        if not np.allclose(got, v, atol=1e-9):
            return f"{k} {got} not {v}"
    return None if want["projection_type"] == "spherical" or "focal" in have else f"has only {have}"


@CHECK.sub("dataset", st.fixed_dictionaries({
    "seed": seeds, "n": st.sampled_from([1, 3, 6]), "overrides": st.sampled_from([None, None, "some", "all"]), "exif": st.booleans(), "different": st.booleans(), "default": st.sampled_from([0.85, 0.5]),
    "projection": st.sampled_from([None, "perspective", "brown", "fisheye"])}), quick=600, rule="several cameras")
def dataset(case, t):
    """Extracting metadata gives every image its metadata and every camera its best known calibration."""
    g = rng(case["seed"])
    n = case["n"]
    names = [f"im{k}.jpg" for k in range(n)]
    cfg = {"default_focal_prior": case["default"], "unknown_camera_models_are_different": case["different"]}
    if case["projection"]:
        cfg["default_projection_type"] = case["projection"]
    data = make_dataset(t.tmpdir(), cfg, names, {})
    over, want, expected = {}, {}, {}
    for k in names:
        os.remove(data._exif_file(k))
        make, model = BRANDS[g.integers(len(BRANDS))]
        main, ex = ([] if make == "unknown" else [(0x10F, 2, make), (0x110, 2, model)]), []
        f35 = int(g.choice([0, 20, 15, 31]))
        if f35:
            ex.append((0xA405, 3, [f35]))
        size = (int(g.integers(2, 5)) * 1000, 1000)
        ex += [(0xA002, 4, [size[0]]), (0xA003, 4, [size[1]])]
        with open(data._image_file(k), "wb") as f:
            f.write(jpeg(main, ex, [], ""))
        d = {"make": make, "model": model or "", "width": size[0], "height": size[1], "projection_type": "perspective", "focal_ratio": f35 / 36 if f35 else 0.0, "orientation": 1, "gps": {}, "capture_time": 0.0}
        if case["different"] and d["model"] in ("", "unknown"):
            d["model"] = f"unknown_{k}"
        if case["projection"]:
            d["projection_type"] = case["projection"]
        name = " ".join(["v2", make, d["model"] if make == "unknown" else d["model"].replace(make, "").strip(), str(size[0]), str(size[1]), d["projection_type"], str(float(d["focal_ratio"]))[:6]]).lower()
        d["camera"] = name
        if case["exif"] and g.random() < 0.6:
            o = [{"gps": {"latitude": 1.0, "longitude": 2.0}}, {"projection_type": ["fisheye", "brown", "radial", "equirectangular"][g.integers(4)], "camera": f"special {g.integers(2)}"},
                 {"focal_ratio": float(g.choice([14.7, 15.4, 19.6, 25.0])) / 36, "camera": f"other {g.integers(20)}"}, {"focal_x": 0.8, "c_x": 0.01, "c_y": 0.02, "projection_type": "brown", "camera": "centered"}][g.integers(4)]
            over[k] = o
            d.update(o)
        want[k] = d
    if over:
        with open(os.path.join(data.data_path, "exif_overrides.json"), "w") as f:
            json.dump(over, f)
    first = {}
    for k in names:
        first.setdefault(want[k]["camera"], []).append(want[k])
    expected = {c: [expected_camera(d, case["default"]) for d in ds] for c, ds in first.items()}
    models = {}
    if case["overrides"]:
        keys = ["all"] if case["overrides"] == "all" else [list(first)[0], "elsewhere"]
        for c in keys:
            models[c] = {"projection_type": "perspective", "width": 77, "height": 55, "focal": 0.66, "k1": 0.01, "k2": -0.02}
        with open(os.path.join(data.data_path, "camera_models_overrides.json"), "w") as f:
            json.dump(models, f)
        if "all" in models:
            expected = {c: [models["all"]] for c in expected}
        else:
            expected.update({c: [m] for c, m in models.items()})
    if g.random() < 0.3:
        # one was extracted before, and edited: it stays
        want[names[0]]["orientation"] = 3
        data.save_exif(names[0], want[names[0]])
    extract_metadata.run_dataset(data)
    for k in names:
        d = data.load_exif(k)
        for q, v in want[k].items():
            check(d[q] == v if not isinstance(v, float) else abs(d[q] - v) < 1e-9, "metadata of", k, q, d[q], "not", v)
    got = data.load_camera_models()
    check(set(got) == set(expected), "cameras", sorted(got), "not", sorted(expected))
    for c, w in expected.items():
        check(got[c].id == c, "camera", got[c].id, "is not", c)
        # images of one camera can differ: it is made from any of them
        errors = [e for e in (differs(got[c], x) for x in w)]
        check(any(e is None for e in errors), "camera", c, errors[0])
    t.nontrivial(len(expected) > 1)
    t.label(*{d["make"] for d in want.values()})
