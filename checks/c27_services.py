"""C27: the viewer's server hands out the dataset and nothing else; settings and parallel work are those asked for."""

import copy
import io as pyio
import json
import os
import sys
import threading
import time
import urllib.parse

import cv2
import yaml
from gen import rng, seeds, st
from harness import Check, check
from opensfm import config, context, dataset

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(dataset.__file__))), "viewer"))
import server  # noqa: E402

CHECK = Check("C27")
CHECK.assumptions = ["the server runs inside of the check, on folders that the check creates; Flask's test client stands for the browser"]
WORDS = ["reconstruction.json", "reconstruction.meshed.json", "reconstruction_v2.json", "undistorted", "sub models", "a", "é", "reports", "x+y", "p%41", "#1", "stats.json", "b.json.gz", "areconstruction.json", "reconstruction.txt", "images", "日本", "a&b;c", "q?r"]
SHOTS = ["a.jpg", "B 1.JPG", "é.png", "100%.jpg", "x#y.jpg", "q?.jpg", "a+b.jpg", "..jpg", "日.jpg"]


def tree(g, root, depth=0):
    """Random files; gives the bytes of each by its path."""
    out = {}
    os.makedirs(root, exist_ok=True)
    for k in g.permutation(len(WORDS))[: int(g.integers(1, 7))]:
        w = WORDS[k]
        p = os.path.join(root, w)
        if os.path.exists(p):
            continue
        if depth < 2 and "." not in w:
            out.update(tree(g, p, depth + 1))
        else:
            out[p] = g.bytes(int(g.integers(0, 200)))
            open(p, "wb").write(out[p])
    return out


SERVER = st.fixed_dictionaries({"seed": seeds, "dataset": st.booleans(), "size": st.integers(0, 10)})


@CHECK.sub("viewer", SERVER, 400, rule="at least three files served")
def viewer(case, t):
    g = rng(case["seed"])
    d = t.tmpdir()
    root = d + "/data set"
    files = tree(g, root)
    secret = {}
    for rel in ("secret.json", "data set2/reconstruction.json", "images/a.jpg", "data setx"):
        p = os.path.join(d, rel)
        if os.path.isdir(p):
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        secret[p] = b"SECRET" + rel.encode()
        open(p, "wb").write(secret[p])
    os.makedirs(root + "/images", exist_ok=True)
    for k in g.permutation(len(SHOTS))[:4]:
        p = f"{root}/images/{SHOTS[k]}"
        files[p] = g.bytes(50)
        open(p, "wb").write(files[p])
    saved = server.datapath
    server.datapath = root if case["dataset"] or g.random() < 0.9 else None
    client = server.app.test_client()
    server.app.testing = False
    try:
        items = client.get("/items")
        check(items.status_code == 200, "items", items.status_code)
        items = items.get_json()["items"]
        if server.datapath is None:
            check(items == [], "items of no dataset", items)
            r = client.get("/data/reconstruction.json")
            check(r.status_code == 404, "data of no dataset", r.status_code)
            r = client.get("/image/a.jpg")
            check(r.status_code == 404, "image of no dataset", r.status_code)
            return
        want = sorted(os.path.relpath(p, root) for p in files if p.endswith(".json") and "reconstruction" in os.path.basename(p))
        check([i["name"] for i in items] == want, "reconstructions listed", [i["name"] for i in items], want)
        for i in items:
            check(i["type"] == "RECONSTRUCTION" and len(i["url"]) == 1, "item", i)
            r = client.get("/" + urllib.parse.quote(i["url"][0]))
            check(r.status_code == 200 and r.data == files[os.path.join(root, i["name"])], "reconstruction served", i, r.status_code)
        for p, content in files.items():
            rel = os.path.relpath(p, root)
            r = client.get("/data/" + urllib.parse.quote(rel))
            check(r.status_code == 200 and r.data == content, "file served", rel, r.status_code)
            if os.path.dirname(p) == root + "/images":
                r = client.get("/image/" + urllib.parse.quote(os.path.basename(p)))
                check(r.status_code == 200 and r.data == content, "image served", rel, r.status_code)
        for rel in ("nothing.json", "images", "images/nothing.jpg", "reconstruction.json/x", "."):
            if os.path.join(root, rel) not in files:
                r = client.get("/data/" + rel)
                check(r.status_code in (404, 400, 308), "what is not there", rel, r.status_code)
        # whatever is outside of the dataset stays there
        outside = []
        for p in secret:
            back = os.path.relpath(p, root)
            inner = [os.path.dirname(os.path.relpath(f, root)) for f in files]
            inner = inner[int(g.integers(len(inner)))]
            outside += ["/data/" + back, "/data/" + (inner + "/" if inner else "") + os.path.relpath(p, os.path.join(root, inner)), "/data/" + p, "/data/" + p[1:], "/data/images/../" + back, "/data/./" + back]
            outside += ["/image/" + os.path.relpath(p, root + "/images"), "/image/" + p]
        for url in outside:
            for u in (url, url.replace("..", "%2e%2e"), url[:6] + url[6:].replace("/", "%2f"), url.replace("..", "%2e%2e").replace("data set", "data%20set"), "/" + url[1:].replace("/", "//"), url[:6] + url[6:].replace("/", "\\")):
                r = client.get(u, follow_redirects=True)
                check(b"SECRET" not in r.data, "a file outside of the dataset was served", u, r.status_code)
                check(r.status_code < 500, "error of the server", u, r.status_code)
    finally:
        server.datapath = saved
    if len(files) >= 3:
        t.nontrivial()


class Stop(Exception):
    pass


PARALLEL = st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(0, 40), "processes": st.sampled_from([0, 1, 2, 3, 8, 50]), "batch": st.sampled_from([None, 0, 1, 3, 100]), "fail": st.booleans(), "threads": st.integers(1, 8), "sleep": st.booleans(), "size": st.integers(0, 10),
})


@CHECK.sub("parallel", PARALLEL, 400, rule="more than one process and argument")
def parallel(case, t):
    g = rng(case["seed"])
    args = [(int(k), float(x)) for k, x in enumerate(g.random(case["n"]))]
    delays = [float(x) * 0.002 if case["sleep"] else 0 for x in g.random(case["n"])]
    bad = int(g.integers(case["n"])) if case["fail"] and case["n"] else -1
    done, lock, inner = [], threading.Lock(), []

    def func(a):
        time.sleep(delays[a[0]])
        with lock:
            done.append(a[0])
            inner.append(cv2.getNumThreads())
        if a[0] == bad:
            raise Stop(f"argument {bad}")
        return None if a[0] % 5 == 0 else (a[0], a[1] * 2)

    before = cv2.getNumThreads()
    cv2.setNumThreads(case["threads"])
    start = cv2.getNumThreads()
    try:
        got = None
        try:
            kw = {} if case["batch"] is None else {"max_batch_size": case["batch"]}
            got = context.parallel_map(func, list(args), case["processes"], **kw)
            check(bad < 0, "the failure of a task was lost", bad)
        except Stop as e:
            check(bad >= 0 and str(e) == f"argument {bad}", "failure", e)
        after = cv2.getNumThreads()
    finally:
        cv2.setNumThreads(before)
    check(after == start, "OpenCV threads after the work", after, start)
    if bad < 0:  # after a failure, tasks that had started may still be at work
        check(all(i <= 1 for i in inner), "OpenCV threads inside of the work", inner)
        check(isinstance(got, list) and got == [None if a[0] % 5 == 0 else (a[0], a[1] * 2) for a in args], "results, in order", got)
        check(sorted(done) == list(range(case["n"])), "every argument once", sorted(done))
    else:
        check(len(done) == len(set(done)), "an argument twice", sorted(done))
    if case["processes"] > 1 and case["n"] > 1:
        t.nontrivial()
    t.label("failing" if bad >= 0 else "working", case["processes"])


@CHECK.sub("memory", st.fixed_dictionaries({"desired": st.integers(1, 1000), "each": st.sampled_from([1, 10, 300, 512, 4000, 10**6, 10**9]), "size": st.just(0)}), 60, rule="every case")
def memory(case, t):
    available = context.memory_available()
    n = context.processes_that_fit_in_memory(case["desired"], case["each"])
    check(isinstance(n, int) and 1 <= n <= case["desired"], "processes", n, case)
    if available is not None:
        check(available > 0 and n * case["each"] <= max(case["each"], available * 1.2 + 500), "processes that do not fit", n, case, available)
        check(n >= min(case["desired"], max(1, (available * 0.8 - 500) // case["each"])), "fewer processes than fit", n, case, available)
    check(context.current_memory_usage() > 1 << 20, "memory in use", context.current_memory_usage())
    t.nontrivial()


DEFAULT = config.default_config()
VALUES = [0, 1, -3, 2.5, True, False, "ORB", "é", "no", None, [1, 2], {"a": 1}, 1e-9, "12", ""]


@CHECK.sub("settings", st.fixed_dictionaries({"seed": seeds, "how": st.sampled_from(["text", "bytes", "file", "binary", "dataset"]), "keys": st.integers(0, 6), "unknown": st.booleans(), "flow": st.booleans(), "comment": st.booleans(), "size": st.integers(0, 10)}), 250, rule="at least one setting given")
def settings(case, t):
    g = rng(case["seed"])
    names = sorted(DEFAULT)
    new = {names[int(k)]: VALUES[int(g.integers(len(VALUES)))] for k in g.permutation(len(names))[: case["keys"]]}
    if case["unknown"]:
        new["my_own_setting"] = "kept"
    text = yaml.safe_dump(new, allow_unicode=True, default_flow_style=case["flow"]) if new else ""
    if case["comment"]:
        text = "# settings\n\n" + text
    d = t.tmpdir()
    with open(d + "/config.yaml", "w", encoding="utf-8") as f:
        f.write(text)
    if case["how"] == "text":
        got = config.load_config_from_fileobject(text)
    elif case["how"] == "bytes":
        got = config.load_config_from_fileobject(text.encode())
    elif case["how"] == "file":
        with open(d + "/config.yaml", encoding="utf-8") as f:
            got = config.load_config_from_fileobject(f)
    elif case["how"] == "binary":
        with open(d + "/config.yaml", "rb") as f:
            got = config.load_config_from_fileobject(f)
    else:
        open(d + "/image_list.txt", "w").write("a.jpg\n")
        got = dataset.DataSet(d).config
    want = copy.deepcopy(DEFAULT)
    want.update(new)
    check(got == want and all(type(got[k]) is type(want[k]) for k in want), "settings", {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)})
    for k in list(got):  # whatever is done to them stays there
        if isinstance(got[k], list):
            got[k].append("spoiled")
        elif isinstance(got[k], dict):
            got[k]["spoiled"] = 1
        else:
            got[k] = "spoiled"
    check(config.default_config() == DEFAULT, "the defaults were changed")
    os.remove(d + "/config.yaml")
    open(d + "/image_list.txt", "w").write("a.jpg\n")
    check(dataset.DataSet(d).config == DEFAULT, "settings of a dataset without configuration")
    if new:
        t.nontrivial()
    t.label(case["how"])
