"""C14: collections are content-addressed and self-consistent.

Proved (vp/coll.py: the real source on arbitrary strings, contents and maps): _is_valid_item_name, add_asset, add_item, update,
_write_repository_items, _write_category_items, _extract_category_items, link.

Contracts checked at run time on the real class against a model of the collection, on every history generated:
  Collection.add_asset(v)      ensures result.hash = sha1(bytes of v), url ends in that hash, the repository maps it to exactly these bytes
  Collection.add_item(c, n, i) ensures categories[c][n] holds i localised, every other item unchanged; or ValueError and nothing changed
  Collection.load_from_source / load_from_scp / update   ensures exactly the supplied items and assets are added or replaced
  Collection.write(d)          ensures d/sonolus holds info, and per non-empty category info, list and one file per item whose parsed content is the
                               item's; listings hold every item once in order; repository/<h> holds bytes with sha1 = h; nothing else is written
  frame: no path outside d changes, whatever the names and archive entries"""
import hashlib
import itertools
import json
import os

from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["Collection.add_asset", "Collection.add_item", "Collection.get_item", "Collection.load_from_source", "Collection.load_from_scp", "Collection.update", "Collection.link", "Collection.write", "Collection._localize_item",
                  "Collection._is_valid_item_name", "collection.load_asset"],
    "trusted": ["hashlib, json, zipfile, the file system; sha1 and str.lower are uninterpreted functions in the proof; joining a safe name to a path names a file of that directory"],
    "assumptions": ["a file of the repository directory named by a hash is taken to have that content (stated in write)", "archives name their repository entries by the content's hash", "symbolic links in source directories are followed", "URLs are not fetched (no network)"],
    "rule": "histories of add/load/update/link/write over names with dots, reserved names, separators and parent references, in every category; archives with hostile entries; non-trivial when at least one item is written",
    "technique": "deductive: contracts on the real methods for all names, contents and maps (ghost maps and paths, z3 strings); histories through the real file system and archives are run-time contract checks",
    "level_note": "proved for every string, content and map: names, add_asset, add_item, update, link, the repository and item files that write creates, items taken from an archive; bounded (contracts asserted on generated histories): load_from_source, archive grouping, the file system itself",
    "deadline": {"quick": 200, "thorough": 700},
}
CATS = ["posts", "playlists", "levels", "replays", "skins", "backgrounds", "effects", "particles", "engines"]
GOOD = ["a", "b", "a.1", "a.2", "a.b.c", "song.json", "x y", "é", "A", "in.fo", "listing", "info2", "...", ".hidden", "a%2Fb", "-", "0", "repository", "levels"]
BAD = ["info", "list", "..", ".", "", "a/b", "../x", "../../x", "../info", "/", "a/../../../y", "./info", "a/"]


def tasks(tier, seed):
    return [Task("sym", "prove", timeout=200)] + [Task("real", "run", i, seed, tier, timeout=600) for i in range(6)] + [Task("real", "names", tier, timeout=300)]


def prove():
    from vp import coll
    return merge(*[pack(c) for c in coll.prove()])  # noqa: F405


def replay(o):
    """a refuted obligation: the histories on the real class"""
    vs = []
    for r in [names("quick")] + [run(i, 1, "quick") for i in range(2)]:
        vs += r.get("violations", [])
    return {"violations": vs[:3]} if vs else {}


def jailed(fn, *a):
    """fn(scratch directory, *a) as an unprivileged user that owns nothing but the scratch directory"""
    import gzip  # noqa: F401
    import io  # noqa: F401
    import pathlib  # noqa: F401
    import random  # noqa: F401
    import shutil
    import tempfile
    import time  # noqa: F401
    import traceback
    import warnings  # noqa: F401
    import zipfile  # noqa: F401
    import encodings.cp437  # noqa: F401
    import sonolus.build.collection  # noqa: F401
    root = tempfile.mkdtemp(prefix="vpc14-")
    d = os.path.join(root, "w1", "w2", "w3", "w4")
    os.makedirs(d)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if os.getuid() == 0:
                for p, _, _ in os.walk(root):
                    os.chown(p, 65534, 65534)
                os.setgid(65534)
                os.setuid(65534)
            try:
                res = fn(d, *a)
            except BaseException as e:  # noqa: BLE001
                res = {"crashed": "".join(traceback.format_exception(e))[-1500:]}
            with os.fdopen(w, "w") as f:
                json.dump(res, f, default=repr)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        t = f.read()
    os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    res = json.loads(t) if t else {"crashed": "the process ended"}
    if "crashed" in res:
        raise RuntimeError(res["crashed"])
    return res


class Wrong(Exception):
    pass


# ---------------------------------------------------------------- the model
def text(t):
    if isinstance(t, str):
        return t
    if "en" in t:
        return t["en"]
    return t[sorted(t)[0]] if t else ""


def localised(item):
    r = {}
    for k, v in item.items():
        if k == "meta":
            continue
        if k in ("title", "subtitle", "author", "description", "artists"):
            v = text(v)
        if k == "tags":
            v = [{**t, "title": text(t["title"])} for t in v]
        r[k] = v
    return r


def details(item):
    return {"item": item, "actions": [], "hasCommunity": False, "leaderboards": [], "sections": []}


class Model:
    def __init__(self):
        self.cats = {}
        self.repo = {}

    def add(self, c, n, d):
        self.cats.setdefault(c, {})[n] = d

    def linked(self):
        """the categories with levels resolved"""
        out = {c: {n: json.loads(json.dumps(d)) for n, d in items.items()} for c, items in self.cats.items()}
        for d in out.get("levels", {}).values():
            it = d["item"]
            if isinstance(it["engine"], str):
                it["engine"] = out["engines"][it["engine"]]["item"]
            for k, c in (("useSkin", "skins"), ("useBackground", "backgrounds"), ("useEffect", "effects"), ("useParticle", "particles")):
                v = it[k].get("item")
                n = v if isinstance(v, str) else v.get("name") if isinstance(v, dict) else None
                if n is not None and n in out.get(c, {}):
                    it[k]["item"] = out[c][n]["item"]
        return out


def some_text(r):
    return r.choice(["t", "", {"en": "E", "de": "D"}, {"ja": "J", "de": "D"}, {"ko": "K"}, {}, "é…"])


_u = [0]


def fresh():
    _u[0] += 1
    return f"v{_u[0]}"


def make_item(r, c, n, m):
    it = {"name": n, "version": r.randint(1, 9), "uid": fresh()}
    for k in ("title", "subtitle", "author", "description", "artists"):
        if r.random() < 0.5:
            it[k] = some_text(r)
    if r.random() < 0.3:
        it["tags"] = [{"title": some_text(r), "icon": "x"} for _ in range(r.randint(0, 2))]
    if r.random() < 0.3:
        it["meta"] = {"secret": 1}
    if c == "levels":
        eng = list(m.cats.get("engines", {}))
        it["engine"] = r.choice(eng) if eng and r.random() < 0.7 else {"name": "inline", "uid": fresh()}
        for k, q in (("useSkin", "skins"), ("useBackground", "backgrounds"), ("useEffect", "effects"), ("useParticle", "particles")):
            have = list(m.cats.get(q, {}))
            z = r.random()
            it[k] = {"useDefault": True} if z < 0.4 else {"useDefault": False, "item": r.choice(have) if have and z < 0.6 else {"name": r.choice(have), "old": 1} if have and z < 0.8 else r.choice(["missing", {"x": 1}, {"name": "missing"}])}
    return it


def data(r):
    return r.choice([b"", b"a", b"abc", bytes(range(256)), os.urandom(3) if False else bytes(r.getrandbits(8) for _ in range(r.randint(0, 40))), b"\x1f\x8b\x08\x00rest"])


# ---------------------------------------------------------------- observations
def snapshot(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d) + "/"] = None
        for x in fs:
            q = os.path.join(p, x)
            try:
                out[os.path.relpath(q, d)] = open(q, "rb").read()
            except OSError:
                out[os.path.relpath(q, d)] = "unreadable"
    return out


def same_collection(c, m, when):
    have = {k: v for k, v in c.categories.items() if v}
    want = {k: v for k, v in m.cats.items() if v}
    if set(have) != set(want):
        raise Wrong(f"{when}: categories {sorted(have)}, expected {sorted(want)}")
    for k in want:
        if list(have[k]) != list(want[k]):
            raise Wrong(f"{when}: {k}: items {list(have[k])}, expected {list(want[k])}")
        for n in want[k]:
            if json.loads(json.dumps(have[k][n])) != json.loads(json.dumps(want[k][n])):
                raise Wrong(f"{when}: {k}/{n}: {have[k][n]}, expected {want[k][n]}")
            if c.get_item(k, n) != have[k][n]["item"]:
                raise Wrong(f"{when}: get_item({k}, {n}) is not the item")
        if c.get_default_item(k) not in [x["item"] for x in have[k].values()]:
            raise Wrong(f"{when}: get_default_item({k}) is not an item of the category")
    if c.repository != m.repo:
        raise Wrong(f"{when}: repository {c.repository}, expected {m.repo}")


def check_srl(s, b, c):
    h = hashlib.sha1(b).hexdigest()
    if s["hash"] != h or s["url"] != "/sonolus/repository/" + h:
        raise Wrong(f"asset {b[:20]!r} is referenced as {dict(s)}, its hash is {h}")
    if bytes(c.repository.get(h, b"?!")) != b:
        raise Wrong(f"asset {b[:20]!r} is not stored under its hash")


def check_site(site, m, name, before):
    """what write left under site, against the model"""
    cats = m.linked()
    files = snapshot(site)
    want = {}
    order = ["levels", "engines", "skins", "effects", "particles", "backgrounds", "posts", "playlists", "replays"]
    for c, items in cats.items():
        if not items:
            continue
        for f in ("info", "list"):
            want[f"sonolus/{c}/{f}"] = [d["item"] for d in items.values()]
        for n, d in items.items():
            want[f"sonolus/{c}/{n}"] = d
    for p, v in want.items():
        if p not in files:
            raise Wrong(f"{p} was not written")
        got = json.loads(files[p])
        if p.rsplit("/", 1)[1] == "info":
            secs = got["sections"]
            got = [x for s in secs for x in s["items"]]
            if any(s["itemType"] + "s" != p.split("/")[1] for s in secs):
                raise Wrong(f"{p}: sections of type {[s['itemType'] for s in secs]}")
        elif p.rsplit("/", 1)[1] == "list":
            if got["pageCount"] != 1:
                raise Wrong(f"{p}: {got['pageCount']} pages")
            got = got["items"]
        if got != v:
            raise Wrong(f"{p} holds {got}, expected {v}")
    info = json.loads(files["sonolus/info"])
    if [b["type"] + "s" for b in info["buttons"]] != [c for c in order if cats.get(c)] or info["title"] != name:
        raise Wrong(f"info is {info}, expected the categories {[c for c in order if cats.get(c)]}")
    for h, b in m.repo.items():
        if files.get(f"sonolus/repository/{h}") != b:
            raise Wrong(f"repository/{h} does not hold the asset")
        if hashlib.sha1(b).hexdigest() != h:
            raise Wrong(f"repository/{h} holds bytes of another hash")
    extra = [p for p in files if not p.endswith("/") and p not in want and p not in before and p != "sonolus/info" and not (p.startswith("sonolus/repository/") and p.rsplit("/", 1)[1] in m.repo)]
    if extra:
        raise Wrong(f"also written: {extra[:3]}")


# ---------------------------------------------------------------- histories
def history(d, r, log):
    from pathlib import Path
    import io
    import zipfile
    from sonolus.build.collection import Collection
    base = os.path.join(d, f"h{r.getrandbits(40):x}")
    os.makedirs(base)
    outside = os.path.join(base, "outside")
    os.makedirs(outside)
    c, m = Collection(), Model()
    if r.random() < 0.5:
        c.name = fresh()
    names = r.sample(GOOD, r.randint(1, 5))

    def add(c, m, allow_bad=True):
        cat = r.choice(CATS[2:] if r.random() < 0.9 else CATS)
        n = r.choice(BAD) if allow_bad and r.random() < 0.12 else r.choice(names)
        it = make_item(r, cat, n, m)
        keep = json.dumps(it)
        log.append(f"add_item({cat}, {n!r})")
        try:
            c.add_item(cat, n, it)
        except ValueError:
            if n not in BAD:
                raise
            return
        if json.dumps(it) != keep:
            raise Wrong("add_item changed the caller's item")
        m.add(cat, n, details(localised(json.loads(keep))))

    def asset(c, m):
        b = data(r)
        v = b
        if r.random() < 0.4:
            v = Path(base, fresh())
            v.write_bytes(b)
        log.append(f"add_asset({b[:12]!r})")
        s = c.add_asset(v)
        check_srl(s, b, c)
        m.repo[s["hash"]] = b

    def source(c, m):
        import gzip
        src = Path(base, fresh())
        src.mkdir()
        (src / "README").write_text("x")
        (src / "unknown").mkdir()
        ((src / "unknown") / "x").mkdir()
        put = {}
        for _ in range(r.randint(1, 4)):
            cat, n = r.choice(CATS[2:]), r.choice(names)
            p = src / cat / n
            if p.exists():
                continue
            p.mkdir(parents=True)
            it = make_item(r, cat, n, m)
            it.pop("name")
            res = {}
            for f in r.sample(["data.json", "cover.png", "bgm.mp3", "texture.bin", "x.y.png", "noext", "BIG.BIN"], r.randint(0, 3)):
                res[f] = data(r)
                (p / f).write_bytes(res[f])
            if r.random() < 0.9:
                (p / "item.json").write_text(json.dumps(it), encoding="utf-8")
                put[cat, n] = (it, res)
        log.append(f"load_from_source({[k for k in put]})")
        c.load_from_source(src if r.random() < 0.5 else str(src))
        for cat in {k[0] for k in put}:
            # the order in which a directory is listed is not specified
            for n in sorted((n for q, n in put if q == cat), key=lambda n: list(c.categories.get(cat, {})).index(n) if n in c.categories.get(cat, {}) else 99):
                it, res = put[cat, n]
                exp = localised(it)
                exp["name"] = n
                for f, b in res.items():
                    if f.lower().endswith((".json", ".bin")):
                        b = gzip.compress(b, mtime=0)
                    h = hashlib.sha1(b).hexdigest()
                    m.repo[h] = b
                    exp[f.rsplit(".", 1)[0]] = {"hash": h, "url": "/sonolus/repository/" + h}
                m.add(cat, n, details(exp))

    def other():
        c2, m2 = Collection(), Model()
        for _ in range(r.randint(1, 4)):
            (add if r.random() < 0.7 else asset)(c2, m2)
        return c2, m2

    def update(c, m):
        c2, m2 = other()
        log.append("update")
        c.update(c2)
        for cat, items in m2.cats.items():
            for n, x in items.items():
                m.add(cat, n, x)
        m.repo.update(m2.repo)

    def scp(c, m):
        c2, m2 = other()
        w = Path(base, fresh())
        c2.write(w)
        check_site(str(w), m2, c2.name, {})
        linked = m2.linked()
        buf = io.BytesIO()
        files = snapshot(str(w))
        hostile = r.random() < 0.4
        with zipfile.ZipFile(buf, "w") as z:
            pre = "" if r.random() < 0.3 else "sonolus/"
            for p in sorted(q for q in files if not q.endswith("/")):
                z.writestr(pre + p.split("/", 1)[1], files[p])
            if hostile:
                for e in r.sample(["../../evil", "/etc/evil", "sonolus/levels/../../../evil", "levels/..", "sonolus/repository/../../evil2", "sonolus/skins/list", "sonolus/skins/INFO", "engines/", "unknown/x", "sonolus/skins/bad"], 4):
                    try:
                        z.writestr(e, b"{not json" if "bad" in e else b'{"item": {"uid": "evil"}}')
                    except ValueError:
                        pass
        log.append(f"load_from_scp({'with hostile entries' if hostile else ''})")
        src = buf.getvalue()
        if r.random() < 0.3:
            p = Path(base, fresh())
            p.write_bytes(src)
            src = p
        c.load_from_scp(src)
        for cat, items in linked.items():
            have = c.categories.get(cat, {})
            for n in sorted(items, key=lambda n: list(have).index(n) if n in have else 99):
                m.add(cat, n, items[n])
        m.repo.update(m2.repo)
        if hostile:
            # whatever else was taken in: it stays, but nothing of ours is changed and nothing escapes when it is written
            for cat, items in list(c.categories.items()):
                for n in list(items):
                    if n not in m.cats.get(cat, {}):
                        m.cats.setdefault(cat, {})[n] = items[n]
            for h in list(c.repository):
                if h not in m.repo:
                    del c.repository[h]
            for cat, items in m.cats.items():
                for n, x in list(items.items()):
                    if x["item"].get("uid") == "evil":
                        # an item without the fields a level needs cannot be linked
                        del items[n]
                        del c.categories[cat][n]

    ops = [add, add, add, asset, source, update, scp]
    before = None
    for _ in range(r.randint(1, 6)):
        r.choice(ops)(c, m)
        same_collection(c, m, log[-1])
    for _ in range(r.randint(1, 2)):
        site = os.path.join(base, "site")
        os.makedirs(site, exist_ok=True)
        inside = snapshot(site)
        before = snapshot(d)
        log.append("write")
        bad = [n for items in m.cats.values() for n in items if n in BAD]
        try:
            c.write(site if r.random() < 0.5 else Path(site))
        except (ValueError, OSError):
            if not bad:
                raise
            rejected = True
        else:
            rejected = False
        after = snapshot(d)
        rel = os.path.relpath(site, d) + "/"
        moved = [p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0) and not p.startswith(rel)]
        if moved:
            raise Wrong(f"written outside the directory: {moved[:3]}")
        if rejected:
            return False
        check_site(site, m, c.name, inside)
        # a written collection is linked, and nothing else about it has changed
        m.cats = m.linked()
        same_collection(c, m, "after write")
        if r.random() < 0.5:
            add(c, m)
            same_collection(c, m, "after write and " + log[-1])
    import shutil
    shutil.rmtree(base, ignore_errors=True)
    return any(m.cats.values())


def run(i, seed, tier):
    return jailed(_run, i, seed, tier)


def _run(d, i, seed, tier):
    import time
    import warnings
    warnings.simplefilter("ignore")
    secs = 25 if tier == "quick" else 400
    t0, n, nt, viol, samples = time.time(), 0, 0, [], []
    while time.time() - t0 < secs and not viol:
        s = f"c14/{seed}/{i}/{n}"
        log = []
        try:
            nt += bool(history(d, random.Random(s), log))
        except Wrong as e:
            viol.append({"key": "history", "what": f"after {log}: {e}", "input": {"seed": s, "history": log}})
        except Exception as e:  # noqa: BLE001
            import traceback
            viol.append({"key": "raises", "what": f"after {log}: {''.join(traceback.format_exception(e))[-500:]}", "input": {"seed": s, "history": log}})
        n += 1
        if len(samples) < 3:
            samples.append("; ".join(log))
    return {"violations": viol, "bounded": {"name": "histories against the model", "evaluations": n, "distinct": nt, "samples": samples, "bound": f"{secs} s of histories of up to 6 operations per process"}}


def names(tier):
    return jailed(_names, tier)


def _names(d, tier):
    """every name over a small alphabet: accepted names have a file of their own inside the category"""
    from sonolus.build.collection import Collection
    viol, n, ok = [], 0, 0
    alpha = ["a", ".", "/", "i", "\\", "n"]
    cand = ["".join(x) for k in range(0, 5 if tier == "quick" else 6) for x in itertools.product(alpha, repeat=k)]
    cand += ["".join(x) for w in ("info", "list") for x in itertools.product(*[(q, q.upper()) for q in w])] + ["info/", "/info", "./list", "list.", "../levels/list", "..\\x", "info\n", " info", "levels/../info"] + BAD + GOOD
    for name in cand:
        n += 1
        for cat in ("skins",):
            c = Collection()
            c.add_item(cat, "keep", {"name": "keep"})
            try:
                c.add_item(cat, name, {"name": name, "x": 1})
            except ValueError:
                if name in GOOD:
                    viol.append({"key": "name:" + name, "what": f"the name {name!r} is refused", "input": name})
                continue
            ok += 1
            base = os.path.join(d, f"n{n}")
            site = os.path.join(base, "s1", "s2", "s3", "s4", "s5", "site")
            os.makedirs(site)
            if os.path.isabs(name):
                viol.append({"key": "name:" + name, "what": f"the absolute name {name!r} is accepted", "input": name})
                continue
            try:
                c.write(site)
            except (ValueError, OSError):
                pass
            else:
                f = snapshot(site)
                p = f"sonolus/{cat}/{name}"
                items = [{"name": "keep"}, {"name": name, "x": 1}]
                if p not in f or json.loads(f[p])["item"] != items[1] or json.loads(f[f"sonolus/{cat}/list"]).get("items") != items or json.loads(f[f"sonolus/{cat}/keep"])["item"] != items[0]:
                    viol.append({"key": "name:" + name, "what": f"the item {name!r} is not written to a file of its own: {sorted(f)}", "input": name})
            out = [p for p in snapshot(base) if not p.endswith("/") and not p.startswith("s1/s2/s3/s4/s5/site/")]
            if out:
                viol.append({"key": "name:" + name, "what": f"the item {name!r} is written outside the directory: {out}", "input": name})
            import shutil
            shutil.rmtree(base, ignore_errors=True)
        if viol:
            break
    return {"violations": viol[:1], "bounded": {"name": "item names", "evaluations": n, "distinct": ok, "samples": cand[1:4], "bound": "all names up to 4 characters over a small alphabet, and the reserved names in every case"}}
