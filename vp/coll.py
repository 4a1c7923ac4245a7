"""Contracts of sonolus/build/collection.py on arbitrary strings, contents and maps.

The module's own source is run (vp/pysrc) with
  names, categories and hashes   z3 strings (SStr);  str.lower is an uninterpreted function known on the reserved names only
  contents                       uninterpreted values; sha1(...).hexdigest() is an uninterpreted function SHA1 of the content
  repository, items of a category   ghost maps: (present, value) as functions of all strings
  Path                           a ghost path whose operations are recorded
A loop over a ghost map or over directory entries runs its body once for an arbitrary element; the obligation is about that element, and
the loops have no other state (a write to a local or a map would be seen as an effect of the arbitrary element)."""
import z3

from vp import pysrc, sym
from vp.sym import Ctx, SBool, Unsupported, fresh

S = z3.StringSort()
D = z3.DeclareSort("Content")
SHA1 = z3.Function("sha1", D, S)
LOWER = z3.Function("lower", S, S)
PNAME = z3.Function("path_name", S, S)
RESERVED = ("info", "list")
CATS = ("posts", "playlists", "levels", "replays", "skins", "backgrounds", "effects", "particles", "engines")


def st(x):
    if isinstance(x, SStr):
        return x.t
    if type(x) is str:
        return z3.StringVal(x)
    raise Unsupported(f"string {type(x).__name__}")


class SStr(str):
    """a string of unknown value"""

    def __new__(cls, t):
        w = w_()
        s = str.__new__(cls, f"<{len(w.marks)}>")
        s.t = t
        w.marks.append(t)
        return s

    def __eq__(self, o):
        return SBool(self.t == st(o)) if isinstance(o, str) else False

    def __ne__(self, o):
        return SBool(self.t != st(o)) if isinstance(o, str) else True

    __hash__ = None

    def __format__(self, spec):
        if spec:
            raise Unsupported("format of a string")
        return str.__str__(self)

    def __repr__(self):
        return "'" + str.__str__(self) + "'"

    def __str__(self):
        return self

    def __bool__(self):
        return bool(SBool(self.t != z3.StringVal("")))

    def __contains__(self, o):
        return bool(SBool(z3.Contains(self.t, st(o))))

    def __len__(self):
        return sym.SInt(z3.Length(self.t))

    def lower(self):
        return SStr(LOWER(self.t))

    def startswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return SBool(z3.Or(*[z3.PrefixOf(st(q), self.t) for q in ps]))

    def endswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return SBool(z3.Or(*[z3.SuffixOf(st(q), self.t) for q in ps]))

    def __iter__(self):
        raise Unsupported("characters of a string")


def _no(name):
    def f(self, *a, **k):
        raise Unsupported("str." + name)
    return f


for _n in dir(str):
    if _n not in SStr.__dict__ and _n not in ("__class__", "__new__", "__init__", "__getattribute__", "__setattr__", "__delattr__", "__doc__", "__dir__",
                                              "__init_subclass__", "__subclasshook__", "__getnewargs__", "__sizeof__", "__reduce__", "__reduce_ex__", "__getstate__"):
        setattr(SStr, _n, _no(_n))


class Chars:
    """set(s) of an unknown string"""

    def __init__(self, s):
        self.s = s

    def __and__(self, o):
        return Chars2([z3.Contains(self.s.t, z3.StringVal(c)) for c in o if len(c) == 1])

    __rand__ = __and__
    intersection = __and__

    def isdisjoint(self, o):
        return not (self & o)

    def __contains__(self, c):
        return c in self.s


class Chars2:
    def __init__(self, cs):
        self.cs = cs

    def __bool__(self):
        return bool(SBool(z3.Or(*self.cs))) if self.cs else False


class SymSet(frozenset):
    """a constant set of strings that can be asked about an unknown string"""

    def __contains__(self, x):
        if isinstance(x, SStr):
            return bool(SBool(z3.Or(*[x.t == z3.StringVal(v) for v in sorted(self)])))
        return frozenset.__contains__(self, x)


class SymDict(dict):
    """a constant dictionary keyed by strings"""

    def _k(self, x):
        if isinstance(x, SStr):
            for k in self:
                if x == k:
                    return k
            raise KeyError(x)
        return x

    def __getitem__(self, k):
        return dict.__getitem__(self, self._k(k))

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d


class SContent(bytes):
    """bytes of unknown value"""

    def __new__(cls, t):
        s = bytes.__new__(cls, b"?")
        s.t = t
        return s

    def _u(self, *a, **k):
        raise Unsupported("bytes of an unknown content")

    __hash__ = None
    __len__ = __iter__ = __getitem__ = __add__ = __radd__ = __bool__ = __contains__ = strip = replace = split = hex = _u

    def __eq__(self, o):
        return SBool(self.t == o.t) if isinstance(o, SContent) else False

    def decode(self, *a, **k):
        return ("text", self)


class GHash:
    def __init__(self):
        self.data = None

    def update(self, d):
        if self.data is not None or not isinstance(d, SContent):
            raise Unsupported("hash of something else")
        self.data = d

    def hexdigest(self):
        if self.data is None:
            raise Unsupported("hash of nothing")
        return SStr(SHA1(self.data.t))


class GHashlib:
    def __getattr__(self, n):
        def other(*a, **k):
            # any other digest: unrelated to SHA1
            f = z3.Function("digest_" + n, D, S)

            class H:
                def hexdigest(s):
                    return SStr(f(a[0].t))
            return H()
        return other

    @staticmethod
    def sha1(d=None, **k):
        h = GHash()
        if d is not None:
            h.update(d)
        return h

    @staticmethod
    def new(name, d=None, **k):
        return GHashlib.sha1(d) if name == "sha1" else getattr(GHashlib(), name)(d)


def arb(label, V):
    """an arbitrary function of strings"""
    c = Ctx.cur
    c.fresh_n += 1
    return z3.Function(f"{label}!{c.fresh_n}", S, V)


def const(v):
    return lambda k: v


def sto(f, k, v):
    return lambda x: z3.If(x == k, v, f(x))


class GMap:
    """a map from strings to objects, arbitrary at first; each object stands for a value of sort V"""

    def __init__(self, name, wrap, unwrap, V, present=None, value=None):
        self.wrap, self.unwrap, self.V, self.name = wrap, unwrap, V, name
        self.p = arb(name + "_has", z3.BoolSort()) if present is None else present
        self.v = arb(name + "_val", V) if value is None else value
        self.each = None

    def copy(self):
        return GMap(self.name, self.wrap, self.unwrap, self.V, self.p, self.v)

    def __contains__(self, k):
        return bool(SBool(self.p(st(k))))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.wrap(self.v(st(k)))

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, x):
        self.p = sto(self.p, st(k), z3.BoolVal(True))
        self.v = sto(self.v, st(k), self.unwrap(x))

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, k, *d):
        if k in self:
            x = self[k]
            self.p = sto(self.p, st(k), z3.BoolVal(False))
            return x
        if d:
            return d[0]
        raise KeyError(k)

    def __delitem__(self, k):
        self.pop(k)

    def update(self, o):
        if not isinstance(o, GMap):
            raise Unsupported("update from something else")
        p, v, q, u = self.p, self.v, o.p, o.v
        self.p, self.v = (lambda k: z3.Or(q(k), p(k))), (lambda k: z3.If(q(k), u(k), v(k)))

    def __ior__(self, o):
        self.update(o)
        return self

    def __or__(self, o):
        m = self.copy()
        m.update(o)
        return m

    def _each(self):
        if self.each is None:
            raise Unsupported("loop over a map")
        return self.each

    def items(self):
        k = self._each()
        return [(k, self.wrap(self.v(k.t)))]

    def keys(self):
        return [self._each()]

    def values(self):
        return [self.items()[0][1]]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        raise Unsupported("size of a map")

    def __bool__(self):
        if self.each is not None:
            return True
        raise Unsupported("emptiness of a map")


class Cats(dict):
    """categories: any subset of the known ones, each an arbitrary map"""

    def __missing__(self, k):
        raise KeyError(k)

    def _k(self, k):
        if isinstance(k, SStr):
            for c in CATS:
                if k == c:
                    return c
            raise Unsupported("unknown category")
        return k

    def _g(self, x):
        if isinstance(x, dict) and not x and type(x) is dict:
            return empty_items()
        return x

    def setdefault(self, k, d=None):
        k = self._k(k)
        if not dict.__contains__(self, k):
            dict.__setitem__(self, k, self._g(d))
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        dict.__setitem__(self, self._k(k), self._g(v))

    def __getitem__(self, k):
        return dict.__getitem__(self, self._k(k))

    def get(self, k, d=None):
        r = dict.get(self, self._k(k), d)
        return self._g(r)

    def __contains__(self, k):
        return dict.__contains__(self, self._k(k))


class W:
    """what one path knows"""

    def __init__(self):
        self.marks = []
        self.objs = []
        self.log = []


def w_():
    return Ctx.cur.collw


def obj_id(x):
    w = w_()
    for i, y in enumerate(w.objs):
        if y is x:
            return z3.IntVal(i)
    w.objs.append(x)
    return z3.IntVal(len(w.objs) - 1)


class Item(dict):
    """item details of the map at a term: opaque"""

    def __init__(self, t):
        dict.__init__(self)
        self.t = t

    def __getitem__(self, k):
        return ("field", k, self.t)

    def get(self, k, d=None):
        return ("field", k, self.t)


def unwrap_item(x):
    return x.t if isinstance(x, Item) else obj_id(x)


def arb_items(name):
    return GMap(name, Item, unwrap_item, z3.IntSort())


def empty_items():
    return GMap("new", Item, unwrap_item, z3.IntSort(), const(z3.BoolVal(False)), const(z3.IntVal(-1)))


def arb_repo(name):
    def un(x):
        if not isinstance(x, SContent):
            raise Unsupported("content")
        return x.t
    return GMap(name, SContent, un, D)


class GPath:
    """a path: base and the components joined to it"""

    def __init__(self, *parts):
        ps = []
        for p in parts:
            ps += list(p.parts_) if isinstance(p, GPath) else [p]
        self.parts_ = tuple(ps)

    def __fspath__(self):
        raise Unsupported("path as a string")

    def __truediv__(self, o):
        return GPath(self, o)

    joinpath = __truediv__

    @property
    def name(self):
        p = self.parts_[-1]
        return SStr(PNAME(p.t)) if isinstance(p, SStr) else p

    @property
    def parts(self):
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self
        return SStr(fresh("part", S))

    def __iter__(self):
        yield self

    def mkdir(self, *a, **k):
        w_().log.append(("mkdir", self, None))

    def exists(self):
        b = fresh("exists", z3.BoolSort())
        r = bool(SBool(b))
        w_().log.append(("exists", self, r))
        return r

    is_file = exists

    def read_bytes(self):
        w_().log.append(("read", self, None))
        return SContent(fresh("file", D))

    def write_bytes(self, d):
        w_().log.append(("write", self, d))

    def write_text(self, t, **k):
        w_().log.append(("write", self, t))


import os as _os
_os.PathLike.register(GPath)


class GJson:
    class JSONDecodeError(ValueError):
        pass

    @staticmethod
    def dumps(x, **k):
        return ("json", x)

    @staticmethod
    def loads(x):
        if bool(SBool(fresh("bad_json", z3.BoolSort()))):
            raise GJson.JSONDecodeError("x")
        return ("parsed", x)


def g_set(x=()):
    return Chars(x) if isinstance(x, SStr) else set(x)


def load():
    m = pysrc.load("sonolus.build.collection", {"set": g_set})
    for k, v in list(m.__dict__.items()):
        if isinstance(v, (set, frozenset)):
            m.__dict__[k] = SymSet(v)
        elif type(v) is dict and v and not k.startswith("__") and all(isinstance(x, str) for x in v):
            m.__dict__[k] = SymDict(v)
    m.Path, m.hashlib, m.json = GPath, GHashlib(), GJson
    return m


def safe(n):
    """a name that is a file of its own in its directory, next to info and list"""
    return z3.And(n != "", n != ".", n != "..", z3.Not(z3.Contains(n, "/")), z3.Not(z3.Contains(n, "\\")), *[LOWER(n) != r for r in RESERVED], *[n != r for r in RESERVED])


def start():
    c = Ctx.cur
    c.collw = W()
    for r in RESERVED:
        c.axiom(LOWER(z3.StringVal(r)) == r)


def name(label, cond=None):
    t = z3.String(label)
    Ctx.cur.inputs[label] = t
    s = SStr(t)
    if cond is not None:
        Ctx.cur.assume(cond(t))
    return s


def collection(m, tag, cats):
    c = m.Collection()
    c.repository = arb_repo("repo" + tag)
    c.categories = Cats()
    for k in cats:
        dict.__setitem__(c.categories, k, arb_items(f"items{tag}_{k}"))
    return c


def frozen(c):
    return (c.repository, c.repository.p, c.repository.v, {k: (g, g.p, g.v) for k, g in c.categories.items()})


def same_map(label, g, p, v, at):
    """g is the map (p, v), at every key"""
    Ctx.cur.prove(label, z3.And(g.p(at) == p(at), z3.Implies(p(at), g.v(at) == v(at))))


def unchanged(label, c, f, repo=True, but=()):
    at = fresh("any", S)
    if repo:
        same_map(label + ": repository unchanged", c.repository, f[1], f[2], at)
    for k, (g, p, v) in f[3].items():
        if k not in but:
            if k not in c.categories:
                Ctx.cur.fail(label + ": category kept", k)
            else:
                same_map(label + ": other categories unchanged", c.categories[k], p, v, at)
    for k in c.categories:
        if k not in f[3] and k not in but:
            Ctx.cur.fail(label + ": no other category", k)


def session(label, body):
    """body() over every path; anything the ghost world does not know leaves the obligation undecided"""
    c = Ctx(label, budget_s=60)

    def run():
        start()
        try:
            body()
        except (Unsupported, sym.Budget, sym.Infeasible, z3.Z3Exception):
            raise
        except Exception as e:  # noqa: BLE001
            raise Unsupported(f"{type(e).__name__}: {e}") from e
    c.run(run)
    return c


def prove():
    """every contract; a list of contexts"""
    m = load()
    out = []

    def valid():
        n = name("name")
        r = m.Collection._is_valid_item_name(n)
        if r if isinstance(r, bool) else bool(r):
            Ctx.cur.prove("an accepted name is safe", safe(n.t))
            Ctx.cur.cover("accepted")
    out.append(session("Collection._is_valid_item_name", valid))

    for kind in ("bytes", "file"):
        def add_asset(kind=kind):
            c = collection(m, "", ("levels",))
            f = frozen(c)
            d = fresh("data", D)
            if kind == "bytes":
                v = SContent(d)
            else:
                v = GPath(name("path"))
                v_read = GPath.read_bytes

                def rb(self):
                    return SContent(d)
                GPath.read_bytes = rb
            try:
                r = c.add_asset(v)
            finally:
                if kind == "file":
                    GPath.read_bytes = v_read
            h = r["hash"]
            Ctx.cur.prove("the reference holds the hash of exactly these bytes", st(h) == SHA1(d))
            ok = isinstance(r["url"], str) and not isinstance(r["url"], SStr) and isinstance(h, SStr) and r["url"] == "/sonolus/repository/" + format(h)
            if not ok:
                Ctx.cur.fail("the address ends in the hash", repr(r["url"]))
            # before: content-addressed; and no two contents share a hash
            old = f[2](SHA1(d))
            Ctx.cur.assume(z3.Implies(f[1](SHA1(d)), SHA1(old) == SHA1(d)))
            Ctx.cur.axiom(z3.Implies(SHA1(old) == SHA1(d), old == d))
            at = fresh("any", S)
            same_map("the repository gains exactly these bytes under the hash", c.repository, sto(f[1], SHA1(d), z3.BoolVal(True)), sto(f[2], SHA1(d), d), at)
            Ctx.cur.assume(z3.Implies(f[1](at), SHA1(f[2](at)) == at))
            Ctx.cur.prove("content-addressed afterwards", z3.Implies(c.repository.p(at), SHA1(c.repository.v(at)) == at))
            unchanged("add_asset", c, f, repo=False)
            Ctx.cur.cover("added")
        out.append(session("Collection.add_asset/" + kind, add_asset))

    for cat in CATS:
        for have in ((), (cat,), (cat, "playlists" if cat != "playlists" else "skins")):
            def add_item(cat=cat, have=have):
                c = collection(m, "", have)
                f = frozen(c)
                n = name("name")
                item = {"name": "x", "title": {"en": "t"}, "extra": ["y"]}
                before = repr(item)
                try:
                    c.add_item(cat, n, item)
                except ValueError:
                    Ctx.cur.cover("refused")
                    unchanged("refused", c, f)
                    return
                Ctx.cur.cover("added")
                Ctx.cur.prove("only safe names are added", safe(n.t))
                if repr(item) != before:
                    Ctx.cur.fail("the argument is not changed", repr(item))
                g = c.categories[cat]
                o = z3.simplify(g.v(n.t))
                got = w_().objs[o.as_long()] if z3.is_int_value(o) and 0 <= o.as_long() < len(w_().objs) else None
                want = {"item": {"name": "x", "title": "t", "extra": ["y"]}, "actions": [], "hasCommunity": False, "leaderboards": [], "sections": []}
                if got != want:
                    Ctx.cur.fail("the details hold the item", repr(got))
                p, v = (f[3][cat][1], f[3][cat][2]) if cat in f[3] else (const(z3.BoolVal(False)), const(z3.IntVal(-1)))
                same_map("exactly this item is added or replaced", g, sto(p, n.t, z3.BoolVal(True)), sto(v, n.t, o), fresh("any", S))
                unchanged("add_item", c, f, but=(cat,))
            out.append(session(f"Collection.add_item/{cat}/{len(have)}", add_item))

    for mine, theirs in ((("levels", "skins"), ("levels", "engines")), ((), ("levels",)), (("levels",), ())):
        def update(mine=mine, theirs=theirs):
            a, b = collection(m, "a", mine), collection(m, "b", theirs)
            fa, fb = frozen(a), frozen(b)
            a.update(b)
            at = fresh("any", S)
            for label, g, (p1, v1), (p2, v2) in [("repository", a.repository, fa[1:3], fb[1:3])] + [
                    ("items", a.categories.get(k), fa[3][k][1:] if k in fa[3] else (const(z3.BoolVal(False)), const(z3.IntVal(-1))), fb[3][k][1:]) for k in theirs]:
                if not isinstance(g, GMap):
                    Ctx.cur.fail(label + ": present", repr(g))
                    continue
                Ctx.cur.prove(label + ": the other's entries replace or join one's own", z3.And(
                    g.p(at) == z3.Or(p1(at), p2(at)),
                    z3.Implies(p2(at), g.v(at) == v2(at)),
                    z3.Implies(z3.And(z3.Not(p2(at)), p1(at)), g.v(at) == v1(at))))
            Ctx.cur.assume(z3.And(*[z3.Implies(f[1](at), SHA1(f[2](at)) == at) for f in (fa, fb)]))
            Ctx.cur.prove("content-addressed afterwards", z3.Implies(a.repository.p(at), SHA1(a.repository.v(at)) == at))
            unchanged("update", a, fa, repo=False, but=theirs)
            unchanged("update: the other", b, fb)
            if a.repository is b.repository or any(a.categories.get(k) is b.categories[k] for k in theirs):
                Ctx.cur.fail("nothing is shared afterwards", "same object")
            Ctx.cur.cover("merged")
        out.append(session(f"Collection.update/{len(mine)}/{len(theirs)}", update))

    def wr_repo():
        c = collection(m, "", ())
        k = name("hash")
        c.repository.each = k
        Ctx.cur.assume(c.repository.p(k.t))
        d = c.repository.v(k.t)
        Ctx.cur.assume(SHA1(d) == k.t)
        c._write_repository_items(GPath("base"))
        wr = [e for e in w_().log if e[0] == "write"]
        ex = [e for e in w_().log if e[0] == "exists" and e[2] and e[1].parts_[-1] is k]
        if len(wr) + len(ex) < 1:
            Ctx.cur.fail("every asset is in the directory afterwards", repr(w_().log))
        for _, p, x in wr:
            if not (len(p.parts_) == 3 and p.parts_[:2] == ("base", "repository") and isinstance(p.parts_[2], SStr) and isinstance(x, SContent)):
                Ctx.cur.fail("assets are files of the repository directory", repr(p.parts_))
                continue
            Ctx.cur.prove("a file is named by the hash of the bytes it is given", SHA1(x.t) == p.parts_[2].t)
            Ctx.cur.prove("the file of an entry gets the bytes of the entry", z3.And(p.parts_[2].t == k.t, x.t == d))
        Ctx.cur.cover("written" if wr else "present")
    out.append(session("Collection._write_repository_items", wr_repo))

    for cat in CATS:
        def wr_items(cat=cat):
            c = collection(m, "", (cat,))
            g = c.categories[cat]
            k = name("name", safe)
            g.each = k
            Ctx.cur.assume(g.p(k.t))
            it = g.v(k.t)
            c._write_category_items(GPath("base"))
            seen = []
            for _, p, x in [e for e in w_().log if e[0] == "write"]:
                q = p.parts_
                if not (len(q) == 3 and q[0] == "base" and q[1] == cat):
                    Ctx.cur.fail("files of a category are in its directory", repr(q))
                    continue
                last = q[2]
                if isinstance(last, SStr):
                    Ctx.cur.prove("an item is a file of its own", z3.And(last.t == k.t, safe(last.t)))
                    if not (isinstance(x, tuple) and x[0] == "json" and isinstance(x[1], Item)):
                        Ctx.cur.fail("the file of an item holds its details", repr(x)[:200])
                    else:
                        Ctx.cur.prove("the file of an item holds its own details", x[1].t == it)
                    seen.append("item")
                else:
                    lst = None
                    if isinstance(x, tuple) and x[0] == "json" and isinstance(x[1], dict):
                        lst = x[1].get("items") if last == "list" else (x[1].get("sections") or [{}])[0].get("items")
                    if last not in RESERVED or not isinstance(lst, list):
                        Ctx.cur.fail("nothing else is written", repr((last, x))[:200])
                        continue
                    seen.append(last)
                    if len(lst) != 1 or not (isinstance(lst[0], tuple) and lst[0][:2] == ("field", "item")):
                        Ctx.cur.fail("a listing holds every item once", repr(lst)[:200])
                    else:
                        Ctx.cur.prove("a listing holds the item itself", lst[0][2] == it)
            if sorted(seen) != ["info", "item", "list"]:
                Ctx.cur.fail("info, list and the item's file are written, once each", repr(seen))
            Ctx.cur.cover("written")
        out.append(session("Collection._write_category_items/" + cat, wr_items))

    def extract():
        c = collection(m, "", ("levels",))
        f = frozen(c)

        class Entry:
            filename = name("filename")

        class Zip:
            def read(self, e):
                return SContent(fresh("entry", D))
        for cat in ("levels", "repository", "evil"):
            c._extract_category_items(Zip(), cat, [Entry()])
        at = fresh("any", S)
        g = c.categories["levels"]
        for k in c.categories:
            if k != "levels":
                Ctx.cur.fail("only known categories", k)
        Ctx.cur.prove("only safe names are taken from an archive", z3.Implies(z3.And(g.p(at), z3.Not(f[3]["levels"][1](at))), safe(at)))
        same_map("archive items: repository unchanged", c.repository, f[1], f[2], at)
        Ctx.cur.cover("extracted")
    out.append(session("Collection._extract_category_items", extract))

    for use in ("useSkin", "useBackground", "useEffect", "useParticle"):
        cat = {"useSkin": "skins", "useBackground": "backgrounds", "useEffect": "effects", "useParticle": "particles"}[use]
        for shape in ("default", "name", "item", "unnamed"):
            for eng in ("name", "item"):
                def link(use=use, cat=cat, shape=shape, eng=eng):
                    c = collection(m, "", ("engines", cat))
                    en, un = name("engine"), name("used")
                    e0 = en if eng == "name" else {"name": "e"}
                    u = {"useDefault": True} if shape == "default" else {"useDefault": False, "item": {"name": un, "own": 1} if shape == "item" else {"own": 1} if shape == "unnamed" else un}
                    u0 = u.get("item")
                    level = {"engine": e0, **{x: {"useDefault": True} for x in ("useSkin", "useBackground", "useEffect", "useParticle")}, use: u}

                    class Levels(dict):
                        def values(self):
                            return [{"item": level}]

                        def items(self):
                            return [(SStr(fresh("level", S)), {"item": level})]
                    dict.__setitem__(c.categories, "levels", Levels())
                    ge, gu = c.categories["engines"], c.categories[cat]
                    try:
                        c.link()
                    except KeyError:
                        if eng == "name":
                            Ctx.cur.prove("only a missing engine is an error", z3.Not(ge.p(en.t)))
                        else:
                            Ctx.cur.fail("no error", "KeyError")
                        return

                    def is_item(label, x, mp, k):
                        if isinstance(x, tuple) and x[:2] == ("field", "item"):
                            Ctx.cur.prove(label, z3.And(mp.p(k), x[2] == mp.v(k)))
                        else:
                            Ctx.cur.fail(label, repr(x)[:100])
                    if eng == "name":
                        is_item("the engine of that name is put in", level["engine"], ge, en.t)
                    elif level["engine"] is not e0:
                        Ctx.cur.fail("an engine given as an item stays", repr(level["engine"]))
                    if shape == "default":
                        if u != {"useDefault": True}:
                            Ctx.cur.fail("the default stays", repr(u))
                    elif u["item"] is u0:
                        if shape != "unnamed":
                            Ctx.cur.prove("a reference stays only when there is no such item", z3.Not(gu.p(un.t)))
                    elif shape == "unnamed":
                        Ctx.cur.fail("an item without a name stays", repr(u))
                    else:
                        is_item("the used item of that name is put in", u["item"], gu, un.t)
                    Ctx.cur.cover("linked")
                out.append(session(f"Collection.link/{use}/{shape}/{eng}", link))
    return out
