"""helpers shared by the check modules"""
import math
import random
import struct

SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, 2.0, -2.0, 3.0, 7.0, 10.0, 0.1, 1 / 3, math.pi, math.e, 1e-3, 1e9, -1e9,
           2.0**31, 2.0**53, 2.0**53 + 2, 1e300, -1e300, 1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308,
           16777216.0, 16777217.0, 0.49999999999999994, 4503599627370497.5, math.inf, -math.inf, math.nan, 65535.0, 65536.0]


def bits(x):
    x = float(x)
    return "nan" if x != x else struct.pack("<d", x)


def same(a, b):
    return bits(a) == bits(b)


def draw(r):
    k = r.random()
    if k < 0.35:
        return r.choice(SPECIAL)
    if k < 0.55:
        return r.random()
    if k < 0.7:
        return r.uniform(-10, 10)
    if k < 0.85:
        return float(r.randint(-20, 20))
    if k < 0.93:
        return r.uniform(-1e6, 1e6)
    return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]


def pack(c):
    """a Ctx's obligations as a task result"""
    return {"obls": [{"name": o.name, "status": o.status, "backend": o.backend, "secs": round(o.secs, 4), "model": _m(o.model),
                      "detail": o.detail} for o in c.obls],
            "covers": sorted(f"{c.name}:{k}" for k in c.covers)}


def _m(m):
    if m is None:
        return None
    return {k: (("hex", v.hex()) if isinstance(v, float) else v) for k, v in m.items()}


def unmodel(m):
    """inverse of the JSON form of a model"""
    return {k: (float.fromhex(v[1]) if isinstance(v, (list, tuple)) and len(v) == 2 and v[0] == "hex" else v) for k, v in (m or {}).items()}


def merge(*rs):
    out = {"obls": [], "covers": [], "violations": [], "bounded": []}
    for r in rs:
        for k in ("obls", "covers", "violations"):
            out[k] += r.get(k, [])
        if r.get("bounded"):
            out["bounded"] += r["bounded"] if isinstance(r["bounded"], list) else [r["bounded"]]
    return out
