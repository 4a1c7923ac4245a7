"""Plant one bug: python3 tools/seed.py SPEC.py [--no-tests]

SPEC defines ID, PROP, FILE, EDITS=[(old,new),...] (or FILES={file:[(old,new)]}), NEEDS, BREAKS, DEMO (python source).
A scratch copy of /repo gets the edit, is built, must pass the stable tests, and must fail the demo;
/repo must pass the demo.  On success writes /verif/seeded/<ID>/.
"""
import json, os, shutil, subprocess, sys, pathlib, runpy

spec = runpy.run_path(sys.argv[1])
ID = spec["ID"]
ROOT = pathlib.Path(__file__).resolve().parent.parent
W = f"/tmp/w/seedrepo-{ID}"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, LANG="C.UTF-8", CI="true", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=ENV, **kw)


shutil.rmtree(W, ignore_errors=True)
subprocess.run(["cp", "-a", "/tmp/w/fixrepo", W], check=True)
files = spec.get("FILES") or {spec["FILE"]: spec["EDITS"]}
for f, edits in files.items():
    p = pathlib.Path(W, f)
    s = p.read_text()
    for old, new in edits:
        n = s.count(old)
        assert n == 1, (f, n, old)
        s = s.replace(old, new)
    p.write_text(s)
    if f.endswith(".pyx"):
        cpp = p.with_suffix(".cpp")
        cpp.unlink(missing_ok=True)
        for so in p.parent.glob(p.stem + ".*.so"):
            so.unlink()
D = pathlib.Path("/tmp/w/seedout", ID)
shutil.rmtree(D, ignore_errors=True)
D.mkdir(parents=True)
(D / "patch.diff").write_text(sh("git diff", W).stdout)
(D / "demo.py").write_text(spec["DEMO"])
if "demolib" in spec["DEMO"]:
    shutil.copy(ROOT / "tools/demolib.py", D / "demolib.py")
if "demoscript" in spec["DEMO"]:
    shutil.copy(ROOT / "tools/demoscript.py", D / "demoscript.py")
(D / "demo.sh").write_text('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                           'export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1\n'
                           + spec.get("DEMO_CMD", 'exec /opt/venv/bin/python "$here/demo.py"\n'))
(D / "meta.json").write_text(json.dumps({"property": spec["PROP"], "needs": spec["NEEDS"],
                                         "what_it_breaks": spec["BREAKS"]}, indent=1) + "\n")
if any(f.endswith((".pyx", ".pxd")) for f in files):
    r = sh(f"{PY} setup.py -q build_ext --inplace -j 8", W)
    if r.returncode:
        sys.exit("build failed:\n" + r.stderr[-2000:])
r0 = sh(f"bash {D}/demo.sh", "/tmp/w/fixrepo")
r1 = sh(f"bash {D}/demo.sh", W)
print("demo unchanged:", r0.returncode, (r0.stdout + r0.stderr)[-300:])
print("demo patched  :", r1.returncode, (r1.stdout + r1.stderr)[-300:])
ok = r0.returncode == 0 and r1.returncode != 0
if ok and "--no-tests" not in sys.argv:
    t = sh(f"timeout -k 5 200 {PY} -m pytest tests -q -p no:cacheprovider -n 8 --timeout=100 --tb=line "
           f"--continue-on-collection-errors -o junit_family=xunit2 --junitxml={D}/j.xml", W)
    if not (D / "j.xml").exists():
        sys.exit(f"REJECTED {ID}: tests did not finish")
    import xml.etree.ElementTree as ET
    bad = []
    seen = set()
    for c in ET.parse(D / "j.xml").getroot().iter("testcase"):
        n = c.get("classname", "") + "::" + c.get("name", "")
        seen.add(n)
        if c.find("failure") is not None or c.find("error") is not None:
            bad.append(n)
    (D / "j.xml").unlink()
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    hit = sorted(set(stable) - (seen - set(bad)))
    print("failing stable tests:", hit[:4], "of", len(bad), "failures;", len(seen), "seen")
    ok = not hit
if ok and "--keep" not in sys.argv:
    dst = ROOT / "seeded" / ID
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(D, dst)
print("OK" if ok else "REJECTED", ID, "tree:", W)
