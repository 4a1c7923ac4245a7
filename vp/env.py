"""A scratch copy of the repository with the optimizer extensions built from its current sources."""
import hashlib
import os
import shutil
import subprocess
import tempfile

PY = "/opt/venv/bin/python"
OPT = "sonolus/backend/_opt"


def _stamp(repo):
    """what /opt/vp/build.sh writes: one line per source, then the tool versions"""
    import glob
    cmd = (f"cd {repo}; sha256sum {OPT}/*.pyx {OPT}/*.pxd {OPT}/*.h setup.py pyproject.toml; "
           f"{PY} -c 'import sys, Cython, setuptools; print(sys.version.replace(\"\\n\", \" \"), Cython.__version__, setuptools.__version__)'; "
           "c++ --version | head -1")
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, check=True).stdout


def scratch(repo="/repo"):
    """(path of the copy, build log); the caller removes the path"""
    root = tempfile.mkdtemp(prefix="vp-")
    dst = os.path.join(root, "repo")
    os.mkdir(dst)
    for n in os.listdir(repo):
        if n in (".git", ".venv", "node_modules", ".hypothesis", ".pytest_cache"):
            continue
        s = os.path.join(repo, n)
        subprocess.run(["cp", "-a", s, dst + "/"], check=True)
    return root, dst


def build(dst):
    """None, or the compiler's output when the extensions do not build"""
    import glob
    new = _stamp(dst)
    stamp = os.path.join(dst, "build/vp-stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    mods = [os.path.splitext(os.path.basename(p))[0] for p in glob.glob(f"{dst}/{OPT}/*.pyx")]
    have = all(glob.glob(f"{dst}/{OPT}/{m}.*.so") for m in mods)
    if old == new and have:
        return None
    rest = lambda t: [l for l in t.splitlines() if ".pyx" not in l]
    if not old or rest(old) != rest(new):
        for p in glob.glob(f"{dst}/{OPT}/*.cpp"):
            os.unlink(p)
        for p in glob.glob(f"{dst}/build/lib.*") + glob.glob(f"{dst}/build/temp.*"):
            shutil.rmtree(p, ignore_errors=True)
    else:
        ol = set(old.splitlines())
        for l in new.splitlines():
            if ".pyx" in l and l not in ol:
                p = f"{dst}/" + l.split()[-1][:-4] + ".cpp"
                if os.path.exists(p):
                    os.unlink(p)
    for p in glob.glob(f"{dst}/{OPT}/*.so"):
        os.unlink(p)
    env = dict(os.environ, HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PIP_NO_INDEX="1")
    env.pop("SONOLUS_OPT_DEBUG_BUILD", None)
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "-j", "8"], cwd=dst, env=env,
                       capture_output=True, text=True)
    if r.returncode != 0:
        return (r.stdout + r.stderr)[-4000:] or "build failed"
    return None


def remove(root):
    assert root.startswith(tempfile.gettempdir() + "/vp-")
    shutil.rmtree(root, ignore_errors=True)
