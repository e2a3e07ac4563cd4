"""Build the Rust extension of the working tree, offline.

The crate's only dependency (pyo3-ffi) isn't available here, so its declarations
are taken from `rust/pyo3_ffi.rs`, which binds the same C API.
"""
from __future__ import annotations

import hashlib
import os
import shutil
import subprocess
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FFI = os.path.join(VERIF, "rust", "pyo3_ffi.rs")


class CannotBuild(Exception):
    pass


def _sh(cmd, **kw):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=600, stdin=subprocess.DEVNULL, **kw)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise CannotBuild(repr(e)) from None
    if p.returncode:
        raise CannotBuild((p.stderr or p.stdout)[-1500:])


def _rustc():
    for p in (shutil.which("rustc"), "/usr/local/bin/rustc", "/root/.cargo/bin/rustc"):
        if p and os.path.exists(p):
            return p
    raise CannotBuild("no rustc")


def build(repo="/repo", pysrc=None) -> str:
    """Returns a directory to put on sys.path: the package, with its extension"""
    pysrc = pysrc or os.path.join(repo, "pysrc")
    src = os.path.join(repo, "src")
    h = hashlib.sha256()
    files = [FFI] + [os.path.join(src, f) for f in sorted(os.listdir(src))]
    files += [os.path.join(pysrc, "whenever", f) for f in sorted(os.listdir(os.path.join(pysrc, "whenever")))]
    for f in files:
        if os.path.isfile(f) and not f.endswith((".so", ".pyc")):
            h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read())
    base = os.path.join(VERIF, "build")
    out = os.path.join(base, h.hexdigest()[:16])
    if os.path.exists(os.path.join(out, "done")):
        return out
    if os.path.isdir(base):
        for old in sorted(os.listdir(base), key=lambda d: os.path.getmtime(os.path.join(base, d)))[:-3]:
            shutil.rmtree(os.path.join(base, old), ignore_errors=True)
    tmp = f"{out}.{os.getpid()}"
    pkg = os.path.join(tmp, "whenever")
    os.makedirs(pkg)
    try:
        for f in os.listdir(os.path.join(pysrc, "whenever")):
            p = os.path.join(pysrc, "whenever", f)
            if os.path.isfile(p) and not f.endswith((".so", ".pyc")):
                shutil.copy(p, pkg)
        env = {**os.environ, "HOME": os.environ.get("HOME", "/root")}
        rustc = _rustc()
        _sh([rustc, "--edition", "2021", "-C", "opt-level=1", "--crate-type", "rlib", "--crate-name", "pyo3_ffi", "-A", "warnings", FFI,
             "-o", os.path.join(tmp, "libpyo3_ffi.rlib")], env=env, cwd=tmp)
        cfgs = sum((["--cfg", f"Py_3_{n}"] for n in range(8, 13)), [])
        _sh([rustc, "--edition", "2021", "-C", "opt-level=2", "-C", "codegen-units=8", "--crate-type", "cdylib", "--crate-name", "_whenever", "-A", "warnings", *cfgs,
             "--extern", "pyo3_ffi=" + os.path.join(tmp, "libpyo3_ffi.rlib"), os.path.join(src, "lib.rs"),
             "-o", os.path.join(pkg, "_whenever" + sysconfig.get_config_var("EXT_SUFFIX"))], env=env, cwd=tmp)
        _sh(["/opt/venv/bin/python", "-B", "-c", "import whenever; assert whenever._EXTENSION_LOADED"],
            env={**env, "PYTHONPATH": tmp}, cwd=tmp)
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, out)
        except OSError:  # another process was first
            if not os.path.exists(os.path.join(out, "done")):
                raise CannotBuild("build folder in use") from None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out
