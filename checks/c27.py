"""C27: installing puts the complete package into Sionna and damages nothing.

The scripts of the repository run as an unprivileged user inside a scratch
directory that holds a copy of Sionna's package layout; pip, curl, ln and rm are
stand-ins that only reach that directory.
"""
import ast
import glob
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import sysconfig
import tempfile

import numpy as np

from rt.boot import boot, seed_all
from rt.recorder import np_of

RULE = ("one distinct case = (script, layout of the package file it edits) or (installed form, scenario, direction, "
        "band, state)")
MIN_EVENTS = {"edited": 25, "untouched": 8, "again": 30, "other files": 30, "file packaged": 100, "installed": 2,
              "installed model": 24}
ASSUMPTIONS = ["pip's download and curl's download are replaced by the working tree; the package file to edit imports "
               "tr38901 on a line of its own, as every Sionna release does"]
REPO = "/repo"
NEW = "from . import tr38811"
NOBODY = 65534


def _scratch():
    d = tempfile.mkdtemp(prefix="c27.", dir="/tmp")
    os.chmod(d, 0o755)
    return d


def _own(d):
    if os.getuid() == 0:
        for p, ds, fs in os.walk(d):
            for f in [p] + [os.path.join(p, x) for x in fs]:
                try:
                    os.chown(f, NOBODY, NOBODY, follow_symlinks=False)
                except OSError:
                    pass


GUARD = r"""
import os, runpy, sys
D = os.path.realpath(sys.argv[1])
W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
def hook(ev, a):
    if ev in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty", "os.kill"):
        bad = True
    elif ev == "open":
        p = a[0]
        w = bool(a[2] & W) if isinstance(a[2], int) else any(x in (a[1] or "") for x in "wax+")
        bad = w and isinstance(p, (str, bytes)) and not ok(p)
    elif ev in ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.symlink", "os.link", "os.truncate", "os.chmod",
                "os.chown", "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.copytree", "os.utime"):
        ps = [x for x in a if isinstance(x, (str, bytes))]
        bad = not ok(ps[-1]) if ev in ("os.symlink", "shutil.copyfile", "shutil.copytree") else not all(map(ok, ps))
    else:
        return
    if bad:
        sys.stderr.write("reached outside: %s %r\n" % (ev, a))
        sys.stderr.flush()
        os._exit(77)
def ok(p):
    p = os.fsdecode(p)
    q = os.path.join(os.path.realpath(os.path.dirname(p) or "."), os.path.basename(p))
    return q.startswith(D + "/") or q in ("/dev/null", "/dev/stdout", "/dev/stderr")
script = sys.argv[2]
sys.argv = sys.argv[2:]
sys.addaudithook(hook)
runpy.run_path(script, run_name="__main__")
"""


def _run(cmd, d, env, timeout=300):
    """As an unprivileged user where that is possible, in d."""
    e = dict(PATH=env.pop("PATH", "/usr/bin:/bin"), HOME=d, TMPDIR=d, PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8",
             TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="-1", **env)
    kw = dict(cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    if os.getuid() == 0:
        try:
            return subprocess.run(cmd, user=NOBODY, group=NOBODY, extra_groups=[], **kw)
        except (OSError, subprocess.SubprocessError, ValueError):
            pass
    return subprocess.run(cmd, **kw)


def _guarded(script, d):
    """Command running a script that can only write below d."""
    g = os.path.join(d, "guard.py")
    if not os.path.exists(g):
        with open(g, "w") as f:
            f.write(GUARD)
    return [sys.executable, "-W", "ignore", g, d, script]


# --------------------------------------------------------------- package file
def _layout(rng, kind):
    """Text of a channel package's __init__.py."""
    lines = ["#", "# SPDX-License-Identifier: Apache-2.0", '"""Channel sub-package of the Sionna library"""', ""]
    pool = ["from .awgn import AWGN", "from . import optical_", "from .tr38901x import Antenna", "",
            "# the models of tr38901 and tr38811 are packages", "x = 'tr38811'", "from .a import b,\\\n              c",
            "from .flat import (G,\n    A)", "import os", "# é", "from .optical import *",
            "try:\n    import tr\nexcept ImportError:\n    tr = None", "def f():\n    return 1"]
    head = [rng.choice(pool) for _ in range(rng.choice((0, 1, 3, 12)))]
    tail = [rng.choice(pool) for _ in range(rng.choice((0, 1, 3, 12)))]
    old = rng.choice(("from . import tr38901", "from . import tr38901  # terrestrial", "from . import tr38901 as tr",
                      "from . import tr38901   "))
    mid = {"plain": [old], "absent": [], "done": [old, NEW], "done-later": [old, "import os", NEW],
           "done-first": [NEW, "", old], "done-only": [NEW], "done-comment": [old, NEW + "  # OpenNTN"],
           "done-spaces": [old, NEW + "   "], "done-end": [old, NEW]}[kind]
    if kind == "done-end":               # last line, perhaps without its end
        return "\n".join(lines + head + mid) + rng.choice(("", "\n"))
    return "\n".join(lines + head + mid + tail) + rng.choice(("\n", "\n", "\n\n"))


def _names(tree):
    return [(n.level, n.module, a.name) for n in ast.walk(tree) if isinstance(n, ast.ImportFrom) for a in n.names]


def _state(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for x in ds + fs:
            f = os.path.join(p, x)
            k = os.path.relpath(f, d)
            out[k] = (os.readlink(f) if os.path.islink(f) else
                      hashlib.sha256(open(f, "rb").read()).hexdigest() if os.path.isfile(f) else "dir")
    return out


def _patch(c, m):
    rng = random.Random(c["seed"])
    d = _scratch()
    try:
        site = os.path.join(d, "site")
        sub = "sionna/phy/channel" if c["script"] == "post_install.py" else "sionna/channel"
        ini = os.path.join(site, sub, "__init__.py")
        os.makedirs(os.path.dirname(ini))
        os.makedirs(os.path.join(site, "sionna-1.2.2.dist-info"))
        with open(os.path.join(site, "sionna-1.2.2.dist-info", "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: sionna\nVersion: 1.2.2\n")
        text = _layout(rng, c["kind"])
        with open(ini, "w", encoding="utf-8") as f:
            f.write(text)
        for q in ("sionna/__init__.py", "sionna/phy/__init__.py", sub + "/utils.py", "sionna/channel/__init__.py",
                  "sionna/phy/channel/__init__.py"):
            q = os.path.join(site, q)
            if not os.path.exists(q):
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "w") as f:
                    f.write("from . import tr38901\n" if "__init__" in q else "pass\n")
        _guarded("", d)
        _own(d)
        script = os.path.join(REPO, c["script"])
        before, old = _state(site), ast.parse(text)
        for k in range(c["times"]):
            r = _run(_guarded(script, d), d, dict(PYTHONPATH=site))
            m.need(r.returncode == 0, "exit", f"{c['script']} failed: {r.stderr[-300:]}")
            with open(ini, encoding="utf-8") as f:
                now = f.read()
            after = _state(site)
            key = os.path.relpath(ini, site)
            diff = [q for q in set(before) | set(after) if before.get(q) != after.get(q) and q != key]
            m.check(not diff, "other files", f"{c['script']} changed {diff[:3]}", n=len(after))
            if k:
                m.need(now == prev, "again", f"run {k + 1} changed the file again", before=prev[-400:], after=now[-400:])
            elif c["kind"] != "plain":
                m.need(now == text, "untouched", f"file changed although {c['kind']}", before=text[-400:], after=now[-400:])
            else:
                try:
                    tree = ast.parse(now)
                except SyntaxError as e:
                    m.need(False, "edited", f"the file no longer parses: {e}", after=now[-600:])
                new = [n for n in tree.body if isinstance(n, ast.ImportFrom) and (n.level, n.module) == (1, None)
                       and [(a.name, a.asname) for a in n.names] == [("tr38811", None)]]
                m.need(len(new) == 1, "edited", f"{len(new)} top-level imports of tr38811", after=now[-600:])
                i = tree.body.index(new[0])
                m.check((1, None, "tr38901") in _names(ast.Module(tree.body[:i], [])), "edited",
                        "imported before tr38901")
                tree.body.remove(new[0])
                m.check(ast.dump(tree) == ast.dump(old), "edited", "other statements changed", after=now[-600:])
                a, b = text.splitlines(), [q for q in now.splitlines()]
                b.pop([q.strip() for q in b].index(NEW))
                m.check([q.rstrip() for q in a] == [q.rstrip() for q in b], "edited", "other lines changed",
                        after=now[-600:])
            prev = now
        m.seen(c["script"], c["kind"], len(text.splitlines()))
        m.sample(script=c["script"], kind=c["kind"], lines=len(text.splitlines()))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -------------------------------------------------------------------- install
PROBE = r'''
import json, os, sys, warnings
warnings.simplefilter("ignore")
sys.meta_path[:] = [f for f in sys.meta_path if "openntn" not in (f.__module__ if isinstance(f, type) else
                    type(f).__module__).lower()]          # not the working tree
import numpy as np, tensorflow as tf
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)
from sionna.phy import config
if sys.argv[1] == "sionna":
    from sionna.phy.channel import tr38811 as t
    import sionna.phy.channel as ch
    assert ch.tr38811 is t
else:
    import OpenNTN as t
import importlib, importlib.util
u = importlib.import_module(t.__name__ + ".utils")
%s
assert sys.argv[1] == "own" or sys.argv[3] == "linked" or importlib.util.find_spec("OpenNTN") is None
json.dump(dict(file=os.path.realpath(t.__file__), out=go(t, u, tf, config)), open(sys.argv[2], "w"))
'''
WORK = r'''
def go(t, u, tf, config):
    import numpy as np
    out = {}
    for scen, name in (("dur", "DenseUrban"), ("urb", "Urban"), ("sur", "SubUrban")):
        for fc in (2e9, 30e9):
            for direction in ("uplink", "downlink"):
                for los in (True, False):
                    config.seed = 7
                    tf.random.set_seed(7)
                    np.random.seed(7)
                    mk = lambda k: t.AntennaArray(num_rows=1, num_cols=1 + k, polarization="dual",
                                                  polarization_type="cross", antenna_pattern=("omni", "aperture")[k],
                                                  carrier_frequency=fc)
                    m = getattr(t, name)(carrier_frequency=fc, ut_array=mk(0), bs_array=mk(1), direction=direction,
                                         elevation_angle=70.)
                    m.set_topology(*u.gen_single_sector_topology(batch_size=2, num_ut=2, scenario=scen,
                                   elevation_angle=70., bs_height=6e5), los=los)
                    a, tau = m(num_time_samples=2, sampling_frequency=1e5)
                    a, tau = a.numpy(), tau.numpy()
                    out[f"{scen} {fc:g} {direction} {los}"] = [list(a.shape), float(np.abs(a).sum()), float(tau.sum()),
                                                               bool(np.isfinite(a).all())]
    return out
'''
STUBS = {
    "pip": """#!/bin/bash
case "$1" in
install) touch pip_installed; cp -r "$C27/wheel/." "$C27/site/" ;;
show) echo "Name: $2"; echo "Version: 1"; echo "Location: $C27/site"; echo "Requires: x" ;;
*) exit 3 ;;
esac
""",
    "curl": """#!/bin/bash
out=; url=
while [ $# -gt 0 ]; do case "$1" in -o) out=$2; shift ;; -*) ;; *) url=$1 ;; esac; shift; done
case "$out" in */*|'') exit 3 ;; esac
cp "/repo/$(basename "$url")" "./$out"
""",
    "python": """#!/bin/bash
exec "$C27_PY" -W ignore "$C27/guard.py" "$C27" "$@"
""",
    "ln": """#!/bin/bash
for x in "$@"; do case "$x" in -*|"$C27"/*) ;; *) echo "ln outside: $x" >&2; exit 3 ;; esac; done
exec /usr/bin/ln "$@"
""",
    "rm": """#!/bin/bash
for x in "$@"; do case "$x" in */*) case "$x" in "$C27"/*) ;; *) echo "rm outside: $x" >&2; exit 3 ;; esac ;; esac; done
exec /usr/bin/rm "$@"
"""}


def _wheel(d):
    """Builds the wheel from a copy of the working tree; returns its unpacked content."""
    src, out, un = (os.path.join(d, x) for x in ("src", "out", "wheel"))
    shutil.copytree(REPO, src, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.egg-info", "build", "dist"))
    os.makedirs(out)
    os.makedirs(un)
    r = subprocess.run([sys.executable, "-m", "pip", "wheel", "-q", "--no-deps", "--no-build-isolation", "--no-index",
                        "-w", out, src], cwd=d, capture_output=True, text=True, timeout=300,
                       env=dict(os.environ, HOME=d, TMPDIR=d, PYTHONPATH=""))
    ws = glob.glob(os.path.join(out, "*.whl"))
    if r.returncode or len(ws) != 1:
        return None, r.stderr[-500:]
    shutil.unpack_archive(ws[0], un, "zip")
    return un, ""


def _install(c, m):
    ns = boot()
    d = _scratch()
    try:
        wheel, err = _wheel(d)
        m.need(wheel is not None, "file packaged", f"no wheel: {err}")
        for p, ds, fs in os.walk(os.path.join(REPO, "OpenNTN")):
            if "__pycache__" in p:
                continue
            for f in fs:
                a = os.path.join(p, f)
                b = os.path.join(wheel, os.path.relpath(a, REPO))
                if f.endswith((".pyc", ".swp")):
                    continue
                m.check(os.path.exists(b) and open(a, "rb").read() == open(b, "rb").read(), "file packaged",
                        f"{os.path.relpath(a, REPO)} is not in the wheel as it is")
        site = os.path.join(d, "site")
        os.makedirs(site)
        pure = sysconfig.get_path("purelib")
        if c["form"] == "standalone":
            shutil.copytree(wheel, site, dirs_exist_ok=True)
            want = os.path.join(site, "OpenNTN", "__init__.py")
        else:
            # Sionna's layout with links to its content, its channel package as released
            legacy = c["form"] == "legacy"
            for part in ("sionna", "sionna/phy", "sionna/phy/channel"):
                os.makedirs(os.path.join(site, part))
                for x in os.listdir(os.path.join(pure, part)):
                    if x in ("__pycache__", "tr38811") or (part + "/" + x) in ("sionna/phy", "sionna/phy/channel"):
                        continue
                    os.symlink(os.path.join(pure, part, x), os.path.join(site, part, x))
            for x in os.listdir(pure):
                if x.lower().startswith("sionna-1") and x.endswith("-info"):
                    shutil.copytree(os.path.join(pure, x), os.path.join(site, x))
            ini = os.path.join(site, "sionna/phy/channel/__init__.py")
            text = open(ini, encoding="utf-8").read()
            os.unlink(ini)
            text = "".join(q for q in text.splitlines(True) if q.strip() != NEW)
            with open(ini, "w", encoding="utf-8") as f:
                f.write(text)
            sub = "phy/channel"
            if legacy:
                sub = "channel"
                os.makedirs(os.path.join(site, "sionna/channel"))
                ini = os.path.join(site, "sionna/channel/__init__.py")
                with open(ini, "w") as f:
                    f.write(text)
            if c["form"] == "copied":        # by hand, as the documentation says: OpenNTN exists nowhere else
                link = os.path.join(site, "sionna/phy/channel/tr38811")
                shutil.copytree(os.path.join(d, "src", "OpenNTN"), link)
                with open(ini, "w", encoding="utf-8") as f:
                    f.write(text.replace("from . import tr38901\n", f"from . import tr38901\n{NEW}\n"))
            else:
                bin_ = os.path.join(d, "bin")
                os.makedirs(bin_)
                for k, v in STUBS.items():
                    with open(os.path.join(bin_, k), "w") as f:
                        f.write(v)
                    os.chmod(os.path.join(bin_, k), 0o755)
                _guarded("", d)
                _own(d)
                before = _state(site)
                r = _run(["bash", os.path.join(REPO, "install_legacy.sh" if legacy else "install.sh")], d,
                         dict(PATH=bin_ + ":/usr/bin:/bin", C27=d, C27_PY=sys.executable, PYTHONPATH=site))
                m.need("outside" not in r.stderr, "installed", f"the installer reached outside: {r.stderr[-300:]}")
                link = os.path.join(site, "sionna", sub, "tr38811")
                m.need(os.path.isdir(link) and os.path.exists(os.path.join(link, "__init__.py")), "installed",
                       f"no tr38811 in Sionna: {r.stderr[-300:]}")
                after = _state(site)
                own = {"OpenNTN", "test"} if not legacy else {"OpenNTN", "test"}
                bad = [k for k in before if before[k] != after.get(k) and k != os.path.relpath(ini, site)]
                bad += [k for k in after if k not in before and k.split("/")[0] not in own and "openntn" not in k.lower()
                        and k != os.path.relpath(link, site) and not k.startswith(os.path.relpath(link, site) + "/")]
                m.check(not bad, "installed", f"changed or left behind: {bad[:4]}")
                left = [x for x in os.listdir(d) if x.startswith("post_install")]
                m.check(not left, "installed", f"left behind: {left}")
                m.check(open(ini, encoding="utf-8").read().count(NEW + "\n") == 1, "installed", "import line")
                if legacy:
                    m.seen(c["form"])
                    return
            want = os.path.join(link, "__init__.py")
        with open(os.path.join(d, "probe.py"), "w") as f:
            f.write(PROBE % WORK)
        _own(d)
        res = os.path.join(d, "res.json")
        r = _run([sys.executable, os.path.join(d, "probe.py"), "own" if c["form"] == "standalone" else "sionna", res,
                  "copied" if c["form"] == "copied" else "linked"], d,
                 dict(PYTHONPATH=site, C27=d), 600)
        m.need(r.returncode == 0, "installed", f"the installed package does not work: {r.stderr[-400:]}")
        got = json.load(open(res))
        m.need(got["file"] == os.path.realpath(want), "installed", f"imported from {got['file']}")
        env = {}
        exec(WORK, env)                              # the same work with the working tree
        ref = env["go"](ns.t, ns.utils, ns.tf, ns.config)
        for k in ref:
            a, b = got["out"][k], ref[k]
            m.check(a[0] == b[0] and a[3] and b[3] and np.allclose(a[1:3], b[1:3], rtol=1e-4), "installed model",
                    f"{k}: installed {a}, working tree {b}")
            m.seen(c["form"], *k.split())
        m.sample(form=c["form"], models=len(ref))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cases(tier, rng):
    out = [dict(what="install", form=f) for f in ("sionna", "standalone", "copied", "legacy")]
    n = {"quick": 60, "thorough": 600}[tier]
    for i in range(n):
        out.append(dict(what="patch", script=("post_install.py", "post_install_legacy.py")[i % 2],
                        kind=rng.choice(("plain",) * 8 + ("absent", "done", "done-later", "done-first", "done-only",
                                                        "done-comment", "done-spaces", "done-end")),
                        times=rng.choice((2, 2, 3))))
    return out


def run(c, m):
    (_install if c["what"] == "install" else _patch)(c, m)
