"""Side-effect sanitizer: importing and calling the library changes nothing in the process and touches nothing outside it."""

import hashlib
import json
import logging
import os
import random
import signal
import subprocess
import sys
import threading
import warnings

import numpy as np

from props import c31

ID = "C32"
N = {"quick": {"f32": 32, "x64": 16}, "thorough": {"f32": 320, "x64": 320}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"calls": 400, "programs": 38, "audited_events": 1000, "settings_compared": 5000, "imports": 4, "interrupted": 10, "unusual_settings": 60}}
RULE = """Every public function (about 40 programs) called with random data between two snapshots of the process's settings (JAX configuration, random states, rcParams,
warning filters, environment, working directory, signal handlers, loggers, descriptors, streams, recursion limit, NumPy print and error settings) under an audit hook
that records files opened, sockets, processes and threads, with captured output and warnings; imports of each module in fresh processes; distinct = (program, data)."""
ASSUMES = ["reading files, and what matplotlib and JAX do for themselves when first used, are not effects of this library",
           "beartype advances Python's random generator: only its reset is an effect", "a plot without axes uses pyplot's current ones, as documented"]
BAD = ("socket.", "subprocess.", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.spawn", "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.chdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate",
       "os.putenv", "os.unsetenv", "os.kill", "os.utime", "shutil.", "tempfile.", "signal.", "urllib.", "http.", "ftplib.", "smtplib.", "webbrowser.", "sqlite3.", "_thread.start_new_thread", "_thread.start_joinable_thread", "sys.addaudithook",
       "sys.setprofile", "sys.settrace")
EVENTS = []
ON = [False]


def hook(event, args):
    if not ON[0]:
        return
    if event == "open":
        path, mode, flags = (tuple(args) + (None,) * 3)[:3]
        w = isinstance(mode, str) and any(c in mode for c in "wax+")
        if not w and mode is None and isinstance(flags, int):
            w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        EVENTS.append((event, str(path), bool(w)))
    elif event.startswith(BAD):
        EVENTS.append((event, str(args)[:80], True))
    else:
        EVENTS.append((event, "", False))


def settings():
    import equinox  # noqa: F401
    import jax
    import jaxtyping  # noqa: F401
    import matplotlib as mpl

    out = {}
    for k, v in jax.config.values.items():
        out["jax." + k] = repr(v)
    for k in ("jax_enable_x64", "jax_debug_nans", "jax_debug_infs", "jax_disable_jit", "jax_numpy_rank_promotion", "jax_numpy_dtype_promotion", "jax_default_matmul_precision", "jax_check_tracer_leaks", "jax_default_device", "jax_log_compiles",
              "jax_enable_checks", "jax_threefry_partitionable", "jax_default_prng_impl", "jax_compilation_cache_dir", "jax_array_garbage_collection_guard", "jax_legacy_prng_key", "jax_transfer_guard"):
        if hasattr(jax.config, k):
            out["jax.now." + k] = repr(getattr(jax.config, k))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in mpl.rcParams:
            out["mpl." + k] = repr(mpl.rcParams._get(k) if hasattr(mpl.rcParams, "_get") else mpl.rcParams[k])
    out["warnings.filters"] = hashlib.sha1(repr(warnings.filters).encode()).hexdigest()
    out["random.np"] = hashlib.sha1(repr(np.random.get_state(legacy=True)[1].tobytes()).encode() + repr(np.random.get_state()[2:]).encode()).hexdigest()
    out["np.print"] = repr(np.get_printoptions())
    out["np.err"] = repr(np.geterr())
    for k, v in os.environ.items():
        out["env." + k] = v
    out["cwd"] = os.getcwd()
    for s in range(1, 32):
        out[f"signal.{s}"] = repr(signal.getsignal(s))
    for nm in (None, "jax", "matplotlib", "differt2d", "equinox"):
        lg = logging.getLogger(nm)
        out[f"log.{nm}"] = repr((lg.level, lg.handlers, lg.disabled, lg.propagate))
    out["log.disable"] = repr(logging.root.manager.disable)
    for nm in ("stdout", "stderr", "stdin", "displayhook", "excepthook", "breakpointhook", "unraisablehook"):
        out["sys." + nm] = repr(getattr(sys, nm))
    out["sys.path"] = repr(sys.path)
    out["sys.meta_path"] = repr([type(x).__name__ if not isinstance(x, type) else x.__name__ for x in sys.meta_path])
    out["sys.recursion"] = repr(sys.getrecursionlimit())
    out["sys.switch"] = repr(sys.getswitchinterval())
    out["sys.trace"] = repr((sys.gettrace(), sys.getprofile()))
    out["threads"] = repr(sorted(t.name for t in threading.enumerate()))
    out["umask"] = "".join(x for x in open("/proc/self/status") if x.startswith("Umask"))
    out["locale"] = repr(__import__("locale").setlocale(0, None))
    import atexit
    import resource
    import socket

    out["exit"] = repr((threading.excepthook, warnings.showwarning, warnings.formatwarning, __import__("multiprocessing").get_start_method(allow_none=True), sys.get_asyncgen_hooks(), __import__("faulthandler").is_enabled()))
    out["limits"] = repr([resource.getrlimit(r) for r in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CPU, resource.RLIMIT_CORE)] + [os.getpriority(0, 0), sorted(os.sched_getaffinity(0)), socket.getdefaulttimeout()])
    out["builtins"] = repr(sorted((k, id(v)) for k, v in vars(__import__("builtins")).items() if k != "_"))
    out["atexit"] = repr(atexit._ncallbacks())
    out["timer"] = repr((signal.getitimer(signal.ITIMER_REAL), __import__("time").tzname))
    out["codecs"] = repr((sys.getdefaultencoding(), sys.getfilesystemencoding(), sys.flags, sys.dont_write_bytecode, sys.getswitchinterval()))
    out["gc"] = repr((__import__("gc").isenabled(), __import__("gc").get_threshold()))
    out["decimal"] = repr(__import__("decimal").getcontext().prec)
    return out


def backends():
    """Attributes of other packages' modules which a library might replace."""
    import equinox
    import jax
    import jax.numpy as jnp
    import jaxtyping
    import matplotlib.axes
    import matplotlib.pyplot as plt
    import optax

    return {f"{m.__name__}.{k}": id(v) for m in (jax, jnp, jax.nn, jax.lax, jax.random, jax.tree_util, np, equinox, optax, plt, matplotlib.axes.Axes, matplotlib.axes.Axes.__mro__[1], json, equinox.Module, jaxtyping)
            for k, v in vars(m).items() if callable(v) and not k.startswith("__")}


def advanced(before):
    """Whether Python's generator was only advanced (beartype draws indices of items to check from it), not seeded or restored."""
    r = random.Random()
    r.setstate(before)
    now = random.getstate()
    for _ in range(20000):
        if r.getstate() == now:
            return True
        r.getrandbits(32)
    return False


def figures():
    import matplotlib._pylab_helpers as h
    import matplotlib.pyplot as plt

    return repr((plt.get_fignums(), getattr(h.Gcf.get_active(), "num", None)))


def setup(ctx):
    sys.addaudithook(hook)
    ctx.state["programs"] = c31.programs()
    ctx.state["done"] = set()


def imports(ctx, module):
    """Importing a module of the library in a fresh process, where everything it needs has been imported before."""
    code = f"""
import sys, json
sys.path.insert(0, {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))!r})
import jax, jax.numpy, numpy, matplotlib, matplotlib.pyplot, equinox, jaxtyping, optax, decimal
import importlib.util
try:
    import beartype
except ImportError:
    pass
from props import c32
a, b = c32.settings(), c32.backends()
sys.addaudithook(c32.hook)
c32.ON[0] = True
import {module}
c32.ON[0] = False
c, d = c32.settings(), c32.backends()
print(json.dumps(dict(changed={{k: (a.get(k), c.get(k)) for k in set(a) | set(c) if a.get(k) != c.get(k)}},
                      replaced=[k for k in b if k in d and b[k] != d[k]], bad=[e for e in c32.EVENTS if e[2] and not c32.own(e)], n=len(c32.EVENTS), m=len(a),
                      backends=jax._src.xla_bridge.backends_are_initialized())))
"""
    r = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True, timeout=300, env=dict(os.environ, PYTHONWARNINGS="default"))
    ctx.case_info = dict(module=module)
    if r.returncode:
        ctx.check(False, "import-failed", module=module, error=r.stderr[-400:])
        return
    out = json.loads(r.stdout.strip().splitlines()[-1])
    ctx.ev("imports")
    ctx.ev("settings_compared", out["m"])
    ctx.ev("audited_events", out["n"])
    ctx.check(not out["changed"], "import-changed-settings", module=module, changed=str(out["changed"])[:300])
    ctx.check(not out["backends"], "import-started-the-backends-of-jax", module=module)
    ctx.check(not out["replaced"], "import-replaced-attributes-of-other-packages", module=module, replaced=out["replaced"][:5])
    ctx.check(not out["bad"], "import-touched-the-outside", module=module, events=out["bad"][:5])
    ctx.check(r.stdout.strip().count("\n") == 0, "import-printed", module=module, text=r.stdout[:200])
    ctx.check("differt2d" not in r.stderr, "import-warned", module=module, text=r.stderr[-300:])


def own(e):
    """Effects of matplotlib's or JAX's own caches."""
    return e[0] == "open" and any(x in e[1] for x in ("/matplotlib", "/mpl", "/dev/null", "__pycache__")) or e[0].startswith("tempfile.") and "mpl" in e[1]


def run_case(ctx, index):
    import jax
    import matplotlib.pyplot as plt

    S, rng = ctx.state, ctx.rng
    row = index // 8
    if index < 8 and ctx.mode == "f32":
        imports(ctx, ("differt2d.scene", "differt2d.geometry", "differt2d.logic", "differt2d.optimize", "differt2d.utils", "differt2d.abc", "differt2d.defaults", "differt2d")[index])
    names = sorted(S["programs"])
    mine = [n for i, n in enumerate(names) if i % 4 == index % 4]
    for n in mine:
        if n not in S["done"]:
            S["done"].add(n)
            ctx.ev("programs")
    # unusual settings of the caller's, which must be respected and left as they are
    d0 = os.getcwd()
    plt.rcParams["lines.linewidth"] = float(rng.uniform(1, 3))
    np.random.seed(int(rng.integers(2**31)))
    random.seed(int(rng.integers(2**31)))
    np.set_printoptions(precision=int(rng.integers(3, 9)))
    err = np.seterr(all=("warn", "ignore", "raise")[row % 3])
    unusual = dict(jax_debug_nans=True, jax_default_matmul_precision="highest", jax_traceback_filtering="off", jax_numpy_dtype_promotion="standard", jax_enable_checks=True, jax_array_garbage_collection_guard="allow") if row % 2 else {}
    usual = {k: getattr(jax.config, k) for k in unusual}
    for k, v in unusual.items():
        jax.config.update(k, v)
    ctx.ev("unusual_settings", len(unusual))
    cap = Capture()
    try:
        for n in [mine[i] for i in rng.permutation(len(mine))]:
            ctx.case_info = dict(program=n)
            ctx.sig(n, int(rng.integers(2**40)))
            before, reg, figs, py = settings(), backends(), figures(), random.getstate()
            EVENTS.clear()
            error = None
            with cap, warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                filters = list(warnings.filters)
                ON[0] = True
                try:
                    out = S["programs"][n](rng)
                except Exception as e:  # noqa: BLE001
                    error = e
                finally:
                    ON[0] = False
                same_filters = filters == list(warnings.filters)
            ctx.ev("calls")
            ctx.ev("audited_events", len(EVENTS))
            after, reg2 = settings(), backends()
            ctx.ev("settings_compared", len(before))
            if unusual and isinstance(error, FloatingPointError):
                ctx.ev("debugger_stopped")  # what the caller's NaN debugger reports is a matter of C08
                error = None
            ctx.check(error is None, "raised", error=repr(error)[:300])
            changed = {k: (before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(k) != after.get(k)}
            ctx.check(not changed, "settings-changed", changed=str(changed)[:300])
            ctx.check(advanced(py), "python-random-state-reset")
            ctx.check(same_filters, "warning-filters-changed")
            ctx.check(all(reg2.get(k) == v for k, v in reg.items()), "attributes-of-other-packages-replaced", replaced=[k for k in reg if reg2.get(k) != reg[k]][:5])
            ctx.check(figs == figures(), "figures-changed", before=figs, after=figures())
            bad = [e for e in EVENTS if e[2] and not own(e)]
            ctx.check(not bad, "touched-the-outside", events=bad[:5])
            ctx.check(not cap.text, "wrote-to-the-streams", text=cap.text[:200])
            mine_ws = [w for w in ws if "differt2d" in (w.filename or "") or issubclass(w.category, (UserWarning, DeprecationWarning, FutureWarning, RuntimeWarning))]
            ctx.check(not mine_ws, "warned", text=[str(w.message)[:150] for w in mine_ws[:3]])
            # a function of the user's that raises in the middle
            if rng.random() < 0.3:
                interrupted(ctx)
    finally:
        np.seterr(**err)
        for k, v in usual.items():
            jax.config.update(k, v)
        plt.close("all")
    ctx.check(os.getcwd() == d0, "working-directory-changed")
    ctx.sample(dict(programs=mine, settings=len(before)))


def interrupted(ctx):
    """The same when the user's function, filter or file fails in the middle of a call."""
    from differt2d import optimize as o
    from differt2d.geometry import Point
    from differt2d.scene import Scene

    s = Scene.square_scene()

    def boom(*a, **k):
        raise KeyboardInterrupt

    class Bad:
        def read(self, *a):
            raise KeyboardInterrupt

    calls = [lambda: s.accumulate_over_paths(boom, reduce_all=True, approx=False), lambda: list(s.all_paths(order=1, filter_objects=boom)), lambda: Scene.from_geojson(Bad()), lambda: o.minimize(boom, np.zeros(2), steps=2),
             lambda: s.accumulate_on_receivers_grid_over_paths(*s.grid(2, 2), boom, reduce_all=True), lambda: s.filter_objects(boom), lambda: s.plot(Axes()), lambda: Point().plot(Axes())]

    class Axes:
        def __getattr__(self, k):
            raise KeyboardInterrupt

    f = calls[int(ctx.rng.integers(len(calls)))]
    before, reg, figs = settings(), backends(), figures()
    try:
        f()
    except KeyboardInterrupt:
        ctx.ev("interrupted")
    after = settings()
    changed = {k: (before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(k) != after.get(k)}
    ctx.check(not changed, "settings-changed-by-an-interrupted-call", changed=str(changed)[:300])
    reg2 = backends()
    ctx.check(all(reg2.get(k) == v for k, v in reg.items()) and figs == figures(), "process-changed-by-an-interrupted-call")


class Capture:
    """Everything written to descriptors 1 and 2."""

    def __enter__(self):
        import tempfile

        sys.stdout.flush(), sys.stderr.flush()
        self.f = tempfile.TemporaryFile()
        self.saved = [os.dup(1), os.dup(2)]
        os.dup2(self.f.fileno(), 1), os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *exc):
        sys.stdout.flush(), sys.stderr.flush()
        for fd, s in zip((1, 2), self.saved):
            os.dup2(s, fd)
            os.close(s)
        self.f.seek(0)
        self.text = self.f.read().decode(errors="replace")
        self.f.close()
