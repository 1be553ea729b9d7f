"""Worker-side runtime: case loop, monitors' event accounting, verdicts.

Runs under /opt/venv/bin/python, imports the code under test from /repo.
"""

from __future__ import annotations

import gc
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import zlib
from collections import Counter

REPO = os.environ.get("VP_REPO", "/repo")
KNOWN = set(filter(None, os.environ.get("VP_KNOWN", "").split(",")))  # mechanisms listed in known_findings.txt


def import_repo():
    """Import differt2d from the working tree, never from cached bytecode."""
    import beartype  # noqa: F401
    import equinox  # noqa: F401
    import jax  # noqa: F401
    import jaxtyping  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    import optax  # noqa: F401

    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    tag = sys.implementation.cache_tag
    sys.implementation.cache_tag = None  # neither read nor write .pyc files
    try:
        for name in ("defaults", "logic", "abc", "optimize", "geometry", "scene", "utils"):
            mod = importlib.import_module("differt2d." + name)
            path = os.path.realpath(mod.__file__)
            if not path.startswith(os.path.realpath(REPO) + os.sep):
                raise SystemExit(f"differt2d loaded from {path}, not from {REPO}")
    finally:
        sys.implementation.cache_tag = tag


class Violation(Exception):
    def __init__(self, mech, detail):
        super().__init__(mech)
        self.mech = mech
        self.detail = detail


class Skip(Exception):
    """The generated case is not in the property's domain."""


def jsonable(x, depth=0):
    import numpy as np

    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) or hasattr(x, "__array__"):
        try:
            a = np.asarray(x)
            if a.dtype == object:
                return repr(x)[:300]
            return a.tolist() if a.size <= 400 else {"shape": list(a.shape), "head": a.ravel()[:50].tolist()}
        except Exception:
            return repr(x)[:300]
    return repr(x)[:300]


class Ctx:
    def __init__(self, prop, mode, shard, nshards, seed, tier):
        self.prop = prop
        self.mode = mode
        self.x64 = "x64" in mode
        self.shard = shard
        self.nshards = nshards
        self.seed = seed
        self.tier = tier
        self.thorough = tier == "thorough"
        self.eps = 2.3e-16 if self.x64 else 1.2e-7
        self.counts = Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.index = -1
        self.rng = None
        self.case_info = {}
        self.state = {}
        self.digests = {}

    # -- monitors' interface -------------------------------------------------
    def ev(self, name, n=1):
        self.counts[name] += int(n)

    def sig(self, *parts):
        """Record a distinct non-trivial observation (dedup by signature)."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()
        self.sigs.add(h)

    def sample(self, obj, cap=3):
        if len(self.samples) < cap:
            self.samples.append(jsonable(obj))

    def violate(self, mech, **detail):
        """Record a violation (the case goes on)."""
        self.ev("known_finding_observations" if mech in KNOWN else "violations_raw")
        if sum(v["mech"] == mech for v in self.violations) >= 3:
            return
        self.violations.append(
            {
                "mech": mech,
                "index": self.index,
                "detail": jsonable(detail),
                "case": jsonable(self.case_info),
            }
        )

    def check(self, ok, mech, **detail):
        self.ev("oracle_checks")
        if not bool(ok):
            self.violate(mech, **detail)
        return bool(ok)

    def key(self):
        import jax

        return jax.random.PRNGKey(int(self.rng.integers(0, 2**31 - 1)))


def blame(exc):
    """Decide whether an exception is the code under test's, or ours."""
    if isinstance(exc, (MemoryError, KeyboardInterrupt)):
        return "harness"
    text = str(exc)
    if "RESOURCE_EXHAUSTED" in text or "Cannot allocate memory" in text:
        return "harness"
    if isinstance(exc, OSError) and not isinstance(exc, FileNotFoundError):
        return "harness"
    seen = exc
    while seen is not None:
        for fr in traceback.extract_tb(seen.__traceback__):
            fn = fr.filename
            if fn.startswith(os.path.join(REPO, "differt2d")) or "differt2d" in fn:
                return "repo"
            if "/jaxtyping/" in fn or "/beartype/" in fn or fn.startswith("<@beartype"):
                return "repo"
        seen = seen.__cause__ or seen.__context__
    if "differt2d" in text:
        return "repo"
    return "harness"


def exc_mech(exc):
    where = ""
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(os.path.join(REPO, "differt2d")):
            where = f"{os.path.basename(fr.filename)}:{fr.name}"
    return f"exception:{type(exc).__name__}:{where}"


def run(mod, ctx, indices, deadline, out):
    import numpy as np

    t0 = time.time()
    done = 0
    hit = False
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    for index in indices:
        if time.time() > deadline:
            hit = True
            break
        ctx.index = index
        ctx.case_info = {}
        ctx.rng = np.random.default_rng(
            [ctx.seed, zlib.crc32(ctx.prop.encode()), 1 if ctx.x64 else 0, zlib.crc32(ctx.mode.encode()), index]
        )
        try:
            mod.run_case(ctx, index)
            ctx.ev("cases")
        except Skip:
            ctx.ev("cases_skipped")
        except Violation as v:
            ctx.ev("cases")
            ctx.violate(v.mech, **v.detail)
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc()
            if blame(e) == "repo":
                ctx.ev("cases")
                ctx.violate(exc_mech(e), error=str(e)[:600], traceback=tb[-3000:])
            else:
                ctx.errors.append({"index": index, "traceback": tb[-4000:], "case": jsonable(ctx.case_info)})
                if len(ctx.errors) > 3:
                    break
        done += 1
        if ctx.state.get("stop"):
            break
        if done % 50 == 0:
            gc.collect()
        if ctx.counts["violations_raw"] > 60 or len({v["mech"] for v in ctx.violations}) > 6:
            break
    if hasattr(mod, "finish") and not ctx.errors:
        try:
            mod.finish(ctx)
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc()
            if blame(e) == "repo":
                ctx.violate(exc_mech(e), error=str(e)[:600], traceback=tb[-3000:])
            else:
                ctx.errors.append({"index": "finish", "traceback": tb[-4000:]})
    res = {
        "mode": ctx.mode,
        "shard": ctx.shard,
        "done": done,
        "deadline_hit": hit,
        "counts": dict(ctx.counts),
        "sigs": sorted(ctx.sigs)[:200000],
        "samples": ctx.samples,
        "violations": ctx.violations,
        "errors": ctx.errors,
        "digests": ctx.digests,
        "wall": time.time() - t0,
    }
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
