"""python worker.py PROP MODE SHARD NSHARDS SEED TIER DEADLINE_S OUT [INDEX ...]"""

import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop, mode, shard, nshards, seed, tier, deadline, out, *idx = sys.argv[1:]
    t_end = time.time() + float(deadline)
    from lib import core

    pre = importlib.import_module("props." + prop.lower() + "_pre") if os.path.exists(
        os.path.join(os.path.dirname(os.path.abspath(__file__)), "props", prop.lower() + "_pre.py")
    ) else None
    core.import_repo()
    del pre
    mod = importlib.import_module("props." + prop.lower())
    ctx = core.Ctx(prop, mode, int(shard), int(nshards), int(seed), tier)
    if idx:
        indices = [int(i) for i in idx]
    else:
        n = mod.N[tier]
        n = n[mode] if isinstance(n, dict) else n
        indices = range(int(shard), n, int(nshards))
    core.run(mod, ctx, indices, t_end, out)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    sys.stderr.flush()
    # Worker threads of a deliberately deadlocked schedule must not keep us alive.
    os._exit(0)
