"""Scoping of the approximation setting: nested histories, exceptions, generators, thread interleavings."""

import os
import subprocess
import sys
import threading
import time

import numpy as np

ID = "C10"
N = {"quick": {"f32": 2400}, "thorough": {"f32": 120000}}
SHARDS = {"f32": 8}
MIN = {"quick": {"sequential_histories": 300, "schedules": 1200, "observations_in_block": 4000, "context_switches": 10000,
                 "lock_waits": 1000, "final_values": 1200, "exceptions_through_blocks": 300, "generator_exits": 150,
                 "calls_following_setting": 60, "calls_with_explicit_approx": 60, "deep_nestings": 20, "free_running": 30}}
RULE = """Random histories of blocks (nested, abandoned by exceptions, generator exits and returns) and set_approx calls in
one thread, and 2-4 threads driven line by line through differt2d/logic.py by a scheduler (random, preemption-bounded and
adversarial policies); distinct = distinct schedules (sequence of thread and line) and histories."""
ASSUMES = ["interleavings are explored at Python line granularity, plus free-running threads with a tiny switch interval"]

QUIET = 3.0


class Sched:
    """Runs threads one at a time; they pause at lines of logic.py and at locks."""

    def __init__(self, rng, policy):
        self.rng, self.policy = rng, policy
        self.cv = threading.Condition(RealLock())
        self.state = {}  # ident -> "ready" | "running" | ("wait", lock) | "done"
        self.order = []
        self.trace = []
        self.switches = 0
        self.waits = 0
        self.budget = int(rng.integers(1, 4))
        self.dead = False

    def controls(self, ident):
        return ident in self.state and not self.dead

    def pause(self, ident, what, lock=None):
        with self.cv:
            if self.dead:
                if lock is not None:
                    raise SystemExit
                return
            if lock is not None:
                self.waits += 1
            self.state[ident] = ("wait", lock) if lock is not None else "ready"
            self.trace.append((self.order.index(ident), what))
            self.cv.notify_all()
            while self.state[ident] != "running":
                self.cv.wait()
                if self.dead:
                    raise SystemExit

    def run(self, programs):
        threads = []
        for prog in programs:
            started = threading.Event()

            def main(prog=prog, started=started):
                me = threading.get_ident()
                with self.cv:
                    self.order.append(me)
                    self.state[me] = "ready"
                started.set()
                try:
                    with self.cv:
                        while self.state[me] != "running":
                            self.cv.wait()
                            if self.dead:
                                return
                    sys.settrace(self.tracer)
                    prog()
                finally:
                    sys.settrace(None)
                    with self.cv:
                        self.state[me] = "done"
                        self.cv.notify_all()

            t = threading.Thread(target=main, daemon=True)
            threads.append(t)
            t.start()
            started.wait()
        cur = None
        with self.cv:
            while True:
                live = [i for i in self.order if self.state[i] != "done"]
                if not live:
                    break
                able = [i for i in live if self.state[i] == "ready" or (
                    isinstance(self.state[i], tuple) and self.state[i][1]._free(i))]
                if not able and any(self.state[i] == "outside" for i in live):
                    t_end = time.time() + 60
                    while all(self.state[i] in ("outside", "done") or isinstance(self.state[i], tuple) for i in live) and time.time() < t_end:
                        if any(self.state[i] == "done" for i in live):
                            break
                        self.cv.wait(1.0)
                    if time.time() < t_end:
                        continue
                if not able:
                    self.dead = True
                    self.cv.notify_all()
                    break
                nxt = self.choose(able, cur)
                if nxt != cur:
                    self.switches += 1
                cur = nxt
                self.state[nxt] = "running"
                self.cv.notify_all()
                t_end = time.time() + QUIET
                while self.state[nxt] == "running":
                    if not self.cv.wait(max(0.01, t_end - time.time())) and time.time() > t_end:
                        # blocked in a primitive that we do not schedule: let the others go on
                        self.state[nxt] = "running" if self.state[nxt] != "running" else "outside"
                        break
        if not self.dead:
            for t in threads:
                t.join()
        return not self.dead

    def choose(self, able, cur):
        rng = self.rng
        if self.policy == "random":
            return able[rng.integers(len(able))]
        if self.policy == "bounded":  # few preemptions, anywhere
            if cur in able and (self.budget == 0 or rng.random() > 0.06):
                return cur
            if cur in able:
                self.budget -= 1
                able = [i for i in able if i != cur] or able
            return able[rng.integers(len(able))]
        # "rotate": always switch
        if len(able) > 1 and cur in able:
            able = [i for i in able if i != cur]
        return able[rng.integers(len(able))]

    def tracer(self, frame, event, arg):
        if "/differt2d/logic" not in frame.f_code.co_filename:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.pause(threading.get_ident(), frame.f_lineno)
        return self.local


RealLock = None


def setup(ctx):
    global RealLock
    from props import c10_pre

    RealLock = c10_pre._real["Lock"]
    threading.Lock, threading.RLock = c10_pre._real["Lock"], c10_pre._real["RLock"]
    if ctx.shard == 0:
        environment(ctx)


def environment(ctx):
    for extra, want in (({}, False), ({"ENABLE_APPROX": "1"}, True), ({"ENABLE_APPROX": ""}, True), ({"ENABLE_APPROX": "0"}, True)):
        env = {k: v for k, v in os.environ.items() if k != "ENABLE_APPROX"}
        env.update(extra)
        p = subprocess.run([sys.executable, "-B", "-c", "import differt2d.logic as L; print('VALUE', L.ENABLE_APPROX)"],
                           env=env, capture_output=True, text=True, timeout=300)
        ctx.ev("environment_runs")
        if "VALUE" not in p.stdout:
            ctx.check(False, "import-fails", env=extra, err=p.stderr[-600:])
            continue
        ctx.check(p.stdout.split()[-1] == str(want), "environment-variable-ignored", env=extra, got=p.stdout[-40:])


class Boom(Exception):
    pass


def random_program(rng, depth=0, length=None):
    """A list of operations; blocks contain programs."""
    out = []
    for _ in range(length or int(rng.integers(1, 4))):
        r = rng.random()
        if r < 0.5 and depth < 4:
            out.append(("block", bool(rng.random() < 0.5), ["enable", "disable", "default"][rng.integers(3)],
                        ["end", "raise", "return", "generator", "throw", "end"][rng.integers(6)], random_program(rng, depth + 1)))
        elif r < 0.7:
            out.append(("set", bool(rng.random() < 0.5)))
        else:
            out.append(("look",))
    return out


def execute(prog, L, log, me, clock, expect, inside=False):
    """Run a program. expect: what this thread must observe (None outside of blocks)."""

    def look(where, want):
        log.append((where, me, want, L.ENABLE_APPROX))

    for op in prog:
        if op[0] == "look":
            look("in", expect)
        elif op[0] == "set":
            t0 = next(clock)
            L.set_approx(op[1])
            log.append(("set", me, op[1], inside, t0, next(clock)))
            if expect is not None:
                expect = op[1]
                look("in", expect)
        else:
            _, v, how, end, body = op
            found = expect

            def cm(v=v, how=how):
                if how == "enable" or (how == "default" and not v):
                    return L.enable_approx(v), v
                if how == "default":
                    return L.enable_approx(), True
                return L.disable_approx(not v), v

            m, v = cm()
            t0 = next(clock)

            def run(m=m, v=v, body=body, end=end):
                with m:
                    look("in", v)
                    last = execute(body, L, log, me, clock, v, True)
                    look("in", last)
                    if end == "raise":
                        raise Boom
                    if end == "return":
                        return

            if end in ("generator", "throw"):
                def gen(m=m, v=v, body=body):
                    with m:
                        look("in", v)
                        last = execute(body, L, log, me, clock, v, True)
                        look("in", last)
                        yield 1
                        yield 2

                g = gen()
                next(g)
                log.append(("generator", me))
                if end == "generator":
                    g.close()
                else:
                    try:
                        g.throw(Boom())
                    except Boom:
                        log.append(("exception", me))
            else:
                try:
                    run()
                    if end == "raise":
                        log.append(("swallowed", me))
                except Boom:
                    log.append(("exception", me))
            log.append(("exit", me, t0, next(clock)))
            if found is not None:
                look("in", found)
    return expect


def clockwork():
    import itertools

    return itertools.count()


def judge(ctx, log, initial, final, kind):
    sets = []
    for e in log:
        if e[0] == "in" and e[2] is not None:
            ctx.ev("observations_in_block")
            ctx.check(e[3] == e[2] and isinstance(e[3], bool), "block-observes-a-foreign-setting" if kind != "sequential" else "setting-in-block-wrong",
                      thread=e[1], want=e[2], got=e[3], log=log[-40:])
        elif e[0] == "exception":
            ctx.ev("exceptions_through_blocks")
        elif e[0] == "generator":
            ctx.ev("generator_exits")
        elif e[0] == "swallowed":
            ctx.check(False, "block-swallows-exceptions")
        elif e[0] == "set" and not e[3]:
            sets.append(e)
    last = [s for s in sets if not any(o[4] > s[5] for o in sets)]
    allowed = {s[2] for s in last} if sets else {initial}
    ctx.ev("final_values")
    ctx.check(final in allowed and isinstance(final, bool), "final-setting-wrong", kind=kind, got=final, allowed=sorted(allowed), initial=initial, log=log[-40:])


def run_case(ctx, index):
    import differt2d.logic as L
    from props import c10_pre

    rng = ctx.rng
    init = bool(rng.random() < 0.5)
    L.set_approx(init)
    if not ctx.check(L.ENABLE_APPROX is init, "set_approx-not-permanent"):
        return
    k = (index // 8) % 8
    if k in (0, 1):  # one thread
        prog = random_program(rng, length=int(rng.integers(1, 7)))
        if rng.random() < 0.3:
            ctx.ev("deep_nestings")
            p = [("look",)]
            for i in range(int(rng.integers(10, 60))):
                p = [("block", bool(rng.random() < 0.5), "enable", ["end", "raise", "throw"][rng.integers(3)], p + [("look",)])]
            prog += p
        ctx.case_info = dict(prog=prog, init=init)
        log = []
        # outside of blocks, a single thread must see its own last set
        execute(prog, L, log, 0, clockwork(), init)
        judge(ctx, log, init, L.ENABLE_APPROX, "sequential")
        ctx.ev("sequential_histories")
        ctx.sig("seq", repr(prog), init)
        if (index // 8) % 152 == 0:
            following(ctx, rng, L)
        return
    if k == 7 and (index // 64) % 2:
        free_running(ctx, rng, L, init)
        return
    n = int(rng.integers(2, 5)) if rng.random() < 0.4 else 2
    progs = [random_program(rng, depth=int(rng.integers(0, 3)), length=int(rng.integers(1, 4))) for _ in range(n)]
    policy = ["random", "bounded", "bounded", "rotate"][rng.integers(4)]
    ctx.case_info = dict(progs=progs, policy=policy, init=init)
    s = Sched(rng, policy)
    logs, clock, errors = [[] for _ in progs], clockwork(), []
    log = []

    def make(i):
        def main():
            try:
                execute(progs[i], L, log, i, clock, None)
            except SystemExit:
                pass
            except BaseException as e:  # noqa: BLE001
                errors.append(e)

        return main

    c10_pre.SCHED = s
    try:
        ok = s.run([make(i) for i in range(n)])
    finally:
        c10_pre.SCHED = None
    ctx.ev("schedules")
    ctx.ev("context_switches", s.switches)
    ctx.ev("lock_waits", s.waits)
    ctx.sig("sched", tuple(s.trace))
    if not ctx.check(ok, "deadlock", trace=s.trace[-60:]):
        ctx.state["stop"] = True  # deadlocked threads are left behind
        return
    if errors:
        raise errors[0]
    judge(ctx, log, init, L.ENABLE_APPROX, "threads")
    if index % 97 < 8:
        ctx.sample(dict(policy=policy, trace=s.trace[:40], progs=progs), cap=2)


def free_running(ctx, rng, L, init):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    n = 4
    progs = [[op for _ in range(6) for op in random_program(rng, depth=2)] for _ in range(n)]
    ctx.case_info = dict(progs=progs, init=init)
    log, clock, errors = [], clockwork(), []

    def main(i):
        try:
            execute(progs[i], L, log, i, clock, None)
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    try:
        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
        [t.start() for t in ts]
        for t in ts:
            t.join(60)
        if not ctx.check(not any(t.is_alive() for t in ts), "threads-do-not-end"):
            ctx.state["stop"] = True  # deadlocked threads are left behind
            return
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    ctx.ev("free_running")
    ctx.sig("free", repr(progs))
    judge(ctx, log, init, L.ENABLE_APPROX, "free-running")


def following(ctx, rng, L):
    """Calls without approx follow the setting, those with approx ignore it."""
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import ImagePath, Wall, segments_intersect
    from differt2d.scene import Scene

    walls = [Wall(xys=jnp.array(rng.random((2, 2)))) for _ in range(2)]
    scene = Scene.square_scene()
    path = ImagePath.from_tx_objects_rx(jnp.array([0.1, 0.2]), [walls[0]], jnp.array([0.7, 0.4]))
    x, y = jnp.array(0.3), jnp.array(0.6)
    t = jnp.array(0.25)
    calls = {
        "greater": lambda **k: L.greater(x, y, **k),
        "greater_equal": lambda **k: L.greater_equal(x, y, **k),
        "less": lambda **k: L.less(x, y, **k),
        "less_equal": lambda **k: L.less_equal(x, y, **k),
        "true_value": lambda **k: L.true_value(**k),
        "false_value": lambda **k: L.false_value(**k),
        "contains_parametric": lambda **k: walls[0].contains_parametric(t[None], **k),
        "intersects_cartesian": lambda **k: walls[0].intersects_cartesian(path.xys[:2], **k),
        "segments_intersect": lambda **k: segments_intersect(path.xys[0], path.xys[1], *walls[1].xys, **k),
        "on_objects": lambda **k: path.on_objects(walls[:1], **k),
        "intersects_with_objects": lambda **k: path.intersects_with_objects(walls, jnp.array([0]), **k),
        "is_valid": lambda **k: path.is_valid(walls, jnp.array([0]), walls[:1], **k),
        "all_paths": lambda **k: next(iter(scene.all_paths(max_order=0, **k)))[2],
    }
    half = jnp.array([0.25, 0.75, 0.6])
    extra = {"is_true": (L.is_true, [False, True, True]), "is_false": (L.is_false, [True, False, False])}
    names = list(calls)
    for nm in [names[i] for i in rng.choice(len(names), 6, replace=False)]:
        for setting in (True, False):
            with L.enable_approx(setting):
                if rng.random() < 0.5:
                    with jax.disable_jit():
                        v = calls[nm]()
                else:
                    jax.clear_caches()
                    v = calls[nm]()
                ctx.ev("calls_following_setting")
                ctx.check((np.asarray(v).dtype == bool) == (not setting), "call-does-not-follow-the-setting", fn=nm, setting=setting, value=v)
                for explicit in (True, False):
                    with jax.disable_jit(bool(rng.random() < 0.3)):
                        w = calls[nm](approx=explicit)
                    ctx.ev("calls_with_explicit_approx")
                    ctx.check((np.asarray(w).dtype == bool) == (not explicit), "explicit-approx-ignored", fn=nm, setting=setting, explicit=explicit, value=w)
    with L.enable_approx(True), jax.disable_jit():
        for nm, (f, want) in extra.items():
            got = np.asarray(f(half)).tolist()
            ctx.check(got == want, "call-does-not-follow-the-setting", fn=nm, got=got)
            ctx.ev("calls_following_setting")
    a, b = jnp.array(0.25), jnp.array(0.75)
    for setting in (True, False):
        with L.enable_approx(setting), jax.disable_jit():
            for nm, f, w in (("logical_and", L.logical_and, 0.25), ("logical_or", L.logical_or, 0.75),
                             ("logical_all", L.logical_all, 0.25), ("logical_any", L.logical_any, 0.75)):
                v = np.asarray(f(a, b))
                ctx.check((v.dtype == bool) == (not setting) and (not setting or float(v) == w), "call-does-not-follow-the-setting", fn=nm, setting=setting, value=v)
                ctx.ev("calls_following_setting")
            v = np.asarray(L.logical_not(a))
            ctx.check((v.dtype == bool) == (not setting), "call-does-not-follow-the-setting", fn="logical_not", setting=setting, value=v)
    jax.clear_caches()
