"""What a run does, step by step: steps, output, analysis, breakers, ending, continuing."""
import os

from hypothesis import strategies as st

from lib import gen, sut, runs
from lib.common import need, close

VARIANT = "prod"
EXAMPLES = {"quick": 420, "thorough": 5000}
RULE = ("a random model (some run out of events) is run with random numbers of steps, intervals, analysis objects and "
        "breakers, in up to three runs one after the other; every call and every frame is compared with an undisturbed "
        "run from the same seed; non-trivial when at least 3 events took place and something is called at an interval "
        "above one or a breaker stops the run")
ASSUMPTIONS = ["a run that cannot continue because no event is possible ends with an error, as documented by the tests",
               "with a dump time interval, at most one frame is written between two events; runs in which one event "
               "crosses several sampling times are judged only up to there"]


@st.composite
def cases(draw):
    case = draw(st.one_of(gen.plain_case(max_sites=20, max_procs=2), gen.bucket_case(max_sites=16),
                          gen.ergodic_case(steps=1, custom=False), gen.ergodic_case(steps=1, custom=False)))
    long = draw(st.integers(0, 11)) == 11
    if long and draw(st.booleans()):
        case = draw(gen.heavy_case(sites=600))
    case.pop("steps", None)
    parts = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 400 if long else 25))
        p = dict(steps=k, seed=draw(st.integers(0, 10 ** 6)), analysis_interval=draw(st.integers(1, 120 if long else 7)),
                 nan=draw(st.integers(0, 2)), breakers=[])
        if draw(st.booleans()):
            p["dump_interval"] = draw(st.integers(1, 130 if long else 9))
        elif draw(st.booleans()):
            p["dump_time"] = draw(st.sampled_from([0.05, 0.3, 1.0, 5.0]))
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            p["breakers"].append([draw(st.integers(1, 5)), draw(st.one_of(st.none(), st.integers(1, 30)))])
        if draw(st.integers(0, 4)) == 0:
            # One of the plugins raises an exception.
            who = ["analysis%d" % i for i in range(p["nan"])] + ["breaker%d" % i for i in range(len(p["breakers"]))]
            if who:
                p["bomb"] = [draw(st.sampled_from(who)), draw(st.integers(1, 20))]
        p["traj"] = draw(st.sampled_from([None, "lattice", "lattice", "xyz"]))
        parts.append(p)
    if isinstance(case["types"][0], dict):
        for p in parts:
            if p["traj"] == "xyz":
                p["traj"] = "lattice"
    case["parts"] = parts
    return case


def strategy(tier):
    return cases()


def run(case, ctx):
    bucket = isinstance(case["types"][0], dict)
    m, cfg, it = sut.model(case)                       # the one with everything
    m0, cfg0, it0 = sut.model(case)                    # the plain one
    types = case["types"]
    now = 0.0
    interesting = False
    total = 0
    hist = []
    for q, part in enumerate(case["parts"]):
        where = "run %d: " % (q + 1)
        sd = dict(case, seed=part["seed"])
        ref = runs.Recorder(bucket)
        err0 = runs.run(m0, sd, part["steps"], analysis=[ref])
        log = []
        bomb = part.get("bomb", [None, None])
        ana = [runs.Recorder(bucket, log=log, name="analysis%d" % i, bomb=bomb[1] if bomb[0] == "analysis%d" % i else None)
               for i in range(part["nan"])]
        brk = [runs.Breaker(bucket, n, at, log, "breaker%d" % i, bomb=bomb[1] if bomb[0] == "breaker%d" % i else None)
               for i, (n, at) in enumerate(part["breakers"])]
        path = None
        kw = dict(analysis_interval=part["analysis_interval"])
        if "dump_interval" in part:
            kw["dump_interval"] = part["dump_interval"]
        if "dump_time" in part:
            kw["dump_time_interval"] = part["dump_time"]
        if part["traj"]:
            path = os.path.join(ctx["scratch"], "traj")
            if os.path.exists(path):
                os.remove(path)
            kw.update(trajectory_filename=path, trajectory_type=part["traj"])
        err = runs.run(m, sd, part["steps"], analysis=ana or None, breakers=brk or None, **kw)
        if err0 is not None and not ref.log:
            # Nothing possible at all: refused.
            need(err is not None, where + "no event is possible, but the run was accepted")
            need(not log, where + "refused, but %s was called", log and log[0][0])
            break
        state = [(0, ref.log[0][2], ref.log[0][3])] + [e[1:4] for e in ref.log if e[0].endswith(".step")]
        need(close(state[0][1], now, 1e-12), where + "starts at time %r, the last one ended at %r", state[0][1], now)
        need(state[0][2] == types, where + "starts from another occupation than the last one ended with")
        done = len(state) - 1
        need(done == part["steps"] or (err0 is not None and done < part["steps"]),
             where + "%d of %d steps were taken without an error", done, part["steps"])
        need([s[0] for s in state] == list(range(done + 1)), where + "steps are numbered %s", [s[0] for s in state])
        # Where a breaker stops it.
        stop = None
        for s in range(1, done + 1):
            if any(s % n == 0 and at is not None and s >= at for n, at in part["breakers"]):
                stop = s
                break
        last = done if stop is None else stop
        ai = part["analysis_interval"]
        # Where one of the plugins raises an exception.
        bang = None
        if bomb[0]:
            n = ai if bomb[0].startswith("a") else part["breakers"][int(bomb[0][7:])][0]
            bang = -(-bomb[1] // n) * n
            if bang == stop and bomb[0].startswith("b") and len(part["breakers"]) > 1:
                # Which of two breakers comes first is not judged.
                return dict(nontrivial=False)
            if bang > last:
                bang = None
            else:
                last, stop = bang, None
        if bang is not None:
            need(isinstance(err, runs.Bomb), where + "the exception of %s at step %d became %r", bomb[0], bang, err)
        elif stop is None:
            need((err is None) == (err0 is None), where + "ends with %r, and with %r when nothing is recorded", err, err0)
        else:
            need(err is None, where + "stopped by a breaker, but ends with the error %r", err)
        for a in ana:
            have = [e for e in log if e[0].startswith(a.name + ".")]
            want = [(a.name + ".setup",) + state[0]]
            want += [(a.name + ".step",) + state[s] for s in range(1, last + 1) if s % ai == 0]
            want += [(a.name + ".finalize",)]
            short = [e[:4] for e in have]
            if bang is not None and a.bomb is None and bang % ai == 0 and (a.name + ".step", bang) not in [e[:2] for e in have]:
                # Those before the one that raises the exception have been called at this step, the others not.
                del want[-2]
            for x, y in zip(short, want):
                need(x[:2] == y[:2], where + "%s (step %s) was called where %s (step %s) should be", x[0], x[1:2], y[0], y[1:2])
                need(x == y, where + "%s at step %s was called with time %r and another state than there was (time %r)",
                     x[0], x[1:2], x[2:3], y[2:3])
            need(len(short) == len(want), where + "%s was called %d times, expected %d: %s", a.name, len(short), len(want),
                 [e[:2] for e in short])
        for b, (n, at) in zip(brk, part["breakers"]):
            have = [e for e in log if e[0] == b.name + ".evaluate"]
            for e in have:
                need(e[1] % n == 0 and 1 <= e[1] <= last, where + "%s with interval %d was asked at step %d", b.name, n, e[1])
                need(e[1:] == state[e[1]], where + "%s was asked at step %d with another time or state", b.name, e[1])
            need(len(set(e[1] for e in have)) == len(have), where + "%s was asked twice at a step", b.name)
            # All before the last step have been asked about; at the last one another one may have decided.
            need({e[1] for e in have} >= {s for s in range(n, last, n)}, where + "%s with interval %d was asked only at %s",
                 b.name, n, [e[1] for e in have])
            sets = [e for e in log if e[0] == b.name + ".setup"]
            need(len(sets) == 1 and sets[0][1:] == state[0], where + "%s: setup was called %d times", b.name, len(sets))
            need(log.index(sets[0]) < min([log.index(e) for e in have] or [len(log)]), where + "setup after use")
        # Order of the calls: by step.
        order = [e[1] for e in log if len(e) > 1]
        need(order == sorted(order), where + "calls out of order: %s", [e[:2] for e in log])
        fin = [i for i, e in enumerate(log) if e[0].endswith(".finalize")]
        need(all(i >= len(log) - len(fin) for i in fin), where + "something was called after the end")
        # The trajectory.
        if path:
            if part["traj"] == "lattice":
                d = runs.read_lattice_trajectory(path)
                frames = [(s, t, types_ if not bucket else [dict((y, x) for x, y in e) for e in types_])
                          for s, t, types_ in zip(d["steps"], d["times"], d["types"])]
            else:
                d = runs.read_xyz(path)
                frames = [(s, t, None) for s, t, _ in d["frames"]]
            if "dump_time" in part:
                dt = part["dump_time"]
                t0 = state[0][1]
                want, n = [0], 0
                sure = True
                for s in range(1, last + 1):
                    gap = state[s][1] - (t0 + n * dt)
                    if abs(gap / dt - 1) < 1e-9 or gap >= 2 * dt * (1 - 1e-9):
                        sure = False
                        break
                    if gap >= dt:
                        n += 1
                        want.append(s - 1)
                if sure and stop is None and bang is None and err is not None:
                    # Before it ends without events the time may have been propagated; not judged.
                    pass
                if sure:
                    need([f[0] for f in frames] == want, where + "frames of steps %s, expected %s (every %s time units)",
                         [f[0] for f in frames], want, dt)
            else:
                di = part.get("dump_interval", 1)
                want = [s for s in range(0, last + 1) if s % di == 0]
                need([f[0] for f in frames] == want, where + "frames of steps %s, expected %s", [f[0] for f in frames], want)
            for s, t, ty in frames:
                need(0 <= s <= last, where + "frame of step %d", s)
                need(close(t, state[s][1], 1e-9), where + "frame of step %d has time %r, it was %r", s, t, state[s][1])
                need(ty is None or ty == state[s][2], where + "frame of step %d shows another occupation than there was", s)
        # Bring the plain one to the same point.
        now = state[last][1]
        types = state[last][2]
        total += last
        interesting |= ai > 1 or stop is not None or part.get("dump_interval", 1) > 1
        need(sut.types_of(cfg, bucket) == types, where + "the configuration differs from the last state of the run")
        hist.append((part["seed"], last))
        interesting |= bang is not None
        if err is not None and bang is None:
            break
        if last < done:
            # The plain one went further.
            m0, cfg0, it0 = sut.model(case)
            for seed, n in hist:
                runs.run(m0, dict(case, seed=seed), n)
    return dict(nontrivial=interesting and total >= 3, stats=dict(steps=total))
