"""The lattice trajectory file: what is read back is what happened."""
import os

from hypothesis import strategies as st

from KMCLib.Utilities.Trajectory.LatticeTrajectory import LatticeTrajectory

from lib import gen, sut, runs
from lib.common import need, close
from lib.common_kmc import load
from lib.model import D

VARIANT = "prod"
EXAMPLES = {"quick": 520, "thorough": 8000}
RULE = ("a random model is run with a lattice trajectory, either by the run function or frame by frame with random buffer "
        "limits; the file is executed as the Python script it is documented to be and compared with the record of the "
        "simulation; non-trivial with at least three frames and a change of the occupation")
ASSUMPTIONS = ["the file is read with the encoding it was written with"]


@st.composite
def cases(draw):
    case = draw(st.one_of(gen.plain_case(max_sites=60, max_procs=2, max_steps=20), gen.bucket_case(max_steps=20, max_sites=30),
                          gen.ergodic_case(steps=25, custom=False), gen.bulky_case(max_steps=20)))
    if draw(st.integers(0, 11)) == 11:
        case = draw(gen.heavy_case(sites=1000, steps=60))
    if draw(st.integers(0, 3)) == 0:
        case = gen.renamed(draw, case, gen.ODD)
    case["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-12, 1e9]))
    case["dump"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    case["how"] = draw(st.sampled_from(["run", "run", "direct"]))
    case["size"] = draw(st.sampled_from([None, 0, 1, 200, 500, 1000, 3000]))
    case["time"] = draw(st.sampled_from([None, None, 0.0, 1e9]))
    case["append"] = draw(st.booleans())
    return case


def strategy(tier):
    return cases()


def record(case, path, make, traj_type, ids=False):
    """Run with a trajectory; returns the frames there should be."""
    bucket = isinstance(case["types"][0], dict)
    case = dict(case, procs=[dict(p, rate=p["rate"] * case["scale"]) for p in case["procs"]])
    if os.path.exists(path):
        os.remove(path)
    if case["append"]:
        # An older file of the same name is replaced.
        with open(path, "w") as fh:
            fh.write("leftover\n" * 100)
    m, cfg, it = sut.model(case)
    want = []
    if case["how"] == "run":
        rec = runs.Recorder(bucket, ids=ids)
        runs.run(m, case, case["steps"], analysis=[rec], trajectory_filename=path, trajectory_type=traj_type,
                 dump_interval=case["dump"])
        for e in rec.log:
            if len(e) > 1 and e[1] % case["dump"] == 0:
                want.append(e[1:])
        if not rec.log:
            want = None
    else:
        sut.seed(case)
        cpp = m._backend()
        rec = runs.Recorder(bucket, ids=ids)
        tr = make(path, cfg, case["size"], case["time"])
        now = 0.0
        for step in range(case["steps"] + 1):
            if step % case["dump"] == 0:
                tr.append(simulation_time=now, step=step, configuration=cfg)
                want.append((step, now, rec.state(cfg), (cfg.latestEventProcess(), cfg.latestEventSite())))
            if cpp.interactions().totalAvailableSites() == 0:
                break
            cpp.singleStep()
            now += 0.1234567891234 * case["scale"] * (step + 1)
        tr.flush()
        tr.flush()
    return want


def run(case, ctx):
    lat, procs = load(case)
    bucket = procs[0].bucket
    path = os.path.join(ctx["scratch"], "traj.py")
    want = record(case, path, lambda p, c, s, t: LatticeTrajectory(p, c, max_buffer_size=s, max_buffer_time=t), "lattice")
    if want is None:
        # Nothing was possible from the start.
        return dict(nontrivial=False)
    try:
        d = runs.read_lattice_trajectory(path)
    except Exception as e:
        need(False, "the trajectory can not be executed: %s: %s", type(e).__name__, e)
    sites = d["sites"]
    need(len(sites) == lat.n, "%d sites in the file, expected %d", len(sites), lat.n)
    for s, p in zip(sites, lat.pos):
        need(len(s) == 3 and all(abs(x - q / D) < 1e-6 for x, q in zip(s, p)), "site at %s in the file, expected %s", s,
             [q / D for q in p])
    need(len(d["times"]) == len(d["steps"]) == len(d["types"]) == len(want), "%d times, %d steps and %d occupations for %d frames",
         len(d["times"]), len(d["steps"]), len(d["types"]), len(want))
    for k, w in enumerate(want):
        need(d["steps"][k] == w[0], "frame %d: step %s, expected %s", k, d["steps"][k], w[0])
        need(close(d["times"][k], w[1], 1e-10, 0.0), "frame %d: time %r, expected %r", k, d["times"][k], w[1])
        have = list(d["types"][k])
        if bucket:
            conv = []
            for e in have:
                names = [t for n, t in e]
                need(len(set(names)) == len(names), "frame %d names a type twice: %s", k, e)
                conv.append({t: n for n, t in e})
            have = conv
        need(have == w[2], "frame %d: occupation %s, expected %s", k, have, w[2])
    return dict(nontrivial=len(want) >= 3 and any(w[2] != want[0][2] for w in want), stats={case["how"]: 1})
