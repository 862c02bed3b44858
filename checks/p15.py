"""The XYZ trajectory file: the path of every particle."""
import os

from hypothesis import strategies as st

from KMCLib.Utilities.Trajectory.XYZTrajectory import XYZTrajectory

from checks import p14
from lib import gen, sut, runs
from lib.common import need, close
from lib.common_kmc import load
from lib.model import D, World

VARIANT = "prod"
EXAMPLES = {"quick": 520, "thorough": 8000}
RULE = ("a random model with moving particles and a random cell is run with an XYZ trajectory, either by the run function "
        "or frame by frame with random buffer limits; the file is read back and compared with the cell, and with the "
        "particles as the reference moves them; non-trivial with at least three frames and a particle that moved")
ASSUMPTIONS = ["one particle per site", "type names contain no white space"]


@st.composite
def cases(draw):
    case = draw(st.one_of(gen.plain_case(max_sites=60, max_procs=2, max_steps=20, movers=True), gen.plain_case(max_sites=60, max_procs=2, max_steps=20, movers=True),
                          gen.bulky_case(max_steps=20, bucket=False)))
    if draw(st.integers(0, 11)) == 11:
        case = draw(gen.heavy_case(sites=800, bucket=False))
    if draw(st.integers(0, 3)) == 0:
        case = gen.renamed(draw, case, gen.WORDS)
    if draw(st.booleans()):
        # Events that move nothing, between the ones that do.
        a, b = draw(st.permutations(case["possible"]))[:2]
        for x, y in ((a, b), (b, a)):
            case["procs"].append(dict(offs=[[0, 0, 0]], before=[x], after=[y], moves=None, rate=draw(st.sampled_from(gen.RATES)),
                                      basis=list(case["procs"][0]["basis"]), origin=[0, 0, 0]))
        case["steps"] = max(case["steps"], 10)
    f = st.sampled_from([-0.5, 0.0, 0.0, 0.25, 1e-3])
    case["cell"] = [[2.5, draw(f), draw(f)], [draw(f), 3.0, draw(f)], [draw(f), draw(f), 4.123456789]]
    case["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-12, 1e9]))
    case["dump"] = draw(st.sampled_from([1, 1, 1, 2, 3, 5]))
    case["how"] = draw(st.sampled_from(["run", "run", "direct"]))
    case["size"] = draw(st.sampled_from([None, 0, 1, 500, 1500, 3000]))
    case["time"] = draw(st.sampled_from([None, None, 0.0, 1e9]))
    case["append"] = draw(st.booleans())
    return case


def strategy(tier):
    return cases()


def run(case, ctx):
    lat, procs = load(case)
    path = os.path.join(ctx["scratch"], "traj.xyz")
    # Every event is needed to follow the particles.
    full = []
    keep = case["dump"]
    want = p14.record(case, path, lambda p, c, s, t: XYZTrajectory(p, c, max_buffer_size=s, max_buffer_time=t), "xyz", True)
    if want is None:
        return dict(nontrivial=False)
    d = runs.read_xyz(path)
    need(d["head"].startswith("KMCLib XYZ FORMAT VERSION"), "first line %r", d["head"])
    need(all(close(x, y, 1e-10, 1e-12) for r, q in zip(d["cell"], case["cell"]) for x, y in zip(r, q)),
         "cell vectors %s, expected %s", d["cell"], case["cell"])
    need(d["reps"] == list(case["reps"]), "repetitions %s, expected %s", d["reps"], case["reps"])
    need(d["periodic"] == list(case["periodic"]), "periodicity %s, expected %s", d["periodic"], case["periodic"])
    need(len(d["frames"]) == len(want), "%d frames, expected %d", len(d["frames"]), len(want))
    world = World(lat, case["types"])
    moved = False
    for k, ((step, time, rows), w) in enumerate(zip(d["frames"], want)):
        need(step == w[0], "frame %d: step %s, expected %s", k, step, w[0])
        need(close(time, w[1], 1e-10, 0.0), "frame %d: time %r, expected %r", k, time, w[1])
        if keep == 1 and k:
            ev = w[3]
            world.apply(procs[ev[0]], ev[1])
        need(len(rows) == lat.n, "frame %d: %d particles, expected %d", k, len(rows), lat.n)
        types, pos, names = w[2]
        for j, (t, x, n) in enumerate(rows):
            need(n == j, "frame %d: line %d has the number %d", k, j, n)
            need(t == names[j] and all(close(a, b, 1e-9, 1e-9) for a, b in zip(x, pos[j])),
                 "frame %d: particle %d is %s at %s, but was %s at %s", k, j, t, x, names[j], pos[j])
        if keep == 1:
            at = {a: s for s, a in enumerate(world.id_at)}
            for j, (t, x, n) in enumerate(rows):
                need(t == world.types[at[j]], "frame %d: particle %d is %s, expected %s", k, j, t, world.types[at[j]])
                need(all(abs(a * D - b) < 1e-5 for a, b in zip(x, world.id_pos[j])),
                     "frame %d: particle %d is at %s, expected %s", k, j, x, [q / D for q in world.id_pos[j]])
            moved |= world.id_at != list(range(lat.n))
        else:
            moved |= bool(k) and want[k][2][1] != want[0][2][1]
    return dict(nontrivial=len(want) >= 3 and moved, stats={case["how"]: 1})
