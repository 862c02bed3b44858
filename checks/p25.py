"""The streams of random numbers."""
import time

from hypothesis import strategies as st

from KMCLib import KMCControlParameters
from KMCLib.Backend import Backend
from KMCLib.Exceptions.Error import Error

from lib import sut
from lib.common import need

VARIANT = "prod"
EXAMPLES = {"quick": 330, "thorough": 8000}
RULE = ("generators and seeds are chosen at random, one after the other, through the control parameters; the stream that a "
        "run then draws from is compared number by number with an implementation of the documented standard "
        "generators in Python; non-trivial with two different generators or seeds and more than 20 numbers")
ASSUMPTIONS = ["seeds from the clock change once per second"]

M32 = (1 << 32) - 1


class MT:
    bits, low, calls = 32, 0, 1

    def __init__(self, seed):
        self.s = [seed & M32]
        for i in range(1, 624):
            self.s.append((1812433253 * (self.s[-1] ^ (self.s[-1] >> 30)) + i) & M32)
        self.i = 624

    def next(self):
        if self.i == 624:
            s = self.s
            for k in range(624):
                y = (s[k] & 0x80000000) | (s[(k + 1) % 624] & 0x7fffffff)
                s[k] = s[(k + 397) % 624] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0)
            self.i = 0
        y = self.s[self.i]
        self.i += 1
        y ^= y >> 11
        y ^= (y << 7) & 0x9d2c5680
        y ^= (y << 15) & 0xefc60000
        return y ^ (y >> 18)

    span = 2.0 ** 32


class Minstd:
    low, calls, span = 1, 2, 2.0 ** 31 - 2

    def __init__(self, seed):
        self.x = (seed & M32) % 2147483647 or 1

    def next(self):
        self.x = self.x * 48271 % 2147483647
        return self.x


class Ranlux:
    low = 0

    def __init__(self, seed, w, s, r, p, u, calls):
        self.m, self.short, self.long, self.p, self.u, self.calls = 1 << w, s, r, p, u, calls
        self.span = float(1 << w)
        x = (seed & M32 or 19780503) % 2147483563 or 1
        n = (w + 31) // 32
        self.x = []
        for _ in range(r):
            v = 0
            for j in range(n):
                x = x * 40014 % 2147483563
                v += x << (32 * j)
            self.x.append(v % self.m)
        self.c = int(self.x[-1] == 0)
        self.n = 0

    def base(self):
        y = self.x[-self.short] - self.x[-self.long] - self.c
        self.c = int(y < 0)
        y %= self.m
        self.x.append(y)
        del self.x[0]
        return y

    def next(self):
        if self.n >= self.u:
            for _ in range(self.p - self.u):
                self.base()
            self.n = 0
        self.n += 1
        return self.base()


MAKE = dict(MT=MT, MINSTD=Minstd, RANLUX24=lambda s: Ranlux(s, 24, 10, 24, 223, 23, 2),
            RANLUX48=lambda s: Ranlux(s, 48, 5, 12, 389, 11, 1))


def stream(kind, seed, n):
    g = MAKE[kind](seed)
    out = []
    for _ in range(n):
        tot, f = 0.0, 1.0
        for _ in range(g.calls):
            tot += (g.next() - g.low) * f
            f *= g.span
        out.append(tot / f)
    return out


@st.composite
def cases(draw):
    rounds = []
    for _ in range(draw(st.integers(1, 5))):
        rounds.append(dict(kind=draw(st.sampled_from(sorted(MAKE))),
                           seed=draw(st.one_of(st.integers(0, 10), st.integers(0, 2 ** 31 - 1), st.just(2 ** 31 - 1))),
                           n=draw(st.sampled_from([1, 3, 40, 300, 1400])), how=draw(st.sampled_from(["run", "seed"]))))
    return dict(rounds=rounds, clock=draw(st.integers(0, 9)) == 0, bad=draw(st.sampled_from(["mt", "", "XX", "MT "])),
                default=draw(st.booleans()))


def strategy(tier):
    return cases()


def model():
    case = dict(basis=[[0, 0, 0]], reps=[4, 1, 1], periodic=[True, False, False], possible=["A", "B"],
                types=["A", "B", "A", "B"], implicit=True,
                procs=[dict(offs=[[0, 0, 0]], before=["A"], after=["B"], basis=[0], rate=1.0)])
    return sut.model(case)


def start(kind, seed, how):
    kw = {} if kind is None else dict(rng_type=kind)
    cp = KMCControlParameters(number_of_steps=0, seed=seed, **kw)
    if how == "run":
        m, cfg, it = model()
        m.run(cp)
    else:
        need(Backend.setRngType(cp.rngType()), "the generator %s is not supported", kind)
        Backend.seedRandom(cp.timeSeed(), cp.seed())


def same(have, want, what):
    for i, (a, b) in enumerate(zip(have, want)):
        need(0.0 <= a < 1.0, "%s: number %d is %r", what, i, a)
        need(abs(a - b) < 1e-14, "%s: number %d is %r, the documented generator gives %r", what, i, a, b)


def run(case, ctx):
    seen = set()
    for r in case["rounds"]:
        start(r["kind"], r["seed"], r["how"])
        same([Backend.randomDouble01() for _ in range(r["n"])], stream(r["kind"], r["seed"], r["n"]),
             "%s with seed %d" % (r["kind"], r["seed"]))
        seen.add((r["kind"], r["seed"]))
    if case["default"]:
        start(None, 17, "run")
        same([Backend.randomDouble01() for _ in range(10)], stream("MT", 17, 10), "the default generator")
    if case["clock"]:
        t0 = int(time.time())
        start("MT", None, "run")
        have = [Backend.randomDouble01() for _ in range(5)]
        t1 = int(time.time())
        need(any(all(abs(a - b) < 1e-14 for a, b in zip(have, stream("MT", s, 5))) for s in range(t0 - 1, t1 + 3)),
             "without a seed, the numbers are not those of a seed from the clock")
    try:
        KMCControlParameters(number_of_steps=1, rng_type=case["bad"])
    except Error:
        pass
    else:
        need(False, "the unknown generator %r is accepted", case["bad"])
    return dict(nontrivial=len(seen) >= 2 and max(r["n"] for r in case["rounds"]) > 20,
                stats={r["kind"]: 1 for r in case["rounds"]})
