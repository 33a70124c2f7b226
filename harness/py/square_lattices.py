"""Lattice states of the python package: updates, conversions, expectation values and sampling against explicit sums."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc
import copy, gc, pickle
import numpy as np
from lattice import *
import TAT

# Random draws are decided by the driver. A draw is the number itself, and gives itself when it is called.
class Draws:
    active = None


class Chosen(int):
    def __call__(self):
        return self


class Level(float):
    """A number drawn uniformly from [0, 1), known only through the comparisons it takes part in."""
    def __call__(self):
        return self

    def _below(self, p):
        p = float(p)
        if p >= 1 or p <= 0:
            return p >= 1
        return Draws.active.decide([p, 1 - p]) == 0

    def __lt__(self, p):
        return self._below(p)

    __le__ = __lt__

    def __gt__(self, p):
        return not self._below(p)

    __ge__ = __gt__


real_random = {n: getattr(TAT.random, n) for n in ("uniform_int", "uniform_real", "normal")}
TAT.random.uniform_int = lambda min=0, max=1: Chosen(min + Draws.active.decide([1 / (max - min + 1)] * (max - min + 1)))
TAT.random.uniform_real = lambda min=0, max=1: Level(0.5)
import square


class Enumeration:
    """All sequences of draws of something, each with its probability."""

    def __init__(self):
        self.prefix, self.done = [], False

    def run(self, function):
        while True:
            self.trace, self.weights, self.probability = [], [], 1.0
            Draws.active = self
            yield function(), self
            i = len(self.trace) - 1
            while i >= 0 and self.trace[i] + 1 >= self.weights[i]:
                i -= 1
            if i < 0:
                return
            self.prefix = self.trace[:i + 1]
            self.prefix[-1] += 1

    def decide(self, probabilities):
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append(c)
        self.weights.append(len(probabilities))
        self.probability *= probabilities[c]
        return c


class Fixed:
    """The same draws once more."""

    def __init__(self, trace):
        self.trace, self.at = trace, 0

    def decide(self, probabilities):
        self.at += 1
        return self.trace[self.at - 1] if self.at <= len(self.trace) and self.trace[self.at - 1] < len(probabilities) else 0


SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 4), (4, 1)]


def positions_of(M, N, both=True):
    r = []
    for i in range(M):
        for j in range(N):
            r.append(((i, j),))
            for x, y in ((i, j + 1), (i + 1, j)):
                if x < M and y < N:
                    r.append(((i, j), (x, y)))
                    if both:
                        r.append(((x, y), (i, j)))
    return r


def symmetric(d, body, kind, salt=0):
    n = d**body
    m = np.zeros([n, n])

    def put(a, b, v):
        m[a, b] = m[b, a] = v
    if kind == 0:  # generic
        for a in range(n):
            for b in range(a + 1):
                put(a, b, sequence(900 + salt * 1000 + a * 17 + b))
    elif kind == 1:  # rows without any element
        put(n - 1, n - 1, 1.5)
    elif kind == 2:  # exchange of the first and the last
        put(0, n - 1, 0.75)
    elif kind == 3:  # nothing
        pass
    elif kind == 4:  # exchange of two sites, and a diagonal; for one site a cycle
        if body == 2:
            for a in range(d):
                for b in range(d):
                    put(a * d + b, b * d + a, 0.5 + (0 if a == b else 0.25))
        else:
            for a in range(d):
                put(a, (a + 1) % d, 0.5)
    return m


def operator(d, body, kind, order=0, salt=0):
    m = symmetric(d, body, kind, salt)
    return m, operator_tensor(m, d, body, order)


def fill(lattice, salt):
    """Deterministic tensors instead of random ones."""
    for i in range(lattice.M):
        for j in range(lattice.N):
            t = lattice[i, j]
            names = [str(n) for n in t.name]
            shape = [lattice.dimension_physics if n == "P" else lattice.dimension_virtual for n in names]
            lattice[i, j] = tensor(names, generic(shape, salt * 100 + i * 10 + j))


def network(lattice, scaled=None):
    """The state: one axis per site."""
    M, N = lattice.M, lattice.N
    sites = {}
    for i in range(M):
        for j in range(N):
            names = ["P"] + directions(M, N, i, j)
            a = array(lattice[i, j], names)
            if scaled is not None:
                for k, n in enumerate(names):
                    if n in "DR" and (n, i, j) in scaled:
                        s = array(scaled[n, i, j], [str(x) for x in scaled[n, i, j].name])
                        a = np.moveaxis(np.moveaxis(a, k, -1) @ s, -1, k)
            sites[i, j] = (names, a)
    return contract(M, N, sites, physical=True)[1]


def state_of(lattice):
    if isinstance(lattice, square.ExactLattice):
        return array(lattice.vector, [f"P-{i}-{j}" for i in range(lattice.M) for j in range(lattice.N)])
    if isinstance(lattice, square.SimpleUpdateLattice):
        return network(lattice, lattice.environment)
    return network(lattice)


def expectation(v, d, positions, M, N, m):
    return float(np.sum(v.conj() * operator_on(v, d, positions, M, N, m)).real)


def near(a, b, scale=1.0):
    return abs(a - b) <= 1e-8 * max(abs(b), scale)


def shape(limit):
    M, N = SHAPES[mc.choose(limit, "lattice")]
    return M, N


# simple update ------------------------------------------------------------------------------------------------------------------
def explained(before, after, terms, d, M, N, delta, steps):
    gates = [(p, exponential(-delta * m)) for p, m in terms]
    for order in itertools.permutations(range(len(gates))):
        s = before
        for _ in range(steps):
            for k in list(order) + list(reversed(order)):
                s = operator_on(s, d, gates[k][0], M, N, gates[k][1])
            s = s / np.max(np.abs(s))
        if proportional(after, s):
            return True
    return False


def update_terms():
    M, N = shape(10 if mc.thorough() else 8)
    small = M * N <= 4
    d = 2 + (mc.choose(2, "spins") if M * N <= 2 else 0)
    D = 1 + mc.choose(2 if small else 1, "bond dimension")
    positions = positions_of(M, N)
    number = 1 + mc.choose(2 if small else 1, "terms")
    first = mc.choose(len(positions), "first term")
    second = mc.choose(len(positions), "second term") if number == 2 else 0
    if number == 2 and sorted(positions[first]) == sorted(positions[second]):
        mc.skip()
    steps = mc.choose(3, "steps") if small and (number == 1 or mc.thorough()) else 1
    mc.commit()
    l = square.SimpleUpdateLattice(M, N, D=D, d=d)
    fill(l, 1)
    terms = []
    for k, p in enumerate([positions[first], positions[second]][:number]):
        m, t = operator(d, len(p), 0, k, k)
        l.hamiltonian[p] = t
        terms.append((p, m))
    before = state_of(l)
    l.simple_update(steps, 0.2, 60)
    after = state_of(l)
    mc.check(l.dimension_virtual == 60, "the dimension asked for is not kept")
    mc.check(explained(before, after, terms, d, M, N, 0.2, steps), "an update without truncation does not multiply the state by the exponentials of its terms")
    m, t = operator(d, len(positions[second]), 0, 0, 5)
    l.hamiltonian = {positions[second]: t}
    l.simple_update(1, 0.1)
    mc.check(explained(after, state_of(l), [(positions[second], m)], d, M, N, 0.1, 1), "an update that continues another one does not multiply the state by its exponential")
    mc.state(("update", M, N, d, D, first, second, number, steps))


# states -------------------------------------------------------------------------------------------------------------------------
def representations():
    M, N = shape(10 if mc.thorough() else 8)
    d = 2 if M * N > 2 else 2 + mc.choose(2, "spins")
    D = 2
    updated = mc.flip("with environments")
    way = mc.choose(5, "conversion")
    mc.commit()
    start = square.SimpleUpdateLattice(M, N, D=D, d=d)
    fill(start, 3)
    h1, t1 = operator(d, 1, 0)
    start.single_site_hamiltonian = t1
    terms = [((p), h1) for p in positions_of(M, N, False) if len(p) == 1]
    h2, t2 = operator(d, 2, 4)
    start.horizontal_bond_hamiltonian = t2
    terms += [(p, h2) for p in positions_of(M, N, False) if len(p) == 2 and p[0][0] == p[1][0]]
    h3, t3 = operator(d, 2, 0)
    start.vertical_bond_hamiltonian = t3
    terms += [(p, h3) for p in positions_of(M, N, False) if len(p) == 2 and p[0][1] == p[1][1]]
    mc.check(sorted(start.hamiltonian) == sorted(p for p, _ in terms), "a Hamiltonian for all bonds or sites covers others, or not all")
    if updated:
        start.simple_update(1, 0.05)
    want = state_of(start)
    frozen = want.copy()
    sampling = None
    if way == 0:
        l = square.ExactLattice(start)
    elif way == 1:
        l = square.SamplingGradientLattice(start, Dc=1000)
    elif way == 2:
        l = square.ExactLattice(square.SamplingGradientLattice(start, Dc=1000))
    elif way == 3:
        l = square.SimpleUpdateLattice(square.SamplingGradientLattice(start, Dc=1000))
    else:
        l = square.SimpleUpdateLattice(start)
    mc.check(proportional(state_of(l), want), "a conversion changes the state")
    mc.check(dict(l.hamiltonian) == dict(start.hamiltonian) and (l.M, l.N, l.dimension_physics) == (M, N, d), "a conversion changes the Hamiltonian or the size")
    # copies do not influence each other
    twin = type(l)(l)
    stored = pickle.loads(pickle.dumps(l))
    mc.check(close(state_of(twin), state_of(l)) and close(state_of(stored), state_of(l)), "a copied or stored lattice has another state")
    if isinstance(twin, square.ExactLattice):
        twin.vector *= 2
        twin.vector += 1
    else:
        twin[0, 0] = twin[0, 0] + 1
    twin.hamiltonian.clear()
    mc.check(proportional(state_of(l), want) and len(l.hamiltonian) == len(terms) and close(state_of(start), frozen), "changing a copy changes the original")
    # every representation gives the same numbers
    v = want / np.linalg.norm(want)
    total = sum(expectation(v, d, p, M, N, m) for p, m in terms) / (M * N)
    for r in (l, stored):
        if isinstance(r, square.SamplingGradientLattice):
            result = r.ergodic({"x": dict(r.hamiltonian)})["x"]
            z = float(np.sum(state_of(r)**2))
            for p, m in terms:
                mc.check(near(result[p] / z, expectation(v, d, p, M, N, m)), lambda: f"summing over all configurations gives another expectation value at {p}")
            continue
        if isinstance(r, square.SimpleUpdateLattice):
            r.initialize_auxiliary(1000)
        mc.check(near(r.observe_energy(), total), "the energy differs from the sum of the expectation values of its terms")
        for p in positions_of(M, N):
            for kind in (0, 1):
                m, t = operator(d, len(p), kind, kind, 2)
                mc.check(near(r.observe(p, t), expectation(v, d, p, M, N, m)), lambda: f"the expectation value at {p} is wrong")
                mc.check(near(r.observe(p, t, False) / r.denominator(), expectation(v, d, p, M, N, m)), lambda: f"the numerator at {p} is wrong")
            if isinstance(r, square.ExactLattice):
                n = d**len(p)
                c = symmetric(d, len(p), 0, 3) + 1j * np.array([[sequence(a * 31 + b) * (a != b) * (1 if a < b else 0) for b in range(n)] for a in range(n)])
                c = (c + c.conj().T) / 2
                t = operator_tensor(c, d, len(p), 0, TAT.Tensor.ZNo)
                mc.check(near(r.observe(p, t), expectation(v.astype(complex), d, p, M, N, c)), "the expectation value of a complex observer is wrong")
    mc.state(("states", M, N, d, updated, way))


def power():
    M, N = shape(8)
    d = 2
    kind = mc.choose(3, "terms")
    time = mc.choose(3, "steps")
    shift = mc.pick([-0.5, 2.0, 3.5], "shift")
    mc.commit()
    l = square.ExactLattice(M, N, d=d)
    n = d**(M * N)
    l.vector.block[[f"P-{i}-{j}" for i in range(M) for j in range(N)]] = generic([d] * (M * N), 5)
    terms = []
    for p in positions_of(M, N):
        if kind == 2 or len(p) == kind + 1:
            m, t = operator(d, len(p), 0, 0, len(terms))
            l.hamiltonian[p] = t
            terms.append((p, m))
    v = state_of(l)
    l.update(time, shift)
    for _ in range(time):
        v = abs(shift) * M * N * v - sum([operator_on(v, d, p, M, N, m) for p, m in terms], np.zeros_like(v))
        v = v / np.max(np.abs(v))
    mc.check(proportional(state_of(l), v, 1e-9), "a step of the exact lattice does not multiply by the shifted Hamiltonian")
    z = float(np.sum(v * v))
    total = sum(expectation(v, d, p, M, N, m) for p, m in terms) / z / (M * N)
    mc.check(near(l.observe_energy(), total), "the energy of an exact lattice is wrong")
    mc.state(("power", M, N, kind, time, shift))


# sampling -----------------------------------------------------------------------------------------------------------------------
def sampler(M, N, d, D, salt, Dc=1000):
    l = square.SamplingGradientLattice(M, N, D=D, Dc=Dc, d=d)
    fill(l, salt)
    return l


def amplitude(l, c):
    return network(l)[tuple(c)]


def configurations(M, N, d):
    return list(itertools.product(range(d), repeat=M * N))


def set_spins(l, c):
    l.initialize_spin([[c[i * l.N + j] for j in range(l.N)] for i in range(l.M)])


def spins(l):
    return tuple(l.spin.configuration[i][j] for i in range(l.M) for j in range(l.N))


def compare_spin(l, w, c, also=()):
    """The working configuration: amplitude, replaced spins, holes."""
    M, N, d = l.M, l.N, l.dimension_physics
    mc.check(spins(l) == tuple(c), "the configuration is another one than was set")
    mc.check(close(float(l.spin[None]), w[tuple(c)]), "the amplitude of the configuration is wrong")
    for p in positions_of(M, N):
        for s in itertools.product(range(d), repeat=len(p)):
            e = list(c)
            for (i, j), x in zip(p, s):
                e[i * N + j] = x
            mc.check(close(float(l.spin[dict(zip(p, s))]), w[tuple(e)]), lambda: f"the amplitude with {dict(zip(p, s))} replaced is wrong")
            mc.step()


def spin_histories():
    M, N = shape(8 if mc.thorough() else 6)
    d = 2
    cs = configurations(M, N, d)
    first = mc.choose(len(cs), "configuration")
    i, j = mc.choose(M, "row"), mc.choose(N, "column")
    action = mc.choose(6, "action")
    mc.commit()
    l = sampler(M, N, d, 2, 6)
    w = network(l)
    c = list(cs[first])
    k = i * N + j
    set_spins(l, c)
    compare_spin(l, w, c)
    if action == 0:  # another spin
        c[k] = 1 - c[k]
        l.spin[i, j] = c[k]
    elif action == 1:  # the same spin again
        l.spin[i, j] = c[k]
    elif action == 2:  # taken away and put back
        del l.spin[i, j]
        mc.check(l.spin.configuration[i][j] == -1, "a spin that was taken away is still there")
        l.spin[i, j] = c[k]
    elif action == 3:  # taken away and another one put there
        del l.spin[i, j]
        c[k] = 1 - c[k]
        l.spin[i, j] = c[k]
    elif action == 4:  # a copy with a spin of its own, and a tensor of its own
        t = square.SamplingGradientLattice(l)
        e = list(c)
        e[k] = 1 - e[k]
        t.spin[i, j] = e[k]
        compare_spin(t, w, e)
        x, y = (i + 1) % M, (j + 1) % N
        t[x, y] = t[x, y] * 2.0 + 1.0
        v = network(t)
        for q in range(M * N):
            del t.spin[q // N, q % N]
        set_spins(t, c)
        compare_spin(t, v, c)
    else:  # all spins in turn
        for q in range(M * N):
            c[q] = 1 - c[q]
            l.spin[q // N, q % N] = c[q]
            mc.check(close(float(l.spin[None]), w[tuple(c)]), "the amplitude of the configuration is wrong")
    compare_spin(l, w, c)
    # two parts make a whole
    a, b = type(l.spin)(l), type(l.spin)(l)
    for q in range(M * N):
        (a if q <= k else b)[q // N, q % N] = c[q]
    try:
        a[((i, j),)]
    except Exception:
        pass
    whole = a + b
    mc.check(tuple(whole.configuration[x][y] for x in range(M) for y in range(N)) == tuple(c), "the sum of two configurations lacks spins")
    mc.check(close(float(whole[None]), w[tuple(c)]), "the sum of two configurations has another amplitude")
    mc.state(("spin", M, N, first, i, j, action))


def ergodic():
    M, N = shape(10 if mc.thorough() else 6)
    d = 2 if M * N > 2 else 2 + mc.choose(2, "spins")
    positions = positions_of(M, N)
    p = mc.pick(positions, "position")
    kind = mc.choose(5, "operator")
    order = mc.choose(2, "order of edges") if kind == 0 else 1
    zero = mc.flip("amplitudes that vanish")
    energy = mc.choose(3, "energy") if kind == 0 and order == 0 else 0
    mc.commit()
    l = sampler(M, N, d, 2, 8)
    if zero:
        a = array(l[0, 0], ["P"] + directions(M, N, 0, 0))
        a[0] = 0
        l[0, 0] = tensor(["P"] + directions(M, N, 0, 0), a)
    v = network(l)
    m, t = operator(d, len(p), kind, order)
    wanted = {"x": {p: m}}
    observers = {"x": {p: t}}
    # operators that are gone must not be confused with those that are there
    for k in range(3 if kind == 0 and not zero and energy == 0 else 0):
        temporary = operator(d, len(p), 0, 0, 40 + k)
        r = l.ergodic({"gone": {p: temporary[1]}})
        mc.check(near(r["gone"][p], expectation(v, d, p, M, N, temporary[0])), "summing over all configurations gives a wrong value (operator made anew)")
        del temporary, r
        gc.collect()
    if energy:
        h, ht = operator(d, 1, 0, 0, 9)
        l.single_site_hamiltonian = ht
    for repeat in range(2):
        r = l.ergodic(observers, calculate_energy=True) if energy == 1 else l.ergodic(observers)
        mc.check(list(observers) == ["x"], "the observers given are changed")
        mc.check(near(r["x"][p], expectation(v, d, p, M, N, m)), lambda: f"summing over all configurations gives a wrong value at {p}")
        mc.check(("Energy" in r) == (energy == 1), "the energy is missing, or was not asked for")
        if energy == 1:
            for q in r["Energy"]:
                mc.check(near(r["Energy"][q], expectation(v, d, q, M, N, h)), "the energy of summing over all configurations is wrong")
    if energy == 0 and not zero:
        # an operator changed in place is another operator
        before = expectation(v, d, p, M, N, m)
        t *= 2.0
        mc.check(near(l.ergodic(observers)["x"][p], 2 * before), "an operator changed in place has its former value")
        t /= 2.0
        here = {name: 0 for name in t.name}
        t[here] = t[here] + 3.0
        new = np.array(m, dtype=float)
        new[(0,) * new.ndim] += 3.0
        mc.check(near(l.ergodic(observers)["x"][p], expectation(v, d, p, M, N, new)), "an operator of which one element was changed has its former value")
    if energy == 2:
        for repeat in range(2):
            r = l.ergodic(calculate_energy=True)
            mc.check(list(r) == ["Energy"] and len(r["Energy"]) == M * N, "the energy alone gives something else")
    mc.state(("ergodic", M, N, d, p, kind, order, zero, energy))


def local_value(v, d, positions, M, N, m, c):
    """sum over s' of A(s, s') w(s') / w(s)"""
    return operator_on(v, d, positions, M, N, m.T)[tuple(c)] / v[tuple(c)]


def chain():
    """The distribution of the state is unchanged by a sweep: all draws from all configurations."""
    M, N = mc.pick([(1, 1), (1, 2), (2, 1), (1, 3), (3, 1)] + ([(2, 2)] if mc.thorough() else []), "lattice")
    d = 2 if M * N > 2 else 2 + mc.choose(2, "spins")
    kind = mc.pick([0, 4], "operator")
    sites = mc.choose(3, "terms")
    if kind == 0 and (d > 2 or M * N > 2) and sites != 0:
        mc.skip()  # too many draws
    back = mc.flip("given from right to left")
    mc.commit()
    l = sampler(M, N, d, 2, 11)
    v = network(l)
    for p in positions_of(M, N, False):
        if sites == 2 or len(p) == sites + 1:
            if sites == 2 and M * N > 2 and len(p) == 1 and p != ((0, 0),):
                continue
            m, t = operator(d, len(p), kind, 0, len(l.hamiltonian))
            l.hamiltonian[p[::-1] if back else p] = t
    if not l.hamiltonian:
        mc.skip()
    cs = configurations(M, N, d)
    pi = v.ravel()**2 / np.sum(v**2)
    got = np.zeros(len(pi))
    paths = 0
    for n, c in enumerate(cs):
        total = 0

        def sweep():
            set_spins(l, c)
            l.equilibrate(1)
            return spins(l)
        for end, e in Enumeration().run(sweep):
            total += e.probability
            got[cs.index(end)] += pi[n] * e.probability
            paths += 1
            mc.step(len(e.trace))
            mc.check(close(float(l.spin[None]), v[end]), "after a sweep the amplitude is that of another configuration")
        mc.check(abs(total - 1) < 1e-9, "driver: probabilities of draws")
    mc.check(float(np.max(np.abs(got - pi))) < 1e-9, lambda: f"a sweep changes the distribution of the state: {got} instead of {pi}")
    mc.state(("chain", M, N, d, kind, sites, back, paths))


def collected():
    """What the chain collects belongs to the configurations it visits."""
    M, N = mc.pick([(1, 2), (2, 1), (2, 2), (1, 3)], "lattice")
    d = 2
    cs = configurations(M, N, d)
    c = mc.pick(cs if M * N <= 2 or mc.thorough() else cs[1::6], "configuration")
    kind = mc.pick([0, 1, 4] if not mc.thorough() else [0, 1, 2, 3, 4], "observer")
    p = mc.pick(positions_of(M, N), "position")
    gradient = mc.choose(2, "gradient")
    steps = 1 + (mc.choose(2, "steps") if M * N <= 2 or mc.thorough() else 0)
    mc.commit()

    def fresh():
        l = sampler(M, N, d, 2, 12)
        if M * N == 2:
            l.horizontal_bond_hamiltonian = h2
            l.vertical_bond_hamiltonian = h2
        else:
            l.hamiltonian[((0, 0), (0, 1))] = h2
            l.hamiltonian[((M - 1, N - 1),)] = h1
        set_spins(l, c)
        return l
    m2, h2 = operator(d, 2, 4, 0)
    m1, h1 = operator(d, 1, 4, 0)
    m, t = operator(d, len(p), kind, 0, 3)
    matrices = {1: m1, 2: m2}
    l = None

    def run():
        nonlocal l
        l = fresh()
        return l.markov_chain(steps, {"x": {p: t}}, calculate_energy=True, calculate_gradient=bool(gradient))
    for result, e in Enumeration().run(run):
        # the same draws, one step at a time
        Draws.active = Fixed(list(e.trace))
        k = fresh()
        v = network(k)
        visited = []
        for _ in range(steps):
            k.equilibrate(1)
            visited.append(spins(k))
        mc.check(spins(k) == spins(l), "collecting changes the chain")
        mc.step(len(e.trace))
        want = sum(local_value(v, d, p, M, N, m, s) for s in visited)
        mc.check(near(result["x"][p], want), lambda: f"the observer at {p} collected something else than its values at the configurations visited")
        for q, op in k.hamiltonian.items():
            want = sum(local_value(v, d, q, M, N, matrices[len(q)], s) for s in visited)
            mc.check(near(result["Energy"][q], want), "the energy collected is not that of the configurations visited")
        if gradient:
            energies = [sum(local_value(v, d, q, M, N, matrices[len(q)], s) for q in k.hamiltonian) for s in visited]
            for i in range(M):
                for j in range(N):
                    delta = edelta = 0
                    for s, E in zip(visited, energies):
                        sites = {}
                        for x in range(M):
                            for y in range(N):
                                names = directions(M, N, x, y)
                                sites[x, y] = (names, array(k[x, y], ["P"] + names)[s[x * N + y]])
                        names, hole = contract(M, N, sites, [(i, j)])
                        delta = delta + hole / v[s]
                        edelta = edelta + E * hole / v[s]
                    mc.check(close(array(result["Delta"][((i, j),)], names), delta, 1e-8), "the holes collected are not those of the configurations visited")
                    mc.check(close(array(result["EDelta"][((i, j),)], names), edelta, 1e-8), "the holes collected with the energy are not those of the configurations visited")
    mc.state(("collected", M, N, c, kind, p, gradient, steps))


def body():
    [update_terms, representations, power, spin_histories, ergodic, chain, collected][mc.choose(7, "part")]()


mc.main(body)
