"""Reference model of symmetric (and fermionic) tensors: a dictionary from coordinates to numbers, all operations by definition.

A charge is a tuple of integers, an edge is (arrow, {charge: dimension}), a coordinate is a tuple of (charge, index)."""
import itertools, math, os
import numpy as np
import TAT

SYM = os.environ.get("VERIF_SYM", "No")
IS_NO, IS_FERMI = SYM == "No", SYM.startswith("Fermi")
KINDS = {"No": "", "Z2": "2", "U1": "n", "Fermi": "n", "FermiZ2": "n2", "FermiU1": "nn"}[SYM]
ZERO = (0,) * len(KINDS)
SCALARS = {s: getattr(TAT.Tensor, s + SYM) for s in "SDCZ"}
DTYPE = {"S": np.float32, "D": np.float64, "C": np.complex64, "Z": np.complex128}
TOLERANCE = {"S": 2e-5, "D": 1e-12, "C": 2e-5, "Z": 1e-12}
Symmetry = getattr(TAT._internal.Symmetry, SYM)
EdgeType = getattr(TAT._internal.Edge, SYM)


def add(a, b):
    return tuple((x + y) % 2 if k == "2" else x + y for k, x, y in zip(KINDS, a, b))


def neg(a):
    return tuple(x if k == "2" else -x for k, x in zip(KINDS, a))


def odd(a):
    return IS_FERMI and a[0] % 2 != 0


def total(charges):
    r = ZERO
    for c in charges:
        r = add(r, c)
    return r


def symmetry(c):
    """The object of the module for a charge."""
    return Symmetry(*c)


def plain(c):
    """A charge as one writes it: a number or a tuple of numbers."""
    value = [bool(x) if k == "2" else x for k, x in zip(KINDS, c)]
    return value[0] if len(value) == 1 else tuple(value)


def charge_of(s):
    fields = {"No": (), "Z2": ("z2",), "U1": ("u1",), "Fermi": ("fermi",), "FermiZ2": ("fermi", "z2"), "FermiU1": ("fermi", "u1")}[SYM]
    return tuple(int(getattr(s, f)) for f in fields)


def sequence(k):
    x = math.sin((k + 1) * 12.9898) * 43758.5453
    x -= math.floor(x)
    return (0.25 + 0.75 * x) * (1 if int(x * 1e6) % 2 else -1)


class Ref:
    def __init__(self, names, edges, data):
        self.names, self.edges, self.data = list(names), [(bool(a), dict(m)) for a, m in edges], dict(data)

    @staticmethod
    def coordinates(edges):
        for charges in itertools.product(*[sorted(m) for _, m in edges]):
            if total(charges) == ZERO:
                for index in itertools.product(*[range(m[c]) for (_, m), c in zip(edges, charges)]):
                    yield tuple(zip(charges, index))

    @staticmethod
    def zeros(names, edges):
        keys = list(Ref.coordinates(edges))
        used = [{k[i][0] for k in keys} for i in range(len(edges))]
        return Ref(names, [(a, {c: d for c, d in m.items() if c in u}) for (a, m), u in zip(edges, used)], {k: 0.0 for k in keys})

    @staticmethod
    def make(names, edges, salt, scalar="D"):
        r = Ref.zeros(names, edges)
        for i, k in enumerate(sorted(r.data)):
            v = sequence(salt * 1000 + i)
            if scalar in "CZ":
                v = complex(v, sequence(salt * 1000 + 500 + i))
            r.data[k] = v
        return r

    def copy(self):
        return Ref(self.names, self.edges, self.data)

    def at(self, n):
        return self.names.index(n)

    def get(self, key):
        return self.data.get(key, 0.0)

    def map(self, f):
        return Ref(self.names, self.edges, {k: f(v) for k, v in self.data.items()})

    def blocks(self):
        return sorted({tuple(c for c, _ in k) for k in self.data})

    def block(self, charges):
        shape = [m[c] for (_, m), c in zip(self.edges, charges)]
        a = np.zeros(shape, dtype=complex)
        for index in itertools.product(*[range(d) for d in shape]):
            a[index] = self.data[tuple(zip(charges, index))]
        return a


def edge_argument(edge):
    arrow, m = edge
    if IS_NO:
        return m[()]
    d = {symmetry(c): n for c, n in m.items()}
    return EdgeType(arrow, d) if IS_FERMI else EdgeType(d)


def to_tensor(r, scalar="D"):
    T = SCALARS[scalar]
    real = scalar in "SD"
    if not r.names:
        v = r.data[()]
        return T(v.real if real else v)
    t = T(list(r.names), [edge_argument(e) for e in r.edges])
    for charges in r.blocks():
        a = r.block(charges)
        t.block[[(n, symmetry(c)) for n, c in zip(r.names, charges)]] = a.real if real else a
    return t


def read_edge(e):
    if IS_NO:
        return (False, {(): int(str(e))})
    return (bool(e.arrow) if IS_FERMI else False, {charge_of(s): d for s, d in e.map.items()})


def compare(t, r, tolerance, arrows=True):
    """Empty if the tensor is what the model says, else what differs."""
    names = [str(n) for n in t.name]
    if names != r.names:
        return f"edges {names} instead of {r.names}"
    if len(t.edge) != len(names):
        return "number of edges differs from number of names"
    for n, e, (arrow, m) in zip(names, t.edge, r.edges):
        got = read_edge(e)
        if got[1] != m:
            return f"edge {n} has sectors {got[1]} instead of {m}"
        if arrows and got[0] != arrow:
            return f"edge {n} has another arrow"
    if t.norm_num() != len(r.data):
        return f"{t.norm_num()} elements instead of {len(r.data)}"
    if not names:
        if not r.data:
            return ""
        v = complex(t) if hasattr(t, "__complex__") else float(t)
        return "" if abs(v - r.data[()]) <= tolerance * max(1, abs(r.data[()])) else f"value {v} instead of {r.data[()]}"
    for charges in r.blocks():
        want = r.block(charges)
        got = np.array(t.block[[(n, symmetry(c)) for n, c in zip(names, charges)]])
        if got.shape != want.shape:
            return f"block {charges} has shape {got.shape} instead of {want.shape}"
        if not np.all(np.abs(got - want) <= tolerance * np.maximum(1, np.abs(want))):
            return f"block {charges} is {got.tolist()} instead of {want.tolist()}"
    return ""


def transpose(r, order):
    source = [r.at(n) for n in order]
    data = {}
    for k, v in r.data.items():
        sign = 1
        for i in range(len(source)):
            for j in range(i):
                if source[j] > source[i] and odd(k[source[j]][0]) and odd(k[source[i]][0]):
                    sign = -sign
        data[tuple(k[s] for s in source)] = sign * v
    return Ref(order, [r.edges[s] for s in source], data)


def flip_sign(data, i):
    return {k: -v if odd(k[i][0]) else v for k, v in data.items()}


def reverse(r, which, signed):
    q = r.copy()
    for i, n in enumerate(r.names):
        if n in which:
            q.edges[i] = (not q.edges[i][0], q.edges[i][1])
            if n in signed:
                q.data = flip_sign(q.data, i)
    return q


def fused_layout(maps):
    result, offset = {}, {}
    for charges in itertools.product(*[sorted(m) for m in maps]):
        t = total(charges)
        offset[charges] = (t, result.get(t, 0))
        result[t] = result.get(t, 0) + math.prod(m[c] for m, c in zip(maps, charges))
    return result, offset


def fused_index(maps, sub):
    o = 0
    for m, (c, i) in zip(maps, sub):
        o = o * m[c] + i
    return o


def pairs_sign(sub):
    n = sum(odd(c) for c, _ in sub)
    return -1 if n * (n - 1) // 2 % 2 else 1


def merge_adjacent(r, name, parts, sign_merge, align_signed):
    """The parts are neighbours in r, in the order in which they fuse."""
    r = r.copy()
    b = r.at(parts[0])
    e = b + len(parts)
    arrow = None
    for i in range(b, e):
        if not (IS_FERMI and any(c[0] != 0 for c in r.edges[i][1])):
            continue
        if arrow is None:
            arrow = r.edges[i][0]
        elif r.edges[i][0] != arrow:
            r.edges[i] = (arrow, r.edges[i][1])
            if r.names[i] in align_signed:
                r.data = flip_sign(r.data, i)
    maps = [m for _, m in r.edges[b:e]]
    fused, offset = fused_layout(maps)
    edge = r.edges[b] if len(parts) == 1 else (bool(arrow), fused)
    q = Ref.zeros(r.names[:b] + [name] + r.names[e:], r.edges[:b] + [edge] + r.edges[e:])
    for k, v in r.data.items():
        sub = k[b:e]
        t, o = offset[tuple(c for c, _ in sub)]
        q.data[k[:b] + ((t, o + fused_index(maps, sub)),) + k[e:]] = v * (pairs_sign(sub) if sign_merge else 1)
    return q


def split(r, name, parts, maps, sign_split):
    b = r.at(name)
    arrow = r.edges[b][0]
    _, offset = fused_layout(maps)
    q = Ref.zeros(r.names[:b] + list(parts) + r.names[b + 1:], r.edges[:b] + [(arrow, m) for m in maps] + r.edges[b + 1:])
    n = len(parts)
    for k in q.data:
        sub = k[b:b + n]
        t, o = offset[tuple(c for c, _ in sub)]
        q.data[k] = r.get(k[:b] + ((t, o + fused_index(maps, sub)),) + k[b + n:]) * (pairs_sign(sub) if sign_split else 1)
    return q


def contract(a, b, pairs):
    left, right = [x for x, _ in pairs], [y for _, y in pairs]
    free_a, free_b = [n for n in a.names if n not in left], [n for n in b.names if n not in right]
    ta, tb = transpose(a, free_a + left), transpose(b, right[::-1] + free_b)
    c, fa = len(pairs), len(free_a)
    result = Ref.zeros(free_a + free_b, ta.edges[:fa] + tb.edges[c:])
    index = {}
    for k, v in tb.data.items():
        index.setdefault(k[:c], []).append((k[c:], v))
    for k, v in ta.data.items():
        sign = 1
        want = []
        for i in range(c):
            s, p = k[fa + i]
            want.append((neg(s), p))
            if odd(s) and not ta.edges[fa + i][0]:
                sign = -sign
        for rest, w in index.get(tuple(reversed(want)), []):
            result.data[k[:fa] + rest] += sign * v * w
    return result


def trace(r, pairs):
    order = []
    for a, b in pairs:
        order += [b, a] if IS_FERMI and not r.edges[r.at(a)][0] else [a, b]
    rest = [n for n in r.names if n not in order]
    t = transpose(r, order + rest)
    m = len(order)
    q = Ref.zeros(rest, t.edges[m:])
    for k, v in t.data.items():
        if all(k[i][0] == neg(k[i + 1][0]) and k[i][1] == k[i + 1][1] for i in range(0, m, 2)):
            q.data[k[m:]] += v
    return q


def dual(edge):
    return (IS_FERMI and not edge[0], {neg(c): d for c, d in edge[1].items()})


def conjugate(r):
    return Ref(r.names, [dual(e) for e in r.edges], {tuple((neg(c), i) for c, i in k): v.conjugate() * pairs_sign(k) for k, v in r.data.items()})


def shapes():
    """Small edges with several sectors, one of them with one sector only."""
    if IS_NO:
        return [{(): 2}, {(): 1}, {(): 3}]
    if SYM == "Z2":
        return [{(0,): 1, (1,): 2}, {(1,): 1}, {(0,): 2, (1,): 1}]
    if SYM in ("U1", "Fermi"):
        return [{(0,): 1, (1,): 2}, {(-1,): 2, (0,): 1}, {(-1,): 1, (0,): 2, (1,): 1}]
    if SYM == "FermiZ2":
        return [{(0, 0): 1, (1, 1): 2}, {(-1, 1): 2, (0, 0): 1}, {(-1, 0): 1, (0, 1): 1, (1, 1): 1, (0, 0): 1}]
    return [{(0, 0): 1, (1, 1): 2}, {(-1, -1): 2, (0, 0): 1}, {(-1, 1): 1, (0, 0): 1, (1, -1): 1, (1, 1): 1}]
