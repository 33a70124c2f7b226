"""Cached contractions of the python package: after any history they equal the contraction of what is set now."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc
import numpy as np
from lattice import *
import square

SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (2, 4), (4, 2)]


def dimension(kind, b):
    if kind >= 2:
        return 1 + (b[1] + b[2] + (b[0] == "v") + kind) % 2
    return 2 if kind == 0 else 1 + (b[1] * 2 + b[2] + (b[0] == "v")) % 3


def site(M, N, i, j, salt, kind):
    names = directions(M, N, i, j)
    k = (i + 2 * j + salt) % len(names) if names else 0
    names = names[k:] + names[:k]
    return names, generic([dimension(kind, bond(i, j, n)) for n in names], salt * 100 + i * 10 + j)


class System:
    """The real system next to the tensors that are set."""

    def __init__(self, M, N, kind):
        self.M, self.N, self.kind = M, N, kind
        self.real = square.SquareAuxiliariesSystem(M, N, 1000)
        self.sites = {}

    def put(self, i, j, salt):
        names, a = site(self.M, self.N, i, j, salt, self.kind)
        self.sites[i, j] = (names, a)
        self.real[i, j] = tensor(names, a)

    def fill(self, salt=1):
        for i in range(self.M):
            for j in range(self.N):
                self.put(i, j, salt)

    def copy(self):
        r = System.__new__(System)
        r.M, r.N, r.kind, r.sites = self.M, self.N, self.kind, dict(self.sites)
        r.real = square.SquareAuxiliariesSystem(self.real)
        return r


def queries(M, N):
    r = [("all",), ("none",)]
    pairs = []
    for i in range(M):
        for j in range(N):
            r.append(("hole", (i, j)))
            r.append(("put", (i, j)))
            for x, y in ((i, j + 1), (i + 1, j)):
                if x < M and y < N:
                    pairs += [((i, j), (x, y)), ((x, y), (i, j))]
    return r + [("hole", *p) for p in pairs] + [("put", *p) for p in pairs]


def read(s, q):
    """Reads from the real system and compares."""
    M, N = s.M, s.N
    if q[0] in ("all", "none"):
        got = s.real[None] if q[0] == "none" else s.real[{}]
        names, want = contract(M, N, s.sites)
    elif q[0] == "hole":
        got = s.real[tuple(q[1:])]
        names, want = contract(M, N, s.sites, q[1:])
    else:
        other = dict(s.sites)
        replacement = {}
        for k, (i, j) in enumerate(q[1:]):
            n, a = site(M, N, i, j, 50 + k, s.kind)
            other[i, j] = (n, a)
            replacement[i, j] = tensor(n, a)
        got = s.real[replacement]
        names, want = contract(M, N, other)
    mc.step()
    mc.check(close(array(got, names), want), lambda: f"{q} gives another value than the contraction of what is set")


def read_all(s):
    for q in queries(s.M, s.N):
        read(s, q)


def base():
    which = mc.choose(len(SHAPES) if mc.thorough() else 9, "lattice")
    M, N = SHAPES[which]
    kind = mc.choose(2, "dimensions") if M * N <= 6 else 1
    return M, N, kind


def change(s, i, j, way, salt):
    if way == 0:
        s.put(i, j, salt)
    elif way == 1:
        del s.real[i, j]
        s.put(i, j, salt)
    else:
        s.put(i, j, salt + 1)
        s.put(i, j, salt)


def one_change():
    M, N, kind = base()
    q = queries(M, N)
    first = mc.choose(len(q) + 1, "read before")
    i, j = mc.choose(M, "row"), mc.choose(N, "column")
    way = mc.choose(3 if M * N <= 4 or mc.thorough() else 1, "way to change")
    mc.commit()
    s = System(M, N, kind)
    s.fill()
    if first == len(q):
        read_all(s)
    else:
        read(s, q[first])
    change(s, i, j, way, 7)
    read_all(s)
    mc.state((M, N, kind, first, i, j, way))


def two_changes():
    M, N, kind = base()
    if M * N > 6 and not mc.thorough() or M * N > 9:
        mc.skip()
    if M * N > 4 and kind == 0 and not mc.thorough():
        mc.skip()
    q = queries(M, N)
    second = mc.choose(len(q) if M * N <= 4 or mc.thorough() else 2 + 2 * M * N, "read between")
    i, j = mc.choose(M, "row"), mc.choose(N, "column")
    x, y = mc.choose(M, "second row"), mc.choose(N, "second column")
    mc.commit()
    s = System(M, N, kind)
    s.fill()
    read_all(s)
    s.put(i, j, 7)
    read(s, q[second])
    s.put(x, y, 8)
    read_all(s)
    mc.state((M, N, kind, second, i, j, x, y, 2))


def copies():
    M, N, kind = base()
    if M * N > 6 and not mc.thorough():
        mc.skip()
    q = queries(M, N)
    first = mc.choose(3, "read before copying")
    who = mc.choose(2, "which is changed")
    i, j = mc.choose(M, "row"), mc.choose(N, "column")
    mc.commit()
    s = System(M, N, kind)
    s.fill()
    if first == 1:
        read(s, q[0])
    elif first == 2:
        read_all(s)
    t = s.copy()
    (s, t)[who].put(i, j, 9)
    order = (s, t) if mc.flip("which is read first") else (t, s)
    for u in order:
        read_all(u)
    mc.state((M, N, kind, first, who, i, j, 3))


def sums():
    """Two systems that hold different parts: their sum holds both, and what each has computed."""
    M, N, kind = base()
    if M * N > (6 if mc.thorough() else 4):
        mc.skip()
    cells = [(i, j) for i in range(M) for j in range(N)]
    part = mc.choose(1 << len(cells), "sites of the first")
    inplace = mc.flip("in place")
    warm = mc.flip("with lines computed before")
    mc.commit()
    a, b = System(M, N, kind), System(M, N, kind)
    for k, (i, j) in enumerate(cells):
        (a if part >> k & 1 else b).put(i, j, 1)
    if warm:
        # whatever the parts can compute alone
        for s in (a, b):
            for i, j in cells:
                try:
                    s.real[((i, j),)]
                except Exception:
                    pass
    total = a.copy() if not inplace else a
    if inplace:
        c = total.real
        c += b.real
        mc.check(c is total.real, "+= gives another object")
    else:
        total.real = a.real + b.real
    merged = dict(a.sites)
    merged.update(b.sites)
    total.sites = merged
    read_all(total)
    i, j = mc.pick(cells, "change after")
    total.put(i, j, 4)
    read_all(total)
    mc.state((M, N, kind, part, inplace, warm, i, j, 4))


def larger():
    """Everything read, any one site changed, everything read, on lattices larger than the histories above use."""
    M, N = [(1, 5), (5, 1), (2, 4), (4, 2), (3, 4), (4, 3), (4, 4)][mc.choose(7, "lattice")]
    kind = 2 + mc.choose(2, "dimensions")
    i, j = mc.choose(M, "row"), mc.choose(N, "column")
    mc.commit()
    s = System(M, N, kind)
    s.fill()
    read_all(s)
    change(s, i, j, 0, 7)
    read_all(s)
    mc.state((M, N, kind, i, j, 5))


def body():
    [one_change, two_changes, copies, sums, larger][mc.choose(5, "part")]()


mc.main(body)
