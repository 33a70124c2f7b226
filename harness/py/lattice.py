"""Reference for square lattices: everything is summed over explicitly with numpy, nothing is cached."""
import itertools, math
import numpy as np
import TAT

Tensor = TAT.Tensor.DNo


def sequence(k):
    """A fixed sequence of generic numbers in (-1, 1) without structure, away from 0."""
    x = math.sin((k + 1) * 12.9898) * 43758.5453
    x -= math.floor(x)
    return (0.25 + 0.75 * x) * (1 if int(x * 1e6) % 2 else -1)


def generic(shape, salt):
    n = int(np.prod(shape)) if shape else 1
    return np.array([sequence(salt * 1000 + i) for i in range(n)]).reshape(shape)


def array(tensor, names):
    """The elements of a tensor, axes in the order of the names."""
    if sorted(str(n) for n in tensor.name) != sorted(names):
        raise NameError(f"edges {[str(n) for n in tensor.name]} instead of {names}")
    if not names:
        return np.array(tensor.__float__() if hasattr(tensor, "__float__") else complex(tensor))
    return np.array(tensor.block[list(names)])


def tensor(names, values, kind=Tensor):
    t = kind(list(names), list(values.shape))
    if names:
        t.block[list(names)] = values
    else:
        t = kind(float(values))
    return t


def close(a, b, tolerance=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b), initial=0)) <= tolerance * max(1e-3, float(np.max(np.abs(b), initial=0)))


def proportional(a, b, tolerance=1e-7):
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    k = int(np.argmax(np.abs(b)))
    if b[k] == 0 or a[k] == 0:
        return False
    return float(np.max(np.abs(a / a[k] - b / b[k]))) <= tolerance


def directions(M, N, i, j):
    return [d for d, ok in (("L", j > 0), ("U", i > 0), ("D", i + 1 < M), ("R", j + 1 < N)) if ok]


def bond(i, j, d):
    """The bond at one side of a site, written in one way."""
    return {"R": ("h", i, j), "L": ("h", i, j - 1), "D": ("v", i, j), "U": ("v", i - 1, j)}[d]


def contract(M, N, sites, holes=(), physical=False):
    """sites: {(i, j): (names, array)}. The sum over all bonds; a hole keeps its bonds open, named by direction and number of the hole,
    except the bond between two holes. With physical, P of every site is kept, in the order of the sites."""
    letters = {}

    def letter(x):
        return letters.setdefault(x, len(letters))
    operands, out, names = [], [], []
    for (i, j), (n, a) in sorted(sites.items()):
        if (i, j) in holes:
            continue
        operands += [a, [letter(("p", i, j)) if x == "P" else letter(bond(i, j, x)) for x in n]]
        if physical:
            out.append(letter(("p", i, j)))
    for k, (i, j) in enumerate(holes):
        for d in directions(M, N, i, j):
            b = bond(i, j, d)
            others = [bond(x, y, e) for q, (x, y) in enumerate(holes) if q != k for e in directions(M, N, x, y)]
            if b in others:
                continue
            out.append(letter(b))
            names.append(d + str(k))
    if not operands:
        return names, np.ones([1] * len(out))
    return names, np.einsum(*operands, out, optimize="greedy")


def operator_on(state, d, positions, M, N, matrix):
    """matrix[(in...), (out...)] acts on the named sites of a state with axes in the order of the sites."""
    body = len(positions)
    m = matrix.reshape([d] * (2 * body))
    axes = [i * N + j for i, j in positions]
    r = np.tensordot(state, m, axes=(axes, list(range(body))))
    return np.moveaxis(r, list(range(r.ndim - body, r.ndim)), axes)


def exponential(matrix):
    w, v = np.linalg.eigh((matrix + matrix.conj().T) / 2)
    return (v * np.exp(w)) @ v.conj().T


def operator_tensor(matrix, d, body, order=0, kind=Tensor):
    names = [f"I{k}" for k in range(body)] + [f"O{k}" for k in range(body)]
    t = kind(names if not order else names[::-1], [d] * (2 * body))
    t.block[names] = matrix.reshape([d] * (2 * body))
    return t
