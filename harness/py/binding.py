"""What the python module does with tensors is what the definitions say: every way of writing an argument, every access form, in
place and out of place, against the model of model.py. One process per symmetry (VERIF_SYM), all four scalar types."""
import copy, gc, itertools, math, pickle
import numpy as np
import mc, model
from mc import check, choose, flip, pick
from model import IS_FERMI, IS_NO, SCALARS, SYM, TOLERANCE, ZERO, Ref, add, charge_of, neg, odd, plain, symmetry, to_tensor, total
import TAT

LETTERS = ["B", "A", "D", "C", "E"]  # not in the order of their first use as names


def same(t, r, what, scalar="D", factor=1.0, arrows=True):
    message = model.compare(t, r, TOLERANCE[scalar] * factor, arrows)
    check(not message, f"{what}: {message}")
    check(type(t) is SCALARS[scalar], f"{what}: result has type {type(t).__name__}")


def refused(f):
    try:
        f()
    except mc.Failure:
        raise
    except Exception:
        return True
    return False


def some_edges(rank, shapes=None, arrows=True):
    edges = []
    for i in range(rank):
        m = pick(model.shapes()[:shapes], "edge")
        edges.append((arrows and IS_FERMI and flip("arrow"), m))
    return edges


def some_tensor(rank, salt, shapes=None, arrows=True):
    """Names, edges and the model of a chosen tensor (to be filled after commit)."""
    return LETTERS[:rank], some_edges(rank, shapes, arrows)


def some_order(names):
    left, order = list(names), []
    while left:
        order.append(left.pop(choose(len(left), "order") if len(left) > 1 else 0))
    return order


def some_scalar(which="SDCZ"):
    return pick(which, "scalar")


# ---- construction ----------------------------------------------------------------------------------------------------
def edge_forms(edge):
    """Every way of writing an edge."""
    arrow, m = edge
    E, B = model.EdgeType, getattr(TAT._internal.Edge.NoArrow, SYM)
    forms = []
    if IS_NO:
        return [m[()], E(m[()])]
    written = {plain(c): d for c, d in m.items()}
    objects = {symmetry(c): d for c, d in m.items()}
    if IS_FERMI:
        forms += [(arrow, written), (arrow, objects), E(arrow, written), E(arrow, objects), E((arrow, written)), E((arrow, objects))]
    if not arrow:
        forms += [written, objects, E(written), E(objects)]
        if all(d == 1 for d in m.values()):
            forms += [set(written), set(objects), E(set(written)), E(set(objects))]
        if list(m) == [ZERO]:
            forms += [m[ZERO], E(m[ZERO])]
    return forms


def construct():
    rank = choose(3, "rank")
    names = LETTERS[:rank]
    extra = [] if IS_NO else [{c: 1 for c in model.shapes()[2]}, {ZERO: 3}]
    alphabet = model.shapes()[:3 if rank < 2 or mc.thorough() else 1] + extra
    edges, arguments = [], []
    for i in range(rank):
        m = pick(alphabet, "edge")
        e = (IS_FERMI and flip("arrow"), m)
        edges.append(e)
        forms = edge_forms(e)
        arguments.append(forms[choose(len(forms), "form")])
    given = pick(["str", "Name"], "names") if rank else "str"
    keywords = flip("keywords") if rank < 2 else False
    scalar = some_scalar("SDCZ" if rank < 2 else "DC")
    mc.commit()
    T = SCALARS[scalar]
    r = Ref.zeros(names, edges)
    use = [TAT.Name(n) for n in names] if given == "Name" else names
    t = T(names=use, edges=arguments) if keywords else T(use, arguments)
    start, step = (3, 2) if scalar in "SD" else (3 + 1j, 2 - 1j)
    how = len(r.data) % 3
    got = t.test(start, step) if how == 0 else t.test(first=start, step=step) if how == 1 else t.test()
    check(got is t, "test returns another object")
    if how == 2:
        start, step = 0, 1
    v = start
    for charges in r.blocks():
        shape = [m[c] for (_, m), c in zip(r.edges, charges)]
        for index in itertools.product(*[range(d) for d in shape]):
            r.data[tuple(zip(charges, index))] = v
            v += step
    same(t, r, "test", scalar)
    for e, a in zip(t.edge, r.edges):
        check(isinstance(e, model.EdgeType), "an edge has another type")
        check({charge_of(s): d for s, d in e.map.items()} == a[1], "an edge has other dimensions")
    if r.data:
        data = t.data
        if IS_NO:
            check(len(data) == 1, "a tensor without symmetry has several blocks")
            data = {tuple(ZERO for _ in names): block for block in data.values()}
        else:
            data = {tuple(charge_of(s) for s in where): block for where, block in data.items()}
        # blocks without elements may be listed or not
        data = {where: block for where, block in data.items() if len(block)}
        want = {tuple(charges): list(r.block(charges).ravel()) for charges in r.blocks()}
        want = {where: block for where, block in want.items() if len(block)}
        check(set(data) == set(want), "the blocks of a tensor have other charges")
        for where, block in want.items():
            check(len(block) == len(data[where]) and np.allclose(data[where], block, 1e-6, 1e-6), "the data of a tensor have other values")
    if not r.data:
        return
    # the objects do not depend on the tensor they come from
    e, n = t.edge, t.name
    other = T(["X", "Y", "Z"], [model.edge_argument((False, {ZERO: 7}))] * 3).zero()
    t.load(other.dump())
    del t
    keep = [T(["X"], [model.edge_argument((False, {ZERO: 2 + i}))]) for i in range(4)]
    check([str(x) for x in n] == names, "names obtained from a tensor change when the tensor does")
    for x, a in zip(e, r.edges):
        check(model.read_edge(x) == a, "edges obtained from a tensor change when the tensor does")
    mc.state((SYM, scalar, repr(edges)))


def numbers():
    """Numbers and tensors of one element."""
    scalar = some_scalar()
    value = pick([2.5, -1.0, 3], "number")
    if scalar in "CZ" and flip("imaginary part"):
        value = complex(value, -0.5)
    form = choose(3, "form")
    mc.commit()
    T = SCALARS[scalar]
    t = T(value) if form == 0 else T(number=value) if form == 1 else T.one(value, [])
    same(t, Ref([], [], {(): value}), "a number", scalar)
    back = float(t) if scalar in "SD" else complex(t)
    check(abs(back - value) < 1e-6, "a tensor without edges is another number")
    # implicit conversion of a number where a tensor is expected
    u = T(7) + t
    same(u, Ref([], [], {(): value + 7}), "sum of two numbers", scalar)
    if scalar in "SD":
        check(not hasattr(t, "__complex__") or abs(complex(t) - value) < 1e-6, "another complex number")
    mc.state((SYM, scalar, value))


def one_element():
    rank = 1 + choose(3, "rank")
    names = LETTERS[:rank]
    pool = sorted(set(itertools.chain(*[m for m in model.shapes()])))
    charges = [pick(pool, "charge") for _ in range(rank)]
    if total(charges) != ZERO:
        mc.skip()
    arrows = [flip("arrow") for _ in range(rank)] if IS_FERMI else []
    scalar = some_scalar("DZ")
    objects = flip("objects")
    mc.commit()
    T = SCALARS[scalar]
    value = 2.5 if scalar == "D" else 2.5 - 1j
    s = [symmetry(c) if objects else plain(c) for c in charges]
    if IS_NO:
        t = T.one(value, names)
    elif IS_FERMI:
        t = T.one(value, names, s, arrows) if objects else T.one(number=value, names=names, edge_symmetry=s, edge_arrow=arrows)
    else:
        t = T.one(value, names, s) if objects else T.one(number=value, names=names, edge_symmetry=s)
    r = Ref.zeros(names, [(arrows[i] if IS_FERMI else False, {charges[i]: 1}) for i in range(rank)])
    for k in r.data:
        r.data[k] = value
    same(t, r, "a tensor of one element", scalar)
    back = float(t) if scalar == "D" else complex(t)
    check(abs(back - value) < 1e-12, "a tensor of one element is another number")
    if not IS_NO:
        check(refused(lambda: T.one(value, names, s[:-1], arrows)), "a missing charge is not refused")
    mc.state((SYM, scalar, charges, arrows))


# ---- elements and blocks ---------------------------------------------------------------------------------------------
def point(c, i, form):
    return i if IS_NO else (plain(c), i) if form == 0 else (symmetry(c), i)


def elements():
    rank = 1 + choose(2, "rank")
    names, edges = some_tensor(rank, 1, None if rank < 2 else 2)
    scalar = some_scalar()
    order = some_order(names)
    form = 0 if IS_NO else choose(2, "form")
    shared = flip("storage is shared")
    mc.commit()
    r = Ref.make(names, edges, 1, scalar)
    t = to_tensor(r, scalar)
    twin = t.edge_rename({}) if shared else None
    before = r.copy()
    for n, k in enumerate(sorted(r.data)):
        where = {x: point(*k[r.at(x)], form) for x in order}
        if n % 2:
            where = {TAT.Name(x): p for x, p in where.items()}
        v = t[where]
        check(abs(v - r.data[k]) <= TOLERANCE[scalar], "an element has another value")
        check(isinstance(v, float if scalar in "SD" else complex), "an element has another type")
        new = 10 + n if scalar in "SD" else 10 + n - 2j
        t[where] = new
        r.data[k] = new
        same(t, r, "after an assignment", scalar)
    if shared:
        same(twin, before, "tensor sharing storage with the one assigned to", scalar)
    k = next(iter(r.data), None)
    if k:
        where = {x: point(*k[r.at(x)], form) for x in order[1:]}
        check(refused(lambda: t[where]), "an element without a coordinate is not refused")
        same(t, r, "after a refused access", scalar)
    mc.state((SYM, scalar, repr(edges), shared))


def block_argument(names, charges, order, form):
    at = dict(zip(names, charges))
    if form == 0:
        return {n: symmetry(at[n]) for n in order}
    if form == 1:
        return [(n, symmetry(at[n])) for n in order]
    if form == 2:
        return {TAT.Name(n): plain(at[n]) for n in order} if not IS_NO else list(order)
    if form == 3:
        return [(TAT.Name(n), plain(at[n])) for n in order] if not IS_NO else [TAT.Name(n) for n in order]


def blocks():
    rank = 1 + choose(3, "rank")
    names, edges = some_tensor(rank, 2, 3 if rank < 2 else 2, rank < 3)
    scalar = some_scalar("SDCZ" if rank < 2 or mc.thorough() else "DC" if rank < 3 else "Z")
    order = some_order(names)
    form = choose(4, "form")
    use = choose(5, "use")
    shared = (rank < 3 or mc.thorough()) and flip("storage is shared")
    mc.commit()
    r = Ref.make(names, edges, 2, scalar)
    t = to_tensor(r, scalar)
    before = r.copy()
    twin = t.edge_rename({}) if shared else None
    listed = form in (1, 3) or (IS_NO and form == 2)
    shown = order if listed else names
    axes = [names.index(n) for n in shown]
    for number, charges in enumerate(r.blocks()):
        a = block_argument(names, charges, order, form)
        want = r.block(charges).transpose(axes)
        if scalar in "SD":
            want = want.real
        fresh = np.arange(want.size).reshape(want.shape) + 100 * (number + 1)
        if use == 0:  # read, then write one element through the view
            view = t.block[a]
            check(isinstance(view, np.ndarray) and view.dtype == model.DTYPE[scalar], "a block has another type")
            check(view.shape == want.shape and np.allclose(view, want, 1e-6, 1e-6), "a block has other values")
            last = tuple(d - 1 for d in want.shape)
            view[last] = 77 + number
            at = [0] * rank
            for i, x in zip(axes, last):
                at[i] = x
            r.data[tuple(zip(charges, at))] = 77 + number
        elif use == 1:  # assign an array
            t.block[a] = fresh
        elif use == 2:  # assign a number
            t.block[a] = 5
            fresh = np.full(want.shape, 5)
        elif use == 3:  # through the view
            view = t.block[a]
            view[...] = fresh
        else:  # a view outlives the tensor
            u = t.copy()
            view = u.block[a]
            del u
            gc.collect()
            filler = [t.copy().zero() for _ in range(3)]
            check(view.shape == want.shape and np.allclose(view, want, 1e-6, 1e-6), "a block of a tensor that is gone has other values")
            view[...] = 0
        if use in (1, 2, 3):
            for shown_index in itertools.product(*[range(d) for d in want.shape]):
                at = [0] * rank
                for i, x in zip(axes, shown_index):
                    at[i] = x
                r.data[tuple(zip(charges, at))] = complex(fresh[shown_index]) if scalar in "CZ" else float(fresh[shown_index])
        same(t, r, "after using a block", scalar)
    if shared:
        same(twin, before, "tensor sharing storage with the one whose blocks are used", scalar)
    mc.state((SYM, scalar, repr(edges), order, form, use))


# ---- arithmetic ------------------------------------------------------------------------------------------------------
OPERATORS = [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b)]


def in_place(op, a, b):
    if op == "+": a += b
    elif op == "-": a -= b
    elif op == "*": a *= b
    else: a /= b
    return a


def arithmetic():
    rank = choose(3, "rank")
    names, edges = some_tensor(rank, 3, 2)
    scalar = some_scalar()
    op, f = pick(OPERATORS, "operator")
    kind = choose(5, "operands")  # tensor, number, number on the left, in place with a tensor, in place with a number
    order = some_order(names) if kind in (0, 3) else names
    shared = flip("storage is shared")
    mc.commit()
    r = Ref.make(names, edges, 3, scalar)
    s = Ref.make(names, edges, 4, scalar)
    moved = model.transpose(s, order)
    t, u = to_tensor(r, scalar), to_tensor(moved, scalar)
    twin = t.edge_rename({}) if shared else None
    number = 3 if op != "/" else 2.5
    if scalar in "CZ":
        number = complex(number, 1)
    if kind in (0, 3):
        want = Ref(r.names, r.edges, {k: f(v, s.data[k]) for k, v in r.data.items()})
    elif kind == 2:
        want = r.map(lambda v: f(number, v))
    else:
        want = r.map(lambda v: f(v, number))
    if kind == 0:
        q = f(t, u)
    elif kind == 1:
        q = f(t, number)
    elif kind == 2:
        q = f(number, t)
    else:
        q = t
        q = in_place(op, q, u if kind == 3 else number)
        check(q is t, "arithmetic in place gives another object")
    same(q, want, f"operator {op}", scalar, 10)
    if kind < 3:
        same(t, r, "operand", scalar)
    if kind in (0, 3):
        same(u, moved, "second operand", scalar)
    if shared:
        same(twin, r, "tensor sharing storage with an operand", scalar)
    mc.state((SYM, scalar, repr(edges), op, kind))


def pointwise():
    rank = choose(3, "rank")
    names, edges = some_tensor(rank, 5, 2)
    scalar = some_scalar()
    use = choose(12, "function")
    shared = flip("storage is shared")
    mc.commit()
    r = Ref.make(names, edges, 5, scalar)
    t = to_tensor(r, scalar)
    twin = t.edge_rename({}) if shared else None
    changes = False
    calls = []
    if use == 0:
        q = t.map(lambda x: (calls.append(x), 2 * x + 1)[1])
        want = r.map(lambda x: 2 * x + 1)
        check(len(calls) == len(r.data), "map calls its function another number of times")
    elif use == 1:
        q = t.transform(lambda x: x * x)
        want, changes = r.map(lambda x: x * x), True
    elif use == 2:
        t = t.map(abs)
        r2 = r.map(abs)
        q, want = t.sqrt(), r2.map(lambda x: x**0.5)
        same(t, r2, "operand of sqrt", scalar, 10)
        same(q, want, "sqrt", scalar, 10)
        return
    elif use == 3:
        counter = iter(range(1000))
        q = t.set(lambda: float(next(counter)))
        v, want, changes = 0, r.copy(), True
        for charges in r.blocks():
            for index in itertools.product(*[range(m[c]) for (_, m), c in zip(r.edges, charges)]):
                want.data[tuple(zip(charges, index))] = v
                v += 1
        check(next(counter) == len(r.data), "set calls its function another number of times")
    elif use == 4:
        q = t.zero()
        want, changes = r.map(lambda x: 0.0), True
    elif use == 5:
        q, want = t.copy(), r
        q2 = t.copy().zero()
        same(t, r, "original of a changed copy", scalar)
    elif use == 6:
        q = t.same_shape().zero()
        want = r.map(lambda x: 0.0)
    elif use == 7:
        values = [abs(v) for v in r.data.values()]
        for got, wanted in ((t.norm_max(), max(values, default=0)), (t.norm_num(), len(values)), (t.norm_sum(), sum(values)), (t.norm_2(), math.sqrt(sum(v * v for v in values)))):
            check(abs(got - wanted) <= TOLERANCE[scalar] * 10 * (1 + wanted), f"a norm is {got} instead of {wanted}")
        q, want = t, r
    else:
        target = "SDCZ"[use - 8]
        spellings = {"S": ["float32", "S"], "D": ["float", "D", float, "float64"], "C": ["complex32", "C"], "Z": ["complex", "Z", complex, "complex64"]}[target]
        for word in spellings:
            q = t.to(word)
            want = r.map(lambda x: x.real) if target in "SD" else r
            same(q, want, f"conversion to {word}", target, 1 if TOLERANCE[target] > 1e-6 else TOLERANCE[scalar] / 1e-12)
        check(refused(lambda: t.to("integer")), "conversion to an unknown type is not refused")
        q, want = t, r
    if changes:
        check(q is t, "an operation in place gives another object")
        same(q, want, "result", scalar, 10)
    else:
        same(q, want, "result", scalar, 10)
        same(t, r, "operand", scalar)
    if shared:
        same(twin, r, "tensor sharing storage with an operand", scalar)
    mc.state((SYM, scalar, repr(edges), use))


# ---- edges -----------------------------------------------------------------------------------------------------------
def rename_and_transpose():
    rank = choose(4, "rank")
    names, edges = some_tensor(rank, 6, 2 if rank < 3 else 1)
    scalar = some_scalar("DZ" if rank < 3 else "D")
    order = some_order(names)
    renamed = [n for n in names if flip("renamed")]
    swap = len(renamed) == 2 and flip("exchange names")
    mc.commit()
    r = Ref.make(names, edges, 6, scalar)
    t = to_tensor(r, scalar)
    m = {renamed[0]: renamed[1], renamed[1]: renamed[0]} if swap else {n: "x" + n for n in renamed}
    q = t.edge_rename(m) if rank % 2 else t.edge_rename(name_dictionary=m)
    same(q, Ref([m.get(n, n) for n in names], r.edges, r.data), "edge_rename", scalar)
    q.zero()
    same(t, r, "operand of edge_rename", scalar)
    q = t.transpose(order) if rank % 2 else t.transpose(new_names=[TAT.Name(n) for n in order])
    same(q, model.transpose(r, order), "transpose", scalar)
    q.zero()
    same(t, r, "operand of transpose", scalar)
    mc.state((SYM, scalar, repr(edges), order, m))


def reverse():
    if not IS_FERMI:
        mc.skip()
    rank = 1 + choose(3, "rank")
    names, edges = some_tensor(rank, 7, 2 if rank < 3 else 1)
    which = {n for n in names if flip("reversed")}
    exclude = {n for n in names if flip("exception")}
    form = choose(4, "arguments")
    apply = form != 0 and flip("apply parity")
    if form < 2 and exclude:
        mc.skip()
    mc.commit()
    r = Ref.make(names, edges, 7)
    t = to_tensor(r)
    q = (t.reverse_edge(which) if form == 0 else t.reverse_edge(which, apply) if form == 1 else t.reverse_edge(which, apply, exclude) if form == 2 else
         t.reverse_edge(parity_exclude_name_set=exclude, apply_parity=apply, reversed_name_set=which))
    same(q, model.reverse(r, which, {n for n in names if apply != (n in exclude)}), "reverse_edge")
    same(t, r, "operand of reverse_edge")
    mc.state((SYM, repr(edges), which, exclude, apply))


def merge():
    rank = 1 + choose(3, "rank")
    names, edges = some_tensor(rank, 8, 2 if rank < 3 else 1)
    parts = some_order([n for n in names if flip("merged")])
    form = choose(4, "arguments")
    apply = form != 0 and IS_FERMI and flip("apply parity")
    exclude_merge = form >= 2 and IS_FERMI and flip("exception of the group")
    exclude_reverse = {n for n in parts if IS_FERMI and form >= 2 and flip("exception of a part")}
    mc.commit()
    r = Ref.make(names, edges, 8)
    t = to_tensor(r)
    if not parts:
        mc.skip()
    # the library puts the new edge where the last of its parts is
    e1 = {"M"} if exclude_merge else set()
    m = {"M": parts}
    q = (t.merge_edge(m) if form == 0 else t.merge_edge(m, apply) if form == 1 else t.merge_edge(m, apply, e1, exclude_reverse) if form == 2 else
         t.merge_edge(parity_exclude_name_reverse_set=exclude_reverse, merge_map=m, parity_exclude_name_merge_set=e1, apply_parity=apply))
    order = [str(n) for n in q.name]
    check(sorted(order) == sorted([n for n in names if n not in parts] + ["M"]), "merge_edge: other edges")
    i = order.index("M")
    want = model.merge_adjacent(model.transpose(r, order[:i] + parts + order[i + 1:]), "M", parts, apply != exclude_merge, {n for n in names if apply != (n in exclude_reverse)})
    undirected = all(c[0] == 0 for n in parts for c in r.edges[r.at(n)][1]) if IS_FERMI else True
    same(q, want, "merge_edge", arrows=not undirected)
    same(t, r, "operand of merge_edge")
    # and apart again
    if not undirected and IS_FERMI and len({r.edges[r.at(n)][0] for n in parts}) > 1:
        return
    maps = [r.edges[r.at(n)][1] for n in parts]
    s = {"M": [(n, {plain(c): d for c, d in mm.items()} if not IS_NO else mm[()]) for n, mm in zip(parts, maps)]}
    se = {"M"} if exclude_merge else set()
    if want.edges[i][1] != model.fused_layout(maps)[0]:
        return  # sectors without elements are gone, so that positions differ
    back = q.split_edge(s, apply, se) if form % 2 else q.split_edge(split_map=s, apply_parity=apply, parity_exclude_name_split_set=se)
    wanted = model.split(want, "M", parts, maps, apply != exclude_merge)
    same(back, wanted, "split_edge", arrows=not undirected)
    if form == 0:
        same(q.split_edge(s), wanted, "split_edge", arrows=not undirected)
    mc.state((SYM, repr(edges), parts, apply, exclude_merge, exclude_reverse))


def cut_model(r, n, cut):
    i = r.at(n)
    m = {c: min(d, cut.get(c, d)) for c, d in r.edges[i][1].items() if cut.get(c, d) > 0}
    return Ref(r.names, r.edges[:i] + [(r.edges[i][0], m)] + r.edges[i + 1:], {k: v for k, v in r.data.items() if k[i][0] in m and k[i][1] < m[k[i][0]]})


def edge_operator():
    names = ["B", "A", "C"]
    edges = [(IS_FERMI and flip("arrow"), model.shapes()[0]) for _ in range(2)] + [(IS_FERMI, model.shapes()[1])]
    rename = flip("rename")
    split = flip("split")
    merge_mode = choose(3, "merge")
    order = some_order(["b1", "b2", "A", "c" if rename else "C"] if split else ["B", "A", "c" if rename else "C"])
    reversed_names = {order[choose(len(order), "reversed")]} if IS_FERMI and flip("reverse") else set()
    form = choose(3, "arguments")
    apply = IS_FERMI and form > 0 and flip("apply parity")
    except_ = [IS_FERMI and form > 0 and flip("exception") for _ in range(4)]
    cut = form > 0 and not IS_NO and flip("cut")
    if not mc.thorough():
        # one exception at a time, and every option with the others at one value
        used = [bool(edges[0][0]), bool(edges[1][0]), rename, bool(reversed_names), apply, cut, order != sorted(order, key=["B", "b1", "b2", "A", "C", "c"].index)]
        if sum(except_) > 1 or form == 2 and sum(used) + sum(except_) > 2 or sum(used) + sum(except_) > 3:
            mc.skip()
    mc.commit()
    inner = [model.shapes()[0], model.shapes()[1]]
    if split:
        base = Ref.make(["b1", "b2", "A", "C"], [(edges[0][0], inner[0]), (edges[0][0], inner[1])] + edges[1:], 9)
        r = model.merge_adjacent(base, "B", ["b1", "b2"], False, set())
        if r.edges[0][1] != model.fused_layout([base.edges[0][1], base.edges[1][1]])[0]:
            mc.skip()
        inner = [base.edges[0][1], base.edges[1][1]]
    else:
        r = Ref.make(names, edges, 9)
    t = to_tensor(r)
    rename_map = {"C": "c"} if rename else {}
    split_map = {"B": [("b1", {plain(c): d for c, d in inner[0].items()} if not IS_NO else inner[0][()]), ("b2", {plain(c): d for c, d in inner[1].items()} if not IS_NO else inner[1][()])]} if split else {}
    q = Ref([rename_map.get(n, n) for n in r.names], r.edges, r.data)
    cuts = {}
    if cut:
        c0 = sorted(r.edges[r.at("A")][1])[0]
        c1 = sorted(r.edges[r.at("A")][1])[-1]
        cuts = {"A": {symmetry(c0): 0, symmetry(c1): 1} if c0 != c1 else {symmetry(c0): 1}}
        q = cut_model(q, "A", {c0: 0, c1: 1} if c0 != c1 else {c0: 1})
    if split:
        q = model.split(q, "B", ["b1", "b2"], inner, apply != except_[0])
    ex = [{"B"} if except_[0] and split else set(), {order[0]} if except_[1] else set(), {order[1]} if except_[2] else set(), {"M"} if except_[3] else set()]
    q = model.reverse(q, reversed_names, {n for n in order if apply != (n in ex[1])})
    q = model.transpose(q, order)
    merge_map, result = {}, order
    if merge_mode:
        b = 0 if merge_mode == 1 else len(order) - 2
        parts = order[b:b + 2]
        merge_map = {"M": parts}
        result = order[:b] + ["M"] + order[b + 2:]
        q = model.merge_adjacent(q, "M", parts, apply != except_[3], {n for n in order if apply != (n in ex[2])})
    full = Ref.zeros(q.names, q.edges)
    full.data = {k: q.get(k) for k in full.data}
    if form == 0:
        got = t.edge_operator(rename_map, split_map, reversed_names, merge_map, result)
    elif form == 1:
        got = t.edge_operator(rename_map, split_map, reversed_names, merge_map, result, apply, *ex, cuts)
    else:
        got = t.edge_operator(rename_map=rename_map, split_map=split_map, reversed_name=reversed_names, merge_map=merge_map, new_names=result, apply_parity=apply,
                              parity_exclude_name_split_set=ex[0], parity_exclude_name_reverse_set=ex[1], parity_exclude_name_reverse_before_merge_set=ex[2],
                              parity_exclude_name_merge_set=ex[3], edge_and_symmetries_to_cut_before_all=cuts)
    same(got, full, "edge_operator")
    same(t, r, "operand of edge_operator")
    mc.state((SYM, repr(edges), order, rename, split, merge_mode, apply, except_, cut))


# ---- contraction and matrices ----------------------------------------------------------------------------------------
def contraction():
    free_a, free_b = choose(3, "free edges of the first"), choose(2, "free edges of the second")
    pairs = choose(2 if IS_FERMI else 3, "pairs")
    common = some_edges(pairs, 2)
    ea, eb = some_edges(free_a, 2, False), some_edges(free_b, 2, False)
    shared_name = flip("same names")
    place_a, place_b = choose(free_a + 1, "place"), choose(free_b + 1, "place")
    scalar = some_scalar("DZ")
    use = choose(3, "function")  # contract, contract_all_edge(other), keywords
    if use == 1 and (not shared_name or free_b and free_a):
        mc.skip()
    mc.commit()
    na, nb = ["B", "A"][:free_a], ["F", "E"][:free_b]
    ca = ["Y", "X"][:pairs]
    cb = ca if shared_name else ["V", "W"][:pairs]
    a = Ref.make(na[:place_a] + ca + na[place_a:], ea[:place_a] + common + ea[place_a:], 10, scalar)
    b = Ref.make(nb[:place_b] + cb + nb[place_b:], eb[:place_b] + [model.dual(e) for e in common] + eb[place_b:], 11, scalar)
    t, u = to_tensor(a, scalar), to_tensor(b, scalar)
    p = list(zip(ca, cb))
    want = model.contract(a, b, p)
    q = t.contract(u, set(p)) if use == 0 else t.contract_all_edge(u) if use == 1 else t.contract(contract_names={(TAT.Name(x), TAT.Name(y)) for x, y in p}, another_tensor=u)
    order = [str(n) for n in q.name]
    check(sorted(order) == sorted(want.names), "contraction: other edges")
    same(q, model.transpose(want, order), "contraction", scalar, 100)
    same(t, a, "operand of a contraction", scalar)
    same(u, b, "second operand of a contraction", scalar)
    c = t.conjugate()
    same(c, model.conjugate(a), "conjugate", scalar)
    if not IS_FERMI or len(a.names) < 2:
        n = t.contract_all_edge()
        norm = model.contract(a, model.conjugate(a), [(x, x) for x in a.names])
        same(n, norm, "contraction with the conjugate", scalar, 100)
    mc.state((SYM, scalar, repr(ea), repr(eb), repr(common), use))


def matrix_of(r, left, right):
    """A bosonic tensor as a matrix, rows and columns in the order of coordinates of the rows."""
    t = model.transpose(r, left + right)
    n = len(left)
    rows = sorted({k[:n] for k in t.data} | {tuple((neg(c), i) for c, i in k[n:]) for k in t.data})
    m = np.zeros((len(rows), len(rows)), dtype=complex)
    at = {k: i for i, k in enumerate(rows)}
    for k, v in t.data.items():
        m[at[k[:n]], at[tuple((neg(c), i) for c, i in k[n:])]] = v
    return rows, m


def matrices():
    if IS_FERMI:
        count = 1
    else:
        count = 1 + choose(2, "pairs")
    row = some_edges(count, None if count == 1 else 1)
    order = some_order(["B", "b"] if count == 1 else ["B", "b", "A", "a"])
    scalar = some_scalar("DZ")
    free = count == 1 and flip("another edge")
    swapped = flip("pair written the other way")
    mc.commit()
    rows, columns = ["B", "A"][:count], ["b", "a"][:count]
    edges = {n: e for n, e in zip(rows, row)}
    edges.update({n: model.dual(e) for n, e in zip(columns, row)})
    base = Ref.make(order, [edges[n] for n in order], 12, scalar)
    t = to_tensor(base, scalar)
    pairs = {(c, r_) if swapped else (r_, c) for r_, c in zip(rows, columns)}
    same(t.trace(pairs), model.trace(base, list(pairs)), "trace", scalar, 100)
    if free:
        e = (False, {ZERO: 2})
        r = Ref.make(["Q"] + order, [e] + [edges[n] for n in order], 13, scalar)
        same(to_tensor(r, scalar).trace(pairs), model.trace(r, list(pairs)), "trace with an edge left", scalar, 100)
    if IS_FERMI:
        return
    one = t.identity(pairs)
    want = base.copy()
    for k in want.data:
        at = dict(zip(order, k))
        want.data[k] = float(all(at[c] == (neg(at[r_][0]), at[r_][1]) for r_, c in zip(rows, columns)))
    same(one, want, "identity", scalar)
    same(t, base, "operand of identity", scalar)
    small = t * 0.25
    keys, m = matrix_of(base.map(lambda v: v * 0.25), rows, columns)
    e = np.eye(len(m), dtype=complex)
    term = e.copy()
    for i in range(1, 40):
        term = term @ m / i
        e = e + term
    for got in (small.exponential(pairs, 12), small.exponential(pairs=pairs, step=12)):
        exact = base.copy()
        for k in exact.data:
            at = dict(zip(order, k))
            exact.data[k] = e[keys.index(tuple(at[n] for n in rows)), keys.index(tuple((neg(at[n][0]), at[n][1]) for n in columns))]
        order_got = [str(n) for n in got.name]
        check(sorted(order_got) == sorted(order), "exponential: other edges")
        same(got, model.transpose(exact, order_got), "exponential", scalar, 1e7)
    mc.state((SYM, scalar, repr(row), order, swapped))


def decompositions():
    rank = 2 + choose(2, "rank")
    names, edges = some_tensor(rank, 14, 3 if rank == 2 else 2, rank == 2)
    left = {n for n in names if flip("left")}
    scalar = some_scalar("SDCZ" if rank == 2 else "DZ")
    what = choose(4, "decomposition")  # svd, svd with a cut, qr keeping left in Q, qr keeping it in R
    mc.commit()
    if not left or len(left) == rank:
        mc.skip()
    r = Ref.make(names, edges, 14, scalar)
    if not r.data:
        mc.skip()
    t = to_tensor(r, scalar)
    full = lambda q: [str(n) for n in q.name]
    if what < 2:
        cut = 1
        form = len(r.data) % 2
        if what == 0:
            u, s, v = t.svd(left, "U", "V") if form else t.svd(common_name_v="V", free_name_set_u=left, common_name_u="U")
        else:
            u, s, v = t.svd(left, "U", "V", cut) if form else t.svd(cut=cut, common_name_v="V", free_name_set_u=left, common_name_u="U")
        check(sorted(full(u)) == sorted(left | {"U"}), "svd: edges of the first factor")
        check(sorted(full(v)) == sorted((set(names) - left) | {"V"}), "svd: edges of the second factor")
        uu, vv = u.edge_rename({}), v.edge_rename({})
        if what == 1:
            # the largest value: the norm of what is left
            check(abs(u.norm_2() - 1) < 1e-4 and abs(v.norm_2() - 1) < 1e-4, "svd: factors are not normalized")
            largest = abs(s.norm_max())
            f, g, h = t.svd(left, "U", "V")
            check(abs(g.norm_max() - largest) < 1e-4 * (1 + largest), "svd with a cut: another largest value")
            check(s.norm_num() == 1, "svd with a cut: number of values")
        check(abs(s.norm_2() - r_norm(r)) < 1e-4 if what == 0 else s.norm_2() <= r_norm(r) + 1e-4, "svd: norm of the singular values")
        for q in (u.multiple(s, "U", "u").contract(v, {("U", "V")}), u.contract(v.multiple(s, "V", "v", False), {("U", "V")}), u.multiple(s, "U", "u").multiple(s, "U", "u", True).multiple(direction="u", name="U", singular=s, division=False).contract(v, {("U", "V")})):
            if what == 0:
                same(q.transpose(names), r, "product of the factors", scalar, 1000 if scalar in "DZ" else 10)
            else:
                check(abs((q.transpose(names) - t).norm_2()**2 + largest**2 - r_norm(r)**2) < 1e-4, "svd with a cut is not the best approximation")
    else:
        d = "q" if what == 2 else "r"
        q, f = t.qr(d, left, "U", "V") if len(r.data) % 2 else t.qr(free_name_direction=d, common_name_r="V", common_name_q="U", free_name_set=left)
        of_q = left if what == 2 else set(names) - left
        check(sorted(full(q)) == sorted(of_q | {"U"}), "qr: edges of Q")
        check(sorted(full(f)) == sorted((set(names) - of_q) | {"V"}), "qr: edges of R")
        same(q.contract(f, {("U", "V")}).transpose(names), r, "product of the factors", scalar, 1000 if scalar in "DZ" else 10)
        check(abs(q.norm_2()**2 - sum(e[1] for e in [(0, sum(model.read_edge(q.edge[full(q).index("U")])[1].values()))])) < 1e-4, "qr: Q is not an isometry")
    same(t, r, "operand of a decomposition", scalar)
    mc.state((SYM, scalar, repr(edges), left, what))


def r_norm(r):
    return math.sqrt(sum(abs(v)**2 for v in r.data.values()))


def shrink_expand():
    rank = 1 + choose(2, "rank")
    names, edges = some_tensor(rank, 15, None if rank == 1 else 2)
    grow = flip("expand")
    if not grow:
        places = []
        for i in range(rank):
            options = [None] + [(c, k) for c, d in edges[i][1].items() for k in range(d)]
            places.append(options[choose(len(options), "position")])
        mode = choose(3 if IS_FERMI else 2, "new edge")
        form = choose(2, "form")
        mc.commit()
        r = Ref.make(names, edges, 15)
        t = to_tensor(r)
        chosen = [n for n, p in zip(names, places) if p]
        if IS_FERMI and len(chosen) > 1:
            mc.skip()
        for n, p in zip(names, places):
            if p and p[0] not in r.edges[r.at(n)][1]:
                mc.skip()
        at = dict(zip(names, places))
        charge = total([at[n][0] for n in chosen])
        configure = {n: point(*at[n], form) for n in chosen}
        if mode == 0 and charge != ZERO:
            check(refused(lambda: t.shrink(configure)), "a slice of non-zero charge without an edge for it is not refused")
            same(t, r, "operand of shrink")
            return
        helper = Ref.zeros(chosen + (["N"] if mode else []), [(IS_FERMI and not r.edges[r.at(n)][0], {neg(at[n][0]): r.edges[r.at(n)][1][at[n][0]]}) for n in chosen] + ([(mode == 2, {charge: 1})] if mode else []))
        helper.data[tuple((neg(at[n][0]), at[n][1]) for n in chosen) + (((charge, 0),) if mode else ())] = 1.0
        want = model.contract(helper, r, [(n, n) for n in chosen])
        got = t.shrink(configure) if not mode else t.shrink(configure, "N", mode == 2) if form else t.shrink(arrow=mode == 2, new_name="N", configure=configure)
        same(got, want, "shrink")
        same(t, r, "operand of shrink")
        mc.state((SYM, repr(edges), repr(places), mode))
    else:
        pool = [ZERO] if IS_NO else [ZERO, sorted(model.shapes()[0])[-1], neg(sorted(model.shapes()[0])[-1])]
        extra = 1 + choose(2 if rank == 1 or mc.thorough() else 1, "new edges")
        plan = {}
        for n in ["N2", "N1"][:extra]:
            c, d = pick(pool, "charge"), 1 + choose(2, "dimension")
            plan[n] = (IS_FERMI and flip("arrow"), c, choose(d, "index"), d)
        old = flip("replaces an edge")
        form = choose(2, "form")
        mc.commit()
        charge = total([p[1] for p in plan.values()])
        use_names, use_edges = names, edges
        if old:
            use_names, use_edges = names + ["O"], edges + [(False, {charge: 1})]
        r = Ref.make(use_names, use_edges, 16)
        if not r.data:
            mc.skip()
        t = to_tensor(r)
        configure = {}
        for n, (arrow, c, i, d) in plan.items():
            s = plain(c) if form == 0 and not IS_NO else symmetry(c)
            configure[n] = (i, d) if IS_NO else (arrow, s, i, d) if IS_FERMI else (s, i, d)
        if not old and charge != ZERO:
            check(refused(lambda: t.expand(configure)), "new edges of non-zero charge are not refused")
            same(t, r, "operand of expand")
            return
        got = t.expand(configure) if not old else t.expand(configure, "O") if form else t.expand(old_name="O", configure=configure)
        order = [str(n) for n in got.name]
        check(sorted(order) == sorted(list(plan) + names), "expand: other edges")
        news = [n for n in order if n in plan]
        helper = Ref.zeros(news + (["O"] if old else []), [(plan[n][0], {plan[n][1]: plan[n][3]}) for n in news] + ([(IS_FERMI, {neg(charge): 1})] if old else []))
        helper.data[tuple((plan[n][1], plan[n][2]) for n in news) + (((neg(charge), 0),) if old else ())] = 1.0
        want = model.contract(helper, r, [("O", "O")] if old else [])
        same(got, model.transpose(want, order), "expand")
        same(t, r, "operand of expand")
        mc.state((SYM, repr(edges), repr(plan), old))


# ---- saving ----------------------------------------------------------------------------------------------------------
def saving():
    rank = choose(4, "rank")
    names, edges = some_tensor(rank, 17, None if rank < 2 else 2 if rank < 3 else 1)
    scalar = some_scalar()
    how = choose(7, "way")
    mc.commit()
    r = Ref.make(names, edges, 17, scalar)
    t = to_tensor(r, scalar)
    if how == 0:
        q, factor = SCALARS[scalar](str(t)), 1e7 if scalar in "DZ" else 1
    else:
        factor = 1
    if how == 1:
        q = pickle.loads(pickle.dumps(t))
    elif how == 2:
        q = copy.copy(t)
    elif how == 3:
        q = copy.deepcopy([t, t])[1]
    elif how == 4:
        u = SCALARS[scalar]()
        q = u.load(t.dump())
        check(q is u, "load returns another object")
    elif how == 5:  # over a tensor that shares its storage
        v = to_tensor(Ref.make(["Z"], [(False, {ZERO: 3})], 18, scalar), scalar)
        w = v.edge_rename({"Z": "W"})
        q = v.load(t.dump())
        check(q is v, "load returns another object")
        same(w, Ref.make(["W"], [(False, {ZERO: 3})], 18, scalar), "tensor sharing storage with the one loaded into", scalar)
    elif how == 6:
        data = t.dump()
        check(isinstance(data, bytes), "a dump is not made of bytes")
        repr(t), str(t)
        q = pickle.loads(pickle.dumps({"a": [t]}))["a"][0]
        if r.data:
            check(refused(lambda: SCALARS[scalar]().load(data[:-1])), "an incomplete dump is not refused")
    same(q, r, "tensor read back", scalar, factor)
    q.zero()
    same(t, r, "tensor that was saved", scalar)
    mc.state((SYM, scalar, repr(edges), how))


# ---- small objects ---------------------------------------------------------------------------------------------------
def names_and_charges():
    what = choose(2, "kind")
    if what == 0:
        texts = ["A", "B", "ab", "Left0", "x"]
        a, b = pick(texts, "first"), pick(texts, "second")
        mc.commit()
        x, y = TAT.Name(a), TAT.Name(b)
        check(str(x) == a and x.name == a and repr(x) == f"Name[{a}]", "a name has another text")
        check((x == y) == (a == b) and (x != y) == (a != b), "equality of names")
        check(a != b or hash(x) == hash(y), "equal names have different hashes")
        check((x < y) + (x > y) + (x == y) == 1, "order of names")
        check((x <= y) == (not x > y) and (x >= y) == (not x < y), "order of names")
        check(TAT.Name(x.id) == x and str(TAT.Name(x.id)) == a, "a name of the same number is another name")
        check(len({x, y}) == (1 if a == b else 2), "set of names")
        mc.state((a, b))
    else:
        pool = sorted(set(itertools.chain(*[m for m in model.shapes()], *[[neg(c) for c in m] for m in model.shapes()]))) + ([] if IS_NO else [add(model.shapes()[2].__iter__().__next__(), max(model.shapes()[0]))])
        a, b = pick(pool, "first"), pick(pool, "second")
        mc.commit()
        x, y = symmetry(a), symmetry(b)
        check(charge_of(x) == a, "a charge has another value")
        check(charge_of(x + y) == add(a, b), "sum of charges")
        check(charge_of(-x) == neg(a), "negative charge")
        z = symmetry(a)
        z += y
        check(charge_of(z) == add(a, b) and charge_of(x) == a, "sum of charges in place")
        check((x == y) == (a == b) and (x != y) == (a != b) and (x < y) == (a < b) and (x > y) == (a > b) and (x <= y) == (a <= b) and (x >= y) == (a >= b), "order of charges")
        check(a != b or hash(x) == hash(y), "equal charges have different hashes")
        text = "" if IS_NO else str(a[0]) if len(a) == 1 else "(" + ",".join(map(str, a)) + ")"
        check(repr(x) == f"{SYM}Symmetry[{str(x)}]", "text of a charge")
        if not IS_NO:
            check(str(x) == text, f"text of a charge is {str(x)}")
            e = model.EdgeType({x: 2})
            check({charge_of(s): d for s, d in e.map.items()} == {a: 2}, "an edge has another charge")
            if len(a) > 1:
                check(model.Symmetry(plain(a)) == x, "a charge made of a tuple")
        mc.state((SYM, a, b))


WORDS = {"scalar": ["float", "float32", "float64", "complex", "complex32", "complex64"], "symmetry": ["", "No", "U1", "Z2"], "fermi": ["", "Fermi", "Bose"]}


def hub():
    s, y, f = pick(WORDS["scalar"], "scalar"), pick(WORDS["symmetry"], "symmetry"), pick(WORDS["fermi"], "fermi")
    form = choose(4, "form")
    mc.commit()
    letter = {"float": "D", "float64": "D", "float32": "S", "complex": "Z", "complex64": "Z", "complex32": "C"}[s]
    name = ("Fermi" if f == "Fermi" else "") + ("" if f == "Fermi" and y in ("", "No") else y or "No")
    if name == "":
        name = "No"
    words = [w for w in (s, f, y) if w]
    if form == 0:
        call = lambda: TAT(*words)
    elif form == 1:
        call = lambda: TAT(*reversed(words))
    elif form == 2:
        call = lambda: TAT("".join(words))
    else:
        call = lambda: TAT(scalar=s, symmetry=f + y)
    if name == SYM:
        check(call() is SCALARS[letter], f"the type for {words} is another")
    else:
        check(refused(call) or call() is not SCALARS[letter], f"the type for {words} is another")
    if s == "float":
        check(TAT("mpi") is TAT.mpi and TAT.mpi.rank == 0 and TAT.mpi.size == 1, "the MPI object")
        for bad in (("U1", "Z2", "float"), ("Fermi", "Bose", "float"), ("float", "complex"), ("U1",), ("No", "U1", "float")):
            check(refused(lambda: TAT(*bad)), f"the ambiguous request {bad} is not refused")
    mc.state((s, y, f, form))


def random_numbers():
    rank = choose(3, "rank")
    names, edges = some_tensor(rank, 19, 2)
    scalar = some_scalar()
    use = choose(6, "function")
    seed = pick([0, 1, 12345], "seed")
    mc.commit()
    t = to_tensor(Ref.make(names, edges, 19, scalar), scalar)
    T = SCALARS[scalar]
    z = scalar in "CZ"
    lo, hi = (2, 3) if not z else (2 - 4j, 3 - 3j)

    def draw(u):
        TAT.random.seed(seed)
        if use == 0: return u.rand(lo, hi)
        if use == 1: return u.rand(max=hi, min=lo)
        if use == 2: return u.rand()
        if use == 3: return u.randn()
        if use == 4: return u.randn(5, 0 if not z else 0j)
        if use == 5: return u.randn(stddev=hi, mean=lo)

    q = draw(t)
    check(q is t, "filling with random numbers gives another object")
    u = t.copy().zero()
    draw(u)
    check((t - u).norm_max() == 0, "the same seed gives other numbers")
    values = []
    t.map(lambda x: (values.append(complex(x)), x)[1])
    box = {0: (lo, hi), 1: (lo, hi), 2: (0, 1 + 1j if z else 1), 4: (5, 5)}.get(use)
    if box:
        a, b = complex(box[0]), complex(box[1])
        for v in values:
            check(a.real <= v.real <= b.real + 1e-6 and (not z or a.imag <= v.imag <= b.imag + 1e-6), f"random number {v} outside of its range")
    if len(values) > 1 and use != 4:
        check(len(set(values)) > 1, "random numbers are all equal")
    if rank == 0:
        TAT.random.seed(seed)
        first = [TAT.random.uniform_int(3, 5) for _ in range(20)] + [TAT.random.uniform_real(2, 3) for _ in range(20)] + [TAT.random.normal(0, 1) for _ in range(20)]
        TAT.random.seed(seed)
        second = [TAT.random.uniform_int(min=3, max=5) for _ in range(20)] + [TAT.random.uniform_real(min=2, max=3) for _ in range(20)] + [TAT.random.normal(mean=0, stddev=1) for _ in range(20)]
        check(first == second, "the same seed gives other numbers")
        check(set(first[:20]) == {3, 4, 5} and all(isinstance(x, int) for x in first[:20]), "random integers")
        check(all(2 <= x < 3 for x in first[20:40]) and len(set(first[20:40])) == 20, "random reals")
        check({TAT.random.uniform_int() for _ in range(40)} == {0, 1}, "random integers by default")
        check(all(0 <= TAT.random.uniform_real() < 1 for _ in range(20)), "random reals by default")
        check(abs(TAT.random.normal(7, 0) - 7) < 1e-12, "normal numbers without deviation")
    mc.state((SYM, scalar, repr(edges), use, seed))


PARTS = [construct, numbers, one_element, elements, blocks, arithmetic, pointwise, rename_and_transpose, reverse, merge, edge_operator, contraction, matrices, decompositions,
         shrink_expand, saving, names_and_charges, hub, random_numbers]


def body():
    part = PARTS[choose(len(PARTS), "part")]
    mc.note(part.__name__)
    part()
    mc.step()


mc.main(body)
