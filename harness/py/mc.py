"""The explorer of harness/mc.hpp for drivers in python: every decision goes through choose(), the driver runs once per leaf."""
import faulthandler, json, mmap, os, resource, signal, struct, sys, time, traceback


class Skip(Exception):
    pass


class Failure(Exception):
    pass


class State:
    pass


G = State()
G.prefix, G.trace, G.arity, G.labels, G.notes = [], [], [], [], []
G.replaying = G.committed = G.thorough = G.capped = False
G.shard, G.shards, G.budget, G.alarm = 0, 1, 1e18, 60
G.executions = G.transitions = G.comparisons = G.skipped = 0
G.listed, G.known, G.states, G.shared = set(), {}, set(), None
MASK = (1 << 64) - 1


def choose(n, label=""):
    if n <= 0:
        print(f"driver error: choose({n}) at {label}", file=sys.stderr)
        os._exit(97)
    position = len(G.trace)
    c = 0
    if position < len(G.prefix):
        c = G.prefix[position]
        if c >= n:
            print(f"driver error: divergence while replaying ({label}: {c} of {n})", file=sys.stderr)
            os._exit(97)
    G.trace.append(c)
    G.arity.append(n)
    if G.replaying:
        G.labels.append(label)
    if G.shared is not None and position < 4000:
        struct.pack_into("i", G.shared, 4 + 4 * position, c)
        struct.pack_into("i", G.shared, 0, position + 1)
    return c


def pick(values, label=""):
    return values[choose(len(values), label)]


def flip(label=""):
    return choose(2, label) == 1


def thorough():
    return G.thorough


def commit():
    if G.committed:
        return
    G.committed = True
    h = 1469598103934665603
    for c in G.trace:
        h = ((h ^ (c + 1)) * 1099511628211) & MASK
        h ^= h >> 29
    if not G.replaying and ((h * 0x9E3779B97F4A7C15 & MASK) >> 20) % G.shards != G.shard:
        raise Skip()
    if not G.replaying:
        signal.alarm(G.alarm)


def skip():
    raise Skip()


def fail(message):
    raise Failure(message)


def check(ok, message):
    G.comparisons += 1
    if not ok:
        raise Failure(message() if callable(message) else message)


def known(id, message):
    if id not in G.listed:
        raise Failure(message)
    G.known[id] = G.known.get(id, 0) + 1


def note(text):
    if G.replaying:
        G.notes.append(str(text))


def step(n=1):
    G.transitions += n


def state(x):
    h = 1469598103934665603
    for b in repr(x).encode():
        h = ((h ^ b) * 1099511628211) & MASK
    G.states.add(h)


def run_once(body):
    G.trace, G.arity, G.labels, G.notes, G.committed = [], [], [], [], False
    try:
        body()
        G.executions += 1
    except Skip:
        G.skipped += 1
    except Failure as e:
        return str(e) or "failed"
    except Exception as e:
        where = traceback.extract_tb(e.__traceback__)[-1]
        return f"unexpected exception: {type(e).__name__}: {e} ({os.path.basename(where.filename)}:{where.lineno})"
    return ""


def main(body):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = replay = shm = states = None
    within = 0
    args = sys.argv[1:]
    i = 0
    while i < len(args):
        a = args[i]
        if a == "--thorough":
            G.thorough = True
        else:
            i += 1
            v = args[i]
            if a == "--shard": G.shard = int(v)
            elif a == "--shards": G.shards = int(v)
            elif a == "--out": out = v
            elif a == "--states": states = v
            elif a == "--shm": shm = v
            elif a == "--budget": G.budget = float(v)
            elif a == "--alarm": G.alarm = int(v)
            elif a == "--known": G.listed = set(v.split(","))
            elif a == "--replay": replay = v
            elif a == "--within":
                G.prefix = [int(x) for x in v.split(",")]
                within = len(G.prefix)
        i += 1
    # what the code under test prints is not part of the report
    report = os.fdopen(os.dup(1), "w")
    sink = os.open(os.devnull, os.O_WRONLY)
    os.dup2(sink, 1)
    if replay is None:
        os.dup2(sink, 2)
    if replay is not None:
        G.replaying = True
        G.prefix = [int(x) for x in replay.split(",") if x]
        message = run_once(body)
        print(json.dumps({"failed": bool(message), "message": message,
                          "choices": [{"at": l, "choice": c, "of": n} for l, c, n in zip(G.labels, G.trace, G.arity)],
                          "notes": G.notes}), file=report, flush=True)
        os._exit(10 if message else 0)
    if shm:
        fd = os.open(shm, os.O_RDWR | os.O_CREAT, 0o600)
        os.ftruncate(fd, 4 + 4 * 4000 + 16)
        G.shared = mmap.mmap(fd, 4 + 4 * 4000 + 16)
    start = time.monotonic()
    failure = failing = sample = ""
    last = 0
    while True:
        message = run_once(body)
        if message:
            failure, failing = message, ",".join(map(str, G.trace))
            break
        if G.committed and G.executions & (G.executions - 1) == 0 and G.executions != last:
            last = G.executions
            sample = ",".join(map(str, G.trace))
        if G.committed:
            G.transitions += len(G.trace)
        i = len(G.trace) - 1
        while i >= 0 and G.trace[i] + 1 >= G.arity[i]:
            i -= 1
        if i < within:
            break
        G.prefix = G.trace[:i + 1]
        G.prefix[-1] += 1
        if time.monotonic() - start > G.budget:
            G.capped = True
            break
    signal.alarm(0)
    result = {"executions": G.executions, "transitions": G.transitions, "comparisons": G.comparisons, "states": len(G.states), "outcomes": 0,
              "capped": G.capped, "known": G.known, "seconds": round(time.monotonic() - start, 2), "failure": failure, "trace": failing, "sample": sample}
    if out:
        json.dump(result, open(out, "w"))
    else:
        print(json.dumps(result), file=report, flush=True)
    if states:
        with open(states, "wb") as f:
            for h in G.states:
                f.write(struct.pack("Q", h))
    os._exit(10 if failure else 0)
