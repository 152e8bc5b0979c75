"""C05: neighbor queries return the nearest other training points."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import gens, ref
from harness.core import check, close, register, same_shape


@st.composite
def cases(draw, methods=("exact",), n_max=60, d_max=6, dups=True,
          nn_max=9, b_max=10, n_min=1):
    nn = draw(st.integers(1, nn_max))
    n = draw(st.integers(max(n_min, nn + 1), n_max))
    d = draw(st.integers(1, d_max))
    kinds = gens.FEATURE_KINDS if dups else ["normal", "uniform", "scaled"]
    method = draw(st.sampled_from(methods))
    c = {"n": n, "nn": nn, "d": d, "t": draw(st.integers(1, b_max)),
         "x": draw(st.sampled_from(kinds)), "seed": draw(gens.SEEDS),
         "method": method, "b": draw(st.integers(1, b_max)),
         "overlap": draw(st.booleans()), "one_d": draw(st.booleans())}
    if method == "exact":
        c["kw"] = draw(st.sampled_from([
            {}, {"algorithm": "ball_tree"}, {"algorithm": "kd_tree"},
            {"algorithm": "brute"}, {"algorithm": "kd_tree", "leaf_size": 2},
            {"p": 1}, {"p": 3, "algorithm": "ball_tree"}, {"n_jobs": 1}]))
    else:
        c["kw"] = draw(st.sampled_from([{}, {"ef_construction": 50},
                                        {"M": 8, "random_seed": 3}]))
        c["name"] = draw(st.sampled_from(["hnsw", "HNSW"]))
    return c


def setup(c):
    X = gens.features(c["x"], c["n"] + c["t"], c["d"], c["seed"])
    rng = np.random.default_rng([c["seed"], 5])
    X = X[rng.permutation(len(X))]
    train, test = X[:c["n"]], X[c["n"]:].copy()
    if c["overlap"]:  # queries that are training points
        test[::2] = train[rng.integers(0, c["n"], len(test[::2]))]
    batch = rng.permutation(c["n"])[:min(c["b"], c["n"])]
    return train, test, batch


def dists(c, train, x):
    """What the wrapper should report from x to every training row."""
    p = c["kw"].get("p", 2)
    d = np.abs(train - x[None, :])
    return (d ** 2).sum(axis=1) if p == 2 else (d ** p).sum(axis=1) ** (1 / p)


def verify(c, what, train, x, idx, dst, exclude, exact):
    n = len(train)
    check(np.all((idx >= 0) & (idx < n)), "%s: index out of range %s", what,
          idx)
    check(len(set(idx.tolist())) == len(idx), "%s: repeated neighbors %s",
          what, idx)
    if exclude is not None:
        check(exclude not in idx, "%s: training point %s is its own neighbor",
              what, exclude)
    all_d = dists(c, train, x)
    big = max(1e-12, np.abs(train).max() ** 2, all_d.max())
    eps = 1e-9 if exact and not M.f32() else 2e-5
    close(what + ": distances of the returned indices", dst, all_d[idx], eps,
          eps * big)
    check(np.all(np.diff(dst) >= -eps * big), "%s: not sorted by distance %s",
          what, dst)
    if exact:
        pool = all_d if exclude is None else np.delete(all_d, exclude)
        close(what + ": the nearest distances", np.sort(all_d[idx]),
              np.sort(pool)[:len(idx)], eps, eps * big)


def run(c):
    train, test, batch = setup(c)
    flat = c["d"] == 1 and c["one_d"] and M.backend() == "numpy"
    f = (lambda Z: Z[:, 0]) if flat else (lambda Z: Z)
    exact = c["method"] == "exact"
    kw = dict(c["kw"])
    if not exact:
        kw["nn_method"] = c["name"]
    nbrs = M.NN_Wrapper(M.A(f(train)), c["nn"], **kw)
    idx, dst = nbrs.get_nns(M.A(f(test)))
    same_shape("test neighbors", idx, (c["t"], c["nn"]))
    same_shape("test distances", dst, (c["t"], c["nn"]))
    idx, dst = np.asarray(idx), M.N(dst)
    check(np.issubdtype(idx.dtype, np.integer), "indices are %s", idx.dtype)
    for i in range(c["t"]):
        verify(c, "test query", train, test[i], idx[i], dst[i], None, exact)
    idx, dst = nbrs.get_batch_nns(M.AI(batch))
    same_shape("batch neighbors", idx, (len(batch), c["nn"]))
    same_shape("batch distances", dst, (len(batch), c["nn"]))
    idx, dst = np.asarray(idx), M.N(dst)
    for i, j in enumerate(batch):
        verify(c, "batch query", train, train[j], idx[i], dst[i], j, exact)
    # queries do not depend on the rest of the batch
    k = int(batch[-1])
    _, one = nbrs.get_batch_nns(M.AI([k]))
    big = max(1e-12, np.abs(train).max() ** 2, dst.max())
    if exact:
        close("single query", M.N(one)[0], dst[-1], 1e-6, 1e-6 * big)
    out = [c["x"], c["method"]] + sorted(c["kw"])
    if c["n"] > c["nn"] + 1:
        out.append("nt")
    if c["n"] == c["nn"] + 1:
        out.append("all-others")
    return out


@st.composite
def history_cases(draw):
    c = draw(cases(methods=("exact", "exact", "hnsw"), n_max=40, b_max=6))
    if c["method"] == "hnsw":
        c["x"] = "normal"
    c["ops"] = draw(st.lists(st.tuples(
        st.sampled_from(["test", "batch", "shift", "scale", "rows", "reverse",
                         "scribble", "copy", "other"]), gens.SEEDS),
        min_size=2, max_size=9))
    return c


def run_history(c):
    """Queries see the arrays they are given now, whatever happened before."""
    train, test, batch = setup(c)
    exact = c["method"] == "exact"
    kw = dict(c["kw"], **({} if exact else {"nn_method": c["name"]}))
    nbrs = M.NN_Wrapper(M.A(train), c["nn"], **kw)
    test, batch = M.A(test).astype(float, copy=False), M.AI(batch)
    for mine in (test, batch):  # some layouts are read-only
        mine.setflags(write=True)
    changed = last = None
    out = [c["method"]]
    for op, seed in list(c["ops"]) + [("test", 0), ("batch", 0)]:
        rng = np.random.default_rng(seed)
        if op == "shift":
            test += rng.normal(size=c["d"])
        elif op == "scale":
            test *= rng.uniform(-2, 2)
        elif op == "rows":  # some queries become training points
            test[rng.integers(0, len(test))] = train[rng.integers(0, c["n"])]
            batch[rng.integers(0, len(batch))] = rng.integers(0, c["n"])
        elif op == "reverse":
            test[:] = test[::-1].copy()
            batch[:] = batch[::-1].copy()
        elif op == "copy":
            test, batch = test.copy(), batch.copy()
        elif op == "other":  # another wrapper, of other data
            M.NN_Wrapper(M.A(train[::-1] + 1.0), c["nn"], **kw).get_nns(test)
        elif op == "scribble":  # answers belong to the caller
            if last is not None:
                last[0][...], last[1][...] = 0, -1.0
        else:
            if op == "test":
                rows = last = nbrs.get_nns(test)
                points, skip = M.N(test).copy(), [None] * len(test)
            else:
                rows = last = nbrs.get_batch_nns(batch)
                points, skip = train[batch], list(batch)
            same_shape(op + " neighbors", rows[0], (len(points), c["nn"]))
            for i in range(len(points)):
                verify(c, op + " query", train, points[i],
                       np.asarray(rows[0])[i], M.N(rows[1])[i], skip[i],
                       exact)
            if changed and c["n"] > c["nn"] + 1:
                out.append("nt")
            continue
        changed = True
    return out + [op for op, _ in c["ops"]]


register("C05", "history", history_cases(), "sequences of test and batch "
         "queries to one wrapper, between which the query arrays and earlier "
         "answers are modified in place; non-trivial = a query after a "
         "modification", 800, shards=2, weight=2)(run_history)
register("C05", "exact", cases(), "random training sets (ties, duplicates, "
         "1-D, nn_count up to everything else), test and batch queries; "
         "non-trivial = more candidates than neighbors", 2500, shards=4,
         weight=2)(run)
register("C05", "exact_large", cases(n_max=700, d_max=20, nn_max=60,
                                     b_max=120), "the same with up to 700 "
         "training points, 120 queries, 60 neighbors and 20 features", 200,
         shards=2, weight=10)(run)
register("C05", "exact_huge", cases(n_max=6000, d_max=8, nn_max=30,
                                    b_max=3000, n_min=800), "the same with up "
         "to 6000 training points and 3000 queries", 40, shards=2,
         weight=40)(run)
register("C05", "hnsw", cases(methods=("hnsw",), dups=False), "validity of "
         "approximate neighbors (self excluded, distinct, sorted, true squared"
         " distances); non-trivial as above", 1000)(run)
