"""What every rank computes for a C16 case; plain arrays are returned."""

import numpy as np

from harness import api as M
from harness import build, gens
from harness.checks import c07, c08
from harness.core import close


def ping(c):
    return {}


def plain(**kw):
    return {k: None if v is None else np.array(v, dtype=float)
            for k, v in kw.items()}


def test_points(c):
    return gens.distinct_features(c["x"], c["b"], c["d"], c["seed"] + 17)


def tensors(m, c, X, Y, batch, nn, Xte):
    if Xte is not None:
        cross, pair, bnnt = m.make_predict_tensors(
            M.AI(np.arange(len(nn))), M.AI(nn), M.A(Xte), M.A(X), M.A(Y))
        return cross, pair, None, bnnt
    return m.make_train_tensors(M.AI(batch), M.AI(nn), M.A(X), M.A(Y))


def named_tensors(m, c, X, Y, batch, nn, Xte):
    """The same through keyword arguments."""
    if Xte is None:
        cross, pair, bt, bnnt = m.make_train_tensors(
            batch_indices=M.AI(batch), batch_nn_indices=M.AI(nn),
            train_features=M.A(X), train_targets=M.A(Y))
        return cross, pair, bt, bnnt
    cross, pair, bnnt = m.make_predict_tensors(
        train_features=M.A(X), train_targets=M.A(Y), test_features=M.A(Xte),
        batch_indices=M.AI(np.arange(len(nn))), batch_nn_indices=M.AI(nn))
    dfm = m.kernel.deformation
    again = dfm.crosswise_tensor(
        M.A(Xte), nn_data=M.A(X), data_indices=M.AI(np.arange(len(nn))),
        nn_indices=M.AI(nn))
    close("crosswise tensor by keywords", M.N(again), M.N(cross), 0, 0)
    again = dfm.pairwise_tensor(data=M.A(X), nn_indices=M.AI(nn))
    close("pairwise tensor by keywords", M.N(again), M.N(pair), 0, 0)
    return cross, pair, None, bnnt


def predict(c):
    X, Y, batch, nn, diag = c08.data(c)
    Xte = test_points(c) if c["predict"] else None
    m = c08.model_of(c, None)
    if c.get("named"):
        cross, pair, bt, bnnt = named_tensors(m, c, X, Y, batch, nn, Xte)
    else:
        cross, pair, bt, bnnt = tensors(m, c, X, Y, batch, nn, Xte)
    Kin, Kc = m.kernel(pair), m.kernel(cross)
    out = plain(cross=cross, pair=pair, bt=bt, bnnt=bnnt, Kin=Kin, Kc=Kc,
                mean=m.posterior_mean(Kin, Kc, bnnt),
                var=m.posterior_variance(Kin, Kc))
    idx = M.AI(np.arange(len(nn))) if c["predict"] else M.AI(batch)
    feats = M.A(Xte if c["predict"] else X)
    if c["predict"]:
        out.update(plain(
            imean=M.posterior_mean_from_indices(
                m, idx, M.AI(nn), feats, M.A(X), M.A(Y)),
            ivar=M.posterior_variance_from_indices(
                m, idx, M.AI(nn), feats, M.A(X), M.A(Y))))
        rmean, rvar = M.regress_from_indices(
            m, idx, M.AI(nn), feats, M.A(X), M.A(Y))
        out.update(plain(rmean=rmean, rvar=rvar))
    if c["r"] == 0 and c["scale_fn"] == "analytic":
        m.optimize_scale(pair, bnnt)
        out.update(plain(scale=m.scale(),
                         var_after=m.posterior_variance(Kin, Kc)))
    return out


def downsample(c):
    X, Y, batch, nn, diag = c08.data(c)
    m = build.model(dict(c, scale={
        "kind": "down", "down_count": c["down"],
        "iteration_count": c["iters"], "val": c["scale"]}), None)
    np.random.seed(c["seed"] + _rank())
    cross, pair, bt, bnnt = tensors(m, c, X, Y, batch, nn, None)
    m.optimize_scale(pair, bnnt)
    var = m.posterior_variance(m.kernel(pair), m.kernel(cross))
    return plain(scale=m.scale(), var=var)


def objective(c):
    X, Y, batch, nn, diag = c08.data(c)
    m = c08.model_of(c, None)
    cross, pair, bt, bnnt = tensors(m, c, X, Y, batch, nn, None)
    obj = c08.objective(c, m, cross, pair, bt, bnnt)
    return {"values": [float(M.N(obj(**p))) for p in c["at"]]}


def optimize(c):
    X, Y, batch, nn, diag = c08.data(c)
    m = c08.model_of(c, None)
    opt = M.Bayes_optimize if c["opt"] == "bayes" else M.L_BFGS_B_optimize
    kw = dict(c["kw"], loss_fn=c08.loss_fn(c["loss"]))
    if c["route"] == "indices" and not c08.loss_kwargs(c):
        ret = M.optimize_from_indices(m, M.AI(batch), M.AI(nn), M.A(X),
                                      M.A(Y), opt_fn=opt, **kw)
    else:
        cross, pair, bt, bnnt = tensors(m, c, X, Y, batch, nn, None)
        ret = opt(m, bt, bnnt, cross, pair, loss_kwargs=c08.loss_kwargs(c),
                  **kw)
    cross, pair, bt, bnnt = tensors(ret, c, X, Y, batch, nn, None)
    Kin, Kc = ret.kernel(pair), ret.kernel(cross)
    names, vals, bounds = ret.get_opt_params()
    return dict(plain(vals=vals, bounds=bounds, scale=ret.scale(),
                      mean=ret.posterior_mean(Kin, Kc, bnnt),
                      var=ret.posterior_variance(Kin, Kc)),
                names=list(names), free=list(m.get_opt_params()[0]),
                start=np.array(m.get_opt_params()[1], dtype=float))


def losses(c):
    """Each rank holds one slice of explicit predictions."""
    cuts = [0] + sorted(c["cuts"][:_size() - 1]) + [c["b"]]
    lo, hi = cuts[_rank()], cuts[_rank() + 1]
    args = [None if x is None else x[lo:hi]
            for x in c07.arrays(c, c["seed"], c["b"])]
    return {"value": c07.evaluate(c, *args)}


def sample(c):
    np.random.seed(c["seed"] + _rank())
    p = M.ScalarParam(c["how"], tuple(c["bounds"]))
    return {"value": float(p()), "bounds": [float(x) for x in
                                            p.get_bounds()]}


def _rank():
    from mpi4py import MPI

    return MPI.COMM_WORLD.Get_rank()


def _size():
    from mpi4py import MPI

    return MPI.COMM_WORLD.Get_size()


def regress(c):
    from harness.checks import c17

    X = gens.distinct_features(c["x"], c["n"] + c["q"], c["d"], c["seed"])
    Xtr, Xte = X[:c["n"]].copy(), X[c["n"]:].copy()
    Y = gens.responses(c["y"], c["n"], c["r"], c["seed"])
    args = [c17.k_args(p) for p in c["parts"]]
    multi = "listed" in c
    kk = (args if c.get("listed") else tuple(args)) if multi else args[0]
    np.random.seed(c["seed"] + _rank())
    m, lookup, mean, var = M.do_regress(
        Xte, Xtr, Y, k_kwargs=kk, nn_count=c["nn"],
        batch_count={"full": c["n"], "more": c["n"] + 7,
                     "part": max(1, c["n"] // 2)}[c["batch"]],
        loss_fn=c08.loss_fn(c["loss"]), nn_kwargs=dict(c["nn_kwargs"]),
        **c17.opt_args(c))
    models = m.models if multi else [m]
    return dict(plain(mean=mean, var=var),
                params=[[(n, float(v), [float(x) for x in b]) for n, v, b in
                         zip(*one.get_opt_params())] for one in models],
                scales=[float(np.reshape(one.scale(), ()))
                        for one in models])


def classify(c):
    from harness.checks import c17, c18

    Xtr, Xte, Y, *_ = c18.setup(c)
    parts = [c17.k_args(p) for p in c["parts"]]
    m = M.MultivariateMuyGPS(*parts) if c["multi"] else M.MuyGPS(**parts[0])
    nbrs = M.NN_Wrapper(Xtr, c["nn"], nn_method="exact", algorithm="ball_tree")
    pred, _ = M.classify_any(m, Xte, Xtr, nbrs, Y)
    return plain(pred=pred)


def hierarchical(c):
    from harness.checks import c21

    Xtr, P, Y, nn, diag = gens.expand(c)
    K = c["knots"]
    m = c21.hmodel(c, K, diag)
    idx = M.AI(np.arange(len(nn)))
    over = {"length_scale%d" % int(i): v for i, v in c["new"].items()}
    if not c["over"]:
        m.kernel.set_params(**{n: M.ScalarParam(v) for n, v in over.items()})
        over = {}
    cross, pair, nnt = m.make_predict_tensors(
        idx, M.AI(nn), M.A(P), M.A(Xtr), M.A(Y))
    bf = M.batch_features_tensor(M.A(P), idx)
    Kin = m.kernel(pair, batch_features=bf, **over)
    Kc = m.kernel(cross, batch_features=bf, **over)
    return plain(bf=bf, mean=m.posterior_mean(Kin, Kc, nnt),
                 var=m.posterior_variance(Kin, Kc))


def minibatch(c):
    X, Y, _, _, _ = c08.data(c)
    m = c08.model_of(c, None)
    np.random.seed(c["seed"] + _rank())
    bc = c["n"] if c["full"] else max(2, c["n"] // 2)
    ret, *_ = M.optimize_from_tensors_mini_batch(
        m, M.A(X), M.A(Y), nn_count=c["nn"], batch_count=bc,
        train_count=c["n"], num_epochs=c["epochs"], keep_state=c["keep"],
        probe_previous=c["probe"], loss_fn=c08.loss_fn(c["loss"]),
        loss_kwargs=c08.loss_kwargs(c), **c["kw"])
    names, vals, _ = ret.get_opt_params()
    return dict(plain(vals=vals, scale=ret.scale()), names=list(names))


def shear(c):
    from harness.checks import c20

    X = c20.points(c, c["n"] + c["b"])
    Y = gens.responses("normal", c["n"], 3, c["seed"]) / c["ls"]
    nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
    m = c20.model(c)
    cross, pair, nnt = m.make_predict_tensors(
        M.AI(np.arange(c["b"])), M.AI(nn), M.A(X[c["n"]:]),
        M.A(X[:c["n"]]), M.A(Y))
    t = c20.tensors(c, nnt)
    Kin, Kc = m.kernel(pair), m.kernel(cross)
    out = plain(mean=m.posterior_mean(Kin, Kc, t),
                var=m.posterior_variance(Kin, Kc))
    if c["kernel"] == "33":
        am = c20.model(dict(c, scale_fn="analytic"))
        am.optimize_scale(pair, t)
        out.update(plain(scale=am.scale()))
    return out
