"""Reference model: plain numpy/scipy, one neighborhood at a time.

Nothing here imports MuyGPyS.
"""

import numpy as np
from scipy.special import gamma, kv


def scaled_sq_dists(X, Y, ls):
    """Squared distances of features divided by the length scale(s)."""
    X, Y = np.atleast_2d(X), np.atleast_2d(Y)
    ls = np.asarray(ls, dtype=float)
    diff = X[:, None, :] / ls - Y[None, :, :] / ls
    return (diff * diff).sum(axis=2)


def matern(d, nu):
    d = np.asarray(d, dtype=float)
    if nu == np.inf:
        return np.exp(-d * d / 2)
    if nu == 0.5:
        return np.exp(-d)
    if nu == 1.5:
        a = np.sqrt(3.0) * d
        return (1 + a) * np.exp(-a)
    if nu == 2.5:
        a = np.sqrt(5.0) * d
        return (1 + a + a * a / 3) * np.exp(-a)
    out = np.ones_like(d)
    pos = d > 1e-14
    a = np.sqrt(2 * nu) * d[pos]
    with np.errstate(invalid="ignore"):
        bessel = kv(nu, a)
        out[pos] = np.where(bessel == np.inf, 1.0, 2 ** (1 - nu) / gamma(nu)
                            * a ** nu * bessel)
    return out


def nu_of(spec):
    return np.inf if spec["nu"] == "inf" else float(spec["nu"])


def ls_of(spec):
    ls = np.asarray(spec["ls"], dtype=float)
    return ls if spec["def"] == "aniso" else ls[0]


def cov(spec, X, Y):
    """Kernel of the model spec between two sets of points."""
    d2 = scaled_sq_dists(X, Y, ls_of(spec))
    if spec["kernel"] == "rbf":
        return np.exp(-(np.sqrt(d2) if spec.get("metric") == "l2" else d2)
                      / 2)
    return matern(np.sqrt(d2), nu_of(spec))


def wobble(spec):
    """Factor on condition numbers: scipy's Bessel functions lose half of their
    digits for orders within about 3e-8 of (but not at) an integer."""
    if spec["kernel"] == "matern" and spec["nu"] != "inf":
        gap = abs(spec["nu"] - round(spec["nu"]))
        if 0 < gap < 1e-6:
            return 1e7
    return 1.0


def posterior(spec, noise_diag, Xnn, Ynn, x):
    """Dense GP conditional of one test point.

    Returns (mean with Ynn's trailing shape, unscaled variance, condition).
    """
    K = cov(spec, Xnn, Xnn) + np.diag(noise_diag)
    k = cov(spec, Xnn, x[None, :])[:, 0]
    w, V = np.linalg.eigh(K)
    weights = V @ ((V.T @ k) / w)
    return (weights @ Ynn, 1.0 - weights @ k,
            wobble(spec) * w[-1] / max(w[0], 1e-300))


def posteriors(spec, noise, Xtest, Xtrain, Y, nn):
    """Stack of `posterior` over test points; noise[i] is a diagonal."""
    out = [posterior(spec, noise[i], Xtrain[nn[i]], Y[nn[i]], Xtest[i])
           for i in range(len(nn))]
    return (np.array([o[0] for o in out]), np.array([o[1] for o in out]),
            max(o[2] for o in out))


def weight_sizes(spec, noise, Xtest, Xtrain, nn):
    """Largest sum of absolute kriging weights of the test points."""
    out = []
    for i, ix in enumerate(nn):
        K = cov(spec, Xtrain[ix], Xtrain[ix]) + np.diag(noise[i])
        k = cov(spec, Xtrain[ix], Xtest[i][None, :])[:, 0]
        w, V = np.linalg.eigh(K)
        out.append(np.abs(V @ ((V.T @ k) / w)).sum())
    return max(out)


def analytic_scale(spec, noise, Xtrain, Y, nn):
    """Mean over neighborhoods of y' (K + noise)^-1 y / nn_count."""
    tot = 0.0
    for i, ix in enumerate(nn):
        K = cov(spec, Xtrain[ix], Xtrain[ix]) + np.diag(noise[i])
        y = Y[ix].reshape(len(ix))
        w, V = np.linalg.eigh(K)
        tot += ((V.T @ y) ** 2 / np.where(w == 0, 1e-300, w)).sum() / len(ix)
    return tot / len(nn)


def mse(p, t, **kw):
    return float(np.mean((p - t) ** 2))


def cross_entropy_terms(p, t):
    hot = (np.asarray(t) > 0).astype(float)
    z = p - p.max(axis=1, keepdims=True)
    logp = z - np.log(np.exp(z).sum(axis=1, keepdims=True))
    return -(hot * logp)


def cross_entropy(p, t, **kw):
    return float(cross_entropy_terms(p, t).sum())


def _rowvar(v, p):
    return v[:, None] if v.ndim == 1 and p.ndim == 2 else v


def lool(p, t, v, scale=1.0, **kw):
    if v.ndim == 3:
        tot = 0.0
        for i in range(len(v)):
            S = scale * v[i]
            r = np.atleast_1d((p - t)[i]).ravel()
            w = np.linalg.eigvalsh(S)
            tot += r @ np.linalg.solve(S, r) + np.log(w).sum()
        return float(tot)
    s = scale * _rowvar(v, p)
    return float(np.sum((p - t) ** 2 / s + np.log(s)))


def pseudo_huber(p, t, boundary_scale=1.5, **kw):
    b = boundary_scale
    return float(b * b * np.sum(np.sqrt(1 + ((t - p) / b) ** 2) - 1))


def looph(p, t, v, scale=1.0, boundary_scale=3.0, **kw):
    b2 = boundary_scale ** 2
    s = scale * _rowvar(v, p)
    return float(np.sum(2 * b2 * (np.sqrt(1 + (t - p) ** 2 / (b2 * s)) - 1)
                        + np.log(s)))


def nearest(train, x, k, exclude=None):
    """Sorted squared distances from x to its k nearest rows of train."""
    d2 = ((train - x[None, :]) ** 2).sum(axis=1)
    if exclude is not None:
        d2 = np.delete(d2, exclude)
    return np.sort(d2)[:k]


def neighbors(train, x, k, exclude=None):
    """Indices of the k nearest rows, or None when a tie makes them ambiguous."""
    d2 = ((train - x[None, :]) ** 2).sum(axis=1)
    if exclude is not None:
        d2[exclude] = np.inf
    order = np.argsort(d2, kind="stable")
    s = d2[order[:k + 1]]
    s = s[np.isfinite(s)]
    if np.any(np.diff(s) < 1e-9 * (1 + s[:-1])):
        return None
    return order[:k]


def all_neighbors(train, queries, k, self_indices=None):
    rows = [neighbors(train, x, k, None if self_indices is None
                      else self_indices[i]) for i, x in enumerate(queries)]
    return None if any(r is None for r in rows) else np.array(rows, dtype=int)


def coefficients(spec, noise_diag, Xnn, Ynn):
    K = cov(spec, Xnn, Xnn) + np.diag(noise_diag)
    w, V = np.linalg.eigh(K)
    w = np.where(w == 0, 1e-300, w)
    return V @ ((V.T @ Ynn).T / w).T, w[-1] / max(w[0], 1e-300)
