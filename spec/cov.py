"""Reference definitions of the covariance / correlation toolkit (analysed, never executed)."""
import numpy as np


def cov_to_cor(cov, cov_reg=1e-06):
    std = np.maximum(np.diag(cov), cov_reg) ** 0.5
    cor = cov / np.outer(std, std)
    cor[cor < -1.0] = -1.0
    cor[cor > 1.0] = 1.0
    return cor, std


def cor_to_cov(cor, std):
    return np.outer(std, std) * cor


def eig_to_cor(w, v):
    cor = v @ (w[:, np.newaxis] * v.T)
    cor[cor < -1] = -1
    cor[cor > 1] = 1
    np.fill_diagonal(cor, 1.0)
    return cor


def cor_to_eig(cor, descending=True):
    w, v = np.linalg.eigh(cor)
    if descending:
        return w[::-1], v[:, ::-1]
    return w, v


def cor_to_eig_top(cor, k):
    w, v = cor_to_eig(cor)
    return w[:k], v[:, :k]


def mp_support(var, num_timesteps, num_assets):
    r = np.sqrt(num_assets / num_timesteps)
    return var * (1 - r) ** 2, var * (1 + r) ** 2


def mp_pdf_checked(var, num_timesteps, num_assets, w):
    if var <= 0:
        raise ValueError("variance")
    return mp_pdf(var, num_timesteps, num_assets, w)


def mp_pdf(var, num_timesteps, num_assets, w):
    lo, hi = mp_support(var, num_timesteps, num_assets)
    out = np.zeros_like(w)
    inside = np.logical_and(w > lo, w < hi)
    out[inside] = num_timesteps / num_assets * np.sqrt((hi - w[inside]) * (w[inside] - lo)) / (2 * np.pi * var * w[inside])
    return out


def eig_complete(w, v):
    n, k = v.shape
    assert k > 0
    if k == n:
        return w, v
    values = np.zeros(n)
    values[:k] = w
    values[k:] = (n - np.sum(w)) / (n - k)
    basis = np.linalg.svd(v)[0]
    basis[:, :k] = v
    return values, basis


def mp_fit(num_timesteps, num_assets, w):
    if not isinstance(w, np.ndarray):
        raise ValueError("not an array")
    best_ll = -1e9
    best = 0
    for var in np.linspace(0.01, 4, 1000):
        p = mp_pdf(var, num_timesteps, num_assets, w)
        p[~(p > 0)] = 1 / np.max(w)
        ll = np.sum(np.log(p))
        if ll > best_ll:
            best_ll = ll
            best = var
    return best


def keep_signal(w, k):
    out = w.copy()
    out[k:] = np.mean(w[k:])
    return out


def enforce_rank(w, num_timesteps):
    n = len(w)
    if n > num_timesteps:
        w = w.copy()
        w[-(n - num_timesteps):] = 0.0
    return w


def values_denoise_given(w, num_timesteps, k):
    return keep_signal(enforce_rank(w, num_timesteps), k), {"fitted": False, "k": k}


def values_denoise_fitted(w, num_timesteps):
    n = len(w)
    w = enforce_rank(w, num_timesteps)
    var = mp_fit(num_timesteps, n, w[:num_timesteps] if n > num_timesteps else w)
    edge = mp_support(var, num_timesteps, n)[1]
    k = np.sum(w >= edge)
    return keep_signal(w, k), {"fitted": True, "var": var, "max_noise": edge, "k": k}


def square(a):
    if not isinstance(a, np.ndarray):
        raise TypeError("not an array")
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise ValueError("not square")


def cor_denoise_given(cor, num_timesteps, k):
    square(cor)
    w, v = cor_to_eig_top(cor, k)
    values, basis = eig_complete(w, v)
    return eig_to_cor(values, basis), basis, {"fitted": False, "k": k}


def cor_denoise_fitted(cor, num_timesteps):
    square(cor)
    w, v = cor_to_eig(cor)
    values, info = values_denoise_fitted(w, num_timesteps)
    return eig_to_cor(values, v), None, info


def cov_denoise_given(cov, num_timesteps, k):
    cor, std = cov_to_cor(cov)
    new, _, info = cor_denoise_given(cor, num_timesteps, k)
    return cor_to_cov(new, std), info


def cov_denoise_fitted(cov, num_timesteps):
    cor, std = cov_to_cor(cov)
    new, _, info = cor_denoise_fitted(cor, num_timesteps)
    return cor_to_cov(new, std), info


def block_diagonal(sizes, cors):
    if len(sizes) != len(cors):
        raise ValueError("lengths differ")
    if len(sizes) == 0:
        return np.zeros((0, 0))
    n = np.sum(sizes)
    out = np.zeros((n, n))
    i = 0
    for s, c in zip(sizes, cors):
        out[i:i + s, i:i + s] = c
        i += s
    np.fill_diagonal(out, 1.0)
    return out
