"""Reference filter steps, given the ancestors (read by the analysis, never run)."""
import numpy as np
import math


def systematic(w, n, u):
    """indices inverting the normalised cumulative weights at (k+u)/n"""
    c = np.cumsum(w) / np.sum(w)
    return np.searchsorted(c, (np.arange(n) + u) / n)


def normw(w):
    e = np.exp(w - np.max(w))
    return e / np.sum(e)


def neff(w):
    p = normw(w)
    return 1.0 / np.sum(p * p)


def uniform(n):
    return np.log(np.ones(n) / n)


def decide(res, w):
    n = len(w)
    return res > 0 and neff(w) < res * n


def base(resampled, w):
    n = len(w)
    return np.where(resampled, uniform(n), w)


def anc_pf(resampled, w, u):
    n = len(w)
    return np.where(resampled, systematic(normw(w), n, u), np.arange(n))


def move(model, traj, part, anc, ci, us, ys, ts):
    p = np.copy(part[anc])
    v = model.sample_process_noise_full(ptraj=traj, ancestors=anc, ut=us[:ci + 1], tt=ts[:ci + 1])
    model.update_full(particles=p, traj=traj, uvec=us[:ci + 1], yvec=ys[:ci + 1], tvec=ts[:ci + 1], ancestors=anc,
                      noise=v)
    return p


def lik(model, traj, part, anc, ci, us, ys, ts):
    return model.measure_full(traj=traj, ancestors=anc, particles=part, uvec=us, yvec=ys[:ci + 1], tvec=ts[:ci + 1])


def lik1(model, part, y, t):
    return model.measure(particles=part, y=y, t=t)


def sir(model, part, pnext, us, ys, ts, ci):
    q = model.logp_q(particles=part, next_part=pnext, u=us[ci], y=ys[ci + 1], t=ts[ci])
    x = model.logp_xnext(particles=part, next_part=pnext, u=us[ci], t=ts[ci])
    y = model.measure(particles=pnext, y=ys[ci + 1], t=ts[ci + 1])
    return y + x - q


def sirprop(model, part, us, ys, ts, ci):
    return model.qsample(particles=part, u=us[ci], y=ys[ci + 1], t=ts[ci])


def last(x, v):
    """x with its last row replaced by v"""
    r = np.copy(x)
    r[-1] = v
    return r


def trans1(model, traj, part, anc, pind, fut, find, us, ys, ts, ci):
    return model.logp_xnext_singlestep(part=part[anc], past_trajs=traj[:ci], pind=pind[anc], future_parts=fut,
                                       find=find, ut=us, yt=ys, tt=ts, cur_ind=ci)


def ident(n):
    return np.arange(n)


def zeros(n):
    return np.zeros((n,), dtype=int)


def take(x, i):
    return x[i]


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def maxof(a):
    return np.max(a)


def gather(x, i):
    return np.copy(x[i])


def wmean(w, part):
    p = normw(w)
    m = np.zeros(part.shape[1])
    for i in range(len(w)):
        m = m + p[i] * part[i]
    return m


def tmean(part):
    n = part.shape[0]
    m = np.zeros(part.shape[1])
    for i in range(n):
        m = m + part[i]
    return m / n


def best_down(w, n):
    return np.argsort(-w)[np.arange(n)]


def best_up(w, n):
    return np.argsort(w)[len(w) - n + np.arange(n)]


def best_rev(w, n):
    return np.argsort(w)[len(w) - 1 - np.arange(n)]


def gather1(w):
    return np.copy(w)
