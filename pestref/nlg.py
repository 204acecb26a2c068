"""Reference formulas of the Gaussian models (read by the analysis, never run)."""
import numpy as np
import math


def gauss(e, S):
    d = len(S)
    e = e.reshape((-1, 1))
    q = e.T.dot(np.linalg.inv(S)).dot(e)
    return -0.5 * (d * math.log(2 * math.pi) + np.linalg.slogdet(S)[1] + q[0, 0])


def draw(mean, S):
    """mean (N,d), S[i] covariance of row i"""
    N = mean.shape[0]
    d = mean.shape[1]
    out = np.empty((N, d))
    e = np.random.normal(size=(N, d))
    for i in range(N):
        out[i] = mean[i] + np.linalg.cholesky(S[i]).dot(e[i])
    return out


def dens(x, mean, S):
    """x (N,d), mean (N,d)"""
    N = mean.shape[0]
    out = np.empty(N)
    for i in range(N):
        out[i] = gauss(x[i] - mean[i], S[i])
    return out


def rep(x, N):
    """N copies of x along a new first axis"""
    return np.repeat(np.asarray(x)[np.newaxis], N, 0)


def peak(S):
    """largest log density value of N(0,S[i]) over i"""
    N = S.shape[0]
    d = S.shape[1]
    out = np.empty(N)
    for i in range(N):
        out[i] = -0.5 * (d * math.log(2 * math.pi) + np.linalg.slogdet(S[i])[1])
    return np.max(out)


def scaled(x, a):
    return x * a
