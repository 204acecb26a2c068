"""Reference formulas of the linear time-varying model (read by the analysis, never run)."""
import numpy as np
from pestref.kalman import gauss, update as kupdate, predict as kpredict, rts as krts


def pack(z, P):
    N = z.shape[0]
    return np.hstack((z.reshape((N, z.shape[1])), P.reshape((N, P.shape[1] * P.shape[2]))))


def packM(z, P, M):
    N = z.shape[0]
    return np.hstack((pack(z, P), M.reshape((N, P.shape[1] * P.shape[2]))))


def rep(x, N):
    return np.repeat(np.asarray(x)[np.newaxis], N, 0)


def initial(z0, P0, N):
    return pack(rep(z0, N), rep(P0, N))


def predict(z, P, A, f, Q):
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i] = kpredict(z[i], P[i], A, f, Q)
    return pack(zo, Po)


def predict2(z, P, A, f, Q):
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i] = kpredict(z[i], P[i], A, f, Q)
    return zo, Po


def measure(y, z, P, C, h, R):
    out = np.empty(len(z))
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i], out[i] = kupdate(y, z[i], P[i], C, h, R)
    return out, pack(zo, Po)


def measure_noc(y, z, P, h, R):
    out = np.empty(len(z))
    for i in range(len(z)):
        out[i] = gauss(y - h, R)
    return out, pack(z, P)


def smooth(z, P, zn, Pn, A, f, Q):
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    Mo = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i], Mo[i] = krts(z[i], P[i], zn[i], Pn[i], A, f, Q)
    return packM(zo, Po, Mo)


def last(z, P):
    return packM(z, P, np.zeros_like(P))


def sel(x, i):
    return x[i]


# ---------------------------------------------------------------- objective
def quad(e, S, L):
    """expected Gaussian log-density (without the constant) with second moment L of the error"""
    return -0.5 * (np.linalg.slogdet(S)[1] + np.trace(np.linalg.inv(S).dot(L)))


def x0obj(z, P, z0, P0):
    out = np.empty(len(z))
    for i in range(len(z)):
        e = z[i] - z0
        out[i] = quad(e, P0, e.dot(e.T) + P[i])
    return out


def xobj(z, P, M, zn, Pn, A, f, Q):
    """E log N(z'; A z + f, Q), M = cov(z, z')"""
    out = np.empty(len(z))
    for i in range(len(z)):
        e = zn[i] - f - A.dot(z[i])
        AM = A.dot(M[i])
        out[i] = quad(e, Q, e.dot(e.T) + Pn[i] + A.dot(P[i]).dot(A.T) - AM - AM.T)
    return out


def yobj(y, z, P, C, h, R):
    out = np.empty(len(z))
    for i in range(len(z)):
        e = y - C.dot(z[i]) - h
        out[i] = quad(e, R, e.dot(e.T) + C.dot(P[i]).dot(C.T))
    return out


def quad_grad(S, dS, L, dL):
    """derivative of quad for S, L with derivatives dS, dL (tr is linear; d log|S| = tr(S^-1 dS), dS^-1 = -S^-1 dS S^-1)"""
    Si = np.linalg.inv(S)
    return -0.5 * (np.trace(Si.dot(dS)) + np.trace(Si.dot(dL)) - np.trace(Si.dot(dS).dot(Si).dot(L)))


def x0grad(z, P, z0, P0, dz0, dP0):
    """gradient of the mean of x0obj"""
    out = np.zeros(len(dz0))
    for j in range(len(dz0)):
        for i in range(len(z)):
            e = z[i] - z0
            out[j] += quad_grad(P0, dP0[j], e.dot(e.T) + P[i], -dz0[j].dot(e.T) - e.dot(dz0[j].T))
    return out / len(z)


def xgrad(z, P, M, zn, Pn, A, f, Q, dA, df, dQ):
    """gradient of the sum of xobj"""
    out = np.zeros(len(dA))
    for j in range(len(dA)):
        for i in range(len(z)):
            e = zn[i] - f - A.dot(z[i])
            AM = A.dot(M[i])
            L = e.dot(e.T) + Pn[i] + A.dot(P[i]).dot(A.T) - AM - AM.T
            de = -df[j] - dA[j].dot(z[i])
            dAM = dA[j].dot(M[i])
            dAPA = dA[j].dot(P[i]).dot(A.T)
            dL = de.dot(e.T) + e.dot(de.T) + dAPA + dAPA.T - dAM - dAM.T
            out[j] += quad_grad(Q, dQ[j], L, dL)
    return out


def ygrad(y, z, P, C, h, R, dC, dh, dR):
    out = np.zeros(len(dC))
    for j in range(len(dC)):
        for i in range(len(z)):
            e = y - C.dot(z[i]) - h
            L = e.dot(e.T) + C.dot(P[i]).dot(C.T)
            de = -dh[j] - dC[j].dot(z[i])
            dCPC = dC[j].dot(P[i]).dot(C.T)
            out[j] += quad_grad(R, dR[j], L, de.dot(e.T) + e.dot(de.T) + dCPC + dCPC.T)
    return out


def total(x):
    return np.sum(x)


def average(x):
    return np.sum(x) / len(x)
