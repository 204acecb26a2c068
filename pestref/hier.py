"""Reference formulas of the hierarchical model (read by the analysis, never run)."""
import numpy as np
import math
from pestref.kalman import gauss, update as kupdate, predict as kpredict, rts as krts
from pestref.mlnlg import pack, draw, rep, zrep, sel


def pred(z, P, A, f, Q):
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i] = kpredict(z[i], P[i], A[i], f[i], Q[i])
    return zo, Po


def stepped(xn, z, P, A, f, Q):
    zo, Po = pred(z, P, A, f, Q)
    return pack(xn, zo, Po)


def measure(lp, y, xi, z, P, C, h, R):
    out = np.empty(len(z))
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i], l = kupdate(y, z[i], P[i], C[i], h[i], R[i])
        out[i] = lp[i] + l
    return out, pack(xi, zo, Po)


def measure_nolin(lp, y, xi, z, P, h, R):
    """no measurement matrix"""
    out = np.empty(len(z))
    for i in range(len(z)):
        out[i] = lp[i] + gauss(y - h[i], R[i])
    return out, pack(xi, z, P)


def dens(lp, zn, z, P, A, f, Q):
    zo, Po = pred(z, P, A, f, Q)
    out = np.empty(len(z))
    for i in range(len(z)):
        out[i] = lp[i] + gauss(zn[i] - zo[i], Po[i])
    return out


def peak(lpmax, z, P, A, f, Q):
    zo, Po = pred(z, P, A, f, Q)
    out = np.empty(len(z))
    for i in range(len(z)):
        out[i] = lpmax[i] - 0.5 * (len(Po[i]) * math.log(2 * math.pi) + np.linalg.slogdet(Po[i])[1])
    return np.max(out)


def smooth_draw(xi, z, P, zn, A, f, Q):
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i], l = kupdate(zn[i], z[i], P[i], A[i], f[i], Q[i])
    return pad(xi, draw(zo, Po))


def last_draw(xi, z, P):
    return pad(xi, draw(z, P))


def pad(xi, z):
    N = xi.shape[0]
    lz = z.shape[1]
    return np.hstack((xi.reshape((N, xi.shape[1])), z.reshape((N, lz)), np.zeros((N, 2 * lz * lz))))


def pred_all(z, P, A, f, Q):
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i] = kpredict(z[i], P[i], A[i], f[i], Q[i])
    return zo, Po


def rts_plain(z, P, zn, Pn, A, f, Q):
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    Mo = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i], Mo[i] = krts(z[i], P[i], zn[i], Pn[i], A[i], f[i], Q[i])
    return zo, Po, Mo
