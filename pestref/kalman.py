"""Reference formulas (read by the analysis, never run)."""
import numpy as np
import math


def gauss(err, S):
    """log N(err; 0, S), err (d,1)"""
    d = len(err)
    q = err.T.dot(np.linalg.inv(S)).dot(err)
    return -0.5 * (d * math.log(2 * math.pi) + np.linalg.slogdet(S)[1] + q[0, 0])


def predict(z, P, A, f, Q):
    return A.dot(z) + f, A.dot(P).dot(A.T) + Q


def update(y, z, P, C, h, R):
    S = C.dot(P).dot(C.T) + R
    K = P.dot(C.T).dot(np.linalg.inv(S))
    e = y - C.dot(z) - h
    return z + K.dot(e), P - K.dot(C).dot(P), gauss(e, S)


def rts(z, P, zn, Pn, A, f, Q):
    zp = A.dot(z) + f
    Pp = A.dot(P).dot(A.T) + Q
    J = P.dot(A.T).dot(np.linalg.inv(Pp))
    return z + J.dot(zn - zp), P + J.dot(Pn - Pp).dot(J.T), J.dot(Pn)


def zeros(a):
    return np.zeros_like(a)


def zerosd(n, m):
    return np.zeros((n, m))


def innov(y, z, C, h):
    return y - C.dot(z) - h


def gauss_all(err, S):
    out = np.empty(len(err))
    for i in range(len(err)):
        out[i] = gauss(err[i], S)
    return out


def gauss_per(err, S):
    out = np.empty(len(err))
    for i in range(len(err)):
        out[i] = gauss(err[i], S[i])
    return out
