"""Reference: information form of the likelihood of the future (read by the analysis, never run).

l(z) = exp(c - z'Oz/2 + L'z)"""
import numpy as np


def fpack(xi, O, L):
    N = xi.shape[0]
    lz = L.shape[1]
    return np.hstack((xi.reshape((N, xi.shape[1])), O.reshape((N, lz * lz)), L.reshape((N, lz))))


def marg(m, Q, O, L):
    """log of the integral of l over N(m, Q)"""
    W = np.linalg.inv(np.eye(len(m)) + O.dot(Q))
    v = -0.5 * m.T.dot(W).dot(O).dot(m) + m.T.dot(W).dot(L) + 0.5 * L.T.dot(Q).dot(W).dot(L)
    return v[0, 0] - 0.5 * np.linalg.slogdet(np.eye(len(m)) + O.dot(Q))[1]


def step_one(xn, O, L, Axi, fxi, Qxi, Az, fz, Qz, Qxiz):
    """form in z before the step, given xi': z' = A z + b + w, xi' = Axi z + fxi + v"""
    G = Qxiz.T.dot(np.linalg.inv(Qxi))
    A = Az - G.dot(Axi)
    b = fz + G.dot(xn - fxi)
    Q = Qz - G.dot(Qxiz)
    W = np.linalg.inv(np.eye(len(L)) + O.dot(Q))
    R = np.linalg.inv(Qxi)
    On = A.T.dot(W).dot(O).dot(A) + Axi.T.dot(R).dot(Axi)
    Ln = A.T.dot(W).dot(L - O.dot(b)) + Axi.T.dot(R).dot(xn - fxi)
    e = xn - fxi
    c = marg(b, Q, O, L) - 0.5 * (e.T.dot(R).dot(e)[0, 0] + np.linalg.slogdet(Qxi)[1])
    return On, Ln, c


def back(xn, O, L, D):
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    On = np.empty_like(O)
    Ln = np.empty_like(L)
    c = np.empty(len(L))
    for i in range(len(L)):
        On[i], Ln[i], c[i] = step_one(xn[i], O[i], L[i], Axi[i], fxi[i], Qxi[i], Az[i], fz[i], Qz[i], Qxiz[i])
    return On, Ln, c


def weight(z, P, xn, O, L, D):
    """log of the likelihood of the future averaged over N(z, P)"""
    On, Ln, c = back(xn, O, L, D)
    out = np.empty(len(z))
    for i in range(len(z)):
        out[i] = c[i] + marg(z[i], P[i], On[i], Ln[i])
    return out


def smooth(xi, xn, O, L, D):
    On, Ln, c = back(xn, O, L, D)
    return fpack(xi, On, Ln)


def smooth_meas(xi, xn, O, L, D, y, C, h, R):
    On, Ln, c = back(xn, O, L, D)
    return addmeas(xi, On, Ln, y, C, h, R)


def last(xi, lz):
    N = xi.shape[0]
    return fpack(xi, np.zeros((N, lz, lz)), np.zeros((N, lz, 1)))


def addmeas(xi, O, L, y, C, h, R):
    Oo = np.empty_like(O)
    Lo = np.empty_like(L)
    for i in range(len(L)):
        Ri = np.linalg.inv(R[i])
        Oo[i] = O[i] + C[i].T.dot(Ri).dot(C[i])
        Lo[i] = L[i] + C[i].T.dot(Ri).dot(y - h[i])
    return fpack(xi, Oo, Lo)


def last_meas(xi, lz, y, C, h, R):
    N = xi.shape[0]
    return addmeas(xi, np.zeros((N, lz, lz)), np.zeros((N, lz, 1)), y, C, h, R)
