"""Reference formulas of the mixed linear/nonlinear Gaussian model (read by the analysis, never run)."""
import numpy as np
import math
from pestref.ltv import quad, quad_grad
from pestref.kalman import gauss, update as kupdate, predict as kpredict, rts as krts


def rep(x, N):
    return np.repeat(np.asarray(x)[np.newaxis], N, 0)


def zrep(n, m, N):
    return np.zeros((N, n, m))


def stack(a, b):
    return np.vstack((a, b))


def jcov(Qxi, Qxiz, Qz):
    return np.vstack((np.hstack((Qxi, Qxiz)), np.hstack((Qxiz.T, Qz))))


def joint(z, P, Axi, fxi, Qxi, Az, fz, Qz, Qxiz):
    """mean and covariance of (xi', z')"""
    A = stack(Axi, Az)
    return A.dot(z) + stack(fxi, fz), A.dot(P).dot(A.T) + jcov(Qxi, Qxiz, Qz)


def cond_step_one(z, P, xin, Axi, fxi, Qxi, Az, fz, Qz, Qxiz):
    """z' given xi': conditional of the joint Gaussian"""
    Sxx = Axi.dot(P).dot(Axi.T) + Qxi
    Szx = Az.dot(P).dot(Axi.T) + Qxiz.T
    Szz = Az.dot(P).dot(Az.T) + Qz
    G = Szx.dot(np.linalg.inv(Sxx))
    return Az.dot(z) + fz + G.dot(xin - Axi.dot(z) - fxi), Szz - G.dot(Szx.T)


def cond_step(z, P, xin, D):
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i] = cond_step_one(z[i], P[i], xin[i], Axi[i], fxi[i], Qxi[i], Az[i], fz[i], Qz[i], Qxiz[i])
    return zo, Po


def cond_z(z, P, xin, D):
    """z given xi'"""
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i], l = kupdate(xin[i], z[i], P[i], Axi[i], fxi[i], Qxi[i])
    return zo, Po


def pred_xi(z, P, D):
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    m = np.empty_like(fxi)
    S = np.empty_like(Qxi)
    for i in range(len(z)):
        m[i] = Axi[i].dot(z[i]) + fxi[i]
        S[i] = Axi[i].dot(P[i]).dot(Axi[i].T) + Qxi[i]
    return m, S


def draw(mean, S):
    """mean (N,d,1)"""
    out = np.empty((mean.shape[0], mean.shape[1], 1))
    e = np.random.normal(size=(mean.shape[0], mean.shape[1]))
    for i in range(mean.shape[0]):
        out[i] = mean[i] + np.linalg.cholesky(S[i]).dot(e[i].reshape((-1, 1)))
    return out


def pack(xi, z, P):
    N = xi.shape[0]
    return np.hstack((xi.reshape((N, xi.shape[1])), z.reshape((N, z.shape[1])), P.reshape((N, P.shape[1] * P.shape[2]))))


def packM(xi, z, P, M):
    N = xi.shape[0]
    return np.hstack((pack(xi, z, P), M.reshape((N, P.shape[1] * P.shape[2]))))


def pack2(xi, z):
    N = xi.shape[0]
    return np.hstack((xi.reshape((N, xi.shape[1])), z.reshape((N, z.shape[1]))))


def move(xi, z, P, D):
    """draw xi', condition and predict"""
    m, S = pred_xi(z, P, D)
    xn = draw(m, S)
    zo, Po = cond_step(z, P, xn, D)
    return pack(xn, zo, Po)


def move_given(xi, z, P, noise, D):
    m, S = pred_xi(z, P, D)
    xn = m + noise
    zo, Po = cond_step(z, P, xn, D)
    return pack(xn, zo, Po)


def stepped(xn, z, P, D):
    zo, Po = cond_step(z, P, xn, D)
    return pack(xn, zo, Po)


def xidens(xn, z, P, D):
    m, S = pred_xi(z, P, D)
    out = np.empty(len(z))
    for i in range(len(z)):
        out[i] = gauss(xn[i] - m[i], S[i])
    return out


def jointdens(xn, zn, z, P, D):
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    out = np.empty(len(z))
    for i in range(len(z)):
        m, S = joint(z[i], P[i], Axi[i], fxi[i], Qxi[i], Az[i], fz[i], Qz[i], Qxiz[i])
        out[i] = gauss(stack(xn[i], zn[i]) - m, S)
    return out


def jointpeak(z, P, D):
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    out = np.empty(len(z))
    for i in range(len(z)):
        m, S = joint(z[i], P[i], Axi[i], fxi[i], Qxi[i], Az[i], fz[i], Qz[i], Qxiz[i])
        out[i] = -0.5 * (len(S) * math.log(2 * math.pi) + np.linalg.slogdet(S)[1])
    return np.max(out)


def smooth_draw(xi, z, P, xn, zn, D):
    """draw of z given (xi', z')"""
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i], l = kupdate(stack(xn[i], zn[i]), z[i], P[i], stack(Axi[i], Az[i]), stack(fxi[i], fz[i]),
                                  jcov(Qxi[i], Qxiz[i], Qz[i]))
    return pack2(xi, draw(zo, Po))


def last_draw(xi, z, P):
    return pack2(xi, draw(z, P))


def measure(y, xi, z, P, C, h, R):
    out = np.empty(len(z))
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i], out[i] = kupdate(y, z[i], P[i], C[i], h[i], R[i])
    return out, pack(xi, zo, Po)


def add(a, b):
    return a + b


def meas_post(y, z, P, C, h, R):
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    for i in range(len(z)):
        zo[i], Po[i], l = kupdate(y, z[i], P[i], C[i], h[i], R[i])
    return zo, Po


def rts_all(z, P, xn, zn, Pn, D):
    """smoothed moments and cross covariance of z given xi' and the smoothed z'"""
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    zo = np.empty_like(z)
    Po = np.empty_like(P)
    Mo = np.empty_like(P)
    for i in range(len(z)):
        zc, Pc, l = kupdate(xn[i], z[i], P[i], Axi[i], fxi[i], Qxi[i])
        G = Qxiz[i].T.dot(np.linalg.inv(Qxi[i]))
        zo[i], Po[i], Mo[i] = krts(zc, Pc, zn[i], Pn[i], Az[i] - G.dot(Axi[i]), fz[i] + G.dot(xn[i] - fxi[i]),
                                   Qz[i] - G.dot(Qxiz[i]))
    return zo, Po, Mo


def init_draw(xi0, Pxi0, z0, Pz0, N):
    return pack(draw(rep(xi0, N), rep(Pxi0, N)), rep(z0, N), rep(Pz0, N))


def init_fixed(xi0, z0, Pz0, N):
    return pack(rep(xi0, N), rep(z0, N), rep(Pz0, N))


def x0dens(xi, z, P, xi0, Pxi0, z0, Pz0):
    """expected log density of the initial state, z part without constant"""
    out = np.empty(len(z))
    for i in range(len(z)):
        e = z[i] - z0
        out[i] = gauss(xi[i] - xi0, Pxi0) - 0.5 * (np.linalg.slogdet(Pz0)[1] + np.trace(
            np.linalg.inv(Pz0).dot(e.dot(e.T) + P[i])))
    return out


def sel(x, i):
    return x[i]


def scaled(x, a):
    return x * a


def xipart(x, lxi):
    return x[:, :lxi].reshape((len(x), lxi, 1))


def zpart(x, lxi, lz):
    return x[:, lxi:lxi + lz].reshape((len(x), lz, 1))


def take3(xi, z, P, i):
    return xi[i], z[i], P[i]


def zpad(x, n):
    """x followed by n zero columns"""
    return np.hstack((x, np.zeros((len(x), n))))


# ---------------------------------------------------------------- objective
def x0obj(xi, z, P, lpxi, z0, P0):
    out = np.empty(len(z))
    for i in range(len(z)):
        e = z[i] - z0[i]
        out[i] = lpxi[i] + quad(e, P0[i], e.dot(e.T) + P[i])
    return out


def xi0dens(xi, xi0, Pxi0):
    out = np.empty(len(xi))
    for i in range(len(xi)):
        out[i] = gauss(xi[i] - xi0, Pxi0)
    return out


def second(xin, zn, Pn, z, P, M, Axi, fxi, Az, fz):
    """error (xi',z') - f - A z: mean and second moment, M = cov(z, z')"""
    e = stack(xin - fxi - Axi.dot(z), zn - fz - Az.dot(z))
    A = stack(Axi, Az)
    return e, e.dot(e.T) + A.dot(P).dot(A.T)


def crossed(L, A, M, Pn, lxi):
    """subtract the covariance between prediction and the linear part of the next state, add that of the next state"""
    AM = A.dot(M)
    out = np.zeros_like(L)
    out[:, :] = L
    out[:, lxi:] = out[:, lxi:] - AM
    out[lxi:, :] = out[lxi:, :] - AM.T
    out[lxi:, lxi:] = out[lxi:, lxi:] + Pn
    return out


def xobj(z, P, M, xin, zn, Pn, D):
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    out = 0.0
    for i in range(len(z)):
        e, L = second(xin[i], zn[i], Pn[i], z[i], P[i], M[i], Axi[i], fxi[i], Az[i], fz[i])
        out += quad(e, jcov(Qxi[i], Qxiz[i], Qz[i]), crossed(L, stack(Axi[i], Az[i]), M[i], Pn[i], Axi.shape[1]))
    return out


def yobj(y, z, P, C, h, R):
    out = 0.0
    for i in range(len(z)):
        e = y - C[i].dot(z[i]) - h[i]
        out += quad(e, R[i], e.dot(e.T) + C[i].dot(P[i]).dot(C[i].T))
    return out


# ---------------------------------------------------------------- gradients of the sums over particles
def x0grad(xi, z, P, z0, P0, dz0, dP0, lp):
    out = np.zeros((lp, 1))
    for j in range(lp):
        for i in range(len(z)):
            e = z[i] - z0[i]
            out[j] += quad_grad(P0[i], dP0[i][j], e.dot(e.T) + P[i], -dz0[i][j].dot(e.T) - e.dot(dz0[i][j].T))
    return out


def xi0grad(xi, xi0, Pxi0, dxi0, dPxi0, lp):
    out = np.zeros((lp, 1))
    for j in range(lp):
        for i in range(len(xi)):
            e = xi[i] - xi0
            out[j] += quad_grad(Pxi0, dPxi0[i][j], e.dot(e.T), -dxi0[i][j].dot(e.T) - e.dot(dxi0[i][j].T))
    return out


def l2grad(z, P, M, xin, zn, Pn, D, dA, df, lp):
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    lxi = Axi.shape[1]
    dim = lxi + Az.shape[1]
    out = np.zeros((len(z), lp, dim, dim))
    for i in range(len(z)):
        A = stack(Axi[i], Az[i])
        e, L = second(xin[i], zn[i], Pn[i], z[i], P[i], M[i], Axi[i], fxi[i], Az[i], fz[i])
        for j in range(lp):
            de = -df[i][j] - dA[i][j].dot(z[i])
            dAPA = dA[i][j].dot(P[i]).dot(A.T)
            dL = de.dot(e.T) + e.dot(de.T) + dAPA + dAPA.T
            out[i, j] = crossed(dL, dA[i][j], M[i], np.zeros_like(Pn[i]), lxi)
    return out


def l2(z, P, M, xin, zn, Pn, D):
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    lxi = Axi.shape[1]
    dim = lxi + Az.shape[1]
    out = np.zeros((len(z), dim, dim))
    for i in range(len(z)):
        e, L = second(xin[i], zn[i], Pn[i], z[i], P[i], M[i], Axi[i], fxi[i], Az[i], fz[i])
        out[i] = crossed(L, stack(Axi[i], Az[i]), M[i], Pn[i], lxi)
    return out


def xgrad(z, P, M, xin, zn, Pn, D, dA, df, dQ, lp):
    Axi, fxi, Qxi, Az, fz, Qz, Qxiz = D
    L = l2(z, P, M, xin, zn, Pn, D)
    dL = l2grad(z, P, M, xin, zn, Pn, D, dA, df, lp)
    out = np.zeros((lp, 1))
    for j in range(lp):
        for i in range(len(z)):
            out[j] += quad_grad(jcov(Qxi[i], Qxiz[i], Qz[i]), dQ[i][j], L[i], dL[i, j])
    return out


def l3(y, z, P, C, h):
    out = np.zeros((len(z), len(y), len(y)))
    for i in range(len(z)):
        e = y - C[i].dot(z[i]) - h[i]
        out[i] = e.dot(e.T) + C[i].dot(P[i]).dot(C[i].T)
    return out


def l3grad(y, z, P, C, h, dC, dh, lp):
    out = np.zeros((len(z), lp, len(y), len(y)))
    for i in range(len(z)):
        e = y - C[i].dot(z[i]) - h[i]
        for j in range(lp):
            de = -dh[i][j] - dC[i][j].dot(z[i])
            dCPC = dC[i][j].dot(P[i]).dot(C[i].T)
            out[i, j] = de.dot(e.T) + e.dot(de.T) + dCPC + dCPC.T
    return out


def ygrad(y, z, P, C, h, R, dC, dh, dR, lp):
    L = l3(y, z, P, C, h)
    dL = l3grad(y, z, P, C, h, dC, dh, lp)
    out = np.zeros((lp, 1))
    for j in range(lp):
        for i in range(len(z)):
            out[j] += quad_grad(R[i], dR[i][j], L[i], dL[i, j])
    return out


def meanof(a, b, n):
    return (a + b) / n


def average(x):
    return np.sum(x) / len(x)


def total(x):
    return np.sum(x)
