"""Reference of the parameter-estimation objective (read by the analysis, never run)."""
import numpy as np


def average(vals, M):
    """vals (T,M): terms of every time step and trajectory"""
    return np.sum(vals) / M


def gradaverage(g, M):
    """g (T,lp): gradient of every time step"""
    return np.sum(g, 0) / M


def neg(a, b, c):
    return -(a + b + c)


def uniform(n):
    return np.ones((n,)) / n


def scaled(w, a):
    return a * w


def sa(W, X, w, x, a):
    """stochastic approximation: convex combination of the old and the new weights, trajectories alike"""
    return np.concatenate(((1.0 - a) * W, a * w)), np.concatenate((X, x), axis=1)
