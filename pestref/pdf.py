"""Density of a sum of two independent uniforms (read by the analysis, never run)."""
import numpy as np


def unifsum(a, b, p):
    """length of the overlap of the first interval and the mirrored second one, over both widths"""
    a1, b1 = np.minimum(a[0], a[1]), np.maximum(a[0], a[1])
    a2, b2 = np.minimum(b[0], b[1]), np.maximum(b[0], b[1])
    return np.maximum(np.minimum(b1, p - a2) - np.maximum(a1, p - b2), 0.0) / ((b1 - a1) * (b2 - a2))
