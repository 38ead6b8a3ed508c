"""A user's own random sequence, drawn line by line (so that other threads come in between)."""

import random

import numpy as np


def draw(n, out):
    for _ in range(n):
        out.append(float(np.random.random()))
        out.append(float(np.random.normal()))
        out.append(random.random())
    return out
