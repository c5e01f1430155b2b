"""Reference sources of third-party classes whose instances norfair configures."""

LIB = {
    # filterpy 1.4.5, the state a new filter has
    "filterpy.kalman": '''
import numpy as np


class KalmanFilter:
    def __init__(self, dim_x, dim_z, dim_u=0):
        self.dim_x = dim_x
        self.dim_z = dim_z
        self.dim_u = dim_u
        self.x = np.zeros((dim_x, 1))
        self.P = np.eye(dim_x)
        self.Q = np.eye(dim_x)
        self.B = None
        self.F = np.eye(dim_x)
        self.H = np.zeros((dim_z, dim_x))
        self.R = np.eye(dim_z)
        self._alpha_sq = 1.0
        self.M = np.zeros((dim_x, dim_z))
''',
}
