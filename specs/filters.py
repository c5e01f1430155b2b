"""Filters: construction by the factories, prediction, update."""
from nfa.unit import Unit
from nfa.terms import *
from nfa import terms as T
from nfa.arrays import at, mkarr

PTS = {"initial_detection": "arr"}
PSH = {"initial_detection": ("N", "D")}

FILTERPY_INIT = Unit("fp_init", "FilterPyKalmanFilterFactory.__init__", """
def spec(self, R=4.0, Q=0.1, P=10.0):
    self.R = R
    self.Q = Q
    self.P = P
""", types={"R": "float", "Q": "float", "P": "float"})

FILTERPY = Unit("fp_create", "FilterPyKalmanFilterFactory.create_filter", """
def spec(self, initial_detection):
    n = initial_detection.shape[0] * initial_detection.shape[1]
    f = KalmanFilter(dim_x=2 * n, dim_z=n)
    f.F = np.eye(2 * n)
    for i in range(n):
        f.F[i, n + i] = 1
    f.H = np.eye(n, 2 * n)
    f.R *= self.R
    f.Q[n:, n:] *= self.Q
    f.P[n:, n:] *= self.P
    for i in range(n):
        f.x[i, 0] = initial_detection[i // initial_detection.shape[1], i % initial_detection.shape[1]]
    f.x[n:] = 0
    return f
""", types=PTS, shapes=PSH)

NOFILTER_INIT = Unit("nf_init", "NoFilter.__init__", """
def spec(self, dim_x, dim_z):
    self.dim_z = dim_z
    self.x = np.zeros((dim_x, 1))
""", types={"dim_x": "int", "dim_z": "int"}, fresh=["x"])

NOFILTER_PREDICT = Unit("nf_predict", "NoFilter.predict", """
def spec(self):
    pass
""")


def mask(syms):
    """H: the measured coordinates of the diagonal"""
    b = mk("sym", "measured")
    T.Ctx.types[b] = "arr"
    T.Ctx.shapes[b] = (mk("size", "Z"),)
    T.Ctx.types[mk("elemtype", b)] = "bool"
    return mkarr((mk("size", "Z"), mul(num(2), mk("size", "Z"))), ite(and_(at(b, IX(0)), eq(IX(0), IX(1))), ONE, ZERO))


def none(syms):
    return NONE


def noise(syms):
    """R: a diagonal measurement noise"""
    b = mk("sym", "noise")
    T.Ctx.types[b] = "arr"
    T.Ctx.shapes[b] = (mk("size", "Z"),)
    return mkarr((mk("size", "Z"), mk("size", "Z")), ite(eq(IX(0), IX(1)), at(b, IX(0)), ZERO))


def sizes(*names):
    def f(args):
        return [eq(mk("attr", args["self"], "dim_z"), mk("size", "Z"))]
    return f


def filter_state(I, st, args):
    me = next(iter(args.values()))
    I.write_field(st, me, "dim_z", mk("size", "Z"))


_ST = {"detection_points_flatten": "arr", "self.x": "arr"}
_SH = {"detection_points_flatten": ("Z", 1), "self.x": (mul(num(2), mk("size", "Z")), 1)}

NF_UPDATE = """
def spec(self, detection_points_flatten, R=None, H=None):
    for i in range(self.dim_z):
        if %s:
            self.x[i, 0] = detection_points_flatten[i, 0]
"""
NOFILTER_UPDATE = Unit("nf_update", "NoFilter.update", NF_UPDATE % "True", types=_ST, shapes=_SH,
                       values={"H": none, "R": none}, setup=filter_state)
NOFILTER_MASKED = Unit("nf_update_masked", "NoFilter.update", NF_UPDATE % "H[i, i] == 1", types=_ST, shapes=_SH,
                       values={"H": mask, "R": none}, setup=filter_state)

NOFILTER_FACTORY = Unit("nf_create", "NoFilterFactory.create_filter", """
def spec(self, initial_detection):
    n = initial_detection.shape[0] * initial_detection.shape[1]
    f = NoFilter(2 * n, n)
    for i in range(n):
        f.x[i, 0] = initial_detection[i // initial_detection.shape[1], i % initial_detection.shape[1]]
    return f
""", types=PTS, shapes=PSH, classes=("NoFilter",))

OPT_INIT = Unit("opt_init", "OptimizedKalmanFilter.__init__", """
def spec(self, dim_x, dim_z, pos_variance=10, pos_vel_covariance=0, vel_variance=1, q=0.1, r=4):
    self.dim_z = dim_z
    self.x = np.zeros((dim_x, 1))
    self.pos_variance = np.full((dim_z, 1), pos_variance)
    self.pos_vel_covariance = np.full((dim_z, 1), pos_vel_covariance)
    self.vel_variance = np.full((dim_z, 1), vel_variance)
    self.q_Q = q
    self.default_r = np.full((dim_z, 1), r)
""", types={"dim_x": "int", "dim_z": "int", "pos_variance": "float", "pos_vel_covariance": "float",
            "vel_variance": "float", "q": "float", "r": "float"},
   fresh=["x", "pos_variance", "pos_vel_covariance", "vel_variance"])

_OT = dict(_ST, **{"self.q_Q": "float"})
_OS = dict(_SH, **{"self." + n: ("Z", 1) for n in ("pos_variance", "pos_vel_covariance", "vel_variance", "default_r")})

OPT_PREDICT = Unit("opt_predict", "OptimizedKalmanFilter.predict", """
def spec(self):
    for i in range(self.dim_z):
        self.x[i, 0] = self.x[i, 0] + self.x[self.dim_z + i, 0]
""", types=_OT, shapes=_OS, setup=filter_state)

OPT = """
def spec(self, detection_points_flatten, R=None, H=None):
    n = self.dim_z
    for i in range(n):
        r = %s
        p = self.pos_variance[i, 0]
        c = self.pos_vel_covariance[i, 0]
        v = self.vel_variance[i, 0]
        pp = p + 2 * c + v + self.q_Q
        cp = c + v
        vp = v + self.q_Q
        S = pp + r
        if %s:
            e = detection_points_flatten[i, 0] - self.x[i, 0]
            self.x[i, 0] = self.x[i, 0] + pp / S * e
            self.x[n + i, 0] = self.x[n + i, 0] + cp / S * e
            self.pos_variance[i, 0] = pp * r / S
            self.pos_vel_covariance[i, 0] = cp * r / S
            self.vel_variance[i, 0] = vp - cp * cp / S
        else:
            self.pos_variance[i, 0] = pp
            self.pos_vel_covariance[i, 0] = cp
            self.vel_variance[i, 0] = vp
"""


def opt(name, r, m, **values):
    return Unit(name, "OptimizedKalmanFilter.update", OPT % (r, m), types=_OT, shapes=_OS, values=values, setup=filter_state)


OPT_UPDATE = opt("opt_update", "self.default_r[i, 0]", "True", R=none, H=none)
OPT_MASKED = opt("opt_update_masked", "self.default_r[i, 0]", "H[i, i] == 1", R=none, H=mask)
OPT_NOISE = opt("opt_update_noise", "R[i, i]", "True", R=noise, H=none)
OPT_MASKED_NOISE = opt("opt_update_masked_noise", "R[i, i]", "H[i, i] == 1", R=noise, H=mask)

OPT_FACTORY_INIT = Unit("opt_factory_init", "OptimizedKalmanFilterFactory.__init__", """
def spec(self, R=4.0, Q=0.1, pos_variance=10, pos_vel_covariance=0, vel_variance=1):
    self.R = R
    self.Q = Q
    self.pos_variance = pos_variance
    self.pos_vel_covariance = pos_vel_covariance
    self.vel_variance = vel_variance
""")

OPT_FACTORY = Unit("opt_create", "OptimizedKalmanFilterFactory.create_filter", """
def spec(self, initial_detection):
    n = initial_detection.shape[0] * initial_detection.shape[1]
    f = OptimizedKalmanFilter(2 * n, n, pos_variance=self.pos_variance, pos_vel_covariance=self.pos_vel_covariance,
                              vel_variance=self.vel_variance, q=self.Q, r=self.R)
    for i in range(n):
        f.x[i, 0] = initial_detection[i // initial_detection.shape[1], i % initial_detection.shape[1]]
    return f
""", types=PTS, shapes=PSH, classes=("OptimizedKalmanFilter",))
