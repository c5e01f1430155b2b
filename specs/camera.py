"""Camera motion: transformations, getters, MotionEstimator."""
from nfa.unit import Unit
from nfa.terms import *
from nfa import terms as T

TRANS_INIT = Unit("trans_init", "TranslationTransformation.__init__", """
def spec(self, movement_vector):
    self.movement_vector = movement_vector
""", types={"movement_vector": "arr"})

_TT = dict(types={"points": "arr", "self.movement_vector": "arr"},
           shapes={"points": ("N", 2), "self.movement_vector": (2,)})

TRANS_A2R = Unit("trans_a2r", "TranslationTransformation.abs_to_rel", """
def spec(self, points):
    out = np.zeros((len(points), 2))
    for i in range(len(points)):
        for k in range(2):
            out[i, k] = points[i, k] + self.movement_vector[k]
    return out
""", fresh=("ret",), **_TT)

TRANS_R2A = Unit("trans_r2a", "TranslationTransformation.rel_to_abs", """
def spec(self, points):
    out = np.zeros((len(points), 2))
    for i in range(len(points)):
        for k in range(2):
            out[i, k] = points[i, k] - self.movement_vector[k]
    return out
""", fresh=("ret",), **_TT)

HOM_INIT = Unit("hom_init", "HomographyTransformation.__init__", """
def spec(self, homography_matrix):
    self.homography_matrix = homography_matrix
    self.inverse_homography_matrix = np.linalg.inv(homography_matrix)
""", types={"homography_matrix": "arr"}, shapes={"homography_matrix": (3, 3)})

HOM = """
def spec(self, points):
    m = self.%s
    out = np.zeros((len(points), 2))
    for i in range(len(points)):
        x = points[i, 0]
        y = points[i, 1]
        w = m[2, 0] * x + m[2, 1] * y + m[2, 2]
        if w == 0:
            w = 0.0000001
        out[i, 0] = (m[0, 0] * x + m[0, 1] * y + m[0, 2]) / w
        out[i, 1] = (m[1, 0] * x + m[1, 1] * y + m[1, 2]) / w
    return out
"""
_HT = dict(types={"points": "arr"}, shapes={
    "points": ("N", 2), "self.homography_matrix": (3, 3), "self.inverse_homography_matrix": (3, 3)})
HOM_A2R = Unit("hom_a2r", "HomographyTransformation.abs_to_rel", HOM % "homography_matrix", fresh=("ret",), **_HT)
HOM_R2A = Unit("hom_r2a", "HomographyTransformation.rel_to_abs", HOM % "inverse_homography_matrix", fresh=("ret",), **_HT)

# ---------------------------------------------------------------- getters
TG_INIT = Unit("tg_init", "TranslationTransformationGetter.__init__", """
def spec(self, bin_size=0.2, proportion_points_used_threshold=0.9):
    self.bin_size = bin_size
    self.proportion_points_used_threshold = proportion_points_used_threshold
    self.data = None
""", types={"bin_size": "float", "proportion_points_used_threshold": "float"})


def nothing_accumulated(I, st, args):
    I.write_field(st, next(iter(args.values())), "data", NONE)


TG = """
def spec(self, curr_pts, prev_pts):
    flow = np.around((curr_pts - prev_pts) / self.bin_size) * self.bin_size
    flows, counts = np.unique(flow, axis=0, return_counts=True)
    best = counts.argmax()
    total = %s
    new_reference = counts[best] / len(prev_pts) < self.proportion_points_used_threshold
    if new_reference:
        self.data = total
    return new_reference, TranslationTransformation(total)
"""
_GT = dict(types={"curr_pts": "arr", "prev_pts": "arr", "self.bin_size": "float", "self.proportion_points_used_threshold": "float"},
           classes=("TranslationTransformation", "HomographyTransformation"))
_GS = {"curr_pts": ("N", 2), "prev_pts": ("N", 2)}
TG_FIRST = Unit("tg_first", "TranslationTransformationGetter.__call__", TG % "flows[best]", setup=nothing_accumulated,
                shapes=_GS, **_GT)
TG_NEXT = Unit("tg_next", "TranslationTransformationGetter.__call__", TG % "flows[best] + self.data",
               shapes=dict(_GS, **{"self.data": (2,)}), **_GT)

HG_INIT = Unit("hg_init", "HomographyTransformationGetter.__init__", """
def spec(self, method=None, ransac_reproj_threshold=3, max_iters=2000, confidence=0.995, proportion_points_used_threshold=0.9):
    self.data = None
    self.method = cv2.RANSAC if method is None else method
    self.ransac_reproj_threshold = ransac_reproj_threshold
    self.max_iters = max_iters
    self.confidence = confidence
    self.proportion_points_used_threshold = proportion_points_used_threshold
""", types={"method": ("opt", "int"), "ransac_reproj_threshold": "int", "max_iters": "int", "confidence": "float",
            "proportion_points_used_threshold": "float"})

HG = """
def spec(self, curr_pts, prev_pts):
    if len(curr_pts) < 4 or len(prev_pts) < 4:
        return True, %s
    found, used = cv2.findHomography(prev_pts, curr_pts, method=self.method, ransacReprojThreshold=self.ransac_reproj_threshold,
                                     maxIters=self.max_iters, confidence=self.confidence)
    total = %s
    new_reference = np.sum(used) / len(used) < self.proportion_points_used_threshold
    if new_reference:
        self.data = total
    return new_reference, HomographyTransformation(total)
"""
HG_FIRST = Unit("hg_first", "HomographyTransformationGetter.__call__", HG % ("None", "found"), setup=nothing_accumulated,
                shapes=_GS, **_GT)
HG_NEXT = Unit("hg_next", "HomographyTransformationGetter.__call__", HG % ("HomographyTransformation(self.data)", "found @ self.data"),
               shapes=dict(_GS, **{"self.data": (3, 3)}), **_GT)
HG_NONE = Unit("hg_none", "HomographyTransformationGetter.__call__", """
def spec(self, curr_pts, prev_pts):
    return True, None
""", setup=nothing_accumulated, values={"curr_pts": lambda s: NONE, "prev_pts": lambda s: NONE}, classes=("HomographyTransformation",))
HG_LOST = Unit("hg_lost", "HomographyTransformationGetter.__call__", """
def spec(self, curr_pts, prev_pts):
    return True, HomographyTransformation(self.data)
""", types={"self.data": "arr"}, shapes={"self.data": (3, 3)}, values={"curr_pts": lambda s: NONE, "prev_pts": lambda s: NONE},
               classes=("HomographyTransformation",))

# ---------------------------------------------------------------- MotionEstimator
ME_INIT = Unit("me_init", "MotionEstimator.__init__", """
def spec(self, max_points=200, min_distance=15, block_size=3, transformations_getter=None, draw_flow=False, flow_color=None, quality_level=0.01):
    self.max_points = max_points
    self.min_distance = min_distance
    self.block_size = block_size
    self.draw_flow = draw_flow
    self.flow_color = [0, 0, 100] if draw_flow and flow_color is None else flow_color
    self.gray_prvs = None
    self.prev_pts = None
    self.prev_mask = None
    self.quality_level = quality_level
    if transformations_getter is None:
        transformations_getter = HomographyTransformationGetter()
    self.transformations_getter = transformations_getter
    self.transformations_getter_copy = copy.deepcopy(transformations_getter)
""", types={"max_points": "int", "min_distance": "int", "block_size": "int", "draw_flow": "bool", "quality_level": "float",
            "transformations_getter": ("opt", ("cls", "TransformationGetter"))},
    classes=("HomographyTransformationGetter", "TransformationGetter"), exclude=("field:gray_next",))

ME = """
def spec(self, frame, mask=None):
    gray_next = cv2.cvtColor(frame, cv2.COLOR_BGR2GRAY)
    if self.gray_prvs is None:
        self.gray_prvs = gray_next
        self.prev_mask = mask
    now, before = None, None
    try:
        start = self.prev_pts
        if start is None:
            start = cv2.goodFeaturesToTrack(self.gray_prvs, maxCorners=self.max_points, qualityLevel=self.quality_level,
                                            minDistance=self.min_distance, blockSize=self.block_size, mask=self.prev_mask)
        found, status, err = cv2.calcOpticalFlowPyrLK(self.gray_prvs, gray_next, start, None)
        ok = np.where(status == 1)[0]
        before = start[ok].reshape((-1, 2))
        now = found[ok].reshape((-1, 2))
    except Exception:
        now, before = None, None
    new_reference, transformation = True, None
    try:
        new_reference, transformation = self.transformations_getter(now, before)
    except Exception:
        self.transformations_getter = copy.deepcopy(self.transformations_getter_copy)
    if new_reference:
        self.gray_prvs = gray_next
        self.prev_pts = None
        self.prev_mask = mask
    else:
        self.prev_pts = before
    return transformation
"""
_MT = {"self.draw_flow": "bool", "frame": "arr", "mask": ("opt", "arr")}
_MS = {"self.prev_pts": ("P", 2)}


def _me(**given):
    def prepare(I, st, args):
        I.write_field(st, args["self"], "draw_flow", T.FALSE)
        for k, v in given.items():
            I.write_field(st, args["self"], k, v)

    return prepare

FLOW = """        for c, p in zip(now, before):
            end = tuple(c.astype(int).ravel())
            cv2.line(frame, end, tuple(p.astype(int).ravel()), self.flow_color, 2)
            cv2.circle(frame, end, 3, self.flow_color, -1)
"""

# the three situations of a call: the first frame, a new reference frame without tracked
# corners, and corners that are followed from an earlier frame
ME_FIRST = Unit("me_first", "MotionEstimator.update", ME, types=_MT, setup=_me(gray_prvs=NONE, prev_pts=NONE), escape=True, exclude=("field:gray_next",))
ME_RESAMPLE = Unit("me_resample", "MotionEstimator.update", ME, types={**_MT, "self.gray_prvs": "arr"}, setup=_me(prev_pts=NONE), escape=True, exclude=("field:gray_next",))
ME_FOLLOW = Unit("me_follow", "MotionEstimator.update", ME, types={**_MT, "self.gray_prvs": "arr", "self.prev_pts": "arr"},
                 shapes=_MS, setup=_me(), escape=True, exclude=("field:gray_next",))


def _flow(I, st, args):
    I.write_field(st, args["self"], "draw_flow", T.TRUE)


# the corners that are followed are drawn on the frame on demand
ME_FLOW = Unit("me_flow", "MotionEstimator.update", ME.replace("    except Exception:\n        now", FLOW + "    except Exception:\n        now"),
               types={**_MT, "self.gray_prvs": "arr", "self.prev_pts": "arr"}, shapes=_MS, setup=_flow, only=["event:cv2.*", "content:*"])
