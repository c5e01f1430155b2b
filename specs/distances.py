"""Distances: matrices, formulas, selection by name."""
from nfa.unit import Unit
from nfa.terms import *

def dist_calls(e):
    """calls of the wrapped distance function"""
    if e.kind == "ucall" and e.recv is not None and e.recv.op == "attr" and e.recv.args[1] == "distance_function":
        return "distance_function"
    return None


DO = {"objects": ("list", ("cls", "TrackedObject")), "candidates": ("list", ("cls", "Detection"))}
OO = {"objects": ("list", ("cls", "TrackedObject")), "candidates": ("list", ("cls", "TrackedObject"))}

SCALAR = """
def spec(self, objects, candidates):
    D = np.full((len(candidates), len(objects)), np.inf, dtype=np.float32)
    for c in range(len(candidates)):
        for o in range(len(objects)):
            if candidates[c].label == objects[o].label:
                D[c, o] = self.distance_function(candidates[c], objects[o])
    return D
"""
SCALAR_DET = Unit("scalar_det", "ScalarDistance.get_distances", SCALAR, types=DO, events=dist_calls)
SCALAR_OBJ = Unit("scalar_obj", "ScalarDistance.get_distances", SCALAR, types=OO, events=dist_calls)

VECTOR = """
def spec(self, objects, candidates):
    D = np.full((len(candidates), len(objects)), np.inf, dtype=np.float32)
    if len(objects) == 0 or len(candidates) == 0:
        return D
    for label in {o.label for o in objects}:
        rows = np.array([c.label == label for c in candidates])
        cols = np.array([o.label == label for o in objects])
        if rows.any() and cols.any():
            D[np.ix_(rows, cols)] = self.distance_function(
                np.stack([c.POINTS.ravel() for c in candidates if c.label == label]),
                np.stack([o.estimate.ravel() for o in objects if o.label == label]),
            )
    return D
"""
# one candidate and one object, whatever their labels
VECTOR_PAIR = Unit("vector_pair", "VectorizedDistance.get_distances", """
def spec(dist, c, o):
    D = np.full((1, 1), np.inf, dtype=np.float32)
    if c.label == o.label:
        all_of_them = np.array([True])
        D[np.ix_(all_of_them, all_of_them)] = dist.distance_function(np.stack([c.points.ravel()]), np.stack([o.estimate.ravel()]))
    return D
""", driver="""
def use(dist, c, o):
    return dist.get_distances([o], [c])
""", types={"dist": ("cls", "VectorizedDistance"), "c": ("cls", "Detection"), "o": ("cls", "TrackedObject")}, only=["ret"])
VECTOR_DET = Unit("vector_det", "VectorizedDistance.get_distances", VECTOR.replace("POINTS", "points"), types=DO, events=dist_calls)
VECTOR_OBJ = Unit("vector_obj", "VectorizedDistance.get_distances", VECTOR.replace("POINTS", "estimate"), types=OO, events=dist_calls)

def estimate(I, st, bound, ev):
    """the estimate of an object: an arbitrary array"""
    return mk("attr", next(iter(bound.values())), "estimate")


EST = dict(stops=("TrackedObject.estimate",), effects={"TrackedObject.estimate": estimate}, exclude=("event:estimate",))
ND = {"detection.points": ("N", "D"), "tracked_object.estimate": ("N", "D")}
PAIR = {"detection": ("cls", "Detection"), "tracked_object": ("cls", "TrackedObject")}

FROBENIUS = Unit("frobenius", "frobenius", """
def spec(detection, tracked_object):
    d = detection.points - tracked_object.estimate
    return np.sqrt((d * d).sum())
""", types=PAIR, shapes=ND, **EST)

MEAN_EUCLIDEAN = Unit("mean_euclidean", "mean_euclidean", """
def spec(detection, tracked_object):
    d = detection.points - tracked_object.estimate
    return np.sqrt((d * d).sum(axis=1)).mean()
""", types=PAIR, shapes=ND, **EST)

MEAN_MANHATTAN = Unit("mean_manhattan", "mean_manhattan", """
def spec(detection, tracked_object):
    d = detection.points - tracked_object.estimate
    return np.abs(d).sum(axis=1).mean()
""", types=PAIR, shapes=ND, **EST)

IOU = Unit("iou", "iou", """
def spec(candidates, objects):
    if not (isinstance(candidates, np.ndarray) and len(candidates.shape) == 2 and candidates.shape[1] == 4):
        raise AssertionError
    out = np.zeros((len(candidates), len(objects)))
    for i in range(len(candidates)):
        for j in range(len(objects)):
            a = candidates[i]
            b = objects[j]
            w = max(min(a[2], b[2]) - max(a[0], b[0]), 0)
            h = max(min(a[3], b[3]) - max(a[1], b[1]), 0)
            union = (a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - w * h
            out[i, j] = 1 - w * h / union
    return out
""", types={"candidates": "arr", "objects": "arr"}, shapes={"candidates": ("N", 4), "objects": ("K", 4)})

IOU_ANY = Unit("iou_any", "iou", """
def spec(candidates, objects):
    if candidates.shape[1] != 4:
        raise AssertionError
""", types={"candidates": "arr", "objects": "arr"}, shapes={"candidates": ("N", "M"), "objects": ("K", 4)},
               only=("raise:*",))

VOTING = Unit("voting", "create_keypoints_voting_distance", """
def spec(keypoint_distance_threshold, detection_threshold, detection, tracked_object):
    d = detection.points - tracked_object.estimate
    n = 0
    for i in range(len(detection.points)):
        if (np.sqrt((d[i] * d[i]).sum()) < keypoint_distance_threshold
                and detection.scores[i] > detection_threshold
                and tracked_object.last_detection.scores[i] > detection_threshold):
            n += 1
    return 1 / (1 + n)
""", driver="""
def use(keypoint_distance_threshold, detection_threshold, detection, tracked_object):
    return create_keypoints_voting_distance(keypoint_distance_threshold, detection_threshold)(detection, tracked_object)
""", types=dict(PAIR, keypoint_distance_threshold="float", detection_threshold="float"),
    shapes={"detection.scores": ("N",), "tracked_object.last_detection.scores": ("N",), **ND}, **EST)

NORMALIZED = Unit("normalized", "create_normalized_mean_euclidean_distance", """
def spec(height, width, detection, tracked_object):
    d = detection.points - tracked_object.estimate
    return np.sqrt((d[:, 0] / width) ** 2 + (d[:, 1] / height) ** 2).mean()
""", driver="""
def use(height, width, detection, tracked_object):
    return create_normalized_mean_euclidean_distance(height, width)(detection, tracked_object)
""", types=dict(PAIR, height="int", width="int"), shapes={"detection.points": ("N", 2), "tracked_object.estimate": ("N", 2)}, **EST)

SCIPY_INIT = Unit("scipy_init", "ScipyDistance.__init__", """
def spec(self, metric="euclidean", **kwargs):
    self.metric = metric
    self.distance_function = partial(cdist, metric=metric, **kwargs)
""", types={"metric": "str"})

LISTED = Unit("listed", "get_distance_by_name", """
def spec():
    return ["iou", "iou_opt", "braycurtis", "canberra", "chebyshev", "cityblock", "correlation", "cosine", "dice",
            "euclidean", "hamming", "jaccard", "jensenshannon", "kulczynski1", "mahalanobis", "matching", "minkowski",
            "rogerstanimoto", "russellrao", "seuclidean", "sokalmichener", "sokalsneath", "sqeuclidean", "yule"]
""", driver="""
def use():
    return list(AVAILABLE_VECTORIZED_DISTANCES)
""")

BYNAME = Unit("byname", "get_distance_by_name", """
def spec(name):
    scalar = {"frobenius": frobenius, "mean_manhattan": mean_manhattan, "mean_euclidean": mean_euclidean}
    if name in scalar:
        return ScalarDistance(scalar[name])
    if name in ["braycurtis", "canberra", "chebyshev", "cityblock", "correlation", "cosine", "dice", "euclidean",
                "hamming", "jaccard", "jensenshannon", "kulczynski1", "mahalanobis", "matching", "minkowski",
                "rogerstanimoto", "russellrao", "seuclidean", "sokalmichener", "sokalsneath", "sqeuclidean", "yule"]:
        return ScipyDistance(name)
    if name == "iou" or name == "iou_opt":
        return VectorizedDistance(iou)
    raise ValueError
""", types={"name": "str"}, classes=("ScalarDistance", "ScipyDistance", "VectorizedDistance"))
