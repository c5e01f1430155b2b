"""TrackedObject: what one step, one hit, one merge and the construction do."""
from nfa.unit import Unit
from nfa.terms import *
from nfa import terms as T

N, D = "self.num_points", "self.dim_points"


def obj_facts(args):
    s = args["self"]
    n, d = mk("attr", s, "num_points"), mk("attr", s, "dim_points")
    return [le(ONE, n), le(ONE, d), le(ZERO, mk("attr", s, "past_detections_length"))]


def obj_setup(I, st, args):
    s = args["self"]
    n, d = mk("attr", s, "num_points"), mk("attr", s, "dim_points")
    I.write_field(st, s, "dim_z", mul(n, d))


STEP = Unit("obj_step", "TrackedObject.tracker_step", """
def spec(self):
    if self.reid_hit_counter is None:
        if self.hit_counter <= 0:
            self.reid_hit_counter = self.reid_hit_counter_max
    else:
        self.reid_hit_counter = self.reid_hit_counter - 1
    self.hit_counter = self.hit_counter - 1
    self.point_hit_counter = self.point_hit_counter - 1
    self.age = self.age + 1
    self.filter.predict()
""", assume=obj_facts, setup=obj_setup)

HIT = Unit("obj_hit", "TrackedObject.hit", """
def spec(self, detection, period=1):
    if self.past_detections_length > 0:
        if len(self.past_detections) < self.past_detections_length:
            detection.age = self.age
            self.past_detections.append(detection)
        elif self.age >= self.past_detections[0].age * self.past_detections_length:
            self.past_detections.pop(0)
            detection.age = self.age
            self.past_detections.append(detection)
    self.last_detection = detection
    self.reid_hit_counter = None
    self.hit_counter = min(self.hit_counter_max, self.hit_counter + 2 * period)
    if self.is_initializing:
        if self.hit_counter > self.initialization_delay:
            self.is_initializing = False
            factory = self._obj_factory
            factory.count = factory.count + 1
            _TrackedObjectFactory.global_count = _TrackedObjectFactory.global_count + 1
            self.id, self.global_id = factory.count, _TrackedObjectFactory.global_count
    if detection.scores is None:
        seen = np.ones(self.num_points, dtype=bool)
    else:
        assert len(detection.scores.shape) == 1
        seen = detection.scores > self.detection_threshold
    c = self.point_hit_counter + 2 * period * seen.astype(int)
    c = np.where(c >= self.pointwise_hit_counter_max, self.pointwise_hit_counter_max, c)
    self.point_hit_counter = np.where(c < 0, 0, c)
    z = detection.absolute_points.reshape(-1, 1)
    seen_coords = np.repeat(seen, self.dim_points)
    known_coords = np.repeat(self.detected_at_least_once_points, self.dim_points)
    n = self.num_points * self.dim_points
    self.filter.update(z, None, np.hstack([np.diag(seen_coords).astype(float), np.zeros((n, n))]))
    first = np.logical_and(seen_coords, np.logical_not(known_coords))
    x = self.filter.x
    x[:n, 0] = np.where(first, z[:, 0], x[:n, 0])
    x[n:, 0] = np.where(known_coords, x[n:, 0], 0)
    self.detected_at_least_once_points = np.logical_or(self.detected_at_least_once_points, seen)
""", types={"detection": ("cls", "Detection"), "period": "int"},
    shapes={"detection.absolute_points": (N, D), "detection.scores": (N,), "detection.points": (N, D)},
    assume=lambda a: obj_facts(a) + [le(ONE, a["period"]), le(ONE, mk("attr", a["self"], "pointwise_hit_counter_max"))],
    setup=obj_setup)

MERGE = Unit("obj_merge", "TrackedObject.merge", """
def spec(self, tracked_object):
    self.reid_hit_counter = None
    self.hit_counter = self.initial_period * 2
    self.point_hit_counter = tracked_object.point_hit_counter
    self.last_distance = tracked_object.last_distance
    self.current_min_distance = tracked_object.current_min_distance
    self.last_detection = tracked_object.last_detection
    self.detected_at_least_once_points = tracked_object.detected_at_least_once_points
    self.filter = tracked_object.filter
    for d in tracked_object.past_detections:
        if self.past_detections_length > 0:
            if len(self.past_detections) < self.past_detections_length:
                d.age = self.age
                self.past_detections.append(d)
            elif self.age >= self.past_detections[0].age * self.past_detections_length:
                self.past_detections.pop(0)
                d.age = self.age
                self.past_detections.append(d)
""", types={"tracked_object": ("cls", "TrackedObject")}, assume=obj_facts)

INIT = Unit("obj_init", "TrackedObject.__init__", """
def spec(self, obj_factory, initial_detection, hit_counter_max, initialization_delay, pointwise_hit_counter_max,
         detection_threshold, period, filter_factory, past_detections_length, reid_hit_counter_max,
         coord_transformations=None):
    if not isinstance(initial_detection, Detection):
        raise ValueError("")
    self._obj_factory = obj_factory
    pts = initial_detection.absolute_points
    self.num_points, self.dim_points = pts.shape
    self.dim_z = self.num_points * self.dim_points
    self.hit_counter_max = hit_counter_max
    self.pointwise_hit_counter_max = max(pointwise_hit_counter_max, period)
    self.initialization_delay = initialization_delay
    self.detection_threshold = detection_threshold
    self.initial_period = period
    self.hit_counter = period
    self.reid_hit_counter_max = reid_hit_counter_max
    self.reid_hit_counter = None
    self.last_distance = None
    self.current_min_distance = None
    self.last_detection = initial_detection
    self.age = 0
    self.label = initial_detection.label
    obj_factory.initializing_count += 1
    self.initializing_id = obj_factory.initializing_count
    if period > initialization_delay:
        self.is_initializing = False
        obj_factory.count += 1
        _TrackedObjectFactory.global_count += 1
        self.id = obj_factory.count
        self.global_id = _TrackedObjectFactory.global_count
    else:
        self.is_initializing = True
        self.id = None
        self.global_id = None
    if initial_detection.scores is None:
        seen = np.ones(self.num_points, dtype=bool)
    else:
        seen = initial_detection.scores > detection_threshold
    self.detected_at_least_once_points = seen
    self.point_hit_counter = seen.astype(int)
    initial_detection.age = 0
    self.past_detections_length = past_detections_length
    self.past_detections = [initial_detection] if past_detections_length > 0 else []
    self.filter = filter_factory.create_filter(pts)
    if coord_transformations is None:
        self.abs_to_rel = None
    else:
        self.abs_to_rel = coord_transformations.abs_to_rel
""", types={"obj_factory": ("cls", "_TrackedObjectFactory"), "hit_counter_max": "int", "initialization_delay": "int",
            "pointwise_hit_counter_max": "int", "detection_threshold": "float", "period": "int",
            "past_detections_length": "int", "reid_hit_counter_max": ("opt", "int")},
    assume=lambda a: [le(ONE, a["period"]), le(ZERO, a["past_detections_length"])],
    fresh=["past_detections", "point_hit_counter", "detected_at_least_once_points"])

ESTIMATE = Unit("obj_get_estimate", "TrackedObject.get_estimate", """
def spec(self, absolute=False):
    n = self.num_points * self.dim_points
    p = self.filter.x[:n, 0].reshape(self.num_points, self.dim_points)
    if self.abs_to_rel is None:
        if absolute:
            raise ValueError("")
        return p
    if absolute:
        return p
    return self.abs_to_rel(p)
""", types={"absolute": "bool"}, assume=obj_facts, setup=obj_setup, fresh=["ret"])

ESTPROP = Unit("obj_estimate", "TrackedObject.estimate", """
def spec(self):
    n = self.num_points * self.dim_points
    p = self.filter.x[:n, 0].reshape(self.num_points, self.dim_points)
    return p if self.abs_to_rel is None else self.abs_to_rel(p)
""", assume=obj_facts, setup=obj_setup, fresh=["ret"])

VELOCITY = Unit("obj_velocity", "TrackedObject.estimate_velocity", """
def spec(self):
    n = self.num_points * self.dim_points
    return self.filter.x[n:, 0].reshape(self.num_points, self.dim_points)
""", assume=obj_facts, setup=obj_setup, fresh=["ret"])

LIVE = Unit("obj_live_points", "TrackedObject.live_points", """
def spec(self):
    return self.point_hit_counter > 0
""", assume=obj_facts, fresh=["ret"])

REPR = Unit("obj_repr", "TrackedObject.__repr__", """
def spec(self):
    return ""
""", assume=obj_facts)

HITPOS = Unit("obj_hit_positive", "TrackedObject.hit_counter_is_positive", """
def spec(self):
    return self.hit_counter >= 0
""")

REIDPOS = Unit("obj_reid_positive", "TrackedObject.reid_hit_counter_is_positive", """
def spec(self):
    return True if self.reid_hit_counter is None else self.reid_hit_counter >= 0
""")

OBJ_CT = Unit("obj_update_ct", "TrackedObject.update_coordinate_transformation", """
def spec(self, coordinate_transformation):
    if coordinate_transformation is not None:
        self.abs_to_rel = coordinate_transformation.abs_to_rel
""")

DET_CT = Unit("det_update_ct", "Detection.update_coordinate_transformation", """
def spec(self, coordinate_transformation):
    if coordinate_transformation is not None:
        self.absolute_points = coordinate_transformation.rel_to_abs(self.points)
""")

DET_INIT = Unit("det_init", "Detection.__init__", """
def spec(self, points, scores=None, data=None, label=None, embedding=None):
    self.points = validate_points(points)
    self.scores = scores
    self.data = data
    self.label = label
    self.absolute_points = self.points
    self.embedding = embedding
    self.age = None
""", stops=["validate_points"], rtypes={"validate_points": "arr"}, fresh=["absolute_points"])
