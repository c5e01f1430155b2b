"""Which observables of which units (and which whole-program rules) decide which property."""
import importlib

# property -> [(module, unit, [patterns of observables])]
UNITS = {}
# property -> [(module, function name)]   rules over the whole program
RULES = {}


def use(prop, module, unit, *patterns):
    UNITS.setdefault(prop, []).append((module, unit, list(patterns) or ["*"]))


def rule(prop, module, name):
    RULES.setdefault(prop, []).append((module, name))


O = "tracker_obj"
use("C04", O, "HIT", "field:id", "field:global_id", "field:count", "field:global_count", "field:initializing_*")
use("C04", O, "INIT", "field:id", "field:global_id", "field:count", "field:global_count", "field:initializing_*")
use("C04", O, "STEP", "field:id", "field:global_id", "field:initializing_id", "field:count")
use("C04", O, "MERGE", "field:id", "field:global_id", "field:initializing_id", "field:count", "field:global_count")
use("C06", O, "STEP", "field:hit_counter", "field:age", "field:point_hit_counter", "event:predict", "raise:*")
use("C06", O, "HIT", "field:hit_counter", "default:period")
use("C06", O, "INIT", "field:hit_counter", "field:hit_counter_max", "field:age")
use("C06", O, "HITPOS")
use("C07", O, "INIT", "field:is_initializing", "field:initialization_delay", "field:id", "field:global_id")
use("C07", O, "HIT", "field:is_initializing", "field:initialization_delay", "field:id", "field:global_id")
use("C07", O, "STEP", "field:is_initializing")
use("C07", O, "MERGE", "field:is_initializing")
use("C08", O, "STEP", "field:reid_hit_counter*", "field:hit_counter")
use("C08", O, "HIT", "field:reid_hit_counter*")
use("C08", O, "INIT", "field:reid_hit_counter*", "field:initial_period")
use("C08", O, "MERGE")
use("C08", O, "REIDPOS")
use("C09", O, "INIT", "field:label")
use("C09", O, "HIT", "field:label")
use("C09", O, "MERGE", "field:label")
use("C11", O, "HIT", "event:update", "field:x", "field:detected_at_least_once_points", "content:*", "raise:*", "field:detection_threshold")
use("C11", O, "INIT", "field:detected_at_least_once_points", "event:create_filter", "field:detection_threshold")
use("C12", O, "HIT", "field:point_hit_counter", "field:pointwise_hit_counter_max")
use("C12", O, "INIT", "field:point_hit_counter", "field:pointwise_hit_counter_max")
use("C12", O, "STEP", "field:point_hit_counter")
use("C12", O, "LIVE")
use("C13", O, "HIT", "field:past_detections*", "field:age", "content:*")
use("C13", O, "INIT", "field:past_detections*", "field:age")
use("C13", O, "MERGE", "field:past_detections*", "field:age")
use("C16", O, "HIT", "event:update", "field:x", "field:abs_to_rel", "field:absolute_points", "field:points")
use("C16", O, "INIT", "event:create_filter", "field:abs_to_rel", "field:absolute_points")
use("C16", O, "ESTIMATE")
use("C16", O, "ESTPROP")
use("C16", O, "OBJ_CT")
use("C16", O, "DET_CT")
use("C16", O, "DET_INIT", "field:points", "field:absolute_points")
use("C17", O, "DET_INIT", "fresh:absolute_points", "content:*")
use("C17", O, "DET_CT", "content:*", "field:points")
use("C19", O, "ESTIMATE", "field:*", "content:*", "event:*", "fresh:*")
use("C19", O, "ESTPROP", "field:*", "content:*", "event:*", "fresh:*")
use("C19", O, "REPR", "field:*", "content:*", "event:*", "raise:*")
use("C19", O, "VELOCITY")
use("C19", O, "LIVE")

K = "tracker"
use("C01", K, "STAGE", "field:last_distance", "event:hit", "event:merge", "event:match_dets_and_objs", "event:get_distances")
use("C01", K, "UPDATE", "event:_stage")
use("C01", K, "TRACKER_INIT", "field:distance_threshold", "field:reid_distance_threshold", "field:distance_function", "field:reid_distance_function")
use("C03", K, "STAGE", "ret", "event:hit", "event:merge", "event:match_dets_and_objs", "raise:*", "field:tracked_objects")
use("C03", K, "UPDATE", "event:_stage", "event:TrackedObject", "field:tracked_objects", "raise:*", "default:detections")
use("C04", K, "TOTAL")
use("C04", K, "TRACKER_INIT", "field:_obj_factory", "field:count", "field:initializing_count")
use("C04", K, "UPDATE", "event:TrackedObject")
use("C05", K, "ACTIVE", "ret")
use("C05", K, "CURRENT")
use("C05", K, "UPDATE", "ret", "field:tracked_objects")
use("C05", O, "HITPOS")
use("C06", K, "UPDATE", "event:tracker_step", "event:_stage", "event:TrackedObject", "field:tracked_objects", "default:period")
use("C06", K, "STAGE", "event:hit")
use("C07", K, "TRACKER_INIT", "field:initialization_delay", "default:initialization_delay")
use("C07", K, "UPDATE", "event:TrackedObject", "event:_stage")
use("C08", K, "UPDATE", "event:_stage", "field:tracked_objects", "event:tracker_step")
use("C08", K, "STAGE", "event:merge", "ret", "field:tracked_objects")
use("C08", K, "TRACKER_INIT", "field:reid_*", "default:reid_*")
use("C14", K, "STAGE", "raise:*")
use("C14", K, "UPDATE", "raise:*")
use("C15", K, "TRACKER_INIT", "raise:*", "field:*", "default:*", "event:*", "ret")
use("C15", K, "UPDATE", "event:TrackedObject")
use("C15", O, "INIT", "field:hit_counter_max", "field:initialization_delay", "field:pointwise_hit_counter_max",
    "field:detection_threshold", "field:past_detections_length", "field:reid_hit_counter_max", "field:initial_period",
    "event:create_filter")
use("C16", K, "UPDATE", "event:update_coordinate_transformation", "event:TrackedObject", "default:coord_transformations")
use("C17", K, "UPDATE", "content:*")
use("C17", K, "STAGE", "content:*")
use("C19", K, "ACTIVE")
use("C19", K, "CURRENT")
use("C19", K, "TOTAL")
use("C19", K, "UPDATE", "fresh:*")
use("C35", O, "INIT", "raise:*")
use("C35", O, "DET_INIT", "raise:*", "field:points")

use("C01", K, "MATCH", "ret", "raise:*")
use("C02", K, "MATCH", "ret", "available*", "raise:*")
use("C03", K, "MATCH", "ret", "available*")
use("C17", K, "MATCH", "content:*")

D = "distances"
for _u in ("SCALAR_DET", "SCALAR_OBJ", "VECTOR_DET", "VECTOR_OBJ", "VECTOR_PAIR"):
    use("C09", D, _u, "ret", "event:*")
    use("C10", D, _u, "ret", "event:*", "raise:*")
    use("C17", D, _u, "content:*")
for _u in ("FROBENIUS", "MEAN_EUCLIDEAN", "MEAN_MANHATTAN", "IOU", "VOTING", "NORMALIZED"):
    use("C21", D, _u)
use("C21", D, "IOU_ANY", "raise:*")
use("C22", D, "BYNAME")
use("C22", D, "SCIPY_INIT")
use("C22", D, "LISTED")

F = "filters"
for _u in ("FILTERPY_INIT", "FILTERPY", "NOFILTER_INIT", "NOFILTER_PREDICT", "NOFILTER_UPDATE", "NOFILTER_MASKED",
           "NOFILTER_FACTORY", "OPT_INIT", "OPT_PREDICT", "OPT_UPDATE", "OPT_MASKED", "OPT_NOISE", "OPT_MASKED_NOISE",
           "OPT_FACTORY_INIT", "OPT_FACTORY"):
    use("C20", F, _u)
use("C11", F, "NOFILTER_MASKED", "field:x")
use("C11", F, "OPT_MASKED", "field:x")

A = "camera"
for _u in ("TRANS_INIT", "TRANS_A2R", "TRANS_R2A", "HOM_INIT", "HOM_A2R", "HOM_R2A"):
    use("C23", A, _u)
    use("C17", A, _u, "content:*")
for _u in ("TG_INIT", "TG_FIRST", "TG_NEXT", "HG_INIT", "HG_FIRST", "HG_NEXT", "HG_NONE", "HG_LOST"):
    use("C24", A, _u)
for _u in ("ME_INIT", "ME_FIRST", "ME_RESAMPLE", "ME_FOLLOW", "ME_FLOW"):
    use("C25", A, _u)

W = "drawing"
for _u in ("CIRCLE", "TEXT", "RECTANGLE", "LINE", "CROSS", "CROSS_TUPLE", "BLEND"):
    use("C27", W, _u)
for _u in ("BOXES_OBJ", "BOXES_DET", "BOXES_COLOR", "BOXES_OLD", "BOXES_FLAGS", "BOXES_NONE",
           "POINTS_OBJ", "POINTS_DET", "POINTS_COLOR", "POINTS_OLD", "POINTS_FLAGS", "POINTS_NONE"):
    use("C27", W, _u)
for _u in ("BOXES_COLOR", "BOXES_FLAGS", "BOXES_OLD", "POINTS_COLOR", "POINTS_FLAGS", "BOXES_DET", "POINTS_DET", "BOXES_OBJ", "POINTS_OBJ"):
    use("C28", W, _u, "event:*", "raise:*")
for _u in ("HEX", "PARSE_STR", "PARSE_SEQ", "PALETTE_NAME", "PALETTE_LIST", "PALETTE_TUPLE", "PALETTE_DEFAULT", "CHOOSE", "NAMED", "PALETTE_TABLE"):
    use("C28", W, _u)
for _u in ("TITLE", "DRAWABLE_DET", "DRAWABLE_OBJ", "DRAWABLE_NONE", "DRAWABLE_OTHER", "CENTROID"):
    use("C31", W, _u)
for _u in ("OLD_BOXES", "OLD_POINTS", "GRID", "GRID_DRAW"):
    use("C27", W, _u)
use("C27", W, "DRAWABLE_NONE")
use("C27", W, "DRAWABLE_OBJ", "field:*", "content:*")

X = "camdraw"
for _u in ("FC_INIT", "FC_NEXT", "FC_FIRST", "FC_STILL"):
    use("C32", X, _u)
for _u in ("PATHS_INIT", "PATHS_MEAN", "PATHS_OWN", "ABS_OWN", "ABS_EMPTY", "PATHS_NEXT", "PATHS_FIRST", "ABS_INIT", "ABS_MEAN", "ABS_DRAW"):
    use("C33", X, _u)

M = "media"
for _u in ("VIDEO_INIT", "VIDEO_ITER", "VIDEO_PATH", "VIDEO_CODEC", "VIDEO_WRITE", "VIDEO_SHOW"):
    use("C29", M, _u)
for _u in ("PRED_INIT", "PRED_UPDATE", "ACC_CREATE", "ACC_UPDATE", "DFP_INIT", "DFP_FRAME", "DFP_ITER", "DFP_NEXT"):
    use("C30", M, _u)
for _u in ("INFO_INIT", "INFO_SEARCH", "VFF_INIT", "VFF_ITER", "VFF_NEXT", "VFF_UPDATE"):
    use("C34", M, _u)
for _u in ("VALIDATE0", "VALIDATE1", "VALIDATE2", "VALIDATE3", "VALIDATE_ONE", "VALIDATE_FLAT", "VALIDATE_SQ", "VALIDATE_SQ2", "VALIDATE4", "CUTOUT"):
    use("C35", M, _u)
for _u in ("LOAD_PRED", "COMPARE_DF", "EVAL", "ACC_METRICS", "ACC_SAVE", "ACC_INIT", "ACC_CREATE", "ACC_UPDATE"):
    use("C36", M, _u)
use("C36", M, "TABLE")

# memory of the caller: everything that takes arrays, lists or objects
for _m, _us in (
    (D, ("FROBENIUS", "MEAN_EUCLIDEAN", "MEAN_MANHATTAN", "IOU", "VOTING", "NORMALIZED", "SCIPY_INIT")),
    (F, ("FILTERPY", "NOFILTER_FACTORY", "NOFILTER_UPDATE", "NOFILTER_MASKED", "OPT_FACTORY", "OPT_UPDATE", "OPT_MASKED")),
    (A, ("TG_FIRST", "TG_NEXT", "HG_FIRST", "HG_NEXT", "HG_NONE", "HG_LOST", "ME_FIRST", "ME_RESAMPLE", "ME_FOLLOW")),
    (O, ("INIT", "HIT", "MERGE", "ESTIMATE", "OBJ_CT")),
    (W, ("TITLE", "DRAWABLE_DET", "DRAWABLE_OBJ", "DRAWABLE_NONE", "CENTROID", "PARSE_SEQ", "BLEND",
         "BOXES_OBJ", "BOXES_DET", "POINTS_OBJ", "POINTS_DET", "GRID_DRAW")),
    (X, ("PATHS_MEAN", "PATHS_NEXT", "ABS_MEAN", "ABS_DRAW", "FC_NEXT", "FC_STILL")),
    (M, ("PRED_UPDATE", "ACC_UPDATE", "DFP_FRAME", "VFF_UPDATE", "VIDEO_WRITE", "VIDEO_SHOW", "TABLE", "LOAD_PRED",
         "COMPARE_DF", "EVAL", "VALIDATE1", "VALIDATE2", "CUTOUT")),
):
    for _u in _us:
        use("C17", _m, _u, "content:*")

R = "rules"
rule("C26", R, "optional_imports")
rule("C18", R, "shared_state")
use("C18", O, "INIT", "field:past_detections", "field:point_hit_counter", "field:detected_at_least_once_points", "event:create_filter", "fresh:*", "content:*", "field:filter")
use("C18", O, "STEP", "content:*", "field:point_hit_counter")
use("C18", K, "TRACKER_INIT", "fresh:*", "field:tracked_objects", "field:_obj_factory", "default:*", "content:*")
use("C18", K, "UPDATE", "field:tracked_objects", "content:*")
for _u in ("FILTERPY_INIT", "FILTERPY", "NOFILTER_INIT", "NOFILTER_FACTORY", "OPT_INIT", "OPT_FACTORY_INIT", "OPT_FACTORY",
           "OPT_PREDICT", "OPT_UPDATE", "OPT_MASKED", "NOFILTER_UPDATE", "NOFILTER_MASKED", "NOFILTER_PREDICT"):
    use("C18", F, _u, "field:*", "fresh:*", "content:*")


def unit(module, name):
    return getattr(importlib.import_module("specs." + module), name)
