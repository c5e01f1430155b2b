"""What is assumed about the values that reach the analysed functions: the types
of the public attributes (from the annotations and the constructors), array
shapes, and which classes have no common instances."""
from . import terms as T
from .terms import *

TR = "norfair.tracker."
DET, OBJ, TRK, FAC = TR + "Detection", TR + "TrackedObject", TR + "Tracker", TR + "_TrackedObjectFactory"


def L(x):
    return ("list", x)


DRAWABLE = "norfair.drawing.drawer.Drawable"


def C(q):
    return ("cls", q)


def opt(x):
    return ("opt", x)


# attributes by name (independent of the class that carries them)
COMMON = {
    "hit_counter": "int", "hit_counter_max": "int", "pointwise_hit_counter_max": "int",
    "initialization_delay": "int", "detection_threshold": "float", "initial_period": "int",
    "reid_hit_counter_max": opt("int"), "reid_hit_counter": opt("int"), "last_distance": opt("float"),
    "current_min_distance": opt("float"), "last_detection": C(DET), "is_initializing": "bool",
    "initializing_id": opt("int"), "id": opt("int"), "global_id": opt("int"),
    "detected_at_least_once_points": "arr", "point_hit_counter": "arr", "past_detections_length": "int",
    "past_detections": L(C(DET)), "dim_points": "int", "num_points": "int", "dim_z": "int",
    "points": "arr", "absolute_points": "arr", "scores": opt("arr"),
    "tracked_objects": L(C(OBJ)), "distance_threshold": "float", "reid_distance_threshold": "float",
    "count": "int", "initializing_count": "int",
    "estimate": "arr", "live_points": "arr",
}
CLASS = {
    ("norfair.drawing.drawer.Drawable", "points"): "arr",
    (OBJ, "age"): "int",
    (DET, "age"): "int",  # of the detections kept by an object
    (OBJ, "_obj_factory"): C(FAC),
    (TRK, "_obj_factory"): C(FAC),
    ("norfair.video.Video", "output_fps"): "float",
    ("norfair.metrics.InformationFile", "lines"): L("str"),
}

EXTRA = {}  # (class or None, name) -> type, set by units


def attr_type(b, name):
    if isinstance(b, tuple) and b[0] == "cls":
        r = EXTRA.get((b[1], name))
        if r is not None:
            return r
        r = CLASS.get((b[1], name))
        if r is not None:
            return r
    if (None, name) in EXTRA:
        return EXTRA[(None, name)]
    if b is None or isinstance(b, tuple) and b[0] == "cls":
        return COMMON.get(name)
    if b == "arr":
        if name in ("size", "ndim"):
            return "int"
        if name == "T":
            return "arr"
    return None


def attr_shape(t):
    base, name = t.args[0], t.args[1]
    k = opt_strip(ty(base))
    cls = k[1] if isinstance(k, tuple) and k[0] == "cls" else None
    if name == "live_points" and cls == DRAWABLE:
        return (mk("dim", mk("attr", base, "points"), 0),)
    if name in ("point_hit_counter", "detected_at_least_once_points", "live_points"):
        return (mk("attr", base, "num_points"),)
    if name in ("estimate",) and cls == OBJ:
        return (mk("attr", base, "num_points"), mk("attr", base, "dim_points"))
    if name in ("points", "absolute_points"):
        p = mk("attr", base, "points")
        return (mk("dim", p, 0), mk("dim", p, 1))
    if name == "scores":
        return (mk("dim", mk("attr", base, "points"), 0),)
    if name == "x" and base.op == "attr" and base.args[1] == "filter":
        o = base.args[0]
        n = mul(mk("attr", o, "num_points"), mk("attr", o, "dim_points"))
        return (mul(num(2), n), ONE)
    return None


DISJOINT_GROUPS = []
PROGRAM = [None]


def disjoint(c1, c2):
    """no object is an instance of both classes"""
    p = PROGRAM[0]
    n1 = c1.args[0] if isinstance(c1, Term) else c1
    n2 = c2.args[0] if isinstance(c2, Term) else c2
    if n1 == n2 or p is None:
        return False
    a, b = p.classes.get(n1), p.classes.get(n2)
    if a is not None and b is not None:
        if a in p.mro(b) or b in p.mro(a):
            return False
        # no class of the program inherits from both
        for c in p.classes.values():
            m = p.mro(c)
            if a in m and b in m:
                return False
        return True
    if a is None and b is None:
        if {n1, n2} <= EXCLUSIVE:
            return not {n1, n2} == {"builtins.int", "builtins.bool"}
        return False
    # a class of the program and a builtin one
    return (n1 in EXCLUSIVE and a is None or n2 in EXCLUSIVE and b is None) and not {n1, n2} & {CALLABLE}


CALLABLE = "collections.abc.Callable"
EXCLUSIVE = {"builtins.str", "builtins.int", "builtins.bool", "builtins.float", "builtins.list", "builtins.tuple",
             "builtins.dict", "builtins.set", "numpy.ndarray", CALLABLE}


def install(prog):
    reset_ctx()
    T._fresh[0] = 0
    PROGRAM[0] = prog
    EXTRA.clear()
    Ctx.attr_type = attr_type
    Ctx.attr_shape = attr_shape
    Ctx.size_attrs = ("num_points", "dim_points")
    Ctx.bool_arrays = ("live_points", "detected_at_least_once_points")
    Ctx.disjoint = disjoint
    T.DIMFACTS[:] = []
    Ctx.vocab = vocabulary(prog)


def vocabulary(prog):
    """attribute names whose meaning the specification shares with the program"""
    import ast

    names = set(NAMES)
    have = set()
    for m in prog.modules.values():
        if m.rel.startswith("<"):
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute):
                have.add(x.attr)
            elif isinstance(x, (ast.FunctionDef, ast.AnnAssign, ast.ClassDef)):
                have.add(getattr(x, "name", None) or getattr(getattr(x, "target", None), "id", None))
            elif isinstance(x, ast.Name):
                have.add(x.id)
    return {n for n in names if n in have or n in PUBLIC} | {"shape", "size", "T", "ndim", "dtype"}


# private names of the pinned tree that the reference snippets mention
PRIVATE = {
    "_obj_factory", "abs_to_rel", "dim_z", "initial_period", "detection_threshold", "initializing_count", "count",
    "global_count", "initial_estimate_velocity", "_initialized", "_default_color", "_colors",
}
PUBLIC = set(COMMON) | {n for _, n in CLASS if not n.startswith("_")} | {
    "x", "P", "R", "Q", "F", "H", "z", "y", "filter", "label", "age", "data", "embedding", "distance_function",
    "reid_distance_function", "filter_factory", "movement_vector", "homography_matrix", "inverse_homography_matrix",
}
NAMES = PRIVATE | PUBLIC
