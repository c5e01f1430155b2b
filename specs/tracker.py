"""Tracker: construction, one update, the queries."""
from nfa.unit import Unit, Missing, params
from nfa import roles
from nfa.terms import *
from nfa import terms as T
from nfa.arrays import dim, elem
from nfa.compare import Res

TRACKER_INIT = Unit("trk_init", "Tracker.__init__", """
def spec(self, distance_function, distance_threshold, hit_counter_max=15, initialization_delay=None,
         pointwise_hit_counter_max=4, detection_threshold=0, filter_factory=..., past_detections_length=4,
         reid_distance_function=None, reid_distance_threshold=0, reid_hit_counter_max=None):
    self.tracked_objects = []
    if isinstance(distance_function, str):
        self.distance_function = get_distance_by_name(distance_function)
    elif callable(distance_function):
        self.distance_function = ScalarDistance(distance_function)
    else:
        raise ValueError("")
    self.hit_counter_max = hit_counter_max
    self.reid_hit_counter_max = reid_hit_counter_max
    self.pointwise_hit_counter_max = pointwise_hit_counter_max
    self.filter_factory = filter_factory
    if past_detections_length < 0:
        raise ValueError("")
    self.past_detections_length = past_detections_length
    if initialization_delay is None:
        self.initialization_delay = int(hit_counter_max / 2)
    else:
        if initialization_delay < 0 or initialization_delay >= hit_counter_max:
            raise ValueError("")
        self.initialization_delay = initialization_delay
    self.distance_threshold = distance_threshold
    self.detection_threshold = detection_threshold
    if reid_distance_function is None:
        self.reid_distance_function = None
    else:
        self.reid_distance_function = ScalarDistance(reid_distance_function)
    self.reid_distance_threshold = reid_distance_threshold
    self._obj_factory = _TrackedObjectFactory()
    self._obj_factory.count = 0
    self._obj_factory.initializing_count = 0
""", types={"hit_counter_max": "int", "initialization_delay": ("opt", "int"), "pointwise_hit_counter_max": "int",
            "detection_threshold": "float", "past_detections_length": "int", "distance_threshold": "float",
            "reid_distance_threshold": "float", "reid_hit_counter_max": ("opt", "int")},
    stops=["get_distance_by_name", "ScalarDistance"], classes=["ScalarDistance"], fresh=["tracked_objects"],
    assume=lambda args: [le(ZERO, args["hit_counter_max"])])

ACTIVE = Unit("trk_active", "Tracker.get_active_objects", """
def spec(self):
    return [o for o in self.tracked_objects if not o.is_initializing and o.hit_counter >= 0]
""", fresh=["ret"])

CURRENT = Unit("trk_current", "Tracker.current_object_count", """
def spec(self):
    return len([o for o in self.tracked_objects if not o.is_initializing and o.hit_counter >= 0])
""")

TOTAL = Unit("trk_total", "Tracker.total_object_count", """
def spec(self):
    return self._obj_factory.count
""")

# --------------------------------------------------------------------------
# one matching stage; the function is found by its role
STAGE_PARAMS = ["distance_function", "distance_threshold", "objects", "candidates", "period"]
STAGE_SPEC = """
def spec(self, distance_function, distance_threshold, objects, candidates, period):
    if candidates is None or len(candidates) == 0:
        return [], [], objects
    M = distance_function.get_distances(objects, candidates)
    if np.isnan(M).any():
        raise ValueError("")
    if M.any():
        for i, m in enumerate(M.min(axis=0)):
            objects[i].current_min_distance = m if m < distance_threshold else None
    cand, obj = self.match_dets_and_objs(M, distance_threshold)
    if len(cand) == 0:
        return candidates, [], objects
    unmatched_c = [c for i, c in enumerate(candidates) if i not in cand]
    unmatched_o = [o for i, o in enumerate(objects) if i not in obj]
    matched = []
    for ci, oi in zip(cand, obj):
        d = M[ci, oi]
        c, o = candidates[ci], objects[oi]
        if d < distance_threshold:
            if isinstance(c, Detection):
                o.hit(c, period=period)
                o.last_distance = d
                matched.append(o)
            elif isinstance(c, TrackedObject):
                o.merge(c)
                self.tracked_objects.remove(c)
        else:
            unmatched_c.append(c)
            unmatched_o.append(o)
    return unmatched_c, matched, unmatched_o
"""


UPDATE_SPEC = '''
def spec(self, detections=None, period=1, coord_transformations=None):
    if detections is not None and coord_transformations is not None:
        for d in detections:
            d.update_coordinate_transformation(coord_transformations)
    alive, dead = [], []
    if self.reid_hit_counter_max is None:
        self.tracked_objects = [o for o in self.tracked_objects if o.hit_counter >= 0]
        alive = self.tracked_objects
    else:
        keep = []
        for o in self.tracked_objects:
            if (o.reid_hit_counter is None or o.reid_hit_counter >= 0) and (o.hit_counter >= 0 or not o.is_initializing):
                keep.append(o)
                if o.hit_counter >= 0:
                    alive.append(o)
                else:
                    dead.append(o)
        self.tracked_objects = keep
    for o in self.tracked_objects:
        o.tracker_step()
        o.update_coordinate_transformation(coord_transformations)
    rest, _, lost = %(s1)s
    rest, young, _ = %(s2)s
    if self.reid_distance_function is not None:
        %(s3)s
    for d in rest:
        self.tracked_objects.append(TrackedObject(
            obj_factory=self._obj_factory, initial_detection=d, hit_counter_max=self.hit_counter_max,
            initialization_delay=self.initialization_delay, pointwise_hit_counter_max=self.pointwise_hit_counter_max,
            detection_threshold=self.detection_threshold, period=period, filter_factory=self.filter_factory,
            past_detections_length=self.past_detections_length, reid_hit_counter_max=self.reid_hit_counter_max,
            coord_transformations=coord_transformations))
    return [o for o in self.tracked_objects if not o.is_initializing and o.hit_counter >= 0]
'''


T.SAME_LENGTH["~match:obj"] = "~match:cand"


def match_effect(I, st, bound, ev):
    # (checked by the rule for match_dets_and_objs) parallel lists of row and column numbers
    vs = [v for k, v in ev.kw.items() if k != "self"]
    m = vs[0] if vs else NONE
    a = tuple(sorted((k, v) for k, v in ev.kw.items() if k != "self"))
    r = []
    for k in ("cand", "obj"):
        t = mk("ret", "~match:" + k, a)
        Ctx.types[t] = ("list", "int")
        r.append(ite(or_(eq(dim(m, 0), ZERO), eq(dim(m, 1), ZERO)), mk("list"), t))
    return mk("tuple", *r)


STAGE = Unit("trk_stage", roles.stage, STAGE_SPEC,
    types={"objects": ("list", ("cls", "TrackedObject")), "candidates": ("opt", ("list", None)), "period": "int",
           "distance_threshold": "float"},
    stops=["TrackedObject.hit", "TrackedObject.merge", "Tracker.match_dets_and_objs"],
    effects={"Tracker.match_dets_and_objs": match_effect}, mtypes={"get_distances": ("arr", lambda a, k: tuple(dim(x, 0) for x in list(a) + list(k.values()))[:2][::-1])})


def update_spec(prog):
    f = roles.stage(prog)
    ps = params(f.node)[1:] if f.cls is not None and f.kind == "function" else params(f.node)
    if set(ps) >= set(STAGE_PARAMS) and len(ps) == 5:
        fmt = ", ".join("%s=%s" % (p, "{%d}" % STAGE_PARAMS.index(p)) for p in ps)
    elif len(ps) == 5:
        fmt = "{0}, {1}, {2}, {3}, {4}"
    else:
        raise Missing("parameters of the matching stage")
    callee = "self.%s" % f.name if f.cls is not None else f.name

    def call(*a):
        return callee + "(" + fmt.format(*a) + ")"

    return UPDATE_SPEC % {
        "s1": call("self.distance_function", "self.distance_threshold", "[o for o in alive if not o.is_initializing]", "detections", "period"),
        "s2": call("self.distance_function", "self.distance_threshold", "[o for o in alive if o.is_initializing]", "rest", "period"),
        "s3": call("self.reid_distance_function", "self.reid_distance_threshold", "lost + dead", "young", "period"),
    }


def member(I, st, base, objs):
    """is base an element of the list objs?"""
    c = I.content(st, objs)
    if c.op == "collect" and base.op == "at" and len(base.args) == 2:
        n, cond, body, k = c.args
        b = {}
        from nfa.state import unify
        if body.op == "at" and body.args[1] is BV(k) and body.args[0] is base.args[0]:
            return subst(cond, {BV(k): base.args[1]})
    t = mk("call", "~member", (base, I.freeze(st, objs)), ())
    Ctx.types[t] = "bool"
    return t


def stage_effect(I, st, bound, ev):
    """one stage: hits or merges into some of the objects it is given, removes
    merged candidates from the tracker's list"""
    names = list(bound)
    objs = bound.get("objects", bound[names[-3]] if len(names) >= 3 else NONE)
    cands = bound.get("candidates", bound[names[-2]] if len(names) >= 2 else NONE)
    I.nstage = getattr(I, "nstage", 0) + 1
    tag = "stage%d" % I.nstage
    none_c = or_(isnone(cands), eq(dim(I.freeze(st, cands), 0), ZERO)) if cands is not NONE else TRUE
    none_o = eq(dim(I.freeze(st, objs), 0), ZERO)
    idle = or_(none_c, none_o)
    # without candidates or objects the stage has no effect (checked by the unit STAGE)
    ev.guard = and_(ev.guard, not_(idle))
    objs_then = st.copy()

    def touched(I2, st2, base, name, old):
        m = and_(not_(idle), member(I2, objs_then, base, objs))
        u = mk("attr", base, name, tag)
        if name == "is_initializing":
            return and_(old, not_(and_(m, u)))
        return ite(m, u, old)

    for n in ("is_initializing", "hit_counter", "reid_hit_counter", "id", "global_id", "last_distance", "last_detection", "filter"):
        k = ("f", n)
        st.heap[k] = st.heap.get(k, ()) + (("fx", touched, tag),)
    me = bound.get("self")
    kc = opt_strip(ty(I.freeze(st, cands))) if cands is not NONE else None
    det = ("cls", I.prog.class_named("Detection").qual)
    ek = kc[1] if isinstance(kc, tuple) and kc[0] == "list" else None
    # only candidates that are tracked objects themselves are removed from the list
    if me is not None and ek != det and cands is not NONE:
        loc = I.read_field(st, me, "tracked_objects")
        old = I.content(st, loc)
        t = mk("ret", "~stage:tracked", (I.freeze(st, old), I.freeze(st, cands), I.freeze(st, objs)))
        Ctx.types[t] = ("list", ("cls", I.prog.class_named("TrackedObject").qual))
        I.set_content(st, loc, ite(idle, old, t))
    out = []
    for k in ("cands", "matched", "objs"):
        t = mk("ret", "~stage:" + k, tuple(sorted((a, b) for a, b in ev.kw.items())))
        Ctx.types[t] = ("list", ("cls", I.prog.class_named("TrackedObject").qual) if k != "cands" else ek)
        if k == "cands":
            v = ite(none_c, mk("list"), ite(none_o, I.freeze(st, cands), t))
        elif k == "matched":
            v = ite(idle, mk("list"), t)
        else:
            v = ite(idle, I.freeze(st, objs), t)
        out.append(I.new_ref(st, v))
    return mk("tuple", *out)


def step_effect(I, st, bound, ev):
    o = next(iter(bound.values()))
    h, r = I.read_field(st, o, "hit_counter"), I.read_field(st, o, "reid_hit_counter")
    mx = I.read_field(st, o, "reid_hit_counter_max")
    I.write_field(st, o, "reid_hit_counter", ite(isnone(r), ite(le(h, ZERO), mx, r), sub(r, ONE)))
    I.write_field(st, o, "hit_counter", sub(h, ONE))
    return NONE


def stage_target(prog):
    return [roles.stage(prog).qual]


class UpdateUnit(Unit):
    def channel(self, e):
        if getattr(e, "stage", False) or e.kind == "call" and e.name == self._stage:
            return "_stage"
        return Unit.channel(self, e)

    def stop_effects(self, prog):
        out = Unit.stop_effects(self, prog)
        self._stage = roles.stage(prog).qual
        out[self._stage] = stage_effect
        return out


UPDATE = UpdateUnit("trk_update", "Tracker.update", update_spec,
    types={"detections": ("opt", ("list", ("cls", "Detection"))), "period": "int"},
    stops=[stage_target, "TrackedObject.hit", "TrackedObject.merge", "TrackedObject.tracker_step", "TrackedObject",
           "TrackedObject.update_coordinate_transformation", "Detection.update_coordinate_transformation",
           "Tracker.match_dets_and_objs"],
    effects={"Tracker.match_dets_and_objs": match_effect, "TrackedObject.tracker_step": step_effect},
    only=["ret", "raise:*", "field:tracked_objects", "event:*", "default:*", "content:*"], fresh=["ret"])


class MatchUnit(Unit):
    """the matrix carried by the matching loop is compared up to what the loop
    can observe of it: the cells still below the threshold"""

    def align(self, impl, spec):
        thr = mk("sym", "distance_threshold")
        fi, fs = states(impl.ret), states(spec.ret)
        if len(fi) != 1 or len(fs) != 1:
            return []
        (i0, b0, x0, l0), (i1, b1, x1, l1) = fi[0], fs[0]
        if x0 or x1:
            return []
        where = "%s:%d in %s" % (impl.fi.file, impl.fi.line, impl.fi.qual)
        sh = shape(i1)
        ij = [fresh_index(), fresh_index()]
        f = Facts()
        for k in (0, 1):
            f.assume(not_(lt(ij[k], ZERO)))
            f.assume(lt(ij[k], sh[k]))
        cut = lambda m: (lambda e: ite(lt(e, thr), e, INF))(elem(m, ij))
        out = []
        ok = shape(i0) == sh
        if ok:
            r = equal(cut(i0), cut(i1), f, 500)
            ok = r.v == EQ
        if not ok:
            return [Res("available:initially", UNK, "another matrix", where)]
        H0, H1 = mk("hole", "acc", l0, 0), mk("hole", "acc", l1, 0)
        Ctx.shapes[H0] = Ctx.shapes[H1] = sh
        cells = mk("state", "~cells", sh, ZERO)
        b0, b1 = subst(b0, {H0: cells}), subst(b1, {H1: cells})
        low = elem(cells, ij)
        g = f.copy()
        g.assume(lt(low, thr))  # a cell that was available
        r = equal(lt(elem(b0, ij), thr), lt(elem(b1, ij), thr), g, 2000)
        if r.v == EQ:
            r = equal(cut(b0), cut(b1), g, 2000)
        if r.v == EQ:
            h = f.copy()
            h.assume(not_(lt(low, thr)))  # and one that was not
            r = equal(cut(b0), cut(b1), h, 2000)
        out.append(Res("available", r.v, "cells below the threshold after a match: " + r.why, where))

        def canon(t):
            memo = {}

            def go(t):
                if not t.args:
                    return t
                if t not in memo:
                    if t.op == "fold":
                        memo[t] = mk("state", "~cells", sh, go(t.args[0]))
                    else:
                        memo[t] = rebuild(t, go)
                return memo[t]

            return go(t)

        if r.v != UNK:
            impl.ret, spec.ret = canon(impl.ret), canon(spec.ret)
        return out


def states(t):
    """what is iterated, apart from the iteration"""
    return sorted({x.args[1:] for x in subterms(t) if x.op == "fold" and len(shape(x) or ()) == 2}, key=str)


MATCH = MatchUnit("C02", "Tracker.match_dets_and_objs", """
def spec(self, distance_matrix, distance_threshold):
    M = distance_matrix.copy()
    if M.size == 0:
        return [], []
    rows, cols = [], []
    while M.min() < distance_threshold:
        k = M.argmin()
        rows.append(k // M.shape[1])
        cols.append(k % M.shape[1])
        M[rows[-1], :] = distance_threshold + 1
        M[:, cols[-1]] = distance_threshold + 1
    return rows, cols
""", types={"distance_matrix": "arr", "distance_threshold": "float"}, shapes={"distance_matrix": ("C", "O")})
