"""Specifications of the drawers that keep state: FixedCamera, Paths, AbsolutePaths, the grid."""
from nfa.unit import Unit
from nfa.terms import *
from nfa.terms import const

FS = {"frame": ("H", "W", 3)}
MV = {"coord_transformation.movement_vector": (2,)}
_E = dict(options={"draw_events": True})

# ---------------------------------------------------------------- fixed camera
FC_INIT = Unit("fc_init", "FixedCamera.__init__", """
def spec(self, scale=2, attenuation=0.05):
    self.scale = scale
    self._background = None
    self._attenuation_factor = 1 - attenuation
""", types=dict(scale="float", attenuation="float"))

_FC = """
def spec(self, frame, coord_transformation):
%s
    bh, bw = bg.shape[0], bg.shape[1]
    h, w = frame.shape[0], frame.shape[1]
    tl = np.array([bh // 2 - h // 2, bw // 2 - w // 2])
%s
    y, x = tl[0], tl[1]
    out = np.array([[[frame[r - y, c - x, k] if 0 <= r - y and r - y < h and 0 <= c - x and c - x < w else bg[r, c, k]
                      for k in range(frame.shape[2])] for c in range(bw)] for r in range(bh)])
    self._background = out
    return out
"""
_NEW = """
    size = np.round(np.array([frame.shape[1], frame.shape[0]]) * self.scale).astype(int)
    bg = np.zeros([size[1], size[0], frame.shape[2]], frame.dtype)
"""
_OLD = """
    bg = (self._background * self._attenuation_factor).astype(frame.dtype)
"""
_MOVE = """
    tl = np.round(coord_transformation.rel_to_abs(tl[::-1])).astype(int)[::-1]
"""
_FT = dict(frame="arr", coord_transformation=("cls", "TranslationTransformation"))
BG = {"self._background": ("BH", "BW", 3)}


def given(**kw):
    return {k: (lambda v: lambda syms: v)(v) for k, v in kw.items()}


def no_background(I, st, args):
    I.write_field(st, args["self"], "_background", NONE)


_R = dict(options={"slice_ranges": True},
          assume=lambda a: [le(ONE, mk("size", x)) for x in ("H", "W", "BH", "BW")])
FC_NEXT = Unit("fc_next", "FixedCamera.adjust_frame", _FC % (_OLD, _MOVE), types=_FT, shapes=dict(FS, **BG, **MV), **_R)
FC_FIRST = Unit("fc_first", "FixedCamera.adjust_frame", _FC % (_NEW, _MOVE), types=_FT, shapes=dict(FS, **MV), setup=no_background, **_R)
FC_STILL = Unit("fc_still", "FixedCamera.adjust_frame", _FC % (_OLD, ""), types=dict(frame="arr"), shapes=dict(FS, **BG),
                values=given(coord_transformation=NONE), **_R)

# ---------------------------------------------------------------- paths
_INIT_T = dict(thickness=("opt", "int"), color=("opt", "arr"), radius=("opt", "int"), attenuation="float")
PATHS_INIT = Unit("paths_init", "Paths.__init__", """
def spec(self, get_points_to_draw=None, thickness=None, color=None, radius=None, attenuation=0.01):
    def mean_point(points):
        return [np.mean(np.array(points), axis=0)]
    self.get_points_to_draw = mean_point if get_points_to_draw is None else get_points_to_draw
    self.radius = radius
    self.thickness = thickness
    self.color = color
    self.mask = None
    self.attenuation_factor = 1 - attenuation
""", types=_INIT_T, exclude=("field:get_points_to_draw",))
# the default points of interest
PATHS_MEAN = Unit("paths_mean", "Paths.draw", """
def spec(points):
    return [np.mean(points, axis=0)]
""", driver="""
def use(points):
    return Paths().get_points_to_draw(points)
""", types={"points": "arr"}, shapes={"points": ("N", "D")}, only=["ret"])

# the points of interest that the caller chooses
PATHS_OWN = Unit("paths_own", "Paths.draw", """
def spec(points, own):
    return [np.mean(points, axis=0)] if own is None else own(points)
""", driver="""
def use(points, own):
    return Paths(own).get_points_to_draw(points)
""", types={"points": "arr"}, shapes={"points": ("N", "D")}, only=["ret"])

_PATH = """
def spec(self, frame, tracked_objects):
%s
    self.mask = (self.mask * self.attenuation_factor).astype("uint8")
    for obj in tracked_objects:
        c = Palette.choose_color(obj.id) if self.color is None else self.color
        for p in self.get_points_to_draw(obj.estimate):
            Drawer.circle(self.mask, position=tuple(p.astype(int)), radius=self.radius, color=c, thickness=self.thickness)
    return Drawer.alpha_blend(self.mask, frame, alpha=1, beta=1)
"""
_PT = {"frame": "arr", "tracked_objects": ("list", ("cls", "TrackedObject")), "self.radius": ("opt", "int"), "self.thickness": ("opt", "int"),
       "self.color": ("opt", "arr")}
_SCALE = """
    s = frame.shape[0] / 100
    if self.radius is None:
        self.radius = int(max(s * 0.7, 1))
    if self.thickness is None:
        self.thickness = int(max(s / 7, 1))
"""
MASK = {"self.mask": ("H", "W", 3)}


def no_mask(I, st, args):
    I.write_field(st, args["self"], "mask", NONE)


PATHS_NEXT = Unit("paths_next", "Paths.draw", _PATH % "", types=_PT, shapes=dict(FS, **MASK), **_E)
PATHS_FIRST = Unit("paths_first", "Paths.draw", _PATH % (_SCALE + "    self.mask = np.zeros(frame.shape, np.uint8)\n"),
                   types=_PT, shapes=FS, setup=no_mask, **_E)

ABS_INIT = Unit("abs_init", "AbsolutePaths.__init__", """
def spec(self, get_points_to_draw=None, thickness=None, color=None, radius=None, max_history=20):
    self.radius = radius
    self.thickness = thickness
    self.color = color
    self.max_history = max_history
    self.alphas = np.linspace(0.99, 0.01, max_history)
""", types=dict(_INIT_T, max_history="int"), exclude=("field:get_points_to_draw", "field:past_points", "event:collections.defaultdict"))
ABS_MEAN = Unit("abs_mean", "AbsolutePaths.draw", """
def spec(points):
    return [np.mean(points, axis=0)]
""", driver="""
def use(points):
    return AbsolutePaths().get_points_to_draw(points)
""", types={"points": "arr"}, shapes={"points": ("N", "D")}, only=["ret"])
ABS_OWN = Unit("abs_own", "AbsolutePaths.draw", """
def spec(points, own):
    return [np.mean(points, axis=0)] if own is None else own(points)
""", driver="""
def use(points, own):
    return AbsolutePaths(own).get_points_to_draw(points)
""", types={"points": "arr"}, shapes={"points": ("N", "D")}, only=["ret"])
# no object has been seen at the start
ABS_EMPTY = Unit("abs_empty", "AbsolutePaths.draw", """
def spec(k):
    return []
""", driver="""
def use(k):
    return AbsolutePaths().past_points[k]
""", types={"k": "int"}, only=["ret"])
_ABS = """
def spec(self, frame, tracked_objects, coord_transform=None):
""" + _SCALE + """
    for obj in tracked_objects:
        if not obj.live_points.any():
            continue
        c = Palette.choose_color(obj.id) if self.color is None else self.color
        now = self.get_points_to_draw(obj.get_estimate(absolute=True))
        to_rel = obj.abs_to_rel if coord_transform is None else coord_transform.abs_to_rel
        for p in to_rel(now):
            Drawer.circle(frame, position=tuple(p.astype(int)), radius=self.radius, color=c, thickness=self.thickness)
        last = now
        for i, past in enumerate(self.past_points[obj.id]):
            overlay = frame.copy()
            a = to_rel(last)
            for j, p in enumerate(to_rel(past)):
                Drawer.line(overlay, tuple(a[j].astype(int)), tuple(p.astype(int)), color=c, thickness=self.thickness)
            last = past
            frame = Drawer.alpha_blend(overlay, frame, alpha=self.alphas[i])
        self.past_points[obj.id] = ([now] + self.past_points[obj.id])[:self.max_history]
    return frame
"""
ABS_DRAW = Unit("abs_draw", "AbsolutePaths.draw", _ABS, types=dict(_PT, **{"self.past_points": ("dict", ("list", None), "self.max_history")}), shapes=FS,
                assume=lambda a: [le(ONE, mk("attr", a["self"], "max_history"))], **_E)
