"""Drawing: primitives, titles, colours, points and boxes, paths, fixed camera."""
from nfa.unit import Unit
from nfa.terms import *
from nfa import terms as T
from .distances import estimate

FRAME = {"frame": "arr"}
FS = {"frame": ("H", "W", 3)}

CIRCLE = Unit("circle", "Drawer.circle", """
def spec(cls, frame, position, radius=None, thickness=None, color=None):
    if radius is None:
        radius = int(max(max(frame.shape) * 0.005, 1))
    if thickness is None:
        thickness = radius - 1
    return cv2.circle(frame, position, radius=radius, color=color, thickness=thickness)
""", types={**FRAME, "radius": ("opt", "int"), "thickness": ("opt", "int")}, shapes=FS)

TEXT = Unit("text", "Drawer.text", """
def spec(cls, frame, text, position, size=None, color=None, thickness=None, shadow=True, shadow_color=Color.black, shadow_offset=1):
    if size is None:
        size = min(max(max(frame.shape) / 4000, 0.5), 1.5)
    if thickness is None:
        thickness = int(round(size) + 1)
    x = position[0] + thickness // 2
    y = position[1] - thickness // 2
    if shadow:
        cv2.putText(frame, text, (x + shadow_offset, y + shadow_offset), cv2.FONT_HERSHEY_SIMPLEX, size, shadow_color, thickness, cv2.LINE_AA)
    return cv2.putText(frame, text, (x, y), cv2.FONT_HERSHEY_SIMPLEX, size, color, thickness, cv2.LINE_AA)
""", types={**FRAME, "size": ("opt", "float"), "thickness": ("opt", "int"), "text": "str", "shadow": "bool",
            "shadow_offset": "int", "position": ("tuple", "int", "int")}, shapes=FS)

RECTANGLE = Unit("rectangle", "Drawer.rectangle", """
def spec(cls, frame, points, color=None, thickness=None):
    return cv2.rectangle(frame, tuple(points[0]), tuple(points[1]), color=color, thickness=thickness)
""", types={**FRAME, "thickness": ("opt", "int")}, shapes=FS)

LINE = Unit("line", "Drawer.line", """
def spec(cls, frame, start, end, color=Color.black, thickness=1):
    return cv2.line(frame, start, end, color=color, thickness=thickness)
""", types={**FRAME, "thickness": "int"}, shapes=FS)

CROSS = Unit("cross", "Drawer.cross", """
def spec(cls, frame, center, radius, color, thickness):
    x, y = center[0], center[1]
    cv2.line(frame, (x, y - radius), (x, y + radius), color=color, thickness=thickness)
    return cv2.line(frame, (x - radius, y), (x + radius, y), color=color, thickness=thickness)
""", types={**FRAME, "center": "arr", "radius": "int", "thickness": "int"}, shapes={"center": (2,), **FS})

def pair(syms):
    x, y = mk("sym", "cx"), mk("sym", "cy")
    T.Ctx.types[x] = T.Ctx.types[y] = "int"
    return mk("tuple", x, y)


CROSS_TUPLE = Unit("cross_tuple", "Drawer.cross", """
def spec(cls, frame, center, radius, color, thickness):
    x, y = center[0], center[1]
    cv2.line(frame, (x, y - radius), (x, y + radius), color=color, thickness=thickness)
    return cv2.line(frame, (x - radius, y), (x + radius, y), color=color, thickness=thickness)
""", types={**FRAME, "radius": "int", "thickness": "int"}, shapes=FS, values={"center": pair})

BLEND = Unit("blend", "Drawer.alpha_blend", """
def spec(cls, frame1, frame2, alpha=0.5, beta=None, gamma=0):
    return cv2.addWeighted(src1=frame1, src2=frame2, alpha=alpha, beta=1 - alpha if beta is None else beta, gamma=gamma)
""", types={"frame1": "arr", "frame2": "arr", "alpha": "float", "beta": ("opt", "float"), "gamma": "float"})

_TYPED = dict(stops=("TrackedObject.estimate",), effects={"TrackedObject.estimate": estimate})


def _kind(k):
    def prepare(I, st, args):
        pass

    return prepare


DRAWABLE_DET = Unit("drawable_det", "Drawable.__init__", """
def spec(self, obj=None, points=None, id=None, label=None, scores=None, live_points=None):
    self.points = obj.points
    self.id = None
    self.label = obj.label
    self.scores = obj.scores
    self.live_points = np.ones(len(obj.points), dtype=bool)
""", types={"obj": ("cls", "Detection")}, shapes={"obj.points": ("N", "D")})

DRAWABLE_OBJ = Unit("drawable_obj", "Drawable.__init__", """
def spec(self, obj=None, points=None, id=None, label=None, scores=None, live_points=None):
    self.points = obj.estimate
    self.id = obj.id
    self.label = obj.label
    self.scores = None
    self.live_points = obj.live_points
""", types={"obj": ("cls", "TrackedObject")}, shapes={"obj.estimate": ("N", "D")}, exclude=("event:estimate",), **_TYPED)

DRAWABLE_NONE = Unit("drawable_none", "Drawable.__init__", """
def spec(self, obj=None, points=None, id=None, label=None, scores=None, live_points=None):
    self.points = points
    self.id = id
    self.label = label
    self.scores = scores
    if live_points is None and points is not None:
        live_points = np.ones(len(points), dtype=bool)
    self.live_points = live_points
""", types={"points": ("opt", "arr"), "live_points": ("opt", "arr"), "scores": ("opt", "arr")}, shapes={"points": ("N", "D"), "live_points": ("N",)},
    values={"obj": lambda s: NONE})

DRAWABLE_OTHER = Unit("drawable_other", "Drawable.__init__", """
def spec(self, obj=None, points=None, id=None, label=None, scores=None, live_points=None):
    raise ValueError
""", values={"obj": lambda s: const("something else")}, only=("raise:*",))

TITLE = Unit("title", "_build_text", """
def spec(drawable, draw_labels, draw_ids, draw_scores):
    text = ""
    if draw_labels and drawable.label is not None:
        text = str(drawable.label)
    if draw_ids and drawable.id is not None:
        if len(text) > 0:
            text = text + "-"
        text = text + str(drawable.id)
    if draw_scores and drawable.scores is not None:
        if len(text) > 0:
            text = text + "-"
        text = text + str(np.round(np.mean(drawable.scores), 4))
    return text
""", types={"drawable": ("cls", "Drawable"), "draw_labels": "bool", "draw_ids": "bool", "draw_scores": "bool", "drawable.scores": ("opt", "arr"),
            "drawable.id": ("opt", "int"), "drawable.label": ("opt", "str")}, shapes={"drawable.scores": ("N",)})

CENTROID = Unit("centroid", "_centroid", """
def spec(tracked_points):
    return int(tracked_points[:, 0].mean()), int(tracked_points[:, 1].mean())
""", types={"tracked_points": "arr"}, shapes={"tracked_points": ("N", 2)})

# ------------------------------------------------------------------ colours
HEX = Unit("hex", "hex_to_bgr", """
def spec(hex_value):
    if re.match("#[a-fA-F0-9]{6}$", hex_value):
        return (int(hex_value[5:7], 16), int(hex_value[3:5], 16), int(hex_value[1:3], 16))
    if re.match("#[a-f0-9]{3}$", hex_value):
        return (int(hex_value[3] * 2, 16), int(hex_value[2] * 2, 16), int(hex_value[1] * 2, 16))
    raise ValueError
""", types={"hex_value": "str"})

PARSE_STR = Unit("parse_str", "parse_color", """
def spec(color_like):
    if color_like.startswith("#"):
        return hex_to_bgr(color_like)
    return getattr(Color, color_like)
""", types={"color_like": "str"})

PARSE_SEQ = Unit("parse_seq", "parse_color", """
def spec(color_like):
    return tuple([int(v) for v in color_like])
""", types={"color_like": ("tuple", "float", "float", "float")})

PALETTE_NAME = Unit("palette_name", "Palette.set", """
def spec(cls, palette):
    if palette not in PALETTES:
        raise ValueError
    cls._colors = PALETTES[palette]
""", types={"palette": "str"})

PALETTE_LIST = Unit("palette_list", "Palette.set", """
def spec(cls, palette):
    cls._colors = [parse_color(c) for c in palette]
""", types={"palette": ("list", "str")})

PALETTE_TUPLE = Unit("palette_tuple", "Palette.set", """
def spec(cls, palette):
    cls._colors = [parse_color(c) for c in palette]
""", types={"palette": ("tuple", "str", "str", "str")})

PALETTE_DEFAULT = Unit("palette_default", "Palette.set_default_color", """
def spec(cls, color):
    cls._default_color = parse_color(color)
""", types={"color": "str"})

CHOOSE = Unit("choose", "Palette.choose_color", """
def spec(cls, hashable):
    if hashable is None:
        return cls._default_color
    return cls._colors[abs(hash(hashable)) % len(cls._colors)]
""")

from .colors import COLORS, bgr
NAMED = Unit("named", "hex_to_bgr", """
def spec():
    return [%s]
""" % ", ".join(map(str, map(bgr, COLORS.values()))), driver="""
def use():
    return [%s]
""" % ", ".join("Color." + k for k in COLORS))

_PAL = {"tab10": ["tab%d" % (2 * i + 1) for i in range(10)], "tab20": ["tab%d" % (i + 1) for i in range(20)], "colorblind": ["cb%d" % (i + 1) for i in range(10)]}
PALETTE_TABLE = Unit("palette_table", "Palette.set", """
def spec():
    return [%s]
""" % ", ".join("[" + ", ".join(str(bgr(COLORS[c])) for c in cs) + "]" for cs in _PAL.values()), driver="""
def use():
    return [%s]
""" % ", ".join('PALETTES["%s"]' % k for k in _PAL))

# ------------------------------------------------------------------ points and boxes
_BOX_SIG = """frame, drawables=None, color="by_id", thickness=None, random_color=None, color_by_label=None,
         draw_labels=False, text_size=None, draw_ids=True, text_color=None, text_thickness=None, draw_box=True,
         detections=None, line_color=None, line_width=None, label_size=None, draw_scores=False"""
_CHOICE = """
        if color == "by_id":
            c = Palette.choose_color(d.id)
        elif color == "by_label":
            c = Palette.choose_color(d.label)
        elif color == "random":
            c = Palette.choose_color(np.random.rand())
        else:
            c = parse_color(color)
"""
BOXES = """
def spec(""" + _BOX_SIG + """):
    if random_color is not None and random_color:
        color = "random"
    if color_by_label is not None and color_by_label:
        color = "by_label"
    if detections is not None:
        drawables = detections
    if line_color is not None:
        color = line_color
    if line_width is not None:
        thickness = line_width
    if label_size is not None:
        text_size = label_size
    if color is None:
        color = "by_id"
    if thickness is None:
        thickness = int(max(frame.shape) / 500)
    if drawables is None:
        return frame
    if text_color is not None:
        text_color = parse_color(text_color)
    for obj in drawables:
        d = obj if isinstance(obj, Drawable) else Drawable(obj)
""" + _CHOICE + """
        box = d.points.astype(int)
        if draw_box:
            Drawer.rectangle(frame, tuple(box), color=c, thickness=thickness)
        title = _build_text(d, draw_labels, draw_ids, draw_scores)
        if title:
            Drawer.text(frame, title, position=(box[0, 0] - thickness // 2, box[0, 1] - thickness // 2 - 1), size=text_size,
                        color=c if text_color is None else text_color, thickness=text_thickness)
    return frame
"""
_BT = dict(frame="arr", thickness=("opt", "int"), random_color=("opt", "bool"), color_by_label=("opt", "bool"), draw_labels="bool",
           text_size=("opt", "float"), draw_ids="bool", text_thickness=("opt", "int"), draw_box="bool", line_width=("opt", "int"),
           label_size=("opt", "float"), draw_scores="bool", color=("opt", "str"), text_color=("opt", "str"), line_color=("opt", "str"),
           hide_dead_points="bool", draw_points="bool", radius=("opt", "int"))


def given(**kw):
    """fixed values of arguments"""
    return {k: (lambda v: lambda syms: v)(v) for k, v in kw.items()}


_OLD = dict(random_color=NONE, color_by_label=NONE, detections=NONE, line_color=NONE, line_width=NONE, label_size=NONE)
_OBJS = dict(drawables=("list", ("cls", "TrackedObject")))
_DETS = dict(drawables=("list", ("cls", "Detection")))
_DRWS = dict(drawables=("list", ("cls", "Drawable")), detections=("opt", ("list", ("cls", "Drawable"))))
_PLAIN = dict(draw_labels=FALSE, draw_ids=FALSE, draw_scores=FALSE)
_E = dict(exclude=("event:estimate", "event:numpy.random.*"), options={"draw_events": True}, same="frame", **_TYPED)
BOXES_OBJ = Unit("boxes_obj", "draw_boxes", BOXES, types=dict(_BT, **_OBJS), shapes=FS,
                 values=given(color=const("by_id"), text_color=NONE, **_OLD), **_E)
BOXES_DET = Unit("boxes_det", "draw_boxes", BOXES, types=dict(_BT, **_DETS), shapes=FS,
                 values=given(color=const("by_label"), **_OLD), **_E)
BOXES_COLOR = Unit("boxes_color", "draw_boxes", BOXES, types=dict(_BT, **_DRWS), shapes=FS,
                   values=given(thickness=ONE, text_color=NONE, **{**_OLD, **_PLAIN}), **_E)
BOXES_OLD = Unit("boxes_old", "draw_boxes", BOXES, types=dict(_BT, drawables="none", detections=("list", ("cls", "Drawable"))), shapes=FS,
                 values=given(color=const("by_id"), text_color=NONE, draw_labels=TRUE, draw_ids=FALSE, draw_scores=FALSE, random_color=NONE,
                              color_by_label=NONE, line_color=const("red")), **_E)
BOXES_FLAGS = Unit("boxes_flags", "draw_boxes", BOXES, types=dict(_BT, **_DRWS), shapes=FS,
                   values=given(detections=NONE, color=const("by_id"), text_color=NONE, draw_labels=FALSE, draw_ids=FALSE, draw_scores=FALSE,
                                line_color=NONE, line_width=NONE, label_size=NONE), **_E)
BOXES_NONE = Unit("boxes_none", "draw_boxes", BOXES, types=dict(_BT), shapes=FS,
                  values=given(drawables=NONE, text_color=NONE, **_OLD), **_E)

POINTS = """
def spec(frame, drawables=None, radius=None, thickness=None, color="by_id", color_by_label=None, draw_labels=True,
         text_size=None, draw_ids=True, draw_points=True, text_thickness=None, text_color=None, hide_dead_points=True,
         detections=None, label_size=None, draw_scores=False):
    if color_by_label is not None and color_by_label:
        color = "by_label"
    if detections is not None:
        drawables = detections
    if label_size is not None:
        text_size = label_size
    if drawables is None:
        return frame
    if text_color is not None:
        text_color = parse_color(text_color)
    if color is None:
        color = "by_id"
    if thickness is None:
        thickness = -1
    if radius is None:
        radius = int(round(max(max(frame.shape) * 0.002, 1)))
    for obj in drawables:
        d = obj if isinstance(obj, Drawable) else Drawable(obj)
        if hide_dead_points and not d.live_points.any():
            continue
""" + _CHOICE + """
        if draw_points:
            for point, live in zip(d.points, d.live_points):
                if live or not hide_dead_points:
                    Drawer.circle(frame, tuple(point.astype(int)), radius=radius, color=c, thickness=thickness)
        if draw_labels or draw_ids or draw_scores:
            shown = d.points[d.live_points] if d.live_points.any() else d.points
            at = (shown.mean(axis=0) - radius).astype(int)
            Drawer.text(frame, _build_text(d, draw_labels, draw_ids, draw_scores), tuple(at), size=text_size,
                        color=c if text_color is None else text_color, thickness=text_thickness)
    return frame
"""
_OLDP = dict(color_by_label=NONE, detections=NONE, label_size=NONE)
POINTS_OBJ = Unit("points_obj", "draw_points", POINTS, types=dict(_BT, **_OBJS), shapes=FS,
                  values=given(color=const("by_id"), text_color=NONE, **_OLDP), **_E)
POINTS_DET = Unit("points_det", "draw_points", POINTS, types=dict(_BT, **_DETS), shapes=FS,
                  values=given(color=const("by_label"), **_OLDP), **_E)
POINTS_COLOR = Unit("points_color", "draw_points", POINTS, types=dict(_BT, **_DRWS), shapes=FS,
                    values=given(thickness=ONE, radius=ONE, text_color=NONE, **{**_OLDP, **_PLAIN}), **_E)
POINTS_OLD = Unit("points_old", "draw_points", POINTS, types=dict(_BT, drawables="none", detections=("list", ("cls", "Drawable"))), shapes=FS,
                  values=given(color=const("by_id"), text_color=NONE, draw_labels=TRUE, draw_ids=FALSE, draw_scores=FALSE, radius=ONE,
                               thickness=ONE, hide_dead_points=FALSE), **_E)
POINTS_FLAGS = Unit("points_flags", "draw_points", POINTS, types=dict(_BT, **_DRWS), shapes=FS,
                    values=given(detections=NONE, color_by_label=FALSE, color=const("by_id"), text_color=NONE, draw_labels=FALSE, draw_ids=FALSE,
                                 draw_scores=FALSE, radius=ONE, thickness=ONE, hide_dead_points=FALSE, label_size=NONE), **_E)
POINTS_NONE = Unit("points_none", "draw_points", POINTS, types=dict(_BT), shapes=FS,
                   values=given(drawables=NONE, text_color=NONE, **_OLDP), **_E)

# ------------------------------------------------------------------ deprecated names
OLD_BOXES = Unit("draw_tracked_boxes", "draw_tracked_boxes", """
def spec(frame, objects, border_colors=None, border_width=None, id_size=None, id_thickness=None, draw_box=True,
         color_by_label=False, draw_labels=False, label_size=None, label_width=None):
    return draw_boxes(
        frame=frame, drawables=objects, color="by_label" if color_by_label else border_colors, thickness=border_width,
        text_size=label_size or id_size, text_thickness=id_thickness or label_width, draw_labels=draw_labels,
        draw_ids=id_size is not None and id_size > 0, draw_box=draw_box)
""", types=dict(frame="arr", border_colors=("opt", ("tuple", "int", "int", "int")), border_width=("opt", "int"), id_size=("opt", "float"),
                id_thickness=("opt", "int"), draw_box="bool", color_by_label="bool", draw_labels="bool", label_size=("opt", "float"),
                label_width=("opt", "int"), objects=("list", ("cls", "TrackedObject"))), shapes=FS,
    stops=("draw_boxes",), exclude=("event:warn_once",))
OLD_POINTS = Unit("draw_tracked_objects", "draw_tracked_objects", """
def spec(frame, objects, radius=None, color=None, id_size=None, id_thickness=None, draw_points=True, color_by_label=False,
         draw_labels=False, label_size=None):
    scale = frame.shape[0] / 100
    if radius is None:
        radius = int(scale * 0.5)
    if id_size is None:
        id_size = scale / 10
    if id_thickness is None:
        id_thickness = int(scale / 5)
    if label_size is None:
        label_size = int(max(scale / 100, 1))
    draw_points_(
        frame=frame, drawables=objects, color="by_label" if color_by_label else color, radius=radius, thickness=None,
        draw_labels=draw_labels, draw_ids=id_size > 0, draw_points=draw_points, text_size=label_size or id_size,
        text_thickness=id_thickness, text_color=None, hide_dead_points=True)
""".replace("draw_points_(", "_draw_points_alias("), types=dict(frame="arr", color=("opt", ("tuple", "int", "int", "int")), id_size=("opt", "float"), radius=("opt", "int"),
                id_thickness=("opt", "int"), draw_points="bool", color_by_label="bool", draw_labels="bool", label_size=("opt", "float"),
                objects=("list", ("cls", "TrackedObject"))), shapes=FS,
    stops=("draw_points",), exclude=("event:warn_once",))

# ------------------------------------------------------------------ grid
def grid(I, st, bound, ev):
    t = mk("sym", "grid")
    T.Ctx.types[t] = "arr"
    T.Ctx.shapes[t] = (mk("sym", "G"), num(2))
    T.Ctx.types[mk("sym", "G")] = "int"
    return t


GRID_DRAW = Unit("absolute_grid", "draw_absolute_grid", """
def spec(frame, coord_transformations, grid_size=20, radius=2, thickness=1, color=Color.black, polar=False):
    h, w, _ = frame.shape
    points = _get_grid(grid_size, w, h, polar=polar)
    if coord_transformations is not None:
        points = coord_transformations.abs_to_rel(points)
    for p in points:
        if p[0] <= w and p[1] <= h and p[0] >= 0 and p[1] >= 0:
            Drawer.cross(frame, p.astype(int), radius=radius, thickness=thickness, color=color)
""", types=dict(frame="arr", grid_size="int", radius="int", thickness="int", polar="bool", coord_transformations=("opt", ("cls", "CoordinatesTransformation"))),
    shapes=FS, stops=("_get_grid",), effects={"_get_grid": grid}, options={"draw_events": True},
    mtypes={"abs_to_rel": ("arr", lambda fa, fk: shape(fa[0]))}, exclude=("event:_get_grid",))
GRID = Unit("grid", "_get_grid", """
def spec(size, w, h, polar=False):
    step = np.pi / size
    start = -np.pi / 2 + step / 2
    end = np.pi / 2
    theta, fi = np.mgrid[start:end:step, start:end:step]
    if polar:
        x = np.tan(theta) * np.cos(fi)
        y = np.tan(theta) * np.sin(fi)
    else:
        x = np.tan(fi)
        y = np.tan(theta) / np.cos(fi)
    return np.stack([x.flatten(), y.flatten()], axis=1) * max(h, w) + np.array([w // 2, h // 2])
""", types=dict(size="int", w="int", h="int", polar="bool"))
