"""Specifications of files and videos: metrics.py, video.py, utils.py."""
from nfa.unit import Unit
from nfa.terms import *
from nfa.terms import const



def box(I, st, bound, ev):
    """the estimate of a predicted box: its two corners"""
    t = mk("attr", next(iter(bound.values())), "estimate")
    Ctx.types[t] = "arr"
    Ctx.shapes[t] = (num(2), num(2))
    return t


# what is scored and written are boxes
EST = dict(stops=("TrackedObject.estimate",), effects={"TrackedObject.estimate": box}, exclude=("event:estimate",))


def searched(I, st, bound, ev):
    """what seqinfo.ini says under a name"""
    recv, name = bound.values()
    if not is_str_const(name):
        return mk("call", "search", (recv, name), ())
    if recv.op == "ite":
        return ite(recv.args[0], *[searched(I, st, {"self": r, "name": name}, ev) for r in recv.args[1:]])
    t = mk("sym", "ini:new:" + str_value(name)) if recv.op == "obj" else mk("attr", recv, "ini:" + str_value(name))
    if str_value(name) in ("imWidth", "imHeight", "frameRate", "seqLength"):
        Ctx.types[t] = "int"
    return t


INFO = dict(stops=("InformationFile.search", "InformationFile"), effects={"InformationFile.search": searched},
            exclude=("event:search",))

# ---------------------------------------------------------------- seqinfo.ini
INFO_INIT = Unit("info_init", "InformationFile.__init__", """
def spec(self, file_path):
    self.path = file_path
    with open(file_path, "r") as f:
        text = f.read()
    self.lines = text.splitlines()
""", types=dict(file_path="str"), mtypes={"read": "str"}, exclude=("event:*",))
INFO_SEARCH = Unit("info_search", "InformationFile.search", """
def spec(self, variable_name):
    n = len(variable_name)
    hits = [line for line in self.lines if line[:n] == variable_name]
    if len(hits) == 0:
        raise ValueError("not found")
    value = hits[0][n + 1:]
    return int(value) if value.isdigit() else value
""", types={"variable_name": "str", "self.lines": ("list", "str")})

# ---------------------------------------------------------------- MOT files
_BOXES = {"predictions": ("list", ("cls", "TrackedObject"))}
PRED_UPDATE = Unit("pred_update", "PredictionsTextFile.update", """
def spec(self, predictions, frame_number=None):
    k = self.frame_number if frame_number is None else frame_number
    for obj in predictions:
        e = obj.estimate
        left, top = e[0, 0], e[0, 1]
        self.text_file.write(f"{int(k)},{int(obj.id)},{left},{top},{e[1, 0] - left},{e[1, 1] - top},-1,-1,-1,-1\\n")
    self.frame_number = self.frame_number + 1
    if self.frame_number > self.length:
        self.text_file.close()
""", types=dict(_BOXES, frame_number=("opt", "int"), **{"self.frame_number": "int", "self.length": "int", "self.text_file": "file"}), **EST)
PRED_INIT = Unit("pred_init", "PredictionsTextFile.__init__", """
def spec(self, input_path, save_path=".", information_file=None):
    info = InformationFile(file_path=os.path.join(input_path, "seqinfo.ini")) if information_file is None else information_file
    self.length = info.search("seqLength")
    folder = os.path.join(save_path, "predictions")
    if not os.path.exists(folder):
        os.makedirs(folder)
    self.text_file = open(os.path.join(folder, os.path.split(input_path)[1] + ".txt"), "w+")
    self.frame_number = 1
""", types=dict(input_path="str", save_path="str", information_file=("opt", ("cls", "InformationFile"))), **INFO)

ACC_UPDATE = Unit("acc_update", "Accumulators.update", """
def spec(self, predictions=None):
    for obj in [] if predictions is None else predictions:
        e = obj.estimate
        row = [self.frame_number, obj.id, e[0, 0], e[0, 1], e[1, 0] - e[0, 0], e[1, 1] - e[0, 1], -1, -1, -1, -1]
        if np.shape(self.matrix_predictions)[0] == 0:
            self.matrix_predictions = np.array([row])
        else:
            self.matrix_predictions = np.vstack((self.matrix_predictions, row))
    self.frame_number = self.frame_number + 1
    try:
        next(self.progress_bar_iter)
    except StopIteration:
        self.matrixes_predictions.append(self.matrix_predictions)
""", types={"predictions": ("opt", ("list", ("cls", "TrackedObject"))), "self.frame_number": "int", "self.matrixes_predictions": ("list", None)}, **EST)
ACC_CREATE = Unit("acc_create", "Accumulators.create_accumulator", """
def spec(self, input_path, information_file=None):
    mm.metrics
    self.frame_number = 1
    self.paths = np.hstack((self.paths, input_path))
    self.matrix_predictions = []
    info = InformationFile(file_path=os.path.join(input_path, "seqinfo.ini")) if information_file is None else information_file
    length = info.search("seqLength")
    self.progress_bar_iter = track(range(length - 1), description=os.path.split(input_path)[1], transient=False)
""", types=dict(input_path="str", information_file=("opt", ("cls", "InformationFile"))), **INFO)

DFP_INIT = Unit("dfp_init", "DetectionFileParser.__init__", """
def spec(self, input_path, information_file=None):
    m = np.loadtxt(os.path.join(input_path, "det/det.txt"), dtype="f", delimiter=",", ndmin=2)
    m = m[np.argsort(m[:, 0])]
    m[:, 4] = m[:, 2] + m[:, 4]
    m[:, 5] = m[:, 3] + m[:, 5]
    self.matrix_detections = m
    info = InformationFile(file_path=os.path.join(input_path, "seqinfo.ini")) if information_file is None else information_file
    self.length = info.search("seqLength")
    self.sorted_by_frame = [self.get_dets_from_frame(k + 1) for k in range(self.length)]
    self.frame_number = 1
""", types=dict(input_path="str", information_file=("opt", ("cls", "InformationFile"))), **dict(INFO, stops=INFO["stops"] + ("DetectionFileParser.get_dets_from_frame",)))
DFP_FRAME = Unit("dfp_frame", "DetectionFileParser.get_dets_from_frame", """
def spec(self, frame_number):
    m = self.matrix_detections
    out = []
    for i in range(len(m)):
        if m[i, 0] == frame_number:
            out.append(Detection(np.array([[m[i, 2], m[i, 3]], [m[i, 4], m[i, 5]]]), np.array([m[i, 6], m[i, 6]])))
    self.actual_detections = out
    return out
""", types=dict(frame_number="int"), shapes={"self.matrix_detections": ("R", "C")})
DFP_ITER = Unit("dfp_iter", "DetectionFileParser.__iter__", """
def spec(self):
    self.frame_number = 1
    return self
""")
DFP_NEXT = Unit("dfp_next", "DetectionFileParser.__next__", """
def spec(self):
    k = self.frame_number
    if k > self.length:
        raise StopIteration()
    self.frame_number = k + 1
    return self.sorted_by_frame[k - 1]
""", types={"self.frame_number": "int", "self.length": "int", "self.sorted_by_frame": ("list", None)},
    assume=lambda a: [le(ONE, mk("attr", a["self"], "frame_number"))])

# ---------------------------------------------------------------- frames in a folder
VFF_INIT = Unit("vff_init", "VideoFromFrames.__init__", """
def spec(self, input_path, save_path=".", information_file=None, make_video=True):
    info = metrics.InformationFile(file_path=os.path.join(input_path, "seqinfo.ini")) if information_file is None else information_file
    if make_video:
        name = os.path.split(input_path)[1]
        fps = info.search("frameRate")
        size = (info.search("imWidth"), info.search("imHeight"))
        folder = os.path.join(save_path, "videos")
        if not os.path.exists(folder):
            os.makedirs(folder)
        self.file_name = name
        self.video = cv2.VideoWriter(os.path.join(folder, name + ".mp4"), cv2.VideoWriter_fourcc(*"mp4v"), fps, size)
    self.length = info.search("seqLength")
    self.input_path = input_path
    self.frame_number = 1
    self.image_extension = info.search("imExt")
    self.image_directory = info.search("imDir")
""", types=dict(input_path="str", save_path="str", information_file=("opt", ("cls", "InformationFile")), make_video="bool"), **INFO)
VFF_ITER = Unit("vff_iter", "VideoFromFrames.__iter__", """
def spec(self):
    self.frame_number = 1
    return self
""")
VFF_NEXT = Unit("vff_next", "VideoFromFrames.__next__", """
def spec(self):
    k = self.frame_number
    if k > self.length:
        raise StopIteration()
    self.frame_number = k + 1
    return cv2.imread(os.path.join(self.input_path, self.image_directory, str(k).zfill(6) + self.image_extension))
""", types={"self.frame_number": "int", "self.length": "int", "self.image_extension": "str"})
VFF_UPDATE = Unit("vff_update", "VideoFromFrames.update", """
def spec(self, frame):
    self.video.write(frame)
    cv2.waitKey(1)
    if self.frame_number > self.length:
        cv2.destroyAllWindows()
        self.video.release()
""", types={"self.video": "writer", "self.frame_number": "int", "self.length": "int"})

# ---------------------------------------------------------------- Video
VIDEO_INIT = Unit("video_init", "Video.__init__", """
def spec(self, camera=None, input_path=None, output_path=".", output_fps=None, label="", output_fourcc=None, output_extension="mp4"):
    self.camera = camera
    self.output_path = output_path
    self.label = label
    self.output_fourcc = output_fourcc
    self.output_extension = output_extension
    self.output_video = None
    if (input_path is None) == (camera is None):
        raise ValueError("one of camera and input_path")
    if camera is not None and type(camera) is not int:
        raise ValueError("camera is an int")
    if input_path is not None:
        if "~" in input_path:
            input_path = os.path.expanduser(input_path)
        if not os.path.isfile(input_path):
            raise RuntimeError("no file")
        self.video_capture = cv2.VideoCapture(input_path)
        if int(self.video_capture.get(cv2.CAP_PROP_FRAME_COUNT)) == 0:
            raise RuntimeError("no frames")
    else:
        self.video_capture = cv2.VideoCapture(camera)
    self.input_path = input_path
    self.output_fps = self.video_capture.get(cv2.CAP_PROP_FPS) if output_fps is None else output_fps
    self.input_height = self.video_capture.get(cv2.CAP_PROP_FRAME_HEIGHT)
    self.input_width = self.video_capture.get(cv2.CAP_PROP_FRAME_WIDTH)
    self.frame_counter = 0
""", types=dict(input_path=("opt", "str"), output_path="str", output_fps=("opt", "float"), label="str",
                output_fourcc=("opt", "str"), output_extension="str"),
    exclude=("field:progress_bar", "field:task", "event:add_task", "event:rich*", "event:os.get_terminal_size"))
VIDEO_ITER = Unit("video_iter", "Video.__iter__", """
def spec(self):
    while True:
        self.frame_counter = self.frame_counter + 1
        ok, frame = self.video_capture.read()
        if not (ok is not False and frame is not None):
            break
        yield frame
    if self.output_video is not None:
        self.output_video.release()
    self.video_capture.release()
    cv2.destroyAllWindows()
""", types={"self.frame_counter": "int", "self.output_video": ("opt", "writer"), "self.video_capture": "capture", "self.progress_bar": "bar"},
    exclude=("event:time.time", "event:update", "event:os.path*", "event:close", "event:split"),
    mtypes={"read": ("tuple", "bool", ("opt", "arr"))})
VIDEO_PATH = Unit("video_path", "Video.get_output_file_path", """
def spec(self):
    if not os.path.isdir(self.output_path):
        return self.output_path
    if self.input_path is None:
        name = f"camera_{self.camera}"
    else:
        name = self.input_path.split("/")[-1].split(".")[0]
    return os.path.join(self.output_path, f"{name}_out.{self.output_extension}")
""", types={"self.output_path": "str", "self.input_path": ("opt", "str"), "self.output_extension": "str"})
VIDEO_CODEC = Unit("video_codec", "Video.get_codec_fourcc", """
def spec(self, filename):
    if self.output_fourcc is not None:
        return self.output_fourcc
    ext = filename[-3:].lower()
    if ext == "avi":
        return "XVID"
    if ext == "mp4":
        return "mp4v"
    raise RuntimeError("unknown codec")
""", types={"filename": "str", "self.output_fourcc": ("opt", "str")})
VIDEO_WRITE = Unit("video_write", "Video.write", """
def spec(self, frame):
    if self.output_video is None:
        path = self.get_output_file_path()
        self.output_video = cv2.VideoWriter(path, cv2.VideoWriter_fourcc(*self.get_codec_fourcc(path)), self.output_fps,
                                            (frame.shape[1], frame.shape[0]))
    self.output_video.write(frame)
    return cv2.waitKey(1)
""", types={"frame": "arr", "self.input_width": "float", "self.input_height": "float", "self.output_video": ("opt", "writer"), "self.output_path": "str", "self.input_path": ("opt", "str"), "self.output_extension": "str", "self.output_fourcc": ("opt", "str")},
    shapes={"frame": ("H", "W", 3)})
VIDEO_SHOW = Unit("video_show", "Video.show", """
def spec(self, frame, downsample_ratio=1.0):
    if downsample_ratio != 1.0:
        frame = cv2.resize(frame, (int(frame.shape[1] // downsample_ratio), int(frame.shape[0] // downsample_ratio)))
    cv2.imshow("Output", frame)
    return cv2.waitKey(1)
""", types={"frame": "arr", "downsample_ratio": "float"}, shapes={"frame": ("H", "W", 3)})

# ---------------------------------------------------------------- utils
VALIDATE_SPEC = """
def spec(points):
    if len(points.shape) > 2:
        raise ValueError("rank")
    return points[np.newaxis, :] if len(points.shape) == 1 else points
"""
VALIDATE0, VALIDATE1, VALIDATE2, VALIDATE3, VALIDATE_ONE, VALIDATE_FLAT, VALIDATE_SQ, VALIDATE_SQ2, VALIDATE4 = [
    Unit("validate" + "".join("_%s" % x for x in sh), "validate_points", VALIDATE_SPEC, types=dict(points="arr"), shapes={"points": sh}, strict_shapes=True)
    for sh in ((), ("N",), ("N", "K"), ("A", "B", "C"), (1, "K"), ("N", 1), (1, "B", "C"), ("A", 1, "C"), ("A", "B", "C", "D"))
]
CUTOUT = Unit("cutout", "get_cutout", """
def spec(points, image):
    x, y = points[:, 0], points[:, 1]
    return image[int(min(y)):int(max(y)), int(min(x)):int(max(x))]
""", types=dict(points="arr", image="arr"), shapes={"points": ("N", 2), "image": ("H", "W", 3)})

# ---------------------------------------------------------------- reports
TABLE = Unit("table", "print_objects_as_table", """
def spec(tracked_objects):
    table = Table(show_header=True, header_style="bold magenta")
    table.add_column("Id", style="yellow", justify="center")
    table.add_column("Age", justify="right")
    table.add_column("Hit Counter", justify="right")
    table.add_column("Last distance", justify="right")
    table.add_column("Init Id", justify="center")
    for o in tracked_objects:
        d = "-" if o.last_distance is None else f"{o.last_distance:.4f}"
        table.add_row(str(o.id), str(o.age), str(o.hit_counter), d, str(o.initializing_id))
    Console().print(table)
""", types=dict(tracked_objects=("list", ("cls", "TrackedObject"))), exclude=("event:print",))
LOAD_PRED = Unit("load_motchallenge", "load_motchallenge", """
def spec(matrix_data, min_confidence=-1):
    df = pd.DataFrame(data=matrix_data, columns=["FrameId", "Id", "X", "Y", "Width", "Height", "Confidence", "ClassId", "Visibility", "unused"])
    df = df.set_index(["FrameId", "Id"])
    df[["X", "Y"]] -= (1, 1)
    del df["unused"]
    return df[df["Confidence"] >= min_confidence]
""", types=dict(matrix_data="arr", min_confidence="float"), shapes=dict(matrix_data=("R", 10)))
COMPARE_DF = Unit("compare_dataframes", "compare_dataframes", """
def spec(gts, ts):
    accs = []
    names = []
    for k, v in ts.items():
        if k in gts:
            accs.append(mm.utils.compare_to_groundtruth(gts[k], v, "iou", distth=0.5))
            names.append(k)
    return accs, names
""", types=dict(gts=("dict", None), ts=("dict", None)), exclude=("event:print",))
EVAL = Unit("eval_motchallenge", "eval_motChallenge", """
def spec(matrixes_predictions, paths, metrics=None, generate_overall=True):
    gt = {}
    ts = {}
    for i in range(len(paths)):
        name = os.path.split(paths[i])[1]
        gt[name] = mm.io.loadtxt(os.path.join(paths[i], "gt/gt.txt"), fmt="mot15-2D", min_confidence=1)
        ts[name] = load_motchallenge(matrixes_predictions[i])
    mh = mm.metrics.create()
    accs, names = compare_dataframes(gt, ts)
    if metrics is None:
        metrics = list(mm.metrics.motchallenge_metrics)
    mm.lap.default_solver = "scipy"
    df = mh.compute_many(accs, names=names, metrics=metrics, generate_overall=generate_overall)
    return mm.io.render_summary(df, formatters=mh.formatters, namemap=mm.io.motchallenge_metric_names), df
""", types=dict(matrixes_predictions=("list", None), paths=("list", "str"), metrics=("opt", ("list", "str")), generate_overall="bool"),
    stops=("load_motchallenge", "compare_dataframes"), exclude=("event:print",),
    # one matrix of predictions for every sequence
    assume=lambda a: [eq(mk("dim", a["paths"], 0), mk("dim", a["matrixes_predictions"], 0))])
ACC_METRICS = Unit("acc_metrics", "Accumulators.compute_metrics", """
def spec(self, metrics=None, generate_overall=True):
    if metrics is None:
        metrics = list(mm.metrics.motchallenge_metrics)
    text, df = eval_motChallenge(self.matrixes_predictions, self.paths, metrics, generate_overall)
    self.summary_text = text
    self.summary_dataframe = df
    return df
""", types=dict(metrics=("opt", ("list", "str")), generate_overall="bool"), stops=("eval_motChallenge",))
ACC_SAVE = Unit("acc_save", "Accumulators.save_metrics", """
def spec(self, save_path=".", file_name="metrics.txt"):
    if not os.path.exists(save_path):
        os.makedirs(save_path)
    f = open(os.path.join(save_path, file_name), "w+")
    f.write(self.summary_text)
    f.close()
""", types=dict(save_path="str", file_name="str"))
ACC_INIT = Unit("acc_init", "Accumulators.__init__", """
def spec(self):
    self.matrixes_predictions = []
    self.paths = []
""", fresh=("matrixes_predictions", "paths"))
