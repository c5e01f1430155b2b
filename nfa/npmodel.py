"""Models of numpy functions and signatures of other externals."""
import ast
from .terms import *
from . import terms as T
from .arrays import *
from .arrays import Sl, NEWAXIS

# name -> (positional parameter names, {parameter: default term})
SIGS = {
    "cv2.circle": (["img", "center", "radius", "color", "thickness", "lineType", "shift"], {"thickness": ONE, "lineType": num(8), "shift": ZERO}),
    "cv2.line": (["img", "pt1", "pt2", "color", "thickness", "lineType", "shift"], {"thickness": ONE, "lineType": num(8), "shift": ZERO}),
    "cv2.rectangle": (["img", "pt1", "pt2", "color", "thickness", "lineType", "shift"], {"thickness": ONE, "lineType": num(8), "shift": ZERO}),
    "cv2.putText": (
        ["img", "text", "org", "fontFace", "fontScale", "color", "thickness", "lineType", "bottomLeftOrigin"],
        {"thickness": ONE, "lineType": num(8), "bottomLeftOrigin": FALSE},
    ),
    "cv2.addWeighted": (["src1", "alpha", "src2", "beta", "gamma", "dst", "dtype"], {"dst": NONE}),
    "cv2.resize": (["src", "dsize", "dst", "fx", "fy", "interpolation"], {"dst": NONE, "fx": ZERO, "fy": ZERO}),
    "cv2.VideoWriter": (["filename", "fourcc", "fps", "frameSize", "isColor"], {}),
    "cv2.VideoCapture": (["filename", "apiPreference"], {}),
    "cv2.imshow": (["winname", "mat"], {}),
    "cv2.imread": (["filename", "flags"], {}),
    "cv2.waitKey": (["delay"], {"delay": ZERO}),
    "cv2.cvtColor": (["src", "code", "dst", "dstCn"], {}),
    "cv2.findHomography": (["srcPoints", "dstPoints", "method", "ransacReprojThreshold", "mask", "maxIters", "confidence"], {}),
    "cv2.goodFeaturesToTrack": (
        ["image", "maxCorners", "qualityLevel", "minDistance", "corners", "mask", "blockSize", "useHarrisDetector", "k"],
        {},
    ),
    "cv2.calcOpticalFlowPyrLK": (["prevImg", "nextImg", "prevPts", "nextPts", "status", "err", "winSize"], {}),
    "scipy.spatial.distance.cdist": (["XA", "XB", "metric"], {"metric": const("euclidean")}),
    "filterpy.kalman.KalmanFilter": (["dim_x", "dim_z", "dim_u"], {"dim_u": ZERO}),
    "numpy.loadtxt": (["fname", "dtype", "comments", "delimiter"], {}),
    "numpy.unique": (["ar", "return_index", "return_inverse", "return_counts", "axis"], {}),
    "builtins.open": (["file", "mode", "buffering", "encoding"], {"mode": const("r")}),
    "rich.progress.track": (["sequence", "description", "total"], {}),
    "norfair.utils.warn_once": (["message"], {}),
    "collections.namedtuple": (["typename", "field_names"], {}),
    "motmetrics.utils.compare_to_groundtruth": (["gt", "dt", "dist", "distfields", "distth"], {"dist": const("iou"), "distfields": NONE, "distth": num(Fraction(1, 2))}),
    "motmetrics.MOTAccumulator": (["auto_id"], {}),
}
MUTATES = {
    "cv2.circle": "img",
    "cv2.line": "img",
    "cv2.rectangle": "img",
    "cv2.putText": "img",
}
IMPURE = {
    "builtins.open", "builtins.print", "builtins.next", "builtins.input", "builtins.exec", "builtins.setattr",
    "numpy.random.rand", "os.path.exists", "os.path.isfile", "os.path.isdir", "builtins.iter", "numpy.loadtxt",
    "builtins.__import__", "builtins.globals", "builtins.locals",
}
PURE_EXT = {
    "cv2.cvtColor", "cv2.findHomography", "cv2.goodFeaturesToTrack", "cv2.calcOpticalFlowPyrLK", "cv2.resize",
    "cv2.VideoWriter_fourcc", "cv2.addWeighted", "cv2.getTextSize", "cv2.perspectiveTransform",
    "copy.copy", "copy.deepcopy", "pandas.Series", "pandas.DataFrame",
    "colorsys.hsv_to_rgb",
}
RET_TYPES = {
    "cv2.cvtColor": "arr", "cv2.goodFeaturesToTrack": ("opt", "arr"), "cv2.resize": "arr", "cv2.addWeighted": "arr",
    "os.path.join": "str", "os.path.basename": "str", "os.path.expanduser": "str", "os.path.dirname": "str", "os.path.abspath": "str",
    "os.path.isfile": "bool", "os.path.exists": "bool", "os.path.isdir": "bool",
    "os.path.split": ("tuple", "str", "str"), "os.path.splitext": ("tuple", "str", "str"),
    "os.listdir": ("list", "str"), "cv2.waitKey": "int", "cv2.imread": "arr",
    "scipy.spatial.distance.cdist": "arr", "numpy.loadtxt": "arr", "numpy.unique": "arr",
    "numpy.random.rand": "arr", "time.time": "float", "math.sqrt": "float", "math.floor": "int", "math.ceil": "int",
    "builtins.input": "str",
}


def ret_shape(I, name, fa, fk):
    if name == "scipy.spatial.distance.cdist":
        a, b = fk.get("XA"), fk.get("XB")
        if a is not None and b is not None and shape(a) is not None and shape(b) is not None and rank(a) == rank(b) == 2:
            return (shape(a)[0], shape(b)[0])
    if name == "numpy.argsort" and fa and shape(fa[0]) is not None and rank(fa[0]) == 1:
        return shape(fa[0])
    if name == "cv2.goodFeaturesToTrack":
        return (mk("dim", mk("call", name, tuple(fa), tuple(sorted(fk.items()))), 0), ONE, num(2))
    return None


def _unique_parts(t, fk):
    x = t.args[1][0] if t.args[1] else fk.get("ar")
    sh = shape(x) if x is not None else None
    more = [k for k in ("return_index", "return_inverse", "return_counts") if fk.get(k) not in (None, FALSE)]
    if any(fk[k] is not TRUE for k in more) or sh is None or fk.get("axis", NONE) not in (NONE, ZERO):
        return None
    rows = sh[1:] if fk.get("axis", NONE) is ZERO else ()
    parts = []
    for i in range(1 + len(more)):
        u = mk("at", t, num(i)) if more else t
        T.Ctx.types[u] = "arr"
        n = mk("dim", mk("at", t, ZERO) if more else t, 0)
        if more[i - 1:i] != ["return_inverse"] or i == 0:
            T.Ctx.shapes[u] = (n,) + (rows if i == 0 else ())
        parts.append(u)
    return mk("tuple", *parts) if more else parts[0]


def ret_parts(name, t, fk):
    """externals that return a tuple of arrays"""
    if name == "numpy.unique":
        return _unique_parts(t, fk)
    if name != "cv2.calcOpticalFlowPyrLK":
        return None
    p = fk.get("prevPts")
    sh = shape(p) if p is not None else None
    parts = []
    for i in range(3):
        x = mk("at", t, num(i))
        T.Ctx.types.setdefault(x, "arr")
        if sh is not None:
            T.Ctx.shapes[x] = sh if i == 0 else (sh[0], ONE)
        parts.append(x)
    return mk("tuple", *parts)


NP = {}


def np_fn(*names):
    def deco(f):
        for n in names:
            NP["numpy." + n] = f
        return f

    return deco


def getarg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def sizes_of(t):
    if t.op in ("tuple", "list"):
        return list(t.args)
    return [t]


def arrify(t):
    """array-valued argument: nested sequences become arrays"""
    return np_array(t)


def int_const(t):
    if t is None or t is NONE:
        return None
    return int(t.args[0]) if t.op == "num" else "?"


@np_fn("array", "asarray", "copy", "ascontiguousarray", "asanyarray")
def _array(I, st, a, kw):
    t = a[0] if a else kw.get("object", kw.get("a"))
    r = arrify(t)
    dt = getarg(a, kw, 1, "dtype")
    if dt is not None and dt is not NONE:
        return I.content(st, I.astype(st, r, dt))
    return r


def _full(I, st, sh, v):
    ss = sizes_of(sh)
    if len(ss) == 1 and ss[0].op == "attr" and ss[0].args[1] == "shape":
        # like another array of unknown rank
        r = mk("call", "full_like", (ss[0].args[0], v), ())
        T.Ctx.types[r] = "arr"
        return r
    for n in ss:
        # negative sizes raise
        if n.op != "num" and st.facts.decide(lt(n, ZERO)) is None:
            st.facts = st.facts.with_(lt(n, ZERO), False)
    return mkarr(tuple(ss), v)


@np_fn("zeros")
def _zeros(I, st, a, kw):
    dt = getarg(a, kw, 1, "dtype")
    return _full(I, st, getarg(a, kw, 0, "shape"), FALSE if _isbool(dt) else ZERO)


@np_fn("ones")
def _ones(I, st, a, kw):
    dt = getarg(a, kw, 1, "dtype")
    return _full(I, st, getarg(a, kw, 0, "shape"), TRUE if _isbool(dt) else ONE)


def _isbool(dt):
    return dt is not None and dt in (mk("extf", "builtins.bool"), mk("extf", "numpy.bool_"), const("bool"))


@np_fn("full")
def _npfull(I, st, a, kw):
    return _full(I, st, getarg(a, kw, 0, "shape"), getarg(a, kw, 1, "fill_value"))


@np_fn("zeros_like")
def _zl(I, st, a, kw):
    return ew(lambda x: FALSE if ty(x) == "bool" else ZERO, a[0]) if is_arr(a[0]) else _full(I, st, mk("attr", a[0], "shape"), ZERO)


@np_fn("ones_like")
def _ol(I, st, a, kw):
    return ew(lambda x: TRUE if ty(x) == "bool" else ONE, a[0]) if is_arr(a[0]) else _full(I, st, mk("attr", a[0], "shape"), ONE)


@np_fn("full_like")
def _fl(I, st, a, kw):
    return ew(lambda x: a[1], a[0]) if is_arr(a[0]) else _full(I, st, mk("attr", a[0], "shape"), a[1])


@np_fn("eye", "identity")
def _eye(I, st, a, kw):
    n = getarg(a, kw, 0, "N", kw.get("n"))
    m = getarg(a, kw, 1, "M", n)
    if m is NONE or "dtype" in kw and len(a) < 2 or m.op == "extf":
        m = n
    k = kw.get("k", a[2] if len(a) > 2 else ZERO)
    return build((n, m), lambda i, j: ite(eq(j, add(i, k)), ONE, ZERO))


@np_fn("diag")
def _diag(I, st, a, kw):
    x = arrify(a[0])
    if rank(x) == 1:
        return build((shape(x)[0], shape(x)[0]), lambda i, j: ite(eq(i, j), elem(x, [i]), ZERO))
    return _diagonal(I, st, a, kw)


@np_fn("diagonal")
def _diagonal(I, st, a, kw):
    x = arrify(a[0])
    if kw or len(a) > 1:
        return None
    if rank(x) == 2:
        n, k = shape(x)
        if n is not k:
            n = n if Facts().decide(lt(k, n)) is False else k if Facts().decide(lt(n, k)) is False else None
            if n is None:
                return None
        return build((n,), lambda i: elem(x, [i, i]))
    return None


@np_fn("arange")
def _arange(I, st, a, kw):
    if kw:
        return None
    if len(a) == 1:
        return build((a[0],), lambda i: i)
    if len(a) == 2:
        return build((T.sub(a[1], a[0]),), lambda i: add(a[0], i))
    return None


@np_fn("linspace")
def _linspace(I, st, a, kw):
    if kw or len(a) != 3 or any(is_arr(x) or x.op in ("list", "tuple", "str", "none") for x in a):
        return None
    step = ZERO if a[2] is ONE else T.div(T.sub(a[1], a[0]), T.sub(a[2], ONE))
    return build((a[2],), lambda i: add(a[0], mul(i, step)))


def _parts(t):
    if t.op in ("list", "tuple"):
        return list(t.args)
    return None


def _repeated(t, axis):
    """the concatenation along axis of a (x,) * n tuple of equal arrays"""
    if t.op != "rep":
        return None
    x, n = arrify(t.args[0]), t.args[1]
    if not is_arr(x) or contains(x, HOLE):
        return None
    r = rank(x)
    if axis is None:
        x, axis, r = flatten(x), 0, 1
    elif axis == "h":
        axis = 0 if r == 1 else 1
    elif axis == "v":
        if r == 1:
            x, r = index(x, [NEWAXIS]), 2
        axis = 0
    if not isinstance(axis, int) or not -r <= axis < r:
        return None
    axis %= r
    sh = list(shape(x))
    ixs = [IX(k) for k in range(r)]
    ixs[axis] = T.mod(IX(axis), sh[axis]) if sh[axis] is not ONE else ZERO
    sh[axis] = mul(n, sh[axis])
    return mkarr(tuple(sh), elem(x, ixs))


@np_fn("concatenate")
def _concat(I, st, a, kw):
    if a[0].op == "rep":
        return _repeated(a[0], int_const(getarg(a, kw, 1, "axis", ZERO)))
    ps = _parts(a[0])
    ax = int_const(getarg(a, kw, 1, "axis", ZERO))
    if ps is None or ax == "?":
        return None
    if ax is None:
        ps = [flatten(arrify(p)) for p in ps]
        ax = 0
    return concatenate([arrify(p) for p in ps], ax)


@np_fn("vstack")
def _vstack(I, st, a, kw):
    if a[0].op == "rep":
        return _repeated(a[0], "v")
    ps = _parts(a[0])
    if ps is None:
        return None
    ps = [arrify(p) for p in ps]
    ps = [index(p, [NEWAXIS]) if rank(p) == 1 else p for p in ps]
    return concatenate(ps, 0)


@np_fn("hstack")
def _hstack(I, st, a, kw):
    if a[0].op == "rep":
        return _repeated(a[0], "h")
    ps = _parts(a[0])
    if ps is None:
        return None
    ps = [arrify(p) for p in ps]
    if any(rank(p) is None for p in ps):
        return None
    return concatenate(ps, 0 if rank(ps[0]) == 1 else 1)


@np_fn("column_stack")
def _column_stack(I, st, a, kw):
    ps = _parts(a[0])
    if ps is None:
        return None
    ps = [arrify(p) for p in ps]
    if any(rank(p) not in (1, 2) for p in ps):
        return None
    return concatenate([index(p, [Sl(), NEWAXIS]) if rank(p) == 1 else p for p in ps], 1)


@np_fn("stack")
def _stack(I, st, a, kw):
    ps = _parts(a[0])
    ax = int_const(getarg(a, kw, 1, "axis", ZERO))
    x = arrify(a[0]) if ps is None else np_array(mk("list", *[arrify(p) for p in ps]))
    if not is_arr(x):
        return None
    if ax == 0:
        return x
    if ax == "?":
        return None
    n = rank(x)
    if ax < 0:
        ax += n
    sh = list(shape(x))
    s0 = sh.pop(0)
    sh.insert(ax, s0)
    ix = [IX(k) for k in range(n)]
    first = ix.pop(ax)
    return mkarr(tuple(sh), elem(x, [first] + ix))


@np_fn("expand_dims")
def _expand(I, st, a, kw):
    x = arrify(a[0])
    ax = int_const(getarg(a, kw, 1, "axis"))
    if not is_arr(x) or ax in ("?", None):
        return None
    n = rank(x)
    if ax < 0:
        ax += n + 1
    return index(x, [Sl()] * ax + [NEWAXIS] + [Sl()] * (n - ax))


@np_fn("squeeze")
def _squeeze(I, st, a, kw):
    x = arrify(a[0])
    if not is_arr(x):
        return None
    ax = int_const(getarg(a, kw, 1, "axis"))
    if ax == "?":
        return None
    if ax is not None and ax < 0:
        ax += rank(x)
    if ax is not None:
        return index(x, [ZERO if ax == k else Sl() for k, s in enumerate(shape(x))])
    # a length that is not known may be one
    open_ = [k for k, s in enumerate(shape(x)) if s.op != "num" and st.facts.decide(eq(s, ONE)) is not False]
    if len(open_) > 2:
        return None

    def go(ks, ones):
        if not ks:
            return index(x, [ZERO if s is ONE or k in ones else Sl() for k, s in enumerate(shape(x))])
        return ite(eq(shape(x)[ks[0]], ONE), go(ks[1:], ones + [ks[0]]), go(ks[1:], ones))

    return go(open_, [])


@np_fn("tile")
def _tile(I, st, a, kw):
    x = arrify(a[0])
    reps = sizes_of(getarg(a, kw, 1, "reps"))
    if not is_arr(x):
        x = mkarr((ONE,), x)
    n = max(rank(x), len(reps))
    sh = [ONE] * (n - rank(x)) + list(shape(x))
    reps = [ONE] * (n - len(reps)) + reps
    ix = []
    out = []
    for k in range(n):
        out.append(mul(sh[k], reps[k]))
        if k >= n - rank(x):
            ix.append(IX(k) if reps[k] is ONE else tiled(IX(k), sh[k], reps[k], range_facts(tuple(out))) if sh[k] is not ONE else ZERO)
    return mkarr(tuple(out), elem(x, ix))


def tiled(i, n, k, facts):
    """the position in one of k copies of n elements"""
    if k.op == "num" and 2 <= k.args[0] <= 4 and n.op != "num":
        r = T.sub(i, mul(n, T.sub(k, ONE)))
        for j in range(int(k.args[0]) - 2, -1, -1):
            r = ite(lt(i, mul(n, num(j + 1))), T.sub(i, mul(n, num(j))), r)
        return r
    return T.mod(i, n, facts)


def _outer(f):
    def g(I, st, a, kw):
        x, y = [arrify(t) for t in a]
        if not is_arr(x) or not is_arr(y) or kw:
            return None
        n = rank(x)
        return mkarr(tuple(shape(x)) + tuple(shape(y)), f(elem(x, [IX(k) for k in range(n)]), elem(y, [IX(n + k) for k in range(rank(y))])))
    return g


for _n, _f in (("add", add), ("subtract", T.sub), ("multiply", mul), ("minimum", min2), ("maximum", max2)):
    NP["numpy.%s.outer" % _n] = _outer(_f)


@np_fn("outer")
def _npouter(I, st, a, kw):
    x, y = [arrify(t) for t in a[:2]]
    return _outer(mul)(I, st, [x, y], {}) if is_arr(x) and is_arr(y) and rank(x) == rank(y) == 1 and len(a) == 2 and not kw else None


@np_fn("einsum")
def _einsum(I, st, a, kw):
    """sums of products of elements, the letters name the indices"""
    if kw or not a or not is_str_const(a[0]):
        return None
    lhs, arrow, out = str_value(a[0]).replace(" ", "").partition("->")
    subs, xs = lhs.split(","), [arrify(t) for t in a[1:]]
    if not arrow or len(subs) != len(xs) or not all(is_arr(x) and rank(x) == len(s) and s.isalpha() or x is None for x, s in zip(xs, subs)):
        return None
    size, at_ = {}, {}
    for x, s in zip(xs, subs):
        for n, c in zip(shape(x), s):
            size.setdefault(c, n)
            if size[c] is ONE:
                size[c] = n
    if len(set(out)) != len(out) or not set(out) <= set(size):
        return None
    for c in size:
        at_[c] = IX(out.index(c)) if c in out else T.fresh_index()
    e = ONE
    for x, s in zip(xs, subs):
        e = mul(e, elem(x, [ZERO if n is ONE else at_[c] for n, c in zip(shape(x), s)]))
    for c in size:
        if c not in out:
            e = close_red("sum", size[c], e, at_[c])
    return mkarr(tuple(size[c] for c in out), e) if out else e


@np_fn("repeat")
def _repeat(I, st, a, kw):
    x = arrify(a[0])
    r = getarg(a, kw, 1, "repeats")
    ax = int_const(getarg(a, kw, 2, "axis"))
    if not is_arr(x) or ax == "?" or is_arr(r):
        return None
    if ax is None:
        x = flatten(x)
        ax = 0
    if ax < 0:
        ax += rank(x)
    sh = list(shape(x))
    one = sh[ax] is ONE
    sh[ax] = mul(sh[ax], r)
    ix = [IX(k) for k in range(rank(x))]
    ix[ax] = ZERO if one else fdiv(IX(ax), r)
    return mkarr(tuple(sh), elem(x, ix))


@np_fn("transpose")
def _transpose(I, st, a, kw):
    x = arrify(a[0])
    if kw or len(a) > 1 or not is_arr(x):
        return None
    return transpose(x)


def order_of(a, kw, i):
    """"C", "F", or None for an order that depends on the memory layout"""
    o = getarg(a, kw, i, "order")
    if o is None:
        return "C"
    o = str_value(o) if is_str_const(o) else None
    return o if o in ("C", "F") else None


def flatten_order(x, order):
    if order == "F":
        return flatten(transpose(x)) if is_arr(x) else None
    return flatten(x)


def reshape_order(x, sizes, order):
    if order == "F":
        return transpose(reshape(transpose(x), list(sizes)[::-1])) if is_arr(x) else None
    return reshape(x, sizes)


@np_fn("ravel")
def _ravel(I, st, a, kw):
    x, o = arrify(a[0]), order_of(a, kw, 1)
    return flatten_order(x, o) if is_arr(x) and o else None


@np_fn("reshape")
def _reshape(I, st, a, kw):
    x, o = arrify(a[0]), order_of(a, kw, 2)
    sh = getarg(a, kw, 1, "newshape", kw.get("shape"))
    return reshape_order(x, sizes_of(sh), o) if is_arr(x) and o else None


def _ewise(f):
    def g(I, st, a, kw):
        if kw:
            return None
        a = [arrify(x) for x in a]
        if any(is_arr(x) for x in a):
            if any(ty(x) == "arr" and not is_arr(x) for x in a):
                return None
            return ew(f, *a)
        if all(scalar_type(ty(x)) for x in a):
            return f(*a)
        if any(ty(x) == "arr" for x in a):
            r = f(*a)
            T.Ctx.types.setdefault(r, "arr")
            return r
        return f(*a)

    return g


def _num2(f):
    # booleans take part in arithmetic as 0 / 1
    def b(x):
        return ite(x, ONE, ZERO) if ty(x) == "bool" else x

    return lambda *xs: f(*[b(x) for x in xs])


NP["numpy.add"] = _ewise(_num2(add))
NP["numpy.subtract"] = _ewise(_num2(T.sub))
NP["numpy.multiply"] = _ewise(_num2(mul))
NP["numpy.divide"] = _ewise(_num2(div))
NP["numpy.true_divide"] = NP["numpy.divide"]
NP["numpy.power"] = _ewise(_num2(power))
NP["numpy.square"] = _ewise(_num2(lambda x: mul(x, x)))
NP["numpy.sqrt"] = _ewise(_num2(sqrt))
NP["numpy.abs"] = NP["numpy.absolute"] = _ewise(_num2(absv))
NP["numpy.negative"] = _ewise(neg)
NP["numpy.maximum"] = _ewise(max2)
NP["numpy.minimum"] = _ewise(min2)
NP["numpy.less"] = _ewise(lt)
NP["numpy.less_equal"] = _ewise(le)
NP["numpy.greater"] = _ewise(gt)
NP["numpy.greater_equal"] = _ewise(ge)
NP["numpy.equal"] = _ewise(eq)
NP["numpy.not_equal"] = _ewise(lambda x, y: not_(eq(x, y)))


def _tb(x):
    return x if ty(x) == "bool" else truthy(x)


NP["numpy.logical_not"] = _ewise(lambda x: not_(_tb(x)))
NP["numpy.logical_and"] = _ewise(lambda x, y: and_(_tb(x), _tb(y)))
NP["numpy.logical_or"] = _ewise(lambda x, y: or_(_tb(x), _tb(y)))
NP["numpy.logical_xor"] = _ewise(lambda x, y: not_(iff(_tb(x), _tb(y))))
NP["numpy.invert"] = NP["numpy.logical_not"]


@np_fn("isnan")
def _npisnan(I, st, a, kw):
    x = arrify(a[0])
    f = lambda t: FALSE if t.op == "num" or ty(t) in ("int", "bool") else mk("isnan", t)
    if is_arr(x):
        return ew(f, x)
    r = f(x)
    return r


@np_fn("clip")
def _clip(I, st, a, kw):
    x = arrify(a[0])
    lo, hi = getarg(a, kw, 1, "a_min"), getarg(a, kw, 2, "a_max")
    lo = kw.get("min", lo)
    hi = kw.get("max", hi)
    for b, f in ((lo, max2), (hi, min2)):
        if b is not None and b is not NONE:
            b = arrify(b)
            x = ew(f, x, b) if is_arr(x) or is_arr(b) else f(x, b)
    return x


def _mask_of(t):
    return ew(_tb, t)


@np_fn("nonzero")
def _nonzero(I, st, a, kw):
    c = arrify(a[0])
    sh = shape(c)
    if sh is None:
        return None
    if len(sh) == 1:
        return mk("tuple", positions(_mask_of(c)))
    if len(sh) == 2 and sh[1] is ONE:
        p = positions(_mask_of(mkarr((sh[0],), elem(c, [IX(0), ZERO]))))
        return mk("tuple", p, mkarr(shape(p), ZERO))
    return None


@np_fn("flatnonzero")
def _flatnonzero(I, st, a, kw):
    r = _nonzero(I, st, a, kw)
    return None if r is None else r.args[0]


@np_fn("argwhere")
def _argwhere(I, st, a, kw):
    c = arrify(a[0])
    sh = shape(c)
    if sh is None or len(sh) != 1:
        return None
    r = _nonzero(I, st, a, kw)
    return None if r is None else reshape(r.args[0], [shape(r.args[0])[0], ONE])


@np_fn("where")
def _where(I, st, a, kw):
    if len(a) == 1:
        return _nonzero(I, st, a, kw)
    if len(a) != 3:
        return None
    c, x, y = [arrify(t) for t in a]
    if not any(is_arr(t) for t in (c, x, y)):
        return None
    return ew(lambda c, x, y: ite(_tb(c), x, y), c, x, y)


def _round(I, st, a, kw):
    x = arrify(a[0])
    dec = getarg(a, kw, 1, "decimals", ZERO)
    f = lambda t: t if ty(t) == "int" else mk("call", "npround", (t, dec), ())
    return ew(f, x) if is_arr(x) else (None if ty(x) == "arr" else f(x))


NP["numpy.round"] = NP["numpy.around"] = NP["numpy.round_"] = _round
NP["numpy.floor"] = _ewise(lambda t: mk("call", "floor", (t,), ()))
NP["numpy.ceil"] = _ewise(lambda t: mk("call", "ceil", (t,), ()))


def _reduction(op, boolsum=False):
    def g(I, st, a, kw):
        x = arrify(a[0])
        ax = getarg(a, kw, 1, "axis")
        keep = kw.get("keepdims", FALSE)
        if not is_arr(x) or any(k not in ("axis", "keepdims") for k in kw):
            return None
        b = (lambda t: _tb(t)) if op in ("any", "all") else (lambda t: ite(t, ONE, ZERO) if ty(t) == "bool" else t)
        x = ew(b, x)
        if ax is not None and ax.op in ("tuple", "list"):
            r = x
            axes = sorted((int_const(t) + (rank(x) if int_const(t) < 0 else 0) for t in ax.args), reverse=True)
            for k in axes:
                r = reduce_(op, r, k)
            return r
        k = int_const(ax)
        if k == "?":
            return None
        r = reduce_(op, x, k)
        if r is not None and keep is TRUE and k is not None:
            k = k if k >= 0 else k + rank(x)
            r = index(r, [Sl()] * k + [NEWAXIS]) if is_arr(r) else mkarr((ONE,) * rank(x), r)
        return r

    return g


for _n, _op in (("sum", "sum"), ("prod", "prod"), ("any", "any"), ("all", "all"), ("min", "min"), ("max", "max"), ("amin", "min"), ("amax", "max")):
    NP["numpy." + _n] = _reduction(_op)


@np_fn("mean", "average")
def _mean(I, st, a, kw):
    x = arrify(a[0])
    ax = int_const(getarg(a, kw, 1, "axis"))
    if not is_arr(x) or ax == "?" or any(k != "axis" for k in kw):
        return None
    x = ew(lambda t: ite(t, ONE, ZERO) if ty(t) == "bool" else t, x)
    return mean_(x, ax)


@np_fn("count_nonzero")
def _cnz(I, st, a, kw):
    x = arrify(a[0])
    ax = int_const(getarg(a, kw, 1, "axis"))
    if not is_arr(x) or ax == "?":
        return None
    x = ew(lambda t: ite(_tb(t), ONE, ZERO), x)
    return reduce_("sum", x, ax)


@np_fn("linalg.norm")
def _norm(I, st, a, kw):
    x = arrify(a[0])
    o = getarg(a, kw, 1, "ord")
    ax = int_const(getarg(a, kw, 2, "axis"))
    if not is_arr(x) or ax == "?":
        return None
    if o in (num(1), INF) and (rank(x) == 1 or ax is not None):
        return reduce_("sum" if o is num(1) else "max", ew(absv, x), ax)
    if o in (num(1), INF) and rank(x) == 2:
        return reduce_("max", reduce_("sum", ew(absv, x), 0 if o is num(1) else 1))
    if o is not None and o is not NONE and o is not num(2) and o is not const("fro"):
        return None
    if o is num(2) and rank(x) == 2 and ax is None:
        return None
    s = reduce_("sum", ew(lambda t: mul(t, t), x), ax)
    return ew(sqrt, s) if is_arr(s) else sqrt(s)


@np_fn("linalg.inv")
def _inv(I, st, a, kw):
    x = arrify(a[0])
    t = mk("call", "numpy.linalg.inv", (x,), ())
    if x.op == "call" and x.args[0] == "numpy.linalg.inv":
        return x.args[1][0]
    T.Ctx.types[t] = "arr"
    if is_arr(x):
        T.Ctx.shapes[t] = shape(x)
    return t


@np_fn("matmul")
def _matmul(I, st, a, kw):
    return I.binop(ast.MatMult, a[0], a[1], st)


@np_fn("dot")
def _dot(I, st, a, kw):
    x, y = arrify(a[0]), arrify(a[1])
    if not is_arr(x) or not is_arr(y):
        return None
    if rank(x) == 1 and rank(y) == 1:
        return reduce_("sum", ew(mul, x, y))
    if rank(x) == 2:
        return matmul(x, y)
    return None


def _argm(which):
    def g(I, st, a, kw):
        x = arrify(a[0])
        ax = getarg(a, kw, 1, "axis")
        t = mk(which, x) if ax is None or ax is NONE else mk("call", which, (x, ax), ())
        if ax is not None and ax is not NONE:
            T.Ctx.types[t] = "arr"
            k = int_const(ax)
            if is_arr(x) and k != "?":
                k = k % rank(x)
                T.Ctx.shapes[t] = tuple(s for i, s in enumerate(shape(x)) if i != k)
        return t

    return g


NP["numpy.argmin"] = _argm("argmin")
NP["numpy.argmax"] = _argm("argmax")


@np_fn("unravel_index")
def _unravel(I, st, a, kw):
    k, sh = a[0], sizes_of(getarg(a, kw, 1, "shape"))
    if not scalar_type(ty(k)) and k.op not in ("argmin", "argmax"):
        return None
    out = []
    for s in reversed(sh[1:]):
        out.insert(0, T.mod(k, s))
        k = fdiv(k, s)
    return mk("tuple", k, *out)


@np_fn("isscalar")
def _isscalar(I, st, a, kw):
    return None


@np_fn("shape")
def _shape(I, st, a, kw):
    x = arrify(a[0])
    sh = shape(x)
    return mk("tuple", *sh) if sh is not None else mk("attr", x, "shape")


@np_fn("ndim")
def _ndim(I, st, a, kw):
    x = arrify(a[0])
    return num(rank(x)) if is_arr(x) else None


@np_fn("float32", "float64", "float16")
def _f32(I, st, a, kw):
    return arrify(a[0])


@np_fn("int32", "int64")
def _i32(I, st, a, kw):
    x = arrify(a[0])
    return ew(I.trunc, x) if is_arr(x) else I.trunc(x)


# the parameters each model takes into account, in the order of the numpy function; another argument makes the
# call unmodelled
PARAMS = {
    "array": "object dtype", "asarray": "a dtype order", "copy": "a order", "ascontiguousarray": "a dtype", "asanyarray": "a dtype order",
    "zeros": "shape dtype order", "ones": "shape dtype order", "full": "shape fill_value dtype order",
    "zeros_like": "a dtype order", "ones_like": "a dtype order", "full_like": "a fill_value dtype order",
    "eye": "N M k dtype order", "identity": "n dtype", "diag": "v", "diagonal": "a", "arange": "start stop", "linspace": "start stop num",
    "concatenate": "arrays axis", "vstack": "tup", "hstack": "tup", "stack": "arrays axis", "expand_dims": "a axis",
    "squeeze": "a axis", "tile": "A reps", "repeat": "a repeats axis", "transpose": "a", "ravel": "a order",
    "reshape": "a newshape order", "isnan": "x", "clip": "a a_min a_max", "nonzero": "a", "flatnonzero": "a", "argwhere": "a",
    "where": "condition x y", "round": "a decimals", "around": "a decimals", "round_": "a decimals",
    "any": "a axis", "all": "a axis", "sum": "a axis", "prod": "a axis", "min": "a axis", "max": "a axis", "amin": "a axis", "amax": "a axis",
    "mean": "a axis", "average": "a axis", "count_nonzero": "a axis", "linalg.norm": "x ord axis", "linalg.inv": "a", "dot": "a b", "matmul": "a b",
    "add.outer": "a b", "subtract.outer": "a b", "multiply.outer": "a b", "minimum.outer": "a b", "maximum.outer": "a b", "outer": "a b",
    "einsum": "subscripts a b c",
    "argmin": "a axis", "argmax": "a axis", "unravel_index": "indices shape", "shape": "a", "ndim": "a", "float32": "x", "float64": "x", "float16": "x", "int32": "x", "int64": "x",
}
CREATE = {"numpy." + n for n in ("array", "asarray", "zeros", "ones", "full", "zeros_like", "ones_like", "full_like", "eye", "identity")}
EXTRA = {"array": "copy order", "reshape": "shape", "clip": "min max", "sum": "keepdims", "any": "keepdims", "all": "keepdims", "min": "keepdims", "max": "keepdims", "amin": "keepdims", "amax": "keepdims", "prod": "keepdims"}
BINARY = {
    "add", "subtract", "multiply", "divide", "true_divide", "power", "maximum", "minimum", "less", "less_equal", "greater", "greater_equal",
    "equal", "not_equal", "logical_and", "logical_or", "logical_xor",
}


def modelled(name, a, kw):
    """does the model of the numpy function cover these arguments?"""
    n = name[len("numpy."):]
    ps = PARAMS.get(n)
    if ps is None:
        return not kw and len(a) <= (2 if n in BINARY else 1)
    ps = ps.split()
    if len(a) > len(ps):
        return False
    if n == "array" and kw.get("copy", TRUE) is not TRUE:
        return False
    return all(k in ps[len(a):] or k in EXTRA.get(n, "").split() for k in kw)


def int_dtype(dt):
    """the integer type an array is created with"""
    if dt is None:
        return None
    n = dt.args[0] if dt.op == "extf" else str_value(dt) if is_str_const(dt) else ""
    n = n.split(".")[-1].rstrip("_")
    return n if n.startswith(("int", "uint")) else None


VIEWS = {"numpy.asarray", "numpy.transpose", "numpy.expand_dims", "numpy.reshape", "numpy.ravel", "numpy.squeeze", "numpy.atleast_2d", "numpy.diagonal", "numpy.asanyarray", "numpy.ascontiguousarray"}


def two_shapes(x):
    """one of two sequences, or one of two arrays of different sizes"""
    if x.op != "ite":
        return False
    if is_arr(x):
        return shape(x.args[1]) != shape(x.args[2])
    return any(y.op in ("list", "tuple", "collect") for y in x.args[1:])


class NumpyMixin:
    def call_numpy(self, st, name, args, kw):
        f = NP.get(name)
        fa = [self.freeze(st, a) for a in args]
        fk = {k: self.freeze(st, v) for k, v in kw.items()}
        out = kw.get("out")
        if name == "numpy.split" and len(args) == 2 and not kw and is_arr(fa[0]) and fa[1].op in ("list", "tuple") and fa[1].args:
            # consecutive parts, as views
            at_ = [None] + list(fa[1].args) + [None]
            cut = [("idx", (self._idxkey(Sl(x, y)),)) for x, y in zip(at_, at_[1:])]
            if self.is_location(args[0]):
                return mk("tuple", *[mk("view", args[0], c) for c in cut])
            return mk("tuple", *[self.wrap(st, index(fa[0], [Sl(x, y)])) for x, y in zip(at_, at_[1:])])
        if f is None:
            if name == "numpy.ix_":
                return mk("call", "numpy.ix_", tuple(fa), ())
            t = mk("call", name, tuple(fa), tuple(sorted(fk.items())))
            if name in IMPURE:
                return None
            k = RET_TYPES.get(name)
            if k is None and name not in ("numpy.iinfo", "numpy.finfo", "numpy.errstate", "numpy.isclose", "numpy.allclose", "numpy.array_equal"):
                k = "arr"
            if name in ("numpy.allclose", "numpy.array_equal"):
                k = "bool"
            if name in ("numpy.tan", "numpy.sin", "numpy.cos", "numpy.exp", "numpy.log") and fa:
                if is_arr(fa[0]):
                    return self.wrap(st, ew(lambda x: mk("call", name, (x,), ()), fa[0]))
                k = ty(fa[0]) if scalar_type(ty(fa[0])) else "arr"
                if k == "int":
                    k = "float"
            if k is not None:
                T.Ctx.types.setdefault(t, k)
            sh = ret_shape(self, name, tuple(fa), fk)
            if sh is not None:
                T.Ctx.shapes[t] = sh
            parts = ret_parts(name, t, fk)
            if parts is not None and parts.op == "tuple":
                return mk("tuple", *(self.wrap(st, p) for p in parts.args))
            return self.wrap(st, t) if k == "arr" else t
        if any(two_shapes(x) for x in fa):
            # the argument is one of two sequences
            for i, x in enumerate(fa):
                if two_shapes(x):
                    a1 = list(fa)
                    a2 = list(fa)
                    a1[i], a2[i] = x.args[1], x.args[2]
                    r1, r2 = (f(self, st, z, fk) if modelled(name, z, fk) else None for z in (a1, a2))
                    if r1 is None or r2 is None:
                        break
                    return self.wrap(st, ite(x.args[0], r1, r2))
        try:
            r = f(self, st, fa, fk) if modelled(name, fa, fk) else None
        except (IndexError, KeyError, AttributeError, TypeError, AssertionError, ValueError):
            r = None
        if r is None:
            t = mk("call", name, tuple(fa), tuple(sorted(fk.items())))
            k = {"numpy.any": "bool", "numpy.all": "bool", "numpy.argmin": "int", "numpy.argmax": "int", "numpy.count_nonzero": "int", "numpy.ndim": "int", "numpy.isscalar": "bool"}.get(name, "arr")
            if "axis" in fk or len(fa) > 1:
                if name in ("numpy.any", "numpy.all", "numpy.argmin", "numpy.argmax"):
                    k = "arr"
            elif name in ("numpy.sum", "numpy.mean", "numpy.min", "numpy.max", "numpy.prod", "numpy.linalg.norm"):
                k = "float"
            T.Ctx.types.setdefault(t, k)
            return self.wrap(st, t) if k == "arr" else t
        if name in VIEWS and args and self.is_location(args[0]) and order_of((), fk if name in ("numpy.reshape", "numpy.ravel") else {}, 9) == "C" and not (
            len(fa) > {"numpy.reshape": 2, "numpy.ravel": 1}.get(name, 9) and str_value(fa[-1]) != "C"
        ):
            loc = args[0]
            if r is fa[0]:
                return loc
            if name == "numpy.transpose":
                return self.get_attr(st, loc, "T")
            if name == "numpy.expand_dims":
                n = rank(r)
                ax = int_const(getarg(fa, fk, 1, "axis"))
                ax = ax if ax >= 0 else ax + n
                ix = [Sl()] * ax + [NEWAXIS] + [Sl()] * (n - 1 - ax)
                return mk("view", loc, ("idx", tuple(self._idxkey(i) for i in ix)))
            if name in ("numpy.reshape", "numpy.ravel", "numpy.squeeze"):

                def views(r):
                    if r.op == "ite" and shape(r) is None:
                        return ite(r.args[0], views(r.args[1]), views(r.args[2]))
                    return mk("view", loc, ("reshape", tuple(shape(r) or ())))

                return views(r)
        if not is_arr(r) and ty(r) != "arr":
            return r
        r0 = r
        r = self.copy_ref(st, r, "np") if r.op not in ("ref", "view") else r
        if r is not r0 and name in CREATE:
            i = PARAMS[name[6:]].split().index("dtype")
            d = int_dtype(getarg(fa, fk, i, "dtype"))
            if d is not None:
                self.int_arrays[r] = d
        return r
