LEVEL_NOTE = (
    "Static analysis of the source in /repo: every named function is summarised by a gated value-numbering dataflow "
    "analysis (terms over unknown inputs, joins as gated values, loops as quantified reductions, effects as guarded "
    "event trees; private helpers are inlined through the call graph), and each observable of the summary (returned "
    "value, field, caller memory, effect sequence, exception condition, default) is compared with the one of a "
    "reference snippet summarised the same way over the same unknowns. 'equal' is a proof within the model of Python "
    "and numpy; 'different' is reported as a violation only when the difference does not hinge on unmodelled terms; "
    "everything else is counted as undecided. Nothing of norfair is executed."
)
ASSUMPTIONS = [
    "attribute types and array shapes as in nfa/contracts.py (from annotations and constructors); at least one point, one dimension, period >= 1",
    "models of the numpy / builtin functions in nfa/npmodel.py and nfa/ext.py; arithmetic over the reals",
    "user callbacks (distance functions, filters, transformations) do not modify the tracker behind its back",
    "CPython semantics without monkey patching of norfair or numpy",
]

# what of a claimed property the check does not decide
LIMITS = {
    "C01": "current_min_distance (a debugging attribute) is not part of the property",
    "C06": "hit_counter_max >= 0 and period >= 1 are assumed",
    "C07": "hit_counter_max >= 0 and period >= 1 are assumed",
    "C15": "hit_counter_max >= 0 is assumed for the default initialization delay",
    "C09": "labels are hashable values whose == and != agree",
    "C20": "the FilterPy class itself is external: what create_filter hands to it is decided, not its predict/update",
    "C24": "cv2.findHomography is an uninterpreted function; matrices are 3x3",
    "C25": "OpenCV's optical flow is an uninterpreted function that may fail; which exceptions it raises is not modelled, any of them may occur",
    "C27": "frames are colour images (height, width, 3); what OpenCV rasterises is outside, its calls are compared",
    "C29": "the progress bar (rich) and its description are not part of the property",
    "C30": "boxes have shape (2, 2); numpy.loadtxt is an uninterpreted function",
    "C32": "frames are colour images; the transformation moves the anchor by any amount",
    "C33": "frames are colour images; max_history >= 1; histories have grown by the rule itself (at most max_history entries)",
    "C35": "ranks 0 to 4 with unknown and with unit sizes",
    "C36": "one prediction matrix per recorded sequence; motmetrics and pandas are uninterpreted",
}

NOT_APPLICABLE = {
    "N01": "accuracy on real videos is a statistical statement about inputs the source does not contain; no static argument bounds it",
    "N02": "running time is a quantity of the machine and the input, not visible in the shape of the code",
    "N03": "closeness to the true camera motion depends on what OpenCV's optical flow and RANSAC find in the images",
    "N04": "finiteness and positivity of variances in floating point over unbounded histories needs a numerical error analysis over runtime values (and FilterPy is external)",
    "N05": "whether a written file is playable is decided by the codec libraries behind cv2.VideoWriter, outside this repository",
}
