"""Reference rendering of the pictures from exact data, with matplotlib's object interface (no pyplot state)."""
import io

import numpy
import PIL.Image
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure


def _axis():
    figure = Figure()
    FigureCanvasAgg(figure)
    axis = figure.subplots()
    return figure, axis


def _finish(figure, axis):
    axis.grid(True, linestyle="-.")
    axis.set_ylabel("odds")
    axis.set_xlabel("outcome")


def _pixels(figure):
    buffer = io.BytesIO()
    figure.savefig(buffer, format="png")
    buffer.seek(0)
    with PIL.Image.open(buffer) as image:
        return numpy.asarray(image.convert("RGBA")).astype(numpy.int16)


def bars(points, average=None):
    """points: list of (x, height); one bar per point, of width 1"""
    points = sorted(points)
    figure, axis = _axis()
    xs = [x for x, _ in points]
    edges = [x - 0.5 for x in xs] + [xs[-1] + 0.5]
    axis.hist(xs, weights=[y for _, y in points], bins=edges)
    _finish(figure, axis)
    if average is not None:
        axis.plot([average, average], [0, max(y for _, y in points) * 1.1], "-r", lw=2)
    return _pixels(figure)


def lines(one, two, name_one, name_two):
    figure, axis = _axis()
    for points, colour, name in ((sorted(one), "b", name_one), (sorted(two), "r", name_two)):
        axis.plot([x for x, _ in points], [y for _, y in points], colour, label=name)
    _finish(figure, axis)
    axis.legend()
    return _pixels(figure)


def pixels(image):
    return numpy.asarray(image.convert("RGBA")).astype(numpy.int16)


def differing(one, two):
    """number of pixels of either picture without a similar pixel in the same or a neighbouring place of the other

    (coordinates that differ in the last bit of a float can be rounded to neighbouring pixels); None if the sizes differ
    """
    if one.shape != two.shape:
        return None
    if int((numpy.abs(one - two).max(axis=2) > 8).sum()) == 0:
        return 0
    return max(_unmatched(one, two), _unmatched(two, one))


def _unmatched(one, two):
    height, width = one.shape[:2]
    padded = numpy.pad(two, ((1, 1), (1, 1), (0, 0)), mode="edge")
    matched = numpy.zeros((height, width), dtype=bool)
    for dy in range(3):
        for dx in range(3):
            matched |= numpy.abs(one - padded[dy:dy + height, dx:dx + width]).max(axis=2) <= 40
    return int((~matched).sum())


# ---------------------------------------------------------------- exact data

def odds(weights):
    total = sum(weights.values())
    return [(v, weights.get(v, 0) / total) for v in range(min(weights), max(weights) + 1)]


def at_least(weights, rounding=False):
    """rounding: by repeated subtraction of floats instead of exactly"""
    total = sum(weights.values())
    if rounding:
        out, left = [], 1.0
        for v, p in odds(weights):
            out.append((v, left))
            left -= p
        return out
    out, above = [], total
    for v in range(min(weights), max(weights) + 1):
        out.append((v, above / total))
        above -= weights.get(v, 0)
    return out


def at_most(weights, rounding=False):
    total = sum(weights.values())
    if rounding:
        out, so_far = [], 0.0
        for v, p in odds(weights):
            so_far += p
            out.append((v, so_far))
        return out
    out, below = [], 0
    for v in range(min(weights), max(weights) + 1):
        below += weights.get(v, 0)
        out.append((v, below / total))
    return out


def average(weights):
    total = sum(weights.values())
    return sum(v * w for v, w in weights.items()) / total


def difference(one, two):
    first, second = dict(odds(one)), dict(odds(two))
    every = set(first) | set(second)
    return [(v, first.get(v, 0) - second.get(v, 0)) for v in range(min(every), max(every) + 1)]


def difference_as_pinned(one, two):
    """finding K4: outcomes in the range of both are entered twice, those between the ranges not at all"""
    first, second = dict(odds(one)), dict(odds(two))
    return [(v, first.get(v, 0) - second.get(v, 0)) for v in list(first) + list(second)]
