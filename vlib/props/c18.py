"""C18: drawing is repeatable and leaves nothing behind."""
import gc
import os
import shutil
import tempfile

import numpy
from hypothesis import strategies as st

from vlib import draw as pictures
from vlib import dictionary, judge, sut
from vlib.props import c15, c17

ID = "C18"
EXAMPLES = {"quick": 20, "thorough": 200}
RULE = (
    "cases are histories of 3-6 drawings over 2 distributions and an interpreter, with up to 12 figures of the "
    "caller open (under names and numbers that occur in the source too), opened or closed on the way; "
    "at every step the list of open figures, the caller's current figure (its artists and pixels), the matplotlib "
    "settings, the working directory, the folder of temporary files and the distributions must be unchanged; pictures of the same thing must be "
    "identical pixel by pixel; images are read only after all drawings as well as at once; non-trivial = a picture is "
    "drawn at least twice with another drawing in between"
)
KINDS = c17.SINGLE + c17.DOUBLE + ["interpreter get_histogram", "interpreter get_at_least_histogram", "interpreter get_at_most_histogram"]


# the caller may call figures anything, also what the code under test could call its own
called = st.lists(st.one_of(st.none(), st.sampled_from(dictionary.TITLES + ["python_dice", "Figure 1", ""]),
                            st.sampled_from([v for v in dictionary.SMALL if v > 0] + [1, 2, 3, 100, 9999])), max_size=12)


@st.composite
def _case(draw, tier):
    first = draw(st.sampled_from(KINDS))
    others = [draw(st.sampled_from(KINDS)) for _ in range(draw(st.integers(1, 3)))]
    steps = [first] + others + [first]
    if draw(st.booleans()):
        steps.append(draw(st.sampled_from(steps)))
    return {"steps": steps, "one": draw(c17._weights()), "two": draw(c17._weights()), "open": draw(st.sampled_from([0, 1, 2, 3, 5, 8, 12])),
            "active": draw(st.integers(0, 11)), "late": draw(st.integers(0, 5)), "called": draw(called), "lines": draw(st.sampled_from([["2d4"], ["VAR a = d6", "a - 3"], ["VAR a = d3", "VAR b = a * a"]]))}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    base = {"one": [[1, 2], [4, 3]], "two": [[2, 1], [3, 4], [9, 2]], "lines": ["VAR a = 2d3", "a * 2"]}
    for i, kind in enumerate(KINDS):
        yield dict(base, steps=[kind, KINDS[(i + 3) % len(KINDS)], kind], open=[0, 1, 2, 4, 7, 12][i % 6], active=i % 5)
    # figures under every name that occurs in the source
    for i in range(0, len(dictionary.TITLES), 40):
        part = dictionary.TITLES[i:i + 40]
        yield dict(base, steps=["get_histogram", "get_compare", "get_histogram"], open=len(part), active=i, called=part)


def caller_figures(n, active, names=()):
    from matplotlib import pyplot

    made = []
    for i in range(n):
        name = names[i] if i < len(names) else None
        if name == "all" or (name is not None and (name in pyplot.get_fignums() or name in pyplot.get_figlabels())):
            name = None
        figure = pyplot.figure(name)
        figure.add_subplot(211).plot([0, 1, 2], [i, 3, 1])
        if i % 2:
            first = figure.axes[0]
            figure.add_subplot(212)
            figure.sca(first)
        made.append(figure)
    if n:
        pyplot.figure(made[active % n].number)
    return made


def paint(figure):
    if figure is None:
        return None
    figure.canvas.draw()
    return numpy.array(figure.canvas.buffer_rgba())


def look(figure):
    return (len(figure.axes), [(len(a.lines), len(a.patches), len(a.texts), a.get_xlabel(), a.get_ylabel(), a.get_xlim(), a.get_ylim(), a.get_legend() is None)
                               for a in figure.axes], tuple(figure.get_size_inches()), figure.dpi,
            figure.axes.index(figure.gca()))


def check(case, ctx):
    from matplotlib import pyplot

    pyplot.close("all")
    factory = sut.ProbabilityDistributionFactory()
    one = judge.returned(sut.call(factory.create, dict(case["one"])), "create")
    two = judge.returned(sut.call(factory.create, dict(case["two"])), "create")
    figures = caller_figures(case["open"], case["active"], case.get("called", ()))
    numbers = pyplot.get_fignums()
    current = pyplot.gcf() if figures else None
    looks = [look(f) for f in figures]
    shown = current, paint(current)
    settings = {k: v for k, v in dict.items(pyplot.rcParams)}
    frozen = c15.freeze(one), c15.freeze(two)
    interactive = pyplot.isinteractive()
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(dir=os.environ.get("VERIF_TMP"))
    usual = tempfile.tempdir
    tempfile.tempdir = tempfile.mkdtemp(dir=os.environ.get("VERIF_TMP"))
    os.chdir(scratch)
    try:
        images, seen = [], {}
        for i, kind in enumerate(case["steps"]):
            what = "step %d of %r (%d figures open): %s" % (i, case["steps"], case["open"], kind)
            if i and i == case.get("late"):
                # the caller opens one more figure, or closes one
                if figures and case["active"] % 2:
                    gone = figures.pop(case["active"] % len(figures))
                    pyplot.close(gone)
                    shown = (None, None) if gone is shown[0] else shown
                else:
                    figures.extend(caller_figures(1, 0))
                numbers = pyplot.get_fignums()
                current = pyplot.gcf() if figures else None
                looks = [look(f) for f in figures]
            image = judge.returned(draw(kind, one, two, case["lines"]), what)
            at_once = None
            if i % 2 == 0:
                at_once = judge.returned(sut.call(pictures.pixels, image), what + ": reading the picture")
                if kind in seen:
                    ctx.require(same(at_once, seen[kind]), "%s: the picture differs from the one drawn before", what)
                    ctx.label("redrawn")
                seen.setdefault(kind, at_once)
            images.append((what, kind, image, at_once))
            ctx.require(pyplot.get_fignums() == numbers, "%s: open figures are now %r, they were %r", what, pyplot.get_fignums(), numbers)
            if current is not None:
                ctx.require(pyplot.gcf() is current, "%s: the caller's current figure is no longer current", what)
            for f, before in zip(figures, looks):
                ctx.require(look(f) == before, "%s: a figure of the caller changed from %r to %r", what, before, look(f))
            changed = [k for k, v in dict.items(pyplot.rcParams) if settings.get(k) != v]
            ctx.require(not changed, "%s: matplotlib settings changed: %r", what, changed)
            ctx.require(pyplot.isinteractive() == interactive, "%s: interactive mode changed", what)
            ctx.require((c15.freeze(one), c15.freeze(two)) == frozen, "%s: a distribution changed", what)
            ctx.require(not os.listdir(scratch), "%s: left files %r in the working directory", what, os.listdir(scratch))
        if shown[0] is not None:
            ctx.require(same(paint(shown[0]), shown[1]), "drawing %r changed the pixels of the caller's figure", case["steps"])
        if figures:
            # without any figure of the caller the picture is the same
            pyplot.close("all")
            kind = case["steps"][0]
            alone = judge.returned(draw(kind, one, two, case["lines"]), kind)
            ctx.require(same(judge.returned(sut.call(pictures.pixels, alone), kind), seen[kind]),
                        "%s: the picture depends on the %d figures of the caller", kind, len(figures))
            del alone
        for what, kind, image, at_once in images:
            late = judge.returned(sut.call(pictures.pixels, image), what + ": reading the picture after later drawings")
            if at_once is not None:
                ctx.require(same(at_once, late), "%s: the picture changed by later drawings", what)
            if kind in seen:
                ctx.require(same(seen[kind], late), "%s: the picture, read after later drawings, differs from the same picture drawn at another time", what)
        left = os.listdir(tempfile.tempdir)
        if left:
            # a picture may live in a temporary file as long as the picture itself
            del images, image
            gc.collect()
            gc.collect()
            left = os.listdir(tempfile.tempdir)
        ctx.require(not left, "drawing %r left the temporary files %r", case["steps"], left)
    finally:
        os.chdir(cwd)
        pyplot.close("all")
        for folder in (scratch, tempfile.tempdir):
            shutil.rmtree(folder, ignore_errors=True)
        tempfile.tempdir = usual
    ctx.label("caller has figures open", bool(figures))
    ctx.nontrivial(any(case["steps"][i] in case["steps"][:i] and case["steps"][i - 1] != case["steps"][i] for i in range(2, len(case["steps"]))))
    ctx.note("%r, %d open" % (case["steps"], case["open"]))


def same(one, two):
    return one.shape == two.shape and bool(numpy.array_equal(one, two))


def draw(kind, one, two, lines):
    if kind.startswith("interpreter "):
        return sut.call(getattr(sut.fresh(), kind.split()[1]), list(lines))
    if kind in c17.SINGLE:
        return sut.call(getattr(one, kind))
    if kind == "get_compare_histogram":
        return sut.call(one.get_compare_histogram, two)
    return sut.call(getattr(one, kind), two, "first", "second")
