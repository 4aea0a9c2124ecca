"""C22: extracted data, curves, tables and tests of the analysers on every small family of histories."""
import contextlib
import copy
import io
import itertools
import math
import os
import shutil
import tempfile
import warnings

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from mc.core import require, Violation
from alipy.experiment import AlExperiment, ExperimentAnalyser, StateIO, State
from alipy.experiment.experiment_analyser import StateIOContainer
from alipy.utils.ace_warnings import ValidityWarning

LEVEL = "model_checking"
RULE = ("exhaustive enumeration of small families of histories: up to 3 folds x 1..4 queries (equal and unequal lengths) x batch sizes x performance and cost grids x "
        "initial points (all, none, some folds), given as StateIO objects, containers, saved files, lists and arrays; all registration orders of up to 3 methods; "
        "all combinations of shift, start point, interval and deviation band, plotted twice; all pairs of t-test samples of 2 and 3 values. The plotted lines and bands are read back from the "
        "figure, the tables are parsed, and compared with the histories themselves")
ASSUMPTIONS = ("folds of different lengths are averaged over the positions all of them have",
               "the deviation is taken over the folds",
               "the last query of a history may have another batch size",
               "between two recorded costs the curve is interpolated linearly; at a cost reached by several queries any of their values may be shown")


def near(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))


# ---------------------------------------------------------------- histories
def history(rnd, ip, rows, path=None):
    """rows: (performance, cost or None, batch size)."""
    total = sum(r[2] for r in rows)
    sio = StateIO(rnd, [0] + list(range(1, total + 2)), [99], [0], list(range(1, total + 2)), initial_point=ip, saving_path=path,
                  check_flag=True, verbose=False)
    nxt = 1
    for perf, cost, b in rows:
        sel = list(range(nxt, nxt + b))
        nxt += b
        st = State(select_index=sel, performance=perf, queried_label=[v % 2 for v in sel], cost=None if cost is None else [cost] + [0] * (b - 1) if b != 2 else [cost / 2.0] * 2)
        sio.add_state(st)
    return sio


class Method(object):
    """name, form and folds [(ip, rows)]."""

    def __init__(self, name, form, folds):
        self.name, self.form, self.folds = name, form, folds
        self.objects = None

    def build(self, axis, tmp):
        if self.form in ("stateio", "container", "file"):
            objs = []
            for k, (ip, rows) in enumerate(self.folds):
                p = os.path.join(tmp, "%s_%d.pkl" % (self.name, k)) if self.form == "file" else None
                s = history(k, ip, rows, p)
                if p:
                    s.save()
                    objs.append(p)
                else:
                    objs.append(s)
            self.objects = objs if self.form == "stateio" else StateIOContainer(self.name, objs)
        else:
            if axis == "cost":
                data = [[(r[1], r[0]) for r in rows] for ip, rows in self.folds]
            else:
                data = [[r[0] for r in rows] for ip, rows in self.folds]
            self.objects = np.array(data) if self.form == "array" else data
        return self.objects

    @property
    def stateio(self):
        return self.form in ("stateio", "container", "file")

    def has_ip(self):
        return self.stateio and all(ip is not None for ip, rows in self.folds)

    def curve(self):
        """Per position: the performances of all folds."""
        n = min(len(rows) for ip, rows in self.folds)
        return [(([ip] if self.has_ip() else []) + [r[0] for r in rows[:n]]) for ip, rows in self.folds]


def add_all(axis, methods, tmp):
    an = ExperimentAnalyser(x_axis=axis)
    for m in methods:
        an.add_method(m.name, m.build(axis, tmp))
    return an


# ---------------------------------------------------------------- tables
def table(text):
    rows = [[c.strip() for c in line.split("|")[1:-1]] for line in text.splitlines() if line.strip().startswith("|")]
    return [dict(zip(rows[0], r)) for r in rows[1:]]


def check_table(an, axis, methods):
    rows = table(repr(an))
    require([r["Methods"] for r in rows] == [m.name for m in methods], "table-methods", "rows %r for methods %r" % (rows, [m.name for m in methods]))
    for m, r in zip(methods, rows):
        require(r["number_of_different_split"] == str(len(m.folds)), "table-folds", "%s has %d folds: %r" % (m.name, len(m.folds), r))
        if axis == "cost" and not m.stateio:
            means = [sum(x[0] for x in rw) / len(rw) for ip, rw in m.folds]
        else:
            means = [sum(c) / len(c) for c in m.curve()]
        mean = sum(means) / len(means)
        std = math.sqrt(sum((v - mean) ** 2 for v in means) / len(means))
        got = [float(v) for v in r["performance"].split("±")]
        require(abs(got[0] - mean) <= 0.0005001 and abs(got[1] - std) <= 0.005001, "table-performance",
                "%s: performance %r, mean %r and deviation %r of the folds" % (m.name, r["performance"], mean, std))
        if axis == "cost":
            totals = sorted(set(sum(x[1] for x in rw) for ip, rw in m.folds))
            if len(totals) == 1:
                require(near(float(r["cost_budget"].strip("[] ")), totals[0]), "table-budget", "%s: budget %r, total cost %r" % (m.name, r["cost_budget"], totals[0]))
            else:
                require(r["cost_budget"] == "Not same budget", "table-budget", "%s: budget %r, total costs %r" % (m.name, r["cost_budget"], totals))
        else:
            n = min(len(rw) for ip, rw in m.folds)
            require(r["number_of_queries"] == str(n), "table-queries", "%s: %r queries, every fold has at least %d" % (m.name, r["number_of_queries"], n))
            if all(x.stateio for x in methods):
                allb = set(x[2] for ip, rw in m.folds for x in rw)
                inner = set(x[2] for ip, rw in m.folds for x in (rw[:-1] or rw))
                if not all(rw for ip, rw in m.folds):
                    pass
                elif len(allb) == 1:
                    require(r["batch_size"] == str(allb.pop()), "table-batch", "%s: batch size %r" % (m.name, r["batch_size"]))
                elif len(inner) > 1:
                    require(r["batch_size"] == "Not_same_batch_size", "table-batch", "%s: batch size %r, batches %r" % (m.name, r["batch_size"], inner))
    return rows


# ---------------------------------------------------------------- plots
def drawn():
    ax = plt.gca()
    lines = {}
    for ln in ax.get_lines():
        require(ln.get_label() not in lines, "plot-lines", "two lines named %r" % ln.get_label())
        lines[ln.get_label()] = [(float(x), float(y)) for x, y in zip(ln.get_xdata(), ln.get_ydata())]
    bands = []
    for c in ax.collections:
        d = {}
        for p in c.get_paths():
            for x, y in p.vertices:
                d.setdefault(round(float(x), 9), []).append(float(y))
        bands.append(d)
    return lines, bands


def check_band(band, pts, what):
    for x, mean, std in pts:
        ys = [y for k, v in band.items() if near(k, x, 1e-7) for y in v]
        require(ys, "band-missing", "%s: no deviation band at %r (band at %r)" % (what, x, sorted(band)))
        require(near(min(ys), mean - std, 1e-7) and near(max(ys), mean + std, 1e-7), "band",
                "%s: band at %r from %r to %r, mean %r deviation %r" % (what, x, min(ys), max(ys), mean, std))


def stats(vals):
    mean = sum(vals) / len(vals)
    return mean, math.sqrt(sum((v - mean) ** 2 for v in vals) / len(vals))


def expect_queries(m, shift, start, interval):
    cur = m.curve()
    pts = [stats(v) for v in zip(*cur)]
    first = 0 if m.has_ip() else 1
    if start is not None:
        x0 = 0 if shift is None else shift
        seq = [(x0, start, None)] + [(x0 + 1 + i, a, b) for i, (a, b) in enumerate(pts)]
    else:
        x0 = first if shift is None else shift
        seq = [(x0 + i, a, b) for i, (a, b) in enumerate(pts)]
    return seq[::interval]


def plot(an, **kw):
    plt.cla()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        an.plot_learning_curves(show=False, saving_path=None, **kw)
    return [x for x in w if issubclass(x.category, ValidityWarning)]


def check_extracted(an, axis, methods):
    require(list(an.get_methods_names()) == [m.name for m in methods], "names", "methods %r" % list(an.get_methods_names()))
    for m in methods:
        got = an.get_extracted_data(m.name)
        require(len(got) == len(m.folds), "extracted-folds", "%d folds extracted of %d" % (len(got), len(m.folds)))
        for line, (ip, rows) in zip(got, m.folds):
            if axis == "cost":
                g = [(float(np.sum(t[0])), float(t[1])) for t in line]
                want = [(float(r[1]), float(r[0])) for r in rows]
            else:
                g = [float(v) for v in line]
                want = ([float(ip)] if ip is not None and m.stateio else []) + [float(r[0]) for r in rows]
            require(g == want, "extracted", "%s: extracted %r, recorded %r" % (m.name, g, want))


def scratch(fn):
    tmp = tempfile.mkdtemp(prefix="c22_")
    try:
        return fn(tmp)
    finally:
        shutil.rmtree(tmp)


def mutate(m):
    """Change the caller's results after they were added."""
    o = m.objects
    if isinstance(o, StateIOContainer):
        return
    for fold in o:
        if isinstance(fold, StateIO):
            fold.initial_point = 77.0
        elif isinstance(fold, np.ndarray):
            fold[0] = 77.0
        elif isinstance(fold[0], tuple):
            fold[0] = (77.0, 77.0)
        else:
            fold[0] = 77.0


def run_queries(spec, opts, plots):
    def go(tmp):
        methods = [Method(*s) for s in spec]
        an = add_all("num_of_queries", methods, tmp)
        keep = [copy.deepcopy(m.objects) if m.form in ("list", "array") else None for m in methods]
        check_extracted(an, "num_of_queries", methods)
        rows = check_table(an, "num_of_queries", methods)
        res = [rows]
        for shift, start, interval, std in opts if plots else ():
            for twice in (False, True):
                ws = plot(an, x_shift=shift, start_point=start, plot_interval=interval, std_area=std)
                lines, bands = drawn()
                require(sorted(lines) == sorted(m.name for m in methods), "plot-lines", "lines %r" % sorted(lines))
                for k, m in enumerate(methods):
                    want = expect_queries(m, shift, start, interval)
                    got = lines[m.name]
                    what = "%s with x_shift=%r, start_point=%r, plot_interval=%r" % (m.name, shift, start, interval)
                    require(len(got) == len(want) and all(near(a[0], b[0]) and near(a[1], b[1]) for a, b in zip(got, want)), "curve",
                            "%s: plotted %r, recorded %r" % (what, got, [w[:2] for w in want]))
                    if std and len(want) > 1:
                        require(len(bands) == len(methods), "band-missing", "%d bands for %d methods" % (len(bands), len(methods)))
                        if len(want) > (2 if start is not None else 1):
                            check_band(bands[k], [w for w in want if w[2] is not None], what)
                    res.append([round(v, 6) for p in got for v in p])
                if all(m.stateio for m in methods):
                    sig = set((min(len(rw) for ip, rw in m.folds), len(m.folds)) for m in methods)
                    if len(sig) > 1:
                        require(ws, "continuity", "methods with different folds or lengths are plotted without a warning")
                    elif len(set(repr(m.folds) for m in methods)) == 1:
                        require(not ws, "continuity", "equal methods are reported as different: %s" % ws)
        for m, k in zip(methods, keep):
            if k is not None:
                require(repr(m.objects) == repr(k), "arguments-changed", "the results given for %s became %r" % (m.name, m.objects))
        for m in methods:
            mutate(m)
        check_extracted(an, "num_of_queries", methods)
        return res
    return scratch(go)


def interp(points, x):
    """(lowest, highest) value the piecewise linear curve may have at x."""
    at = [y for px, y in points if near(px, x)]
    if at:
        return min(at), max(at)
    for (x0, y0), (x1, y1) in zip(points, points[1:]):
        if x0 < x < x1:
            v = y0 + (y1 - y0) * (x - x0) / (x1 - x0)
            return v, v
    raise Violation("curve-outside", "a point at cost %r is plotted outside of the recorded costs %r" % (x, points))


def run_costs(spec, opts):
    def go(tmp):
        methods = [Method(*s) for s in spec]
        an = add_all("cost", methods, tmp)
        check_extracted(an, "cost", methods)
        rows = check_table(an, "cost", methods)
        res = [rows]
        budget = min(sum(r[1] for r in rw) for m in methods for ip, rw in m.folds)
        for shift, start, interval, std in opts:
            plot(an, x_shift=shift, start_point=start, plot_interval=interval, std_area=std)
            lines, bands = drawn()
            step = budget / 100.0 if interval is None else interval
            require(sorted(lines) == sorted(m.name for m in methods), "plot-lines", "lines %r" % sorted(lines))
            for k, m in enumerate(methods):
                what = "%s with x_shift=%r, start_point=%r, plot_interval=%r" % (m.name, shift, start, interval)
                folds = []
                for ip, rw in m.folds:
                    acc = 0.0
                    pts = []
                    if start is not None:
                        pts.append((0.0, start))
                    elif m.has_ip():
                        pts.append((0.0, ip))
                    for p, c, b in rw:
                        acc += c
                        pts.append((acc, p))
                    folds.append(pts)
                lo = max(f[0][0] for f in folds)
                got = lines[m.name]
                xs = [g[0] - shift for g in got]
                if lo < budget - 1e-9:
                    require(xs and near(xs[0], lo), "curve-start", "%s: the curve starts at %r, the folds at %r" % (what, xs[:1], lo))
                    require(all(near(b - a, step) for a, b in zip(xs, xs[1:])), "curve-step", "%s: points at %r" % (what, xs))
                    require(xs[-1] <= budget + 1e-9 and xs[-1] >= budget - step - 1e-9, "curve-end", "%s: the curve ends at %r, the budget is %r" % (what, xs[-1], budget))
                bandpts = []
                for x, (_, y) in zip(xs, got):
                    vals = [interp(f, x) for f in folds]
                    a, b = (sum(v[i] for v in vals) / len(vals) for i in (0, 1))
                    require(a - 1e-9 <= y <= b + 1e-9, "cost-curve", "%s: %r at cost %r, the folds give %r" % (what, y, x, a if a == b else (a, b)))
                    if all(v[0] == v[1] for v in vals):
                        bandpts.append((x + shift,) + stats([v[0] for v in vals]))
                if std and len(got) > 1:
                    require(len(bands) == len(methods), "band-missing", "%d bands for %d methods" % (len(bands), len(methods)))
                    check_band(bands[k], bandpts if len(bandpts) < 12 else bandpts[:3] + bandpts[40:43] + bandpts[-3:], what)
                res.append((len(got), [round(v, 6) for p in got[-2:] for v in p]))
        for m in methods:
            mutate(m)
        check_extracted(an, "cost", methods)
        return res
    return scratch(go)


# ---------------------------------------------------------------- containers
def run_container(folds, how):
    def go(tmp):
        c = StateIOContainer("m", [])
        src = []
        for k, (ip, rows) in enumerate(folds):
            p = os.path.join(tmp, "f%d.pkl" % k)
            s = history(k, ip, rows, p)
            s.save()
            src.append(p if how == "file" or (how == "mixed" and k % 2) else s)
        if how == "one-by-one":
            for s in src:
                c.add_fold(s)
        else:
            c.add_folds(src)
        require(len(c) == len(folds), "container-length", "%d folds of %d" % (len(c), len(folds)))
        for (ip, rows), s in zip(folds, c):
            require([st.get_value("performance") for st in s] == [r[0] for r in rows], "container-fold", "fold changed")
        for k in range(len(folds)):
            require([st.get_value("performance") for st in c[k]] == [r[0] for r in folds[k][1]], "container-fold", "fold %d changed" % k)

        def sel(rows):
            out, nxt = [], 1
            for p, cost, b in rows:
                out.append(list(range(nxt, nxt + b)))
                nxt += b
            return out
        want = {"performance": [([ip] if ip is not None else []) + [r[0] for r in rows] for ip, rows in folds],
                "select_index": [sel(rows) for ip, rows in folds],
                "queried_label": [[[v % 2 for v in s] for s in sel(rows)] for ip, rows in folds]}
        require(c.extract_matrix() == want["performance"], "extract", "extract_matrix() is %r, recorded %r" % (c.extract_matrix(), want["performance"]))
        for key, w in want.items():
            got = c.extract_matrix(key)
            require(got == w, "extract", "extract_matrix(%r) is %r, recorded %r" % (key, got, w))
        hascost = all(r[1] is not None for ip, rows in folds for r in rows)
        if hascost:
            got = [[float(np.sum(v)) for v in line] for line in c.extract_matrix("cost")]
            require(got == [[float(r[1]) for r in rows] for ip, rows in folds], "extract", "costs %r" % got)
            got = c.extract_matrix(["performance", "select_index", "cost"])
            got = [[(t[0], t[1], float(np.sum(t[2]))) for t in line] for line in got]
            w = [[(r[0], s, float(r[1])) for r, s in zip(rows, sel(rows))] for ip, rows in folds]
            require(got == w, "extract", "extract_matrix of a list of keys is %r, recorded %r" % (got, w))
        for bad, exc in (("nothing", ValueError), (["performance", "nothing"], ValueError), (3, TypeError), (("performance",), TypeError)):
            try:
                out = c.extract_matrix(bad)
            except exc:
                continue
            if exc is ValueError and not any(rows for ip, rows in folds):
                continue  # without queries no key is known
            raise Violation("extract-accepted", "extract_matrix(%r) returned %r" % (bad, out))
        lst = c.to_list()
        lst.pop()
        require(len(c) == len(folds), "container-length", "changing to_list() changes the container")
        for bad in (None, 3, [1]):
            try:
                c.add_fold(bad)
            except TypeError:
                require(len(c) == len(folds), "container-length", "a refused fold was added")
                continue
            raise Violation("fold-accepted", "add_fold(%r) was accepted" % (bad,))
        # the caller's object is copied
        for s, (ip, rows) in zip(src, folds):
            if isinstance(s, StateIO):
                s.set_initial_point(42)
                if rows:
                    s[0].set_value("performance", 77.0)
                s.add_state(State(select_index=[1 + sum(r[2] for r in rows)], performance=0.999, queried_label=[1], cost=[5]))
        require(c.extract_matrix() == want["performance"], "container-alias", "changing a history changes the container")
        return want["performance"]
    return scratch(go)


def run_progress(ip, rows):
    s = history(3, ip, rows)
    r = table(repr(s).replace("| round", "| round"))[0]
    perfs = [x[0] for x in rows]
    total = sum(x[2] for x in rows)
    require(r["round"] == "3", "progress", repr(r))
    require(r["initially labeled data"] == "1 (%.2f%% of all)" % (100.0 / (total + 2)), "progress-initial", "%r of %d instances" % (r, total + 2))
    require(r["number of queries"] == str(len(rows)), "progress-queries", repr(r))
    require(near(float(r["cost"]), sum(x[1] or 0 for x in rows)), "progress-cost", "%r, recorded %r" % (r, rows))
    m, d = stats(perfs) if perfs else (0, 0)
    got = [float(v) for v in r["Performance:"].split("±")]
    require(abs(got[0] - m) <= 0.0005001 and abs(got[1] - d) <= 0.005001, "progress-performance", "%r, recorded %r" % (r, perfs))
    return repr(r)


# ---------------------------------------------------------------- t-test
def within(t, nu):
    """P(|T| < t) for Student's distribution (the finite series of Abramowitz and Stegun 26.7.3 / 26.7.4)"""
    th = math.atan(t / math.sqrt(nu))
    term, total = (1.0, 1.0) if nu % 2 == 0 else (math.cos(th), math.cos(th) if nu > 1 else 0.0)
    for j in range(2 + nu % 2, nu, 2):
        term *= (j - 1.0) / j * math.cos(th) ** 2
        total += term
    return math.sin(th) * total if nu % 2 == 0 else 2 / math.pi * (th + math.sin(th) * total)


def run_ttest(a, b, form, alpha):
    d = [x - y for x, y in zip(a, b)]
    n = len(d)
    mean = sum(d) / float(n)
    var = sum((v - mean) ** 2 for v in d) / (n - 1)
    if var == 0:
        p = 1.0 if mean == 0 else 0.0
    else:
        t = abs(mean) / math.sqrt(var / n)
        p = 1 - within(t, n - 1)
    if abs(p - (0.05 if alpha is None else alpha)) < 1e-9:
        return "boundary"
    conv = {"list": list, "array": np.array, "column": lambda v: np.array(v).reshape(-1, 1)}[form]
    an = ExperimentAnalyser()
    got = an.paired_ttest(conv(a), conv(b)) if alpha is None else an.paired_ttest(conv(a), conv(b), alpha=alpha)
    want = int(p <= (0.05 if alpha is None else alpha))
    require(got == want, "t-test", "paired_ttest(%r, %r, %r) is %r, p = %r" % (a, b, alpha, got, p))
    return got


def run_refuse():
    def bad(key, fn, exc):
        try:
            out = fn()
        except exc:
            return
        raise Violation(key, "accepted: %r" % (out,))
    bad("axis-accepted", lambda: ExperimentAnalyser(x_axis="time"), ValueError)
    a = ExperimentAnalyser()
    for res in (5, "x", None, {"a": 1}):
        bad("result-accepted", lambda: a.add_method("m", res), TypeError)
    bad("result-accepted", lambda: a.add_method("m", [[(1, 2), (2, 3)]]), ValueError)
    bad("result-accepted", lambda: a.add_method("m", [3, 4]), ValueError)
    c = ExperimentAnalyser(x_axis="cost")
    bad("result-accepted", lambda: c.add_method("m", [[0.5, 0.6]]), ValueError)
    bad("result-accepted", lambda: c.add_method("m", [3, 4]), ValueError)
    for v in (float("nan"), float("inf")):
        a = ExperimentAnalyser()
        a.add_method("m", [history(0, 0.5, [(0.5, 1, 1), (v, 1, 1)])])
        bad("nan-plotted", lambda: plot(a), ValueError)
    bad("t-test-accepted", lambda: ExperimentAnalyser().paired_ttest([1, 2], [1, 2, 3]), Exception)
    bad("t-test-accepted", lambda: ExperimentAnalyser().paired_ttest([[1, 2], [3, 4]], [[1, 2], [3, 4]]), Exception)
    # nothing added by refused calls
    require(list(c.get_methods_names()) == [], "names", "refused results were added")
    return "refused"


def run_figure(axis, spec, title, where, show):
    """Title, labels and the image file of a figure; the curves are those of a figure which is not saved."""
    def go(tmp):
        methods = [Method(*s) for s in spec]
        an = add_all(axis, methods, tempfile.mkdtemp(dir=tmp))
        plt.close("all")
        plt.figure()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            an.plot_learning_curves(show=False, saving_path=None)
            want = drawn()
            plt.close("all")
            plt.figure()
            d = os.path.join(tmp, "out")
            os.makedirs(os.path.join(d, "sub"))
            old = os.getcwd()
            os.chdir(d)
            try:
                kw = {} if where == "default" else {"saving_path": None if where is None else where.replace("@", d)}
                out = an.plot_learning_curves(title=title, show=show, **kw)
                files = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
            finally:
                os.chdir(old)
        require((out is None) if show else hasattr(out, "savefig"), "figure-returned", "show=%r returned %r" % (show, out))
        got = drawn()
        require(got == want, "figure-curves", "drawn %r, without saving %r" % (got, want))
        ax = plt.gca()
        require(ax.get_title() == ("" if title is None else str(title)), "figure-title", "title %r for %r" % (ax.get_title(), title))
        require("cost" in ax.get_xlabel().lower() if axis == "cost" else "quer" in ax.get_xlabel().lower(), "figure-labels", "x axis %r" % ax.get_xlabel())
        leg = ax.get_legend()
        require(leg is not None and [t.get_text() for t in leg.get_texts()] == [m.name for m in methods], "figure-labels", "legend")
        if where is None:
            require(not files, "figure-file", "files %r although nothing is to be saved" % files)
        else:
            w = {"default": ".", "@/pic.png": "pic.png", "pic.png": "pic.png", "@": ".", "@/sub": "sub", "sub": "sub", "sub/x.pdf": "sub/x.pdf"}[where]
            if w in (".", "sub"):
                require(len(files) == 1 and os.path.dirname(files[0]) == ("" if w == "." else w) and
                        os.path.basename(files[0]).startswith("alipy_plotting."), "figure-file", "files %r for %r" % (files, where))
            else:
                require(files == [w], "figure-file", "files %r for %r" % (files, where))
        plt.close("all")
        plt.figure()
        return (axis, title, where, files)
    return scratch(go)


class Least(object):
    """User strategy of the packaged experiment: the unlabelled items in order."""

    def __init__(self, X, y):
        pass

    def select(self, label_index, unlabel_index, batch_size=1):
        return sorted(unlabel_index)[:batch_size]


class Parity(object):
    """A model whose performance depends on what it was trained with."""

    def fit(self, X, y):
        self.k = int(np.sum(y))

    def predict(self, X):
        return np.array([(int(x[0]) + self.k) % 2 for x in X])


def run_experiment_plot(folds, batch, nq, title, name):
    """The packaged experiment prints and draws what its results say."""
    def go(tmp):
        X = np.arange(9.).reshape(-1, 1)
        y = np.array([0, 1, 1, 0, 1, 0, 0, 1, 1])
        tr = [list(range(f, f + 6)) for f in range(folds)]
        te = [[i for i in range(9) if i not in t] for t in tr]
        ex = AlExperiment(X, y, model=Parity(), batch_size=batch, stopping_criteria="num_of_queries", stopping_value=nq,
                          train_idx=tr, test_idx=te, label_idx=[t[:1] for t in tr], unlabel_idx=[t[1:] for t in tr])
        ex.set_query_strategy(Least, **({} if name is None else {"strategyname": name}))
        out = io.StringIO()
        old = os.getcwd()
        os.chdir(tmp)
        plt.close("all")
        plt.figure()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                ex.start_query(multi_thread=False, verbose=False)
            res = ex.get_experiment_result()
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ex.plot_learning_curve(**({} if title is None else {"title": title}))
        finally:
            os.chdir(old)
        rows = [[r.initial_point] + [r.get_state(k).get_value("performance") for k in range(len(r))] for r in res]
        n = min(len(r) for r in rows)
        want = [(float(k), float(np.mean([r[k] for r in rows]))) for k in range(n)]
        lines, _ = drawn()
        label = name or "user-defined strategy"
        require(list(lines) == [label], "plot-lines", "lines %r" % sorted(lines))
        require(len(lines[label]) == n and all(near(a[0], b[0]) and near(a[1], b[1]) for a, b in zip(lines[label], want)), "curve",
                "plotted %r, recorded %r" % (lines[label], want))
        require(plt.gca().get_title() == (title or ""), "figure-title", "%r" % plt.gca().get_title())
        t = table(out.getvalue())
        require(len(t) == 1 and t[0]["Methods"] == label and t[0]["number_of_queries"] == str(n - 1)
                and t[0]["number_of_different_split"] == str(folds), "table-methods", "%r" % t)
        require(abs(float(t[0]["performance"].split("±")[0]) - np.mean([np.mean(r[:n]) for r in rows])) <= .0005001
                or abs(float(t[0]["performance"].split("±")[0]) - np.mean([np.mean(r) for r in rows])) <= .0005001, "table-performance", "%r" % t)
        plt.close("all")
        plt.figure()
        return (want, t)
    return scratch(go)


# ---------------------------------------------------------------- the space
P = [0.25, 0.5, 0.9]
OPTS = [(s, st, i, d) for s in (None, 0, 2.5) for st in (None, 0.125) for i in (1, 2, 3) for d in (False, True)]
COPTS = [(s, st, i, d) for s in (0, 1.5) for st in (None, 0.125) for i in (None, 0.5, 0.1) for d in (False, True)]


def fold_family(lengths, ips, perf, bs, cost=lambda f, i: 1):
    return [(ips[f % len(ips)], [(perf(f, i), cost(f, i), bs(f, i)) for i in range(n)]) for f, n in enumerate(lengths)]


def explore(ctx):
    q = ctx.tier == "quick"
    cases = []

    def add(fn, *a):
        cases.append((fn, a))

    add(run_refuse)
    forms_s = ("stateio", "container", "file")
    ipss = ([None], [0.125], [0.125, 0.375], [0], [0.125, None])
    # 1. every value assignment, no plot: performances and batches of up to 2 folds x 2 queries, 1 x 3
    k = 0
    for lengths in ((1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (1, 1, 1)):
        tot = sum(lengths)
        for perf in itertools.product(P, repeat=tot):
            for bsz in itertools.product((1, 2), repeat=tot) if tot < 4 or len(set(perf)) == 1 else ((1,) * tot,):
                k += 1
                for ips in ipss:
                    if len(ips) > len(lengths):
                        continue
                    off = [sum(lengths[:f]) for f in range(len(lengths))]
                    folds = fold_family(lengths, ips, lambda f, i: perf[off[f] + i], lambda f, i: bsz[off[f] + i])
                    add(run_queries, [("m", forms_s[k % 3], folds)], (), False)
                folds = fold_family(lengths, [None], lambda f, i: perf[off[f] + i], lambda f, i: bsz[off[f] + i],
                                    lambda f, i: (0.5, 1, 2)[(k + f + i) % 3])
                add(run_queries, [("m", "list", folds)], (), False)
                if len(set(lengths)) == 1:
                    add(run_queries, [("m", "array", folds)], (), False)
                add(run_container, folds, ("obj", "file", "mixed", "one-by-one")[k % 4])
                add(run_container, [(0.75, r) for _, r in folds], ("obj", "file", "mixed", "one-by-one")[k % 4])
                add(run_progress, (None, 0.5)[k % 2], folds[0][1])
    # 2. plots: one method, all options
    val = lambda f, i: [0.5, 0.625, 0.875, 0.75][(3 * f + 2 * i + f * i) % 4]
    shapes = [(1,), (2,), (4,), (2, 2), (3, 1), (1, 2), (4, 3), (3, 3, 3), (4, 2, 3)]
    if not q:
        shapes += [(5,), (5, 4, 3), (1, 1, 1), (3, 4), (5, 5)]
    for lengths in shapes:
        for ips in ipss:
            if len(ips) > len(lengths):
                continue
            for ch in range(0, len(OPTS), 6):
                add(run_queries, [("m", forms_s[(len(lengths) + ch) % 3], fold_family(lengths, ips, val, lambda f, i: 1))], OPTS[ch:ch + 6], True)
        for ch in range(0, len(OPTS), 6):
            add(run_queries, [("m", "list", fold_family(lengths, [None], val, lambda f, i: 1))], OPTS[ch:ch + 6], True)
    for lengths in ((0,), (0, 2), (2, 0), (0, 0)):
        for ips in ([0.125], [0.125, 0.375]):
            add(run_queries, [("m", forms_s[len(lengths)], fold_family(lengths, ips[:len(lengths)], val, lambda f, i: 1))], OPTS[::5], True)
            add(run_container, fold_family(lengths, ips, val, lambda f, i: 1), "mixed")
            add(run_progress, 0.5, [])
    # 3. several methods in every order
    pool = [("withip", "stateio", fold_family((2, 2), [0.125, 0.25], val, lambda f, i: 1)),
            ("noip", "stateio", fold_family((3,), [None], val, lambda f, i: 2)),
            ("list", "list", fold_family((2, 3), [None], val, lambda f, i: 1)),
            ("cont", "container", fold_family((1, 2), [0.5], val, lambda f, i: 1)),
            ("array", "array", fold_family((3, 3), [None], val, lambda f, i: 1)),
            ("file", "file", fold_family((2, 2), [0.125, 0.25], val, lambda f, i: 1))]
    few = [(None, None, 1, True), (None, 0.125, 2, False), (1, None, 2, True)]
    for r in (2, 3):
        for ms in itertools.permutations(pool, r):
            if r == 3 and q and ms[0][0] > "d" and ms[1][0] > "d":
                continue
            add(run_queries, list(ms), few[:1] if r == 3 and q else few, True)
    add(run_queries, [("a",) + pool[0][1:], ("b",) + pool[0][1:]], few, True)
    # 4. costs: all assignments of two folds x two queries / one fold x three, and orders of methods
    grid = (0.5, 1, 2)
    for lengths in ((1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 2)):
        tot = sum(lengths)
        off = [sum(lengths[:f]) for f in range(len(lengths))]
        for costs in itertools.product(grid, repeat=tot):
            for ips in ([None], [0.125, 0.25]):
                k += 1
                folds = fold_family(lengths, ips, lambda f, i: P[(off[f] + i * 2 + f) % 3], lambda f, i: 1 + (i % 2), lambda f, i: costs[off[f] + i])
                form = ("stateio", "list", "container", "file")[k % 4] if ips == [None] else forms_s[k % 3]
                o = COPTS[k % len(COPTS)]
                add(run_costs, [("m", form, folds)], [o] if q else [o, COPTS[(k * 7 + 3) % len(COPTS)]])
    zero = fold_family((3, 3), [0.125, 0.25], val, lambda f, i: 1, lambda f, i: (1, 0, 2)[i])
    cpool = [("withip", "stateio", fold_family((2, 2), [0.125, 0.25], val, lambda f, i: 1, lambda f, i: 1 + f)),
             ("noip", "stateio", fold_family((3,), [None], val, lambda f, i: 2)),
             ("list", "list", fold_family((2, 3), [None], val, lambda f, i: 1, lambda f, i: 0.75)),
             ("file", "file", fold_family((1, 2), [0.5], val, lambda f, i: 1, lambda f, i: 2)),
             ("zero", "container", zero)]
    for o in COPTS:
        add(run_costs, [("m", "stateio", zero)], [o])
        for m in cpool:
            add(run_costs, [m], [o])
    for r in (2, 3):
        for ms in itertools.permutations(cpool, r):
            add(run_costs, list(ms), [(0, None, None, True)] if r == 3 and q else [(0, None, None, True), (1.5, 0.125, 0.5, False)])
    # 5. t-test
    for n in (2, 3):
        for a in itertools.product((0, 1, 3, 8), repeat=n):
            for b in itertools.product((0, 2, 5), repeat=n):
                k += 1
                add(run_ttest, a, b, ("list", "array", "column")[k % 3], (None, 0.3, 0.01)[k % 3 if n == 2 else k % 2])
    # 6. figures and their files, the plot of the packaged experiment
    one = fold_family((2, 2), [0.125, 0.25], val, lambda f, i: 1, lambda f, i: 1 + f)
    for axis in ("num_of_queries", "cost"):
        for title, where, show in ((None, None, False), ("T", "default", False), ("T", "@/pic.png", True), (5, "pic.png", False), (None, "@", True),
                                   ("T", "@/sub", False), (None, "sub", False), ("x y", "sub/x.pdf", True), ("T", None, True)):
            add(run_figure, axis, [("a", "stateio", one)], title, where, show)
        add(run_figure, axis, [("b", "stateio", one), ("a", "list", [(None, r) for _, r in one])], "two", "sub", False)
    for nf, batch, nq, title, name in itertools.product((1, 3), (1, 2), (1, 2), (None, "T"), (None, "mine")):
        if q and (title is None) != (name is None):
            continue
        add(run_experiment_plot, nf, batch, nq, title, name)
    # 7. long records, many folds, large costs and performances
    scales = (((1.0, 0.5), (64.25, 0.5), (1.0, 64.0), (1024.5, 1.0)) if q else tuple(itertools.product((0.25, 1.0, 64.25, 1024.5, 2.0 ** 20), (0.5, 1.0, 64.0))))
    for lengths in ((11,), (12, 12), (20, 17), (33, 40), (2,) * 11, (3,) * 17, (5, 9, 7, 5, 12, 6, 8, 5, 30, 5, 7)) + (() if q else ((101,), (64, 65), (2,) * 40)):
        for cs, ps in scales:
            for ips in ([None], [0.125 * ps, 0.375 * ps]) if len(lengths) > 1 else ([None], [0.125 * ps]):
                k += 1
                folds = fold_family(lengths, ips, lambda f, i: ps * ((5 * f + 3 * i + f * i) % 11) / 8.0, lambda f, i: 1 + 4 * (k % 2) * (f == len(lengths) - 1),
                                    lambda f, i: cs * (1 + (f + i) % 4))
                form = forms_s[k % 3]
                add(run_queries, [("m", form, folds)], [OPTS[k % len(OPTS)]], True)
                add(run_costs, [("m", form, folds)], [COPTS[k % len(COPTS)]] if cs < 10 or COPTS[k % len(COPTS)][2] is None else [(0, None, None, True)])
                add(run_container, folds, ("obj", "file", "mixed", "one-by-one")[k % 4])
                add(run_progress, ips[0], folds[0][1])
                if ips == [None]:
                    add(run_queries, [("m", "list", folds)], [OPTS[k % len(OPTS)]], True)
                    add(run_costs, [("m", "list", folds)], [(0, 0.125, None, False)])
    for n in (11, 30):
        for j in range(6):
            add(run_ttest, tuple((3 * i + j * i * i) % 13 for i in range(n)), tuple((5 * i + j) % 7 for i in range(n)), ("list", "array", "column")[j % 3], (None, 0.3)[j % 2])
    ctx.notes["families"] = len(cases)

    def work(w):
        plt.figure()
        for i in range(w, len(cases), 8):
            fn, a = cases[i]
            ctx.case(fn, *a)
    ctx.fork_map(work, 8)
    ctx.stats.states = ctx.stats.evaluations
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations
