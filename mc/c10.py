"""C10: stopping rules against a direct reading of their definition, every history up to a depth."""
import copy
import pickle
import time

import numpy as np

from mc.core import require
from alipy.experiment import StateIO, State, StoppingCriteria
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.toolbox import ToolBox

LEVEL = "model_checking"
RULE = ("breadth-first search over histories of recording, going back, updating, inspecting, resetting, copying, starting another "
        "fold and letting (virtual) time pass, for every kind of rule and boundary values; after every operation the real rule is "
        "compared with the condition evaluated on the modelled history; states are (history, last information given, clock) tuples")
ASSUMPTIONS = ("the rule knows the history as of the last update_information",
               "costs and limits are dyadic numbers, so that sums are exact")

NOW = [0.0]


class Clock(object):
    def __enter__(self):
        self.old = {n: getattr(time, n) for n in ("perf_counter", "time", "monotonic", "process_time") if hasattr(time, n)}
        for n in self.old:
            setattr(time, n, lambda: NOW[0])
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(time, n, f)


def new_saver(fold, kind):
    if kind == "ml":
        return StateIO(0, [0, 1, 2], [3], MultiLabelIndexCollection([(0, 0), (0, 1)], 2),
                       MultiLabelIndexCollection([(1, 0), (1, 1), (2, 0), (2, 1)], 2), verbose=False), 4
    if fold == 1:
        return StateIO(1, list(range(8)), [9], [0], list(range(1, 9)), verbose=False), 8
    if fold == 2:
        return StateIO(2, [0, 1], [9], [0, 1], [], verbose=False), 0
    return StateIO(0, list(range(5)), [9], [0], [1, 2, 3, 4], verbose=False), 4


def holds(rule, value, info, elapsed):
    if info is not None and info["left"] == 0:
        return True
    n, cost, frac = (info["n"], info["cost"], info["frac"]) if info is not None else (0, 0.0, 0.0)
    if rule is None:
        return False
    if rule == "num_of_queries":
        return n >= value
    if rule == "cost_limit":
        return cost >= value
    if rule == "percent_of_unlabel":
        return frac >= value
    return elapsed >= value


def run(rule, value, spelled, kind, hist):
    """Execute the history on a real rule and saver next to the model; check after every step."""
    NOW[0] = 100.0
    with Clock():
        if spelled == "np":
            v = np.float64(value) if rule != "num_of_queries" else np.int64(value)
        elif spelled == "float":
            v = float(value)
        else:
            v = value
        sc = StoppingCriteria(rule, v) if rule is not None else StoppingCriteria()
        saver, pool = new_saver(0, kind)
        fold = 0
        qs = []                 # (size, cost)
        info = None
        start = NOW[0]
        trail = []

        def check(what):
            e = holds(rule, value, info, NOW[0] - start)
            got = sc.is_stop()
            require(bool(got) == e, "signal:%s" % rule, lambda: "after %s of %r: is_stop() is %r, condition is %r (history %r, "
                    "information %r, elapsed %s)" % (what, hist, got, e, qs, info, NOW[0] - start))
            require(bool(sc.is_stop()) == e, "signal-changes-when-inspected:%s" % rule, "%r" % (hist,))
            return e
        check("construction")
        for op in hist:
            if op[0] == "q":
                left = pool - sum(s for s, _ in qs)
                k = min(op[1], left)
                if k == 0:
                    return None
                U = sorted(saver.get_workspace()[3])[:k]
                c = [op[2]] * k if op[2] is not None else None
                saver.add_state(State(select_index=U, performance=0.5, cost=c))
                qs.append((k, 0.0 if c is None else float(sum(c))))
            elif op[0] == "back":
                if len(qs) < op[1]:
                    return None
                if op[1] == 1:
                    saver.pop(len(qs) - 1)
                else:
                    saver.recover_workspace(len(qs) - op[1])
                qs = qs[:-op[1]]
            elif op[0] == "update":
                sc.update_information(saver)
                taken = sum(s for s, _ in qs)
                info = {"n": len(qs), "cost": sum(c for _, c in qs), "left": pool - taken,
                        "frac": taken / pool if pool else 0.0}
            elif op[0] == "reset":
                sc.reset()
                info = None
                start = NOW[0]
            elif op[0] == "fold":
                fold = op[1]
                saver, pool = new_saver(fold, kind)
                qs = []
            elif op[0] == "time":
                NOW[0] += op[1]
            elif op[0] == "copy":
                sc = copy.deepcopy(sc) if op[1] == "deep" else pickle.loads(pickle.dumps(sc))
            trail.append(check(op))
            if op[0] == "update" and info["left"]:
                # a fresh rule given the current history says the same (time apart)
                fresh = StoppingCriteria(rule, v) if rule is not None else StoppingCriteria()
                fresh.update_information(saver)
                if rule != "time_limit":
                    require(bool(fresh.is_stop()) == trail[-1], "fresh-rule:%s" % rule, "%r" % (hist,))
        return (fold, tuple(qs), tuple(sorted(info.items())) if info else None, NOW[0] - start, trail[-1] if trail else None,
                tuple(sorted((k, repr(v)) for k, v in vars(sc).items())), saver.cost_inall, len(saver))


def loop(rule, value, pool, batch, cost, recheck):
    """A whole active-learning loop: the number of queries it makes."""
    NOW[0] = 5.0
    with Clock():
        sc = ToolBox(y=[0, 1] * 3, saving_path=None).get_stopping_criterion(rule, value)
        outs = []
        for fold in range(2):
            saver = StateIO(fold, list(range(pool + 1)), [99], [0], list(range(1, pool + 1)), verbose=False)
            t0 = NOW[0]
            n = 0
            sc.update_information(saver)
            while not sc.is_stop():
                U = sorted(saver.get_workspace()[3])[:batch]
                require(U, "not-stopped-when-exhausted:%s" % rule, "")
                saver.add_state(State(select_index=U, performance=0.1, cost=[cost] * len(U)))
                n += 1
                NOW[0] += 1.0
                sc.update_information(saver)
                for _ in range(recheck):
                    sc.is_stop()
            left, k, spent = pool, 0, 0.0
            while not holds(rule, value, {"n": k, "cost": spent, "left": left, "frac": (pool - left) / pool if pool else 0.}, k):
                b = min(batch, left)
                left, k, spent = left - b, k + 1, spent + cost * b
            require(n == k, "loop-length:%s" % rule, "fold %d: %d queries, %d expected" % (fold, n, k))
            outs.append(n)
            sc.reset()
        return outs


RULES = [(None, None), ("num_of_queries", 0), ("num_of_queries", 1), ("num_of_queries", 2), ("cost_limit", 0.0),
         ("cost_limit", 1.5), ("cost_limit", 3.0), ("percent_of_unlabel", 0.0), ("percent_of_unlabel", 0.25),
         ("percent_of_unlabel", 0.5), ("percent_of_unlabel", 0.75), ("percent_of_unlabel", 1.0), ("time_limit", 0.0), ("time_limit", 3.0)]

OPS = [("q", 1, 1.5), ("q", 2, 0.5), ("q", 1, None), ("back", 1), ("back", 2), ("update",), ("reset",), ("fold", 1), ("fold", 2),
       ("copy", "deep"), ("copy", "pickle")]


def explore(ctx):
    jobs = []
    for rule, value in RULES:
        ops = OPS + ([("time", 1.0), ("time", 2.5)] if rule == "time_limit" else [])
        for spelled in ("plain", "np", "float"):
            if rule is None and spelled != "plain":
                continue
            for kind in ("ic", "ml"):
                if kind == "ml":
                    o = [x for x in ops if x[0] != "fold"]
                else:
                    o = ops
                d = (4 if spelled == "plain" else 3) if ctx.quick else (6 if spelled == "plain" else 4)
                jobs.append((bfs, (ctx, rule, value, spelled, kind, o, d)))
    ctx.jobs(jobs)
    la = [(r, v, p, b, c, k) for r, v in RULES for p in range(0, 6 if ctx.quick else 13) for b in (1, 2, 3)
          for c in (0.5, 1.0) for k in (0, 2)]
    for n in range(1, 11 if ctx.quick else 41):      # fractions k/n of n items
        for k in range(0, n + 1):
            la.append(("percent_of_unlabel", k / n, n, 1, 1.0, 0))
    tiny = 2.0 ** -20
    for n, b in ((7, 1), (40, 1), (100, 3), (400, 7), (997, 41)):        # long runs, limits just below and just above a reachable amount
        for k in sorted({1, 2, b, 2 * b, n // 3, n // 2, n - b, n - 1, n}):
            la += [("percent_of_unlabel", min(1.0, max(0.0, k / n + d)), n, b, 1.0, 0) for d in (-tiny, 0, tiny)]
            for c in (0.5, 64.0, 1024.0):
                la += [("cost_limit", max(0.0, k * c + d), n, b, c, 0) for d in (-tiny, 0, tiny)]
            if k <= 60 or not ctx.quick:
                la += [("num_of_queries", k, n, b, 1.0, 0)]
                la += [("time_limit", k + d, n, b, 1.0, 0) for d in (-tiny, 0, tiny)]
    ctx.parallel(loop, la)


def bfs(ctx, rule, value, spelled, kind, ops, depth):
    def case(hist):
        return run(rule, value, spelled, kind, hist)
    seen = set()
    frontier = [[]]
    for d in range(depth):
        nxt = []
        for h in frontier:
            for op in ops:
                r = ctx.case(run, rule, value, spelled, kind, h + [op])
                ctx.stats.transitions += 1
                ctx.stats.traces += 1
                if r is not None and r not in seen:
                    seen.add(r if not isinstance(r, list) else tuple(r))
                    nxt.append(h + [op])
        frontier = nxt
    ctx.stats.states += len(seen)
    ctx.stats.extra["bfs_max_depth"] = depth
