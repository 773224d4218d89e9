"""Deviation-bounded exhaustive exploration of the schedules of a scenario.

Level n contains every execution with exactly n deviations from the default schedule (see
ffmc.server for the kinds of deviations).  Levels are explored one after another, so the first
counterexample has the fewest deviations.  A deviation is not tried again in a state in which it was
tried before: the state hash covers the complete history of operation results of every entity plus
all shared objects, and the code between two operations is deterministic, so equal hashes have equal
futures; because levels ascend, the earlier visit had at least the same budget left.
"""

import time

from . import pool as _pool


class Stats:
    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.states = set()
        self.levels = []          # executions per completed level
        self.capped = None        # (level, run, total) if a cap was hit
        self.outcomes = {}
        self.divergences = 0
        self.harness_errors = []
        self.revalidated = 0
        self.pruned = 0

    def as_dict(self):
        return {"executions": self.executions, "transitions": self.transitions,
                "states": len(self.states), "executions_per_level": self.levels,
                "capped": self.capped, "distinct_outcomes": len(self.outcomes),
                "pruned_revisits": self.pruned, "divergences": self.divergences}


def explore(pool, scenario, judge, bound, key, max_executions=None, deadline=None, stop_after=3,
            outcome=None, stats=None, validate=4, restrict=None):
    """Explore `scenario`; `judge(result)` returns None or a message.  Returns (stats, violations)
       where violations is a list of (message, deviations, result)."""
    stats = stats or Stats()
    violations = []
    visited = set()
    frontier = [((), None)]

    for level in range(bound + 1):
        total = len(frontier)
        if max_executions is not None and stats.executions + total > max_executions:
            allowed = max(0, max_executions - stats.executions)
            stats.capped = (level, allowed, total)
            frontier = frontier[:allowed]
        next_frontier = []
        done = 0
        chunk = max(pool.num * 24, 64)
        for pos in range(0, len(frontier), chunk):
            if deadline is not None and time.monotonic() > deadline:
                stats.capped = (level, done, total)
                break
            part = frontier[pos:pos + chunk]
            results = pool.map([{"scenario": scenario, "deviations": dev, "choices": True,
                                 "snapshot": key} for dev, _ in part])
            for (dev, expect), result in zip(part, results):
                done += 1
                stats.executions += 1
                if "harness_error" in result:
                    if "divergence" in result["harness_error"]:
                        stats.divergences += 1
                    else:
                        stats.harness_errors.append((dev, result["harness_error"]))
                    continue
                stats.transitions += result["steps"]
                choices = result["choices"]
                if expect is not None:
                    index, state = expect
                    if index >= len(choices) or choices[index][2] != state:
                        stats.divergences += 1
                for choice in choices:
                    stats.states.add(choice[2])
                if outcome is not None:
                    sig = outcome(result)
                    stats.outcomes[sig] = stats.outcomes.get(sig, 0) + 1
                message = judge(result)
                if message is not None:
                    violations.append((message, dev, result))
                    if len(violations) >= stop_after:
                        stats.levels.append(done)
                        return stats, violations
                    continue
                if level < bound:
                    start = dev[-1][0] + 1 if dev else 0
                    for index in range(start, len(choices)):
                        _, alts, state, _name, _op = choices[index]
                        for alt in alts:
                            if restrict is not None and not restrict(dev, choices[index], alt):
                                continue
                            mark = hash((state, alt))
                            if mark in visited:
                                stats.pruned += 1
                                continue
                            visited.add(mark)
                            next_frontier.append((dev + ((index, alt),), (index, state)))
        else:
            stats.levels.append(done)
            if stats.capped:
                break
            frontier = next_frontier
            continue
        stats.levels.append(done)
        break

    return stats, violations


def replay(pool, scenario, deviations, key=None):
    """Run one schedule again and return the result with a trace."""
    result = pool.map([{"scenario": scenario, "deviations": tuple(map(tuple, deviations)),
                        "trace": True, "choices": True, "snapshot": key or repr(id(scenario))}])[0]
    return result
