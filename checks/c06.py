"""C06: expressions have the meaning of their boolean formula, malformed ones are refused."""

import itertools
import json

from .common import *

#: tests of different speed, so that the order of evaluation gets changed
TESTS = {"a": "name~[x]", "b": "vals.vb=yes", "c": "slowvals.vn=1"}
OPEN, CLOSE = "(", ")"


def parse(tokens):
    """Reference: None if malformed, "?" if not covered by the documentation, else a formula."""
    pos = 0
    unspecified = False

    class Malformed(Exception):
        pass

    def peek():
        return tokens[pos] if pos < len(tokens) else None

    def disjunction(depth):
        nonlocal pos
        terms = [conjunction(depth)]
        while peek() == "OR":
            pos += 1
            terms.append(conjunction(depth))
        return ("or", terms)

    def conjunction(depth):
        nonlocal pos, unspecified
        factors = []
        glue = False
        while True:
            token = peek()
            if token == "AND":
                # only a single AND between two factors is what the documentation describes
                if glue or not factors:
                    unspecified = True
                glue = True
                pos += 1
            elif token in (None, "OR", CLOSE):
                if glue:
                    unspecified = True
                if not factors:
                    raise Malformed
                return ("and", factors)
            else:
                factors.append(factor(depth))
                glue = False

    def factor(depth):
        nonlocal pos, unspecified
        token = peek()
        pos += 1
        if token == "NOT":
            if peek() in (None, "AND", "OR", CLOSE):
                raise Malformed
            if peek() == "NOT":
                unspecified = True
            return ("not", factor(depth))
        if token == OPEN:
            inner = disjunction(depth + 1)
            if peek() != CLOSE:
                raise Malformed
            pos += 1
            return inner
        return ("test", token)

    if not tokens:
        return ("and", [])
    try:
        formula = disjunction(0)
        if pos != len(tokens):
            raise Malformed
    except Malformed:
        # A stray AND may or may not be an error of its own.
        return "?" if unspecified else None
    return "?" if unspecified else formula


def evaluate(formula, truth):
    kind, arg = formula
    if kind == "test":
        return truth[arg]
    if kind == "not":
        return not evaluate(arg, truth)
    if kind == "and":
        return all(evaluate(f, truth) for f in arg)
    return any(evaluate(f, truth) for f in arg)


def expressions(num, letters):
    """All documented expressions with at most `num` tokens."""
    factors = [None] * (num + 1)
    conj = [None] * (num + 1)
    disj = [None] * (num + 1)
    for n in range(num + 1):
        # factors with exactly n tokens
        result = []
        if n == 1:
            result += [(l,) for l in letters]
        if n >= 2:
            result += [("NOT",) + f for f in factors[n - 1] if f[0] != "NOT"]
        if n >= 3:
            result += [(OPEN,) + d + (CLOSE,) for d in disj[n - 2]]
        factors[n] = result
        result = list(factors[n])
        for first in range(1, n):
            for f in factors[first]:
                result += [f + c for c in conj[n - first]]
                if n - first >= 2:
                    result += [f + ("AND",) + c for c in conj[n - first - 1]]
        conj[n] = result
        result = list(conj[n])
        for first in range(1, n - 1):
            for c in conj[first]:
                result += [c + ("OR",) + d for d in disj[n - first - 1]]
        disj[n] = result
    for n in range(1, num + 1):
        yield from disj[n]


def normal(tokens):
    """Whether the tests appear in the order a, b, c (all other ones are renamings)."""
    seen = []
    for token in tokens:
        if token in TESTS and token not in seen:
            seen.append(token)
    return seen == sorted(seen) and (not seen or seen[-1] == "abc"[len(seen) - 1])


def build(check):
    items = []
    truths = {}
    for bits in itertools.product((0, 1), repeat=3):
        for missing in (False, True):
            # a test for an attribute without a value is false
            if missing and bits[2]:
                continue
            name = "v" + ("x" if bits[0] else "") + "".join(map(str, bits)) + "m" * missing
            values = {"vb": bool(bits[1])}
            if bits[2]:
                values["vn"] = 1
            elif not missing:
                values["vn"] = 0
            items.append(("f", name, json.dumps(values)))
            truths[name] = dict(zip("abc", map(bool, bits)))
    return check.tree("truth", items), truths


def render(tokens, mapping, brackets, lower):
    table = {OPEN: brackets[0], CLOSE: brackets[1], **mapping}
    for op in ("AND", "OR", "NOT"):
        table[op] = op.lower() if lower else op
    return [table[t] for t in tokens]


def main():
    with Check("C06") as check:
        root, truths = build(check)
        thorough = check.thorough
        pool = {"extra_env": PLUGIN_ENV}
        rotations = []
        for order in itertools.permutations("abc"):
            # which letter of the formula stands for which test
            rotations.append({l: o for l, o in zip("abc", order)})

        def make(tokens, rot, brackets, lower, argv=()):
            formula = parse(tokens)
            mapping = {l: TESTS[o] for l, o in rot.items()}
            args = ["-j1", *argv] + render(tokens, mapping, brackets, lower)
            if formula is None:
                judge = expect_error((2, 12))
            elif formula == "?":
                # not documented: anything but a crash
                def judge(result):
                    return f"traceback {err(result)[-300:]!r}" if has_traceback(result) else None
            else:
                judge = expect_lines(name for name, truth in truths.items() if evaluate(
                    formula, {l: truth[o] for l, o in rot.items()}))
            return case(" ".join(args), args, judge, root, formula not in (None, "?"))

        def sequences():
            limit = 6 if thorough else 5
            alphabet = ["a", "b", "AND", "OR", "NOT", OPEN, CLOSE]
            for num in range(limit + 1):
                for i, tokens in enumerate(itertools.product(alphabet, repeat=num)):
                    yield make(tokens, rotations[0], ("(", ")") if i % 2 else ("{{", "}}"), i % 3 == 0)

        def documented():
            limit = 7 if thorough else 6
            for i, tokens in enumerate(t for t in expressions(limit, "abc") if normal(t)):
                which = rotations if thorough else [rotations[i % 6]]
                for rot in which:
                    yield make(tokens, rot, ("(", ")") if i % 2 else ("{{", "}}"), i % 3 == 0)

        def broken():
            """Documented expressions with one token removed, doubled or replaced."""
            limit = 6 if thorough else 5
            seen = set()
            for tokens in expressions(limit, "a"):
                for pos in range(len(tokens)):
                    for new in ((), ("OR",), ("NOT",), (OPEN,), (CLOSE,),
                                (tokens[pos], tokens[pos])):
                        mutant = tokens[:pos] + new + tokens[pos + 1:]
                        if mutant not in seen and parse(mutant) is None:
                            seen.add(mutant)
                            yield make(mutant, rotations[0], ("(", ")"), False)

        run_cases(check, "all token sequences", sequences(), **pool)
        run_cases(check, "all documented expressions", documented(), **pool)
        run_cases(check, "broken expressions", broken(), **pool)
        real_runs(check, [make(t, rotations[3], ("(", ")"), False, ["-j2"]) for t in (
            ("a", "OR", "b", "c"), ("NOT", OPEN, "a", "OR", "b", CLOSE, "c"), (OPEN, "a"))],
            PLUGIN_ENV)
        return check.report.finish(
            rule="a case is one expression evaluated on one file per assignment of truth values "
                 "(and files without a value); nontrivial: the reference grammar gives it a meaning")
