"""Generated-input search: parts, case streams, shrinking, classification."""
import hashlib
import json
import os
import random
import time
import traceback
import types


class Violation(Exception):
    """The property does not hold on this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never a failure)."""


class Part:
    """One generated check of a property.

    gen(rng) -> JSON-encodable case; check(case) -> iterable of labels ("NT"
    marks a non-trivial case) or None; raises Violation when the property is
    broken.  quick/thorough: number of cases over all workers.
    """

    def __init__(self, name, gen, check, quick, thorough=None, rule="", setup=None,
                 fixed=(), shrink_tries=1500, single=False):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.setup = setup
        self.fixed = list(fixed)  # hand-picked starting corpus, run first
        self.shrink_tries = shrink_tries
        self.single = single

    def count(self, tier, scale=1.0):
        n = self.quick if tier == "quick" else self.thorough
        return max(1, int(n * scale)) + len(self.fixed)

    def case(self, seed, i):
        if i < len(self.fixed):
            return self.fixed[i]
        rng = random.Random("%s/%s/%d" % (seed, self.name, i))
        return self.gen(rng)


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    if len(s) > n:
        s = s[: n // 2] + " ...[%d chars]... " % len(s) + s[-n // 2:]
    return s


def eq(got, want, what):
    if got != want:
        if isinstance(got, (list, str)) and isinstance(want, type(got)):
            k = 0
            while k < min(len(got), len(want)) and got[k] == want[k]:
                k += 1
            g, w = got[max(0, k - 3):k + 3], want[max(0, k - 3):k + 3]
            raise Violation("%s: first difference at %d (lengths %d, %d): got ...%s expected ...%s"
                            % (what, k, len(got), len(want), short(g), short(w)))
        raise Violation("%s: got %s expected %s" % (what, short(got), short(want)))


def expect(cond, msg):
    if not cond:
        raise Violation(msg)


class CutError(Violation):
    """An exception that came out of the code under test unexpectedly."""


def cut(what, f, *a, **k):
    """Call the code under test; any exception is a violation."""
    try:
        return f(*a, **k)
    except (Violation, Skip):
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        raise CutError("%s raised %s: %s" % (what, type(e).__name__, short(str(e)))) from e


def run_case(part, case, pkgdir, wellformed=False):
    """-> (status, message, labels); status in ok, skip, violation, harness."""
    try:
        labels = part.check(case)
        return "ok", "", list(labels or ())
    except Skip as e:
        return "skip", str(e), []
    except Violation as e:
        return "violation", str(e), []
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(os.path.abspath(fr.filename).startswith(pkgdir) for fr in tb)
        msg = "%s: %s" % (type(e).__name__, short(str(e)))
        if inside:
            where = [fr for fr in tb if os.path.abspath(fr.filename).startswith(pkgdir)][-1]
            return ("violation", "unexpected exception from %s:%s: %s"
                    % (os.path.relpath(where.filename, pkgdir), where.name, msg), [])
        if wellformed and unusable(e):
            return "violation", UNUSABLE + msg + " in " + tb[-1].name, []
        return "harness", "".join(traceback.format_exception(e))[-3000:], []


UNUSABLE = "the results cannot be compared, they are no values of the expected kind: "


def unusable(e):
    """Is this what an oracle meets when a result has the wrong type or shape?

    Checks raise nothing on any case the generators make while results are
    what the property says; a name that is not there (a function moved or
    renamed) and failures of the machine are not results.
    """
    if isinstance(e, AttributeError):
        return not isinstance(e.obj, (type, types.ModuleType)) and not (e.name or "_").startswith("_")
    return isinstance(e, (TypeError, ValueError, LookupError))


def case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode("utf-8", "surrogatepass"), digest_size=8).digest()


# ---------------------------------------------------------------- shrinking

def _cands_str(s):
    n = len(s)
    if n == 0:
        return
    yield ""
    k = n // 2
    while k >= 1:
        i = 0
        while i < n:
            yield s[:i] + s[i + k:]
            i += k
            if n // k > 60 and i > 60 * k:
                break
        k //= 2
    for i, c in enumerate(s[:60]):
        if c not in "a" and (c.isalnum() or ord(c) > 127):
            yield s[:i] + "a" + s[i + 1:]


def _cands_int(x):
    if x == 0:
        return
    yield 0
    if abs(x) > 1:
        yield 1 if x > 0 else -1
        yield x // 2 if x > 0 else -((-x) // 2)
        yield x - 1 if x > 0 else x + 1


def candidates(x):
    if isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        yield from _cands_int(x)
    elif isinstance(x, float):
        if x:
            yield 0.0
    elif isinstance(x, str):
        yield from _cands_str(x)
    elif isinstance(x, list):
        n = len(x)
        if n:
            yield []
        k = n // 2
        while k >= 1:
            i = 0
            while i < n:
                yield x[:i] + x[i + k:]
                i += k
            k //= 2
        for i in range(min(n, 80)):
            for c in candidates(x[i]):
                yield x[:i] + [c] + x[i + 1:]
    elif isinstance(x, dict):
        for key in x:
            for c in candidates(x[key]):
                y = dict(x)
                y[key] = c
                yield y


def shrink(part, case, pkgdir, tries=1500, seconds=25.0, beat=None):
    t0 = time.monotonic()
    best, msg = case, None
    n = 0
    progress = True
    while progress:
        progress = False
        for c in candidates(best):
            n += 1
            if n > tries or time.monotonic() - t0 > seconds:
                return best, msg
            if beat:
                beat()
            try:
                st, m, _ = run_case(part, c, pkgdir)
            except BaseException:
                continue
            if st == "violation":
                best, msg = c, m
                progress = True
                break
    return best, msg
