"""Property-based testing framework shared by all checks.

A property module (props/cXX.py) defines
    ID, RULE, ASSUMPTIONS, SUBCHECKS = [Sub(...), ...]
A Sub has a Hypothesis strategy that generates a plain JSON-able case and a function check(case, lab) that
drives the real code in the repository and raises Violation when the oracle disagrees.  Every run is a pure function of the
code and VERIF_SEED: shard seeds are derived from (VERIF_SEED, property, sub-check, shard), no database, no wall clock.

Outcome:  exit 0 = held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>"; exit 2 = harness error.
"""
import collections
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The code under test broke the property on this case."""


class Discard(Exception):
    """The case is outside of the property's domain (counted)."""


class Inconclusive(Exception):
    """The harness could not observe the behaviour on this case (counted, never a violation)."""


class Hang(BaseException):
    """One case used far more CPU time than any case needs; not an Exception so that nothing swallows it."""


class Lab:
    """Per-case labels: lab('name') counts a class of cases, lab.nt() marks the case as non-trivial."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.known = []

    def __call__(self, *names):
        self.labels.update(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def known_finding(self, kid):
        self.known.append(kid)


class Sub:
    def __init__(self, name, check, strategy=None, quick=200, thorough=None, cases=None, shards=8, shrink_s=40,
                 cpu_s=40):
        self.name = name            # sub-check name
        self.check = check          # check(case, lab)
        self.strategy = strategy    # callable -> Hypothesis strategy, or None
        self.quick = quick          # generated cases in the quick tier (all shards together)
        self.thorough = thorough if thorough is not None else quick * 12
        self.cases = cases          # callable(tier) -> iterable of fixed / enumerated cases, run first
        self.shards = shards
        self.shrink_s = shrink_s
        self.cpu_s = cpu_s          # CPU seconds after which one case counts as not terminating


def setup_imports():
    """Imports the third-party packages and then ghedt from the repository's working tree."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            import glob
            for pat in ("hypothesis-*", "sortedcontainers-*", "attrs-*"):
                for w in sorted(glob.glob("/opt/veriftools/wheels/" + pat)):
                    sys.path.append(w)
            import hypothesis  # noqa: F401
    import warnings
    warnings.filterwarnings("ignore")
    import ghedt
    where = os.path.realpath(ghedt.__file__)
    if not where.startswith(os.path.realpath(REPO) + "/"):
        raise RuntimeError("ghedt is imported from %s, not from %s" % (where, REPO))
    return ghedt


def _in_repo(tb):
    """True when the exception passed through the code under test."""
    base = os.path.realpath(REPO) + "/ghedt/"
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(base):
            return True
        tb = tb.tb_next
    return False


def _where(exc):
    base = os.path.realpath(REPO) + "/"
    out = ""
    for f in traceback.extract_tb(exc.__traceback__):
        p = os.path.realpath(f.filename)
        if p.startswith(base):
            out = "%s:%d in %s" % (p[len(base):], f.lineno, f.name)
    return out


def run_case(sub, case):
    """Runs one case; returns Lab; raises Violation / Discard / Inconclusive or a harness error."""
    lab = Lab()
    out = io.StringIO()

    def expired(signum, frame):
        raise Hang("valid input does not finish within %d s of CPU time" % sub.cpu_s)

    signal.signal(signal.SIGVTALRM, expired)
    signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu_s)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            sub.check(case, lab)
    except (Violation, Discard, Inconclusive) as e:
        e.lab = lab
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if _in_repo(e.__traceback__):
            v = Violation("valid input fails with %s: %s (%s)" % (type(e).__name__, str(e)[:300], _where(e)))
            v.lab = lab
            raise v from e
        if isinstance(e, (TypeError, ValueError, IndexError, ArithmeticError)) and "argument" not in str(e).replace("argument must be", ""):
            # what the code under test returned is not a number, a curve, ... at all
            v = Violation("the result cannot be evaluated: %s: %s (%s)" % (type(e).__name__, str(e)[:300], traceback.extract_tb(e.__traceback__)[-1].name))
            v.lab = lab
            raise v from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return lab


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.inconclusive = 0
        self.distinct = set()
        self.distinct_nt = set()
        self.labels = collections.Counter()
        self.known = collections.Counter()
        self.samples = []

    def record(self, case, lab, keep):
        self.evaluations += 1
        h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()
        self.distinct.add(h)
        if lab.nontrivial:
            if h not in self.distinct_nt and len(self.samples) < keep:
                s = json.dumps(case)
                self.samples.append(case if len(s) < 1500 else s[:1500] + "...")
            self.distinct_nt.add(h)
        self.labels.update(lab.labels)
        self.known.update(lab.known)

    def dump(self):
        return dict(evaluations=self.evaluations, discarded=self.discarded, inconclusive=self.inconclusive,
                    distinct=self.distinct, distinct_nt=self.distinct_nt, labels=self.labels, known=self.known,
                    samples=self.samples)


def derive_seed(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_shard(mod, sub, shard, nshards, tier, seed):
    """Runs one shard of one sub-check.  Returns a dict with the statistics and the failure, if any."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as eng
    if hasattr(eng, "MAX_SHRINKING_SECONDS"):
        eng.MAX_SHRINKING_SECONDS = sub.shrink_s

    st = Stats()
    res = {"sub": sub.name, "shard": shard, "failure": None, "error": None}
    t0 = time.time()
    state = {"last": None, "skip": shard > 0}

    def one(case, generated):
        try:
            lab = run_case(sub, case)
        except Discard:
            st.discarded += 1
            if generated:
                hypothesis.reject()
            return
        except Inconclusive:
            st.inconclusive += 1
            st.evaluations += 1
            return
        except (Violation, Hang) as v:
            state["last"] = (case, str(v))
            raise
        st.record(case, lab, 3)

    try:
        if sub.cases is not None:
            for i, case in enumerate(sub.cases(tier)):
                if i % nshards == shard:
                    one(case, False)
        if sub.strategy is not None:
            total = sub.quick if tier == "quick" else sub.thorough
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n > 0:
                @hypothesis.seed(derive_seed(seed, mod.ID, sub.name, shard))
                @settings(max_examples=n + (1 if shard > 0 else 0), database=None, deadline=None, report_multiple_bugs=False,
                          phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                          print_blob=False, verbosity=hypothesis.Verbosity.quiet)
                @hypothesis.given(case=sub.strategy())
                def test(case):
                    # what is checked (and stored in a replay) is exactly what JSON can hold
                    if state["skip"]:
                        # the first example is the same simplest case in every shard: only the first shard runs it
                        state["skip"] = False
                        return
                    one(json.loads(json.dumps(case)), True)

                out = io.StringIO()
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                    test()
    except (Violation, Hang) as v:
        res["failure"] = {"case": state["last"][0], "message": str(v)}
    except hypothesis.errors.Flaky as e:
        if state["last"] is not None:
            res["failure"] = {"case": state["last"][0], "message": state["last"][1] + " (not reproduced on every run)"}
        else:
            res["error"] = "".join(traceback.format_exception(e))
    except hypothesis.errors.Unsatisfiable:
        pass          # every case was discarded, which the counts tell
    except BaseException as e:  # harness error
        if state["last"] is not None and isinstance(e, hypothesis.errors.HypothesisException):
            res["failure"] = {"case": state["last"][0], "message": state["last"][1]}
        else:
            res["error"] = "".join(traceback.format_exception(e))
    res.update(st.dump())
    res["wall"] = time.time() - t0
    return res
