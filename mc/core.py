"""Runner: enumerates the case specs of a check, explores them on all cores,
writes evidence, known findings and replay files."""

import os
import sys

for _v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True

import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import signal
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import numpy as np
import torch

torch.set_num_threads(1)

CASE_TIMEOUT_S = 300
MAX_VIOLATIONS = 3


class Violation(Exception):
    """The property does not hold on the explored behaviour."""


class CaseTimeout(Exception):
    """The code under test did not terminate on a case."""


class EndOfHistory(Exception):
    """The history left the region in which it can be compared (e.g. it diverges)."""


class KnownDeviation(Violation):
    """The property fails in exactly the way a recorded finding describes."""


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def arr(x):
    """Any tensor / array as float64 numpy."""
    if isinstance(x, torch.Tensor):
        x = x.detach()
        if x.dtype in (torch.float16, torch.bfloat16):
            x = x.float()
        return x.cpu().numpy().astype(np.float64)
    return np.asarray(x, dtype=np.float64)


def close(actual, expected, what, scale=None, tol=1e-4, floor=1e-6):
    """`actual` agrees with the float64 oracle up to `tol` times the magnitude of the
    terms that were added up to obtain it."""
    a, e = arr(actual), arr(expected)
    require(a.shape == e.shape, f"{what}: shape {a.shape}, expected {e.shape}")
    if a.size == 0:
        return 0.0
    require(
        bool(np.isfinite(a).all()) or not bool(np.isfinite(e).all()),
        f"{what}: non-finite values",
    )
    if scale is None:
        scale = float(np.abs(e).max())
    bound = tol * max(scale, floor)
    err = np.abs(a - e)
    i = np.unravel_index(int(np.argmax(err)), err.shape)
    require(
        float(err[i]) <= bound,
        f"{what}: entry {tuple(int(j) for j in i)} is {a[i]:.8g}, expected {e[i]:.8g}"
        f" (allowed deviation {bound:.3g})",
    )
    return float(err[i])


def close_rows(actual, expected, what, tol=1e-4):
    """Like `close`, but the order of rows does not matter."""
    try:
        return close(actual, expected, what, tol=tol)
    except Violation:
        a, e = arr(actual), arr(expected)
        if a.shape != e.shape or a.ndim != 2:
            raise

        def ordered(m):
            keys = np.round(m, 4) + 0.0
            return m[np.lexsort(keys.T[::-1])]

        try:
            return close(ordered(a), ordered(e), what, tol=tol)
        except Violation:
            pass
        raise


def same(actual, expected, what):
    """Bitwise equality (same shape, dtype and values)."""
    require(
        tuple(actual.shape) == tuple(expected.shape),
        f"{what}: shape {tuple(actual.shape)} vs {tuple(expected.shape)}",
    )
    require(actual.dtype == expected.dtype, f"{what}: {actual.dtype} vs {expected.dtype}")
    eq = torch.equal(actual, expected)
    if not eq and actual.is_floating_point():  # NaNs at the same places are equal
        na, ne = torch.isnan(actual), torch.isnan(expected)
        eq = torch.equal(na, ne) and torch.equal(
            actual.masked_fill(na, 0.0), expected.masked_fill(ne, 0.0)
        )
    if not eq:
        d = np.abs(arr(actual) - arr(expected))
        raise Violation(f"{what}: differs (largest difference {np.nanmax(d):.6g})")


def rng(*key):
    """Deterministic generator for a key (the only source of data values)."""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return np.random.RandomState(zlib.crc32(repr((seed,) + key).encode()) % (2**32))


class Stats:
    """What a run covered; every number is counted while running."""

    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.truncated = 0
        self.states = set()
        self.nontrivial = set()
        self.outcomes = set()
        self.samples = []

    @staticmethod
    def _h(x):
        return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()

    def state(self, *x):
        self.states.add(self._h(x))

    def case(self, key, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.nontrivial.add(self._h(key))

    def outcome(self, x):
        self.outcomes.add(self._h(x))

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def merge(self, o):
        self.evaluations += o.evaluations
        self.transitions += o.transitions
        self.traces += o.traces
        self.truncated += o.truncated
        self.states |= o.states
        self.nontrivial |= o.nontrivial
        self.outcomes |= o.outcomes
        if len(self.samples) < 6:
            self.samples += o.samples[: 6 - len(self.samples)]


def _alarm(signum, frame):
    raise CaseTimeout(f"no result within {CASE_TIMEOUT_S} s")


class Known(str):
    """Message of a `KnownDeviation`."""


_MODULE = None


def run_case(module, spec, st):
    """Run one case; returns None or the description of a violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            # the optimizer enables its warnings globally, they would flood the output
            warnings.showwarning = lambda *a, **k: None
            module.run(spec, st)
        return None
    except EndOfHistory:
        st.truncated += 1
        return None
    except KnownDeviation as v:
        return Known(str(v))
    except Violation as v:
        return str(v)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(os.path.join(REPO, "singd"))]
        loc = where[-1] if where else tb[-1]
        origin = "code under test" if where else "observation of the code under test"
        return (
            f"{type(e).__name__} from {origin} at {os.path.basename(loc.filename)}:"
            f"{loc.lineno} ({loc.name}): {str(e)[:300]}"
        )
    finally:
        signal.alarm(0)


def _work(chunk):
    st = Stats()
    bad = []
    for spec in chunk:
        msg = run_case(_MODULE, spec, st)
        if msg is not None:
            bad.append((spec, msg))
            if sum(not isinstance(m, Known) for _, m in bad) >= MAX_VIOLATIONS:
                break
    return st, bad


def _chunks(specs, n):
    """Interleaved chunks, so that expensive neighbours are spread out."""
    n = max(1, min(n, len(specs)))
    return [specs[i::n] for i in range(n)]


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {k["case"]: k for k in data["findings"] if k["property"] == pid}


def write_evidence(pid, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(path + ".tmp", path)


def main(argv):
    import argparse

    p = argparse.ArgumentParser()
    p.add_argument("check")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--replay")
    p.add_argument("--list", action="store_true")
    p.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = p.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.setdefault("VERIF_SEED", "1"))
    pid = args.check
    t0 = time.time()

    global _MODULE
    _MODULE = module = importlib.import_module(f"mc.checks.{pid.lower()}")
    import singd

    here = os.path.realpath(os.path.dirname(singd.__file__))
    if here != os.path.realpath(os.path.join(REPO, "singd")):
        print(f"error: imported singd from {here}, expected {REPO}", file=sys.stderr)
        return 2

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        os.environ["VERIF_SEED"] = str(rec.get("seed", seed))
        msg = run_case(module, rec["spec"], Stats())
        again = run_case(module, rec["spec"], Stats())
        print(f"replay of {rec['spec']}:\n  first:  {msg}\n  second: {again}")
        if msg is None:
            print("the property holds on this case")
            return 0
        print(f"VIOLATION property={pid} replay={args.replay}")
        return 1

    specs = module.cases(tier)
    ids = [s["id"] for s in specs]
    assert len(ids) == len(set(ids)), "duplicate case ids"
    if args.list:
        print("\n".join(ids))
        return 0

    total, bad, done = Stats(), [], 0
    ctx = mp.get_context("fork")
    n_chunks = getattr(module, "CHUNKS", 8 * 12)
    chunks = _chunks(specs, n_chunks)
    capped = False
    with cf.ProcessPoolExecutor(args.jobs, mp_context=ctx) as ex:
        futs = {ex.submit(_work, c): c for c in chunks}
        for fut in cf.as_completed(futs):
            st, b = fut.result()
            total.merge(st)
            bad += b
            done += 1
            if sum(not isinstance(m, Known) for _, m in bad) >= MAX_VIOLATIONS:
                capped = True
                for f in futs:
                    f.cancel()
                break
        if capped:
            ex.shutdown(wait=True, cancel_futures=True)

    known = known_findings(pid)
    news, olds = [], []
    for spec, msg in sorted(bad, key=lambda x: (len(x[0]["id"]), x[0]["id"])):
        is_known = isinstance(msg, Known) and spec["id"] in known
        (olds if is_known else news).append((spec, msg))

    coverage = {
        "evaluations": total.evaluations,
        "distinct_nontrivial": len(total.nontrivial),
        "rule": module.RULE,
        "states": len(total.states),
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "distinct_outcomes": len(total.outcomes),
        "samples": total.samples or [s["id"] for s in specs[:3]],
        "cases": len(specs),
        "histories_ended_early_by_divergence": total.truncated,
        "exhaustive": not capped,
        "bounds": module.BOUNDS[tier] if isinstance(module.BOUNDS, dict) else module.BOUNDS,
    }
    if not total.transitions:
        for k in ("states", "transitions", "traces_validated_against_impl"):
            coverage.pop(k)
    write_evidence(
        pid,
        tier,
        seed,
        module.LEVEL,
        coverage,
        time.time() - t0,
        len(news),
        getattr(module, "ASSUMPTIONS", []),
    )
    for spec, msg in olds:
        print(f"KNOWN-FINDING: property={pid} {spec['id']}: {known[spec['id']]['what']}")
    rc = 0
    for spec, msg in news[:MAX_VIOLATIONS]:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.blake2b(spec["id"].encode(), digest_size=5).hexdigest()
        path = os.path.join(d, f"{pid}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "spec": spec, "message": msg}, f)
        print(f"  case {spec['id']}: {msg}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    print(
        f"{pid} [{tier}] cases={len(specs)} evaluations={total.evaluations} "
        f"distinct={len(total.nontrivial)} states={len(total.states)} "
        f"transitions={total.transitions} traces={total.traces} truncated={total.truncated} "
        f"outcomes={len(total.outcomes)} violations={len(news)} known={len(olds)} "
        f"time={time.time() - t0:.1f}s"
    )
    return rc
