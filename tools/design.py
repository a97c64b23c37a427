"""Writes DESIGN.md from the checks' own descriptions and the texts below."""

import glob
import importlib
import json
import os
import sys

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.getcwd())

props = [json.loads(x) for x in open("properties.jsonl")]
known = json.load(open("known_findings.json"))
try:
    times = json.load(open("tools/times.json"))
    matrix = json.load(open("tools/matrix.json"))
except FileNotFoundError:
    times, matrix = {}, {}

# oracle, and why this reaches what the unit tests cannot
ORACLE = {
    "C01": ("float64 evaluation (mc/spec.py) of the update relation from the pre-conditioner the optimizer holds, with the specification's own momentum buffers",
            "the repository's training tests run a handful of fixed configurations against another implementation; a bug in a combination (weight decay x momentum x re-used gradient x schedule) or in a late step is invisible to them"),
    "C02": ("mc/spec.py: the documented recursion written down from the paper and docstrings on dense float64 matrices with a projection per structure; inputs and output gradients are recorded by the harness's own hooks",
            "each word changes hyper-parameters between refreshes; the unit tests only compare selected settings after fixed numbers of steps"),
    "C03": ("an explicit control model (step index modulo periods, pending graphs, statistics) decides when a refresh is due and from which backward passes; implementation and model move in lockstep",
            "a schedule property: it quantifies over all interleavings of forward, backward, step; tests use the sequence zero_grad, forward, backward, step only"),
    "C04": ("mc/spec.py on un-scaled gradients; a real GradScaler for the scaler cases",
            "depends on the history of scales (the scale of step t-1 is used in step t); tests use a constant scale"),
    "C05": ("bitwise comparison over skipped steps; spec for all others", "placement of overflows in histories; no test has one"),
    "C06": ("the uninterrupted run of the real optimizer, bitwise", "every crash point of a history (including between backward passes and step), every way of restoring; the test restores once at one point"),
    "C07": ("the run which never splits, and mc/spec.py for documented exceptions", "orders and interleavings of micro-batches over several steps"),
    "C08": ("one process on the union batch; a process-group model (mc/world.py) that matches collectives in issue order",
            "schedules of several ranks, deadlock, mismatched collectives; the unit tests never initialize a process group"),
    "C09": ("independent real optimizers, one per group, bitwise", "assignments of values to layers and orders of groups; tests use one or two fixed groupings"),
    "C10": ("mc/spec.py with zeros in place of untrained gradients, bitwise for everything else", "subsets, masks that change in between, layers that do not take part"),
    "C11": ("the same model without optimizer, bitwise", "every word of unusual events (re-entrant checkpointing, double backward, in-place activations)"),
    "C12": ("dense float64/integer arithmetic, exact", "the operations are (bi-)linear, so all basis operands determine them at that size; tests use one random non-negative symmetric sample of sizes 1 and 10"),
    "C13": ("float64 projection of the dense product", "quadratic maps are determined by basis elements and pair sums (polarization); tests use symmetric non-negative random samples"),
    "C14": ("dense float64 arithmetic", "patterns with signs, zeros, magnitudes at the limits of half precision"),
    "C15": ("a pool of dense float64 matrices", "aliasing shows only after sequences of in- and out-of-place operations"),
    "C16": ("type invariants in every state; mc/spec.py in float64 with tolerances of the configured precisions", "full product of precisions with autocast and words of events"),
    "C17": ("PyTorch's own convolution with unit kernels (the layer's own linear map)", "all layer hyper-parameters in a box, all unit inputs"),
    "C18": ("per-term gradients obtained independently", "all shapes in a box, all unit gradients"),
    "C19": ("a table of documented values; hooks and parameters before and after", "every invalid value at every place, every valid combination"),
    "C20": ("a placement model of component entries", "all component shapes in a box; tests use valid ones"),
    "C21": ("exact integer arithmetic / positive semi-definiteness", "for all small integer factors and all gradients determining the quadratic form"),
    "C22": ("an optimizer that is alone, bitwise", "interleavings of several optimizers"),
    "C23": ("a second presentation of the same problem, executed by the real optimizer", "metamorphic: no reference model involved, hence independent of mc/spec.py"),
    "C24": ("sizes counted from the documented structures (mc/spec.py:count), and the same process some rounds earlier", "monitors all live tensors of the process"),
    "C25": ("the same word under default settings, bitwise", "PyTorch's meta device stands for every other device: values created there are lost, and mixing devices fails"),
    "C26": ("the same run with the documented values given; a count of documented warnings", "all small sets of options"),
}

out = []
w = out.append
w("""# Design

This file is written by `python3 tools/design.py` from the checks' own descriptions, the evidence
of the last runs and the texts in that script.

## Approach

SINGD is a single-threaded numerical library, so its "behaviours" are *histories*: words of events
(forward, backward, zero_grad, step, hyper-parameter change, scale change, overflow, save/restore,
operation on a matrix, collective of a rank). Every check enumerates all words (or all
configurations, subsets, partitions, schedules, shapes, basis operands) within stated bounds and
executes each one **on the real code**; nothing is sampled. Two kinds of oracles are used:

* an **executable specification** (mc/spec.py: the documented algorithm on dense float64 numpy
  matrices; mc/sim.py: the event system) which moves in lockstep with the implementation. After
  every event the successor state predicted from the implementation's current state is compared,
  so errors do not add up and the model is bound to the code in every transition: each explored
  trace is at the same time the conformance check of the model ("traces_validated_against_impl").
* **differential oracles**: a second execution of the real code that has to agree (bitwise where
  the same floating point operations run: C05, C06, C09, C11, C22; up to rounding: C07, C08, C23).

For operations that are linear, bilinear or quadratic in the matrix contents (C12-C14, C17, C18) the
enumeration is over *all basis operands* of every structure and size, which determines the operation
at that size; contents are small integers, so results are exact and compared exactly.

Data values only come from a generator keyed by (VERIF_SEED, case); they are not what is explored.
Tolerances are relative to the summed magnitudes of the terms (1e-4 in float32 against float64), so
that rounding cannot raise an alarm while a wrong factor, sign, index or operand does. The step size
of a parameter is compared relative to the learning rate, so small rates do not hide errors.

Layout: run.py / mc/core.py (runner: enumerates `cases(tier)`, explores on 8 processes, evidence,
known findings, replay files), mc/spec.py (reference), mc/sim.py (event system, structures, nets),
mc/words.py (word enumeration), mc/mats.py (matrices from components), mc/world.py (scheduler for
simulated ranks), mc/checks/cNN.py (one per property), tools/ (generators of the committed tables).
`./check.sh C05 --replay FILE` re-executes a reported case twice.

A check imports singd from $VERIF_REPO (default /repo), pure Python, so nothing has to be built. An
exception raised inside the code under test on an allowed history counts as a violation, as does a
case that does not terminate within 300 s.

Besides the six structures users can select, 15 further ones are registered (block size 1-3,
hierarchical of several sizes, all recursive templates, nested ones): small sizes then already
exercise the boundary cases (remainder blocks, empty parts) of the large structures, which are
explored at sizes 14-90 themselves.

## Properties
""")
for p in props:
    m = importlib.import_module(f"mc.checks.{p['id'].lower()}")
    oracle, why = ORACLE[p["id"]]
    b = m.BOUNDS if isinstance(m.BOUNDS, dict) else {"quick": m.BOUNDS, "thorough": m.BOUNDS}
    w(f"### {p['id']} {p['title']}\n")
    w(f"* Decided by: {getattr(m, 'TECHNIQUE', None) or 'explicit enumeration of event words; every word is executed on the real optimizer in lockstep with an executable specification'}.")
    w(f"* Explored: {m.RULE}")
    w(f"* Oracle: {oracle}.")
    w(f"* Bounds: quick: {b['quick']}. Thorough: {b['thorough']}.")
    if getattr(m, "ASSUMPTIONS", []):
        w(f"* Assumptions: {'; '.join(m.ASSUMPTIONS)}.")
    t = times.get(p["id"])
    if t:
        w(f"* Cost: quick about {t['quick']:.0f} s" + (f", thorough about {t['thorough']:.0f} s" if t.get("thorough") else "") + " on 8 cores.")
    w(f"* Beyond the tests: {why}.\n")
w("""No property is listed under not_applicable: all of them are decided by enumeration within bounds.
What enumeration cannot give here is a statement about *all real-valued contents* of non-linear
maps or about unbounded histories and sizes; the bounds above say how far each check goes.

## Genuine defects

Repaired in /repo, one minimal commit each (known_findings.json lists them as well):
""")
for f in known["fixed"]:
    w(f"* {f.removeprefix('fixed: property=')}")
w("""
Recorded, not repaired (printed as KNOWN-FINDING by C07): under gradient accumulation the statistics
of `kfac_like=True` and of `loss_average=None` are sums over micro-batches whose terms are each
averaged over their own micro-batch (the input factor H_K is a batch average for every loss
convention, and IKFAC multiplies by tr(H_C) of the other factor), so k micro-batches do not give the
statistics of the whole batch. Repairing it needs an interface through which the user tells the
number of micro-batches (or another convention for summed losses), which is a design decision; the
checks decide instead that exactly the documented sums are used, and report anything else.

## Limitations of the library that are outside of the properties as stated

* Distributed training with a GradScaler that finds infinities on a subset of the ranks: the ranks
  disagree about skipping (PyTorch's DDP averages gradients first; here nothing synchronizes
  `found_inf`). C08 explores finite gradients.
* Tied weights, `MultiheadAttention.out_proj`
  (evaluated functionally, never hooked), `add_param_group` after construction: not supported.
* A backward pass that runs after the step its forward pass belongs to contributes statistics to a
  later refresh; `zero_grad` does not discard statistics (C03 specifies the latter explicitly, and
  assumes the former does not happen).
* Copying or pickling the *optimizer object* drops its attributes (PyTorch's `Optimizer.__getstate__`);
  use `state_dict`. Changing the data type of parameters (`Module.to(dtype)`) after construction is
  not supported, since the factors' precision was chosen before.
* `expand` for uneven `padding="same"` raises a documented NotImplementedError.
* Some queries return views (`to_dense` of dense matrices, Toeplitz `average_trace`), `from_dense`
  of a dense matrix keeps the tensor; C15 assumes such tensors are not written to.
* The overflow warning installs a global "always" filter.
* Negative hyper-parameters are only validated as defaults, not inside groups; C19 follows the
  documentation.

## Environment

* No network, one machine, CPU only: CUDA kernels and NCCL are out of reach. gloo lacks
  ReduceOp.AVG, which singd uses, hence the process-group model (mc/world.py) with threads as ranks.
  The model accepts only contiguous tensors, as NCCL does.
* oneDNN's JIT does not terminate for some depth-wise float16 convolutions (Toeplitz products):
  float16 cases run with mkldnn disabled.
* float64 pre-conditioners raise NotImplementedError by design for all but dense and diagonal
  structures.

## False alarms met during development and what was done

* C09 compared `lr_cov`-schedules by identity and set `alpha1` for KFAC-like groups although the
  default group kept its own: corrected in the harness.
* C07 at first demanded equivalence for `kfac_like`/summed losses: genuine deviation, recorded.
* C14 in float16: entry / size may be subnormal, so the average trace of tiny entries is compared
  with an absolute floor of n * 2^-25 (the over- and underflow of the Frobenius norm of recursive
  matrices found by the same cases was genuine and is repaired).
* C02/C01 tolerance for the wide layers: amplitudes of data are chosen such that training does not
  diverge; a diverging trajectory is reported by the harness as such.

## Planted changes

Every directory in seeded/ holds one change that passes the stable tests (planted independently of
the checks, from the property texts), with a demonstration. The table lists the quick checks that
report it (own property first); it was produced by running the checks on patched copies.
""")
w("| planted change | property | needs | caught by |")
w("|---|---|---|---|")
for d in sorted(glob.glob("seeded/*/meta.json")):
    sid = d.split("/")[1]
    meta = json.load(open(d))
    caught = [c for c, r in sorted(matrix.get(sid, {}).items()) if r == 1]
    caught.sort(key=lambda c: (c != meta["property"], c))
    w(f"| {sid} | {meta['property']} | {meta['needs']} | {', '.join(caught) or 'MISSED'} |")
w("")
text = "\n".join(out)
with open("DESIGN.md", "w") as f:
    f.write(text)
