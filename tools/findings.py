"""Writes known_findings.json (run by hand; checks only read the file)."""
import json
import subprocess

LIKE = "kfac_like=True: H_K is m times and H_C 1/m times that of the whole batch when accumulating m micro-batches"
SUM = "loss_average=None: H_K is m times that of the whole batch when accumulating m micro-batches"
findings = [
    {"property": "C07", "case": f"known/{c}", "what": LIKE if c.startswith("like") else SUM}
    for c in ["like-2", "like-4", "like-T2", "like-norm", "sum-2", "sum-4", "sum-T2", "sum-reduce"]
]
FIXED = [
    ("C08", "f29cde6", "the natural gradient was all-reduced as non-contiguous tensor (rejected by NCCL) for diagonal and Toeplitz C"),
    ("C19", "85f0f13", "a model stayed hooked, and broken for training, after an unknown structure was rejected"),
    ("C12", "70fe0e1", "BlockDiagonal's rmatmat and from_inner used the blocks instead of their transposes (wrong for non-symmetric blocks)"),
    ("C20", "70ae15e", "BlockDiagonal accepted diagonal blocks of the wrong size"),
    ("C16", "8402c9b", "step crashed if preconditioner_dtype contained None for one factor and parameters of another dtype"),
    ("C06", "e4473a4", "load_state_dict removed entries from the caller's dictionary and shared tensors with it"),
    ("C08", "0ba7b54", "H_K was summed instead of averaged over processes for loss_average=None"),
    ("C08", "2df4d7e", "StructuredMatrix.all_reduce dropped the result for non-contiguous tensors"),
    ("C13", "85fa71c", "Hierarchical.from_dense ignored the lower triangle"),
    ("C02", "5419fae", "step crashed after alpha1 of a group was changed from zero to another value"),
    ("C19", "f5f9226", "negative hyper-parameters given as integers were accepted"),
    ("C10", "0e7eca4", "unsupported parameters held directly by containers were not warned about"),
    ("C17", "e7bf660", "padding_mode of convolutions was ignored when unfolding the input"),
    ("C10", "690afb5", "parameters which were not handed to the optimizer were trained if another parameter of their layer was"),
    ("C10", "d11a6fe", "step crashed for layers without gradients or statistics"),
    ("C11", "4c65b76", "forward pass crashed for layers whose output does not require gradients"),
    ("C04", "393c82c", "gradients were divided by the scale twice after GradScaler.unscale_"),
    ("C14", "4e37657", "the Frobenius norm of recursive structures over- or underflowed in float16 although it is representable"),
    ("C23", "a7c25de", "step crashed after the storage of a parameter had been replaced (vector_to_parameters, Module.to, flattening)"),
    ("C22", "e43e9be", "the forward pass of a copy of the model (deepcopy, pickle, AveragedModel) crashed"),
    ("C14", "da56ae3", "operations on recursive structures with empty blocks crashed"),
    ("C25", "52a87d9", "to_dense (and from_inner) of Toeplitz matrices failed or returned zeros if the default device is not that of the matrix"),
    ("C25", "48d8d80", "skipping a step permanently overrode the warning filters of the process"),
    ("C23", "a1a6e1d", "layers whose input is passed by keyword crashed in the backward pass"),
    ("C23", "64c0e94", "layers with un-batched inputs crashed in the backward pass"),
]
for _, h, _ in FIXED:
    subprocess.run(["git", "-C", "/repo", "cat-file", "-e", h], check=True)
fixed = [f"fixed: property={p} {h} {w}" for p, h, w in FIXED]
with open("known_findings.json", "w") as f:
    json.dump({"findings": findings, "fixed": fixed}, f, indent=1)
    f.write("\n")
