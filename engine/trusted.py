"""What every verdict rests on (reported in the evidence of each check)."""
BASE = [
    "engine/ (this VC generator: term normaliser, path explorer, loop-invariant checker) - every "
    "inferred loop invariant is re-checked by executing the real body once, the checker itself is trusted",
    "z3 (linear/non-linear integer and real arithmetic queries)",
    "engine/tstub.py: assumed contracts of torch / numpy / math / tqdm / DataLoader operations",
    "CPython executes the instrumented AST of the /repo source (instrumentation: loops, containers, "
    "attribute stores, builtins on symbolic values; nothing is dropped)",
]
GENERAL = [
    "floating point numbers are treated as mathematical reals and integers as unbounded",
    "torch / numpy operations behave as their assumed contracts in engine/tstub.py",
    "tensor shapes are well formed (non-negative dimensions)",
]
