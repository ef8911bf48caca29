"""What the evidence lists as trusted or assumed."""
import spec

BASE = [
    "go/types and golang.org/x/tools/go/ssa: the SSA dumped from /repo's source on every run is taken to mean what the Go compiler executes",
    "engine/ (the verification-condition generator of this repository: memory model, SSA semantics, loop rule, query printer)",
    "z3 5.3, z3 4.8.12, cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)",
]
GENERAL = [
    "64-bit int; machine integers are exact (wrap-around is modelled), lengths of slices and strings are below 2^48",
    "append always returns a fresh backing array (two appends to one slice with spare capacity never alias)",
    "allocation succeeds; no stack overflow; goroutines other than the caller's do not touch the objects involved",
    "partial correctness: termination of loops and recursion is not proved",
    "pointer parameters of a function under contract are either identical or do not overlap, as Go's typed memory guarantees",
]


def trusted(run):
    out = list(BASE)
    for m in sorted(run.X.used_models):
        out.append("contract assumed for external function " + m)
    for a in run.C.trusted:
        out.append(a)
    return out


def assumed(run):
    return GENERAL + ["assumed contract: " + m for m in sorted(run.X.used_models)]
