"""Writes MANIFEST.json from the table below."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = "TLA+ model checking (TLC); recorded runs validated step by step against the specification"
CHECKS = {
    "C01": (RUN, "control models checked with liveness over small integers; termination of the code on all generated runs incl. NaN/inf/discontinuous right-hand sides"),
    "C02": (RUN, "control models over small integers plus every evaluation time and recorded time of generated runs"),
    "C03": (RUN, "control models over small integers plus the code of every recorded step, recomputed by the specification"),
    "C04": (RUN, "control models plus three further calls after the end of every generated run"),
    "C05": (RUN, "accept/reject decision of every attempt recomputed in double precision by the specification"),
    "C06": (RUN, "all stages and the combination of every recorded step recomputed by the specification"),
    "C07": (RUN, "Newton iterations and collocation solution of every recorded step recomputed by the specification"),
    "C08": (RUN, "step size of every attempt recomputed by the specification's controllers"),
    "C09": (RUN, "public state after every recorded step against the specification"),
    "C10": (RUN, "all short mixtures of driving modes enumerated by the model, replayed into the code and compared bitwise"),
    "C11": (RUN, "counters after every recorded step against the specification and the logged calls"),
    "C12": (RUN, "runs with callbacks that observe or change state, parameters, step size or code"),
    "C13": (RUN, "generated runs against their time reflections, step by step"),
    "C14": (RUN, "all pairs and simulated sequences of setter calls from the model, replayed into the builder"),
    "C15": (RUN, "elimination model over small (Gaussian) integer matrices; the code on integer matrices against exact results and on real ones by residuals"),
    "C16": (RUN, "banded and Hessenberg elimination model over small (Gaussian) integer matrices; the code against exact results and residuals"),
    "C17": (RUN, "finite-difference derivatives of quadratic functions with known derivatives; pairs of runs with and without user Jacobian"),
    "C18": (RUN, "recorded solutions of eight families of problems at eight tolerances against their closed forms in the specification"),
    "C19": (RUN, "recorded solutions and effort on three families of stiff problems, stiffness over nine decades, against closed forms and bounds in the specification"),
    "C20": (RUN, "interpolant sampled after every accepted step against the specification's continuous extension"),
    "C21": (RUN, "first evaluation of every Newton iteration against the extrapolated collocation polynomial of the specification"),
    "C22": (RUN, "control model plus every Jacobian evaluation of recorded and forced runs, with the convergence rate recomputed by the specification"),
    "C23": (RUN, "stopping rules modelled on their own; every iteration and its end in recorded and forced runs recomputed by the specification"),
    "C24": (RUN, "generated runs against the same runs in other units, step by step and bitwise"),
}
m = {
    "version": 1,
    "setup_cmd": "cd harness && RUSTFLAGS='--cfg verif_hooks' cargo build --offline --quiet && ls /opt/veriftools/tla/tla2tools.jar",
    "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS='--cfg verif_hooks' when building /verif/harness, which depends on /repo by path",
              "source_commits": ["cf39e17"]},
    "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                "technique": t[0], "level": t[2] if len(t) > 2 else "model_checking", "level_note": t[1]} for p, t in sorted(CHECKS.items())],
    "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ("C18", "C19") if p not in CHECKS],
    "notes": "DESIGN.md describes specification, checks and findings.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
