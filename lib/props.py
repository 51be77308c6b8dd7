"""What each property's check does."""
import json
import os
import random

from base import ToolError, Violation

# Invariants and temporal properties of the control models, by property.
MODEL = {
    "C01": ([], ["Ends"], [], ["Ends"]),
    "C02": (["NoOvershoot", "AttemptInside", "Lands"], ["Advances"],
            ["NoOvershoot", "AttemptInside", "Lands"], ["Advances"]),
    "C03": (["SuccessIffThere", "LimitTrue", "LimitKept", "SmallTrue", "ContinueTrue"], [],
            ["SuccessIffThere", "LimitTrue", "LimitKept", "SmallTrue", "SingTrue", "SingKept"], []),
    "C04": ([], ["Absorbing"], [], ["Absorbing"]),
    "C05": ([], ["RejectShrinks"], [], ["FailShrinks"]),
    "C07": (None, None, ["FreshMatrices", "FreshJacobian"], []),
    "C08": ([], ["NoGrowthAfterReject", "RejectShrinks"], [], ["NoGrowthAfterReject", "FailShrinks"]),
    "C09": (["Books"], [], ["Books"], []),
    "C11": (["Books"], [], ["Books", "Counts"], []),
    "C12": (["OneCallback"], [], ["OneCallback", "FreshJacobian"], []),
    "C22": (None, None, ["FreshMatrices", "FreshJacobian", "Counts"], []),
}

# Claims about the models that must fail: situations that have to be reachable,
# and properties in a model with a mistake (Ahead: the part of the next step
# that decides whether it is the last one).
REFUTED = {
    "C01": ([("NeverSuccess", {}), ("NeverSmall", {})], [("NeverSingular", {"Dist": 16, "DtMax": 16, "Limits": "{2}"})]),
    "C02": ([("NoOvershoot", {"Ahead": 50}), ("P:Advances", {"Guard": "FALSE"})], [("NoOvershoot", {"Ahead": 50})]),
    "C03": ([("SuccessIffThere", {"Ahead": 99}), ("NeverLimit", {}), ("NeverSmallAtOnce", {})], [("SuccessIffThere", {"Ahead": 99}), ("NeverSmall", {}),
             ("NeverSingular", {"Dist": 16, "DtMax": 16, "Limits": "{2}"})]),
    "C04": ([("NeverFailure", {})], [("NeverFailure", {})]),
    "C05": ([("NeverRecovered", {})], [("NeverRecovered", {"Limits": "{6}"})]),
    "C07": ([], [("NeverKept", {}), ("NeverChanged", {})]),
    "C08": ([("NeverRecovered", {})], [("NeverRecovered", {"Limits": "{6}"})]),
    "C09": ([("NeverRecovered", {})], [("NeverRecovered", {"Limits": "{6}"})]),
    "C11": ([("NeverRecovered", {})], [("NeverKept", {})]),
    "C12": ([("NeverFailure", {}), ("NeverMoved", {"Moves": 1})], [("NeverChanged", {}), ("NeverMoved", {"Moves": 1})]),
    "C22": ([], [("NeverKept", {}), ("NeverChanged", {}), ("NeverRecovered", {"Limits": "{6}"})]),
}


def control_models(run):
    i5, p5, ir, pr = MODEL[run.prop]
    if i5 is not None:
        c = {"Starts": "{0, 2}", "Dist": 5, "DtMax": 6, "Grow": 3, "Limits": "{1, 2, 4}", "Codes": '{"Failure"}',
             "Moves": 0, "Ahead": 101, "Guard": "TRUE"}
        if not run.quick:
            c.update(Dist=7, DtMax=8, Limits="{1, 2, 4, 6}")
        run.model("MCDp5", c, i5, p5)
        c.update(Starts="{0}", Dist=4, DtMax=4, Limits="{1, 3}" if run.quick else "{1, 2, 4}")
        run.model("MCDp5", dict(c, Moves=1), i5, p5, name="moved5")
        run.refute("MCDp5", c, REFUTED[run.prop][0])
    if ir is not None:
        c = {"Starts": "{0}", "Dist": 3, "DtMax": 3, "Grow": 2, "Limits": "{1, 2, 3}", "Codes": '{"Failure"}',
             "Moves": 0, "Iters": "{1, 2}", "Ahead": 101}
        sizes = [{}, dict(Limits="{6}", Iters="{2}"), dict(Dist=16, DtMax=16, Limits="{2}", Iters="{2}"),
                 dict(DtMax=2, Limits="{4}", Iters="{1}", Moves=1)]
        if not run.quick:
            sizes += [dict(Dist=4, DtMax=4, Limits="{1, 2, 3, 4}"), dict(Dist=4, DtMax=4, Limits="{6}", Iters="{2}")]
        for k, z in enumerate(sizes):
            run.model("MCRadau", dict(c, **z), ir, pr, name="radau%d" % k)
        run.refute("MCRadau", c, REFUTED[run.prop][1])


def describe(run, line):
    r = json.loads(line)
    run.sample({"id": r["id"], "what": r["what"], "end": r.get("end"),
                **({"steps": len(r["steps"])} if "steps" in r else {})})


def recorded(run, plan, **args):
    """plan: (group, profile, scenarios in the quick tier)."""
    seed = run.seed
    first = True
    while first or (not run.quick and run.left() > 120 and not run.violations):
        for group in sorted({g for g, _, _ in plan}):
            lines = []
            for g, profile, n in plan:
                if g == group:
                    got = run.vh("%s-%s-%d" % (group, profile, seed), group=group, profile=profile,
                                 count=n if run.quick else 2 * n, seed=seed, **args)
                    if first and got:
                        describe(run, got[0])
                    lines += got
            run.traces(lines)
        first = False
        seed += 1000003
    run.assumptions += [
        "scenarios are random problems and options from the stated families; sane options (positive tolerances, max_steps >= 1, t0 != tfinal)",
        "floating-point comparisons allow for rounding, with tolerances derived from the magnitudes involved"]


def word(x):
    return ":".join({True: "1", False: "0"}.get(y, str(y)) if isinstance(y, bool) else str(y) for y in x)


GEN = {
    "dp5": ("GenDp5", [dict(Dist=5, DtMax=4, Grow=3, Limits="{1, 3}", Safe=90, Depth=6),
                       dict(Dist=9, DtMax=6, Grow=5, Limits="{2, 9}", Safe=90, Depth=5)]),
    "radau": ("GenRadau", [dict(Dist=4, DtMax=4, Grow=2, Limits="{3, 9}", Safe=90, Depth=4, Iters="{1, 2, 3}", Sing="FALSE"),
                           dict(Dist=7, DtMax=2, Grow=2, Limits="{9}", Safe=90, Depth=5, Iters="{2}", Sing="FALSE"),
                           dict(Dist=24, DtMax=16, Grow=1, Limits="{9}", Safe=90, Depth=9, Iters="{2}", Sing="TRUE")]),
}


def schedules(run, alg):
    """Behaviours of the control model as scripts for the harness."""
    module, sizes = GEN[alg]
    out = set()
    for k, c in enumerate(sizes):
        cfg = "SPECIFICATION Spec2\nCONSTANTS\n  Starts = {0}\n  Codes = {\"Failure\"}\n  Moves = 0\n  Ahead = 101\n" + \
              ("  Guard = TRUE\n" if alg == "dp5" else "") + \
              "".join("  %s = %s\n" % kv for kv in c.items()) + "INVARIANT Emit\n"
        st, gen, dist, text = run.tlc(module, cfg, "%s%d" % (module, k))
        if st != "ok":
            raise ToolError("%s: %s\n%s" % (module, st, text[-2000:]))
        run.count(states=dist, transitions=gen)
        for l in text.splitlines():
            if l.startswith('"['):
                g, tr = json.loads(json.loads(l))
                if alg == "dp5":
                    fix = {"A": lambda x: ["A", 2, False, x[1]], "R": lambda x: ["R", 2, False, x[1]],
                           "C": lambda x: x + [False]}
                    tr = [fix[x[0]](x) for x in tr]
                if c.get("Sing") == "TRUE" and [x[0] for x in tr].count("S") < 4:
                    continue
                out.add(" ".join([str(g["dir"]), str(abs(g["tf"] - g["t0"])), str(g["d0"]), str(g["max"]),
                                  "1" if g["cb"] else "0"] + [word(x) for x in tr]))
    return sorted(out)


def forced(run, alg, n):
    """Replays behaviours of the control model, some of them with many singular matrices."""
    seqs = schedules(run, alg)
    random.Random("%s %d" % (run.prop, run.seed)).shuffle(seqs)
    if not run.quick:
        n *= 10
    often = [q for q in seqs if q.split().count("S") >= 4]
    often.sort(key=lambda q: -q.split().count("S"))
    often = often[:n // 8]
    seqs = often + [q for q in seqs if q.split().count("S") < 4][:n - len(often)]
    ops = os.path.join(run.work, "script-%s.txt" % alg)
    with open(ops, "w") as f:
        f.writelines(q + "\n" for q in seqs)
    lines = run.vh("script-" + alg, group="script-" + alg, profile="script", count=len(seqs), ops=ops)
    describe(run, lines[0])
    run.count(schedules_replayed=len(lines), schedules_followed=sum('"kept":true' in l for l in lines))
    run.traces(lines)


def both(profile_counts, scripts=(0, 0)):
    def f(run):
        control_models(run)
        recorded(run, profile_counts)
        for alg, n in zip(("dp5", "radau"), scripts):
            if n:
                forced(run, alg, n)
    return f


LETTER = {"step": "s", "integrate": "i", "next": "n", "own": "o", "free": "f", "borrow": "b", "look": "l"}


def operations(run, depth1, depth2, n):
    """All short sequences of driving operations, from the model, replayed."""
    seqs = []
    for w, runs, depth in (("{1}", 4, depth1), ("{1, 2}", 2, depth2)):
        out = run.model("MCDrive", {"W": w, "MaxRun": runs, "Depth": depth, "Show": "TRUE", "Fault": '"none"'},
                        ["EachOnce", "Complete", "Emit"], ["Alone", "Absorbing"], name="drive%d" % depth)
        got = [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"[[')]
        if len(got) < 100 // len(w):
            raise ToolError("only %d operation sequences" % len(got))
        seqs += ["".join("%d%s" % (w, LETTER[op]) for w, op in q) for q in got]
    seqs.sort()
    random.Random(run.seed).shuffle(seqs)
    run.count(op_sequences_enumerated=len(seqs), op_sequences_replayed=min(n, len(seqs)))
    ops = os.path.join(run.work, "ops.txt")
    with open(ops, "w") as f:
        f.writelines(q + "\n" for q in seqs[:n])
    lines = run.vh("drive", group="drive", profile="ops", count=min(n, len(seqs)), ops=ops)
    describe(run, lines[0])
    run.traces(lines, "TraceDrive", expect=lambda r: len(r.get("ops", [])) + 1)
    run.assumptions.append("scenarios from the random families, few steps each; operation sequences up to the stated depth, then drained")


def drive(run):
    c = {"W": "{1, 2}", "MaxRun": 2, "Depth": 3, "Show": "FALSE", "Fault": '"none"'}
    run.refute("MCDrive", c, [("NeverYields", {}), ("NeverMixed", {}), ("AlwaysPoint", {}), ("EachOnce", {"Fault": '"tail"'}),
                              ("P:Alone", {"Fault": '"leak"'})])
    operations(run, *((5, 3, 3000) if run.quick else (6, 4, 9000)))
    recorded(run, plan(1, ("base", 80), ("cb", 80), ("long", 8)), via="next")


def driven(f, n):
    """Another check, and the same property under mixed ways of driving."""
    def g(run):
        f(run)
        operations(run, *((4, 3, n) if run.quick else (5, 3, 4 * n)))
    return g


def many(f, n):
    """Another check, and the ends of runs of very many equal steps."""
    def g(run):
        f(run)
        lines = run.vh("many", group="many", profile="equal", count=n if run.quick else 6 * n)
        run.count(long_runs=sum(len(json.loads(l).get("cases", [])) for l in lines))
        run.traces(lines, "TraceMany", expect=lambda r: len(r.get("cases", [])) + 1)
    return g


def pairs(run, kind, plan):
    for alg, n in plan:
        lines = run.vh("pair-" + alg, group="pair-" + alg, profile=kind, count=n if run.quick else 4 * n)
        describe(run, lines[0])
        run.traces(lines, "TracePair", expect=lambda r: len(r["a"]["x"]) + 1 if "a" in r else 1)


def units(run):
    pairs(run, "units", [("dp5", 800), ("radau", 800)])
    run.assumptions.append("even powers of two, no overflow or underflow, Jacobian from the user")


def mirror(run):
    pairs(run, "mirror", [("dp5", 400), ("radau", 400)])
    run.assumptions.append("the right-hand sides of the generated problems are mirrored exactly")


def callback(run):
    both(plan(1, ("cb", 600), ("long", 40)), (400, 500))(run)
    pairs(run, "observe", [("dp5", 240), ("radau", 240)])


def tableau(run, true, false):
    """The numbers of the specification satisfy the theory they come from."""
    c = {"MaxNodes": 6}
    run.model("Tableau", c, true, f64=True)
    run.refute("Tableau", c, [(x, {}) for x in false], f64=True)


def stages(run):
    tableau(run, ["RowSums", "Order5", "Order4"], ["Order6", "Order4is5"])
    recorded(run, [("dp5", "base", 900), ("dp5", "rough", 150), ("dp5", "wide", 100), ("dp5", "long", 40), ("dp5", "span", 150)])


def collocation(run):
    tableau(run, ["RadauOrder5", "Collocation", "Estimate", "Stable", "Eigenvalue"], ["RadauOrder6"])
    both([("radau", "base", 500), ("radau", "smooth", 250), ("radau", "cb", 80), ("radau", "wide", 60), ("radau", "long", 24), ("radau", "span", 100)],
         (0, 700))(run)


def newton_model(run):
    """The stopping rules of the Newton iteration, on their own."""
    c = {"Max": "{1, 2, 3, 5, 7}", "Sizes": "{0, 1, 2, 3, 4, 5, 6}", "Tol": 4, "Attempts": 1, "Eager": "FALSE"}
    sizes = [{}, {"Max": "{2, 3, 4}", "Sizes": "{0, 1, 3, 6}", "Attempts": 2}, {"Max": "{10}", "Sizes": "{0, 1, 2, 5}"}]
    if not run.quick:
        sizes += [{"Max": "{2, 3, 5}", "Attempts": 2}, {"Max": "{7}", "Sizes": "{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}", "Tol": 6}]
    for k, z in enumerate(sizes):
        run.model("MCNewton", dict(c, **z), ["Limited", "Sound", "NaNFails", "Patient", "Strict", "FactorKept", "LastUnused"],
                  ["Shrinks"], name="newton%d" % k, f64=True)
    run.refute("MCNewton", dict(c, Max="{3, 4}", Attempts=2),
               [("NeverSlow", {}), ("NeverHalf", {}), ("NeverOnce", {}), ("NeverLast", {"Max": "{2}"}),
                ("Sound", {"Eager": "TRUE"})], f64=True)


def radau_only(*profiles):
    return [("radau", p, n) for p, n in profiles]


def newton(run):
    newton_model(run)
    recorded(run, radau_only(("base", 500), ("rough", 300), ("smooth", 200), ("ends", 100), ("wide", 60), ("long", 24), ("span", 100)))
    forced(run, "radau", 400)


def starting(run):
    tableau(run, ["Collocation"], ["RadauOrder6"])
    recorded(run, radau_only(("base", 500), ("rough", 300), ("smooth", 250), ("cb", 150), ("wide", 60), ("long", 24), ("span", 100)))
    forced(run, "radau", 600)


def dense(run):
    tableau(run, ["DenseOrder4", "Interpolant"], ["DenseOrder5"])
    recorded(run, plan(1, ("dense", 500), ("wide", 60), ("span", 80)))
    pairs(run, "dense", [("dp5", 250), ("radau", 250)])


# Values for the setters; index 1 and 2 in the exhaustive part.
VALUES = {
    "reltol": ["1e-5", "3.3e-8", "0.02", "1e-14"], "abstol": ["1e-9", "2.5e-4", "1e-12"],
    "dense": ["true", "false"], "dtstart": ["1e-3", "-0.25", "2.0", "1e-7"], "dtmax": ["0.5", "1e-4", "20.0"],
    "max_steps": ["17", "250", "1"], "max_newt_iter": ["3", "11", "1"], "max_stiff": ["5", "99", "1"],
    "modern_pred": ["false", "true"], "safe": ["0.8", "0.95", "0.5"], "facr": ["6.5", "0.3", "12.0"],
    "facl": ["0.4", "7.5", "2.0"], "quot1": ["0.95", "0.8", "1.0"], "quot2": ["1.3", "1.15", "2.0"],
    "beta": ["0.02", "0.08", "0.0"], "fnewt": ["0.01", "1e-4", "0.0"], "use_ext_col": ["false", "true"],
    "hess": ["true", "false"],
}
# Orders of magnitude of further values, in the long sequences.
SPANS = {
    "reltol": (-18, 1), "abstol": (-30, 10), "dtstart": (-30, 30), "dtmax": (-30, 30), "safe": (-3, 1), "facr": (-6, 6),
    "facl": (-6, 6), "quot1": (-3, 3), "quot2": (-3, 3), "beta": (-8, 0), "fnewt": (-16, 2),
    "max_steps": (0, 9), "max_newt_iter": (0, 6), "max_stiff": (0, 9),
}


def setter_value(rnd, name, v):
    if rnd and name in SPANS and rnd.random() < 0.5:
        x = 10 ** rnd.uniform(*SPANS[name])
        return repr(int(x) if name.startswith("max_") else -x if name == "dtstart" and rnd.random() < 0.3 else x)
    return VALUES[name][(v - 1) % len(VALUES[name])]


def builder(run):
    def sequences(out):
        return sorted([json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"[[')])
    out = run.model("MCBuilder", {"Depth": 2, "Vals": "{1, 2}", "Show": "TRUE", "Fault": '"none"'},
                    ["Agree", "Commute", "OnlyNamed", "Emit"])
    c = {"Depth": 2, "Vals": "{1, 2}", "Show": "FALSE"}
    run.refute("MCBuilder", c, [("OnlyNamed", {"Fault": '"crossed"'}), ("Agree", {"Fault": '"first"'}), ("Commute", {"Fault": '"both"'})])
    seqs = [[]] * 20 + sequences(out)
    if len(seqs) < 1300:
        raise ToolError("only %d setter sequences" % len(seqs))
    n = 400 if run.quick else 4000
    cfg = "SPECIFICATION Spec\nCONSTANTS\n  Depth = 14\n  Vals = {1, 2, 3, 4}\n  Show = TRUE\n  Fault = \"none\"\nINVARIANTS EmitLong\n"
    st, gen, dist, out = run.tlc("MCBuilder", cfg, "long", workers=1,
                                 opts=("-simulate", "num=%d" % (n // 4), "-depth", "16", "-seed", str(run.seed)))
    long = sequences(out)
    if st != "ok" or len(long) < n:
        raise ToolError("simulation: %s\n%s" % (st, out[-2000:]))
    long = random.Random(run.seed).sample(long, n)
    run.count(setter_sequences=len(seqs) + len(long))
    lines = []
    for alg in ("dp5", "radau"):
        for rnd, part in ((None, seqs), (random.Random(run.seed), long)):
            for q in part:
                lines.append(" ".join([alg] + ["%s=%s" % (n, setter_value(rnd, n, v)) for n, v in q]))
    ops = os.path.join(run.work, "ops.txt")
    with open(ops, "w") as f:
        f.writelines(l + "\n" for l in lines)
    got = run.vh("builder", group="builder", profile="ops", count=len(lines), ops=ops)
    if len(got) != len(lines):
        raise ToolError("harness: %d records" % len(got))
    describe(run, got[100])
    run.traces(got, "TraceBuilder", expect=lambda r: 1, size=2000)
    run.assumptions.append("all pairs of setters with two values each and random sequences of 14 setters, half of their values of any order of magnitude")


def no_hooks(run):
    run.harness()
    if run.hooks:
        return False
    run.sample("not run: the tree does not build with the hooks")
    run.count(states=0, transitions=0, traces_validated_against_impl=0)
    return True


def linalg(kinds, models):
    """kinds: (routine, batches of integer matrices, batches of random ones)."""
    def f(run):
        for n, lb, ub, re, im in models if run.quick else models + [(4, 1, 1, 1, 0)]:
            run.model("MCLU", {"N": n, "LB": lb, "UB": ub, "Re": re, "Im": im, "Fault": '"none"'},
                      ["Index", "Operator", "Solves", "Cramer", "FillIn", "Below", "Untouched"], ["Multipliers"],
                      name="lu%d%d%d%d%d" % (n, lb, ub, re, im))
        c = {"N": 3, "LB": 1, "UB": 1, "Re": 1, "Im": 0, "Fault": '"none"'}
        run.refute("MCLU", c, [("NeverSwaps", {}), ("NeverSecond", {}), ("NeverLast", {}), ("Index", {"Fault": '"stay"'}),
                               ("Index", {"Fault": '"reach"', "UB": 0, "Re": 2}), ("P:Multipliers", {"Fault": '"lazy"', "N": 2, "Re": 2})])
        if no_hooks(run):
            return
        more = 1 if run.quick else 3
        for kind, a, b in kinds:
            lines = run.vh("lu-" + kind, group="lu", profile=kind, count=a * more) if a else []
            lines += run.vh("luf-" + kind, group="luf" if a else "hess", profile=kind, count=b * more)
            run.count(systems=sum(len(json.loads(l).get("cases", [])) for l in lines))
            r = json.loads(lines[0])
            run.sample({"routine": kind, "case": r.get("cases", [None])[-1]})
            run.traces(lines, "TraceLU", expect=lambda r: len(r.get("cases", [])) + 1)
        run.assumptions += ["matrices with small integer entries (exact oracle) and random doubles of moderate range (residual)",
                            "no overflow or underflow in the squares of entries"]
    return f


def differences(run):
    if not no_hooks(run):
        lines = run.vh("fd", group="fd", profile="quadratic", count=200 if run.quick else 3000)
        run.count(derivatives=sum(len(json.loads(l)["cases"]) for l in lines))
        run.traces(lines, "TraceFd", expect=lambda r: len(r.get("cases", [])) + 1)
    pairs(run, "jac", [("radau", 600)])


def accuracy(kind, plan):
    def f(run):
        for alg, n in plan:
            lines = run.vh("acc-" + alg, group="acc-" + alg, profile=kind, count=n if run.quick else 6 * n)
            describe(run, lines[0])
            run.count(runs=sum(len(json.loads(l).get("runs", [])) for l in lines))
            run.traces(lines, "TraceAcc", expect=lambda r: len(r.get("runs", [])) + 1)
        run.assumptions += ["eight families of problems with closed-form solutions, moderate rates and frequencies",
                            "constants between error and tolerance with a margin of five over the largest seen"]
    return f


def plan(scale, *profiles):
    """Profiles for both algorithms, with their numbers of scenarios."""
    return [(alg, name, max(4, int(n * scale * k)))
            for name, n in profiles for alg, k in (("dp5", 1.25), ("radau", 0.75))]


TABLE = {
    "C01": driven(both(plan(1, ("rough", 700), ("base", 200), ("long", 16)), (500, 500)), 400),
    "C02": both(plan(1, ("base", 500), ("ends", 500), ("tiny", 100), ("long", 30), ("span", 100)), (500, 500)),
    "C03": many(both(plan(1, ("limits", 600), ("tiny", 300), ("ends", 300), ("long", 24), ("span", 60)), (700, 1000)), 16),
    "C04": driven(both(plan(1, ("limits", 500), ("cb", 300), ("long", 10)), (300, 300)), 900),
    "C05": both(plan(1, ("base", 700), ("rough", 200), ("wide", 80), ("long", 30), ("span", 100)), (500, 600)),
    "C06": stages,
    "C07": collocation,
    "C08": many(both(plan(1, ("base", 700), ("ends", 200), ("wide", 40), ("long", 40), ("span", 100)) + radau_only(("keep", 150)), (500, 600)), 8),
    "C09": both(plan(1, ("base", 500), ("cb", 200), ("wide", 40), ("long", 24), ("span", 60)), (300, 300)),
    "C10": drive,
    "C11": many(both(plan(1, ("base", 500), ("cb", 200), ("wide", 40), ("long", 30), ("span", 60)) + radau_only(("keep", 150)), (500, 800)), 10),
    "C12": driven(callback, 500),
    "C13": mirror,
    "C14": builder,
    "C15": linalg([("dec", 360, 40), ("decc", 180, 40)], [(3, 2, 2, 1, 0), (2, 1, 1, 2, 0), (2, 1, 1, 1, 1)]),
    "C16": linalg([("dech", 130, 30), ("dechc", 150, 30), ("decb", 240, 40), ("decbc", 200, 40), ("elmhes", 0, 40)],
                  [(3, 1, 1, 1, 0), (3, 1, 2, 1, 0), (4, 1, 0, 1, 0), (3, 2, 0, 1, 0), (2, 1, 0, 1, 1)]),
    "C17": differences,
    "C18": accuracy("smooth", [("dp5", 600), ("radau", 600)]),
    "C19": accuracy("stiff", [("radau", 900)]),
    "C20": dense,
    "C21": starting,
    "C22": both(radau_only(("base", 500), ("keep", 250), ("rough", 300), ("cb", 250), ("smooth", 150), ("wide", 60), ("long", 24), ("span", 100)), (0, 700)),
    "C23": newton,
    "C24": units,
}
