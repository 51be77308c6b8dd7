#!/usr/bin/env python3
"""Shows that the trace specifications are bound to what is recorded: changes
single fields of recorded behaviours and counts how many are rejected, by kind
of field. corrupt.py [records per kind of behaviour] [seed]. Not a check."""
import collections
import json
import os
import random
import re
import shutil
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base
import props

PLAN = [("TraceRun", "dp5", "base"), ("TraceRun", "dp5", "cb"), ("TraceRun", "dp5", "dense"),
        ("TraceRun", "radau", "base"), ("TraceRun", "radau", "cb"), ("TraceRun", "radau", "dense"),
        ("TracePair", "pair-dp5", "mirror"), ("TracePair", "pair-radau", "units"), ("TracePair", "pair-radau", "observe"),
        ("TraceDrive", "drive", "ops"), ("TraceBuilder", "builder", "ops"), ("TraceFd", "fd", "quadratic"),
        ("TraceLU", "lu", "dec"), ("TraceLU", "lu", "decbc"), ("TraceLU", "hess", "elmhes"), ("TraceAcc", "acc-radau", "smooth")]
# Descriptions, and integers that are not doubles.
SKIP = {"id", "what", "fam", "kind", "alg", "end", "msg", "w", "via", "long", "broken", "kept"}
INTS = {"st", "b", "ends", "lo", "hi"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in SKIP:
                yield from leaves(v, path + (k,))
    elif isinstance(x, list) and x and isinstance(x[0], (dict, list)):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    elif x is not None and x != []:
        yield path


def get(x, path):
    for k in path:
        x = x[k]
    return x


def change(x, path, rng):
    """Another value at the path; what changed, or None."""
    v = get(x, path)
    p = get(x, path[:-1])
    k = path[-1]
    if isinstance(v, bool):
        p[k] = not v
    elif isinstance(v, int):
        p[k] = v + rng.choice([-1, 1])
    elif isinstance(v, str):
        other = [c for c in ("Continue", "Success", "MaxIters", "DtLessThanMin", "SingularMatrix") if c != v]
        if v not in ("Continue", "Success", "MaxIters", "DtLessThanMin", "SingularMatrix", "Failure"):
            return None
        p[k] = rng.choice(other)
    elif k in INTS or len(v) % 2 or not all(isinstance(y, int) and not isinstance(y, bool) for y in v) or max(map(abs, v)) < 100000 and any(v):
        q = rng.randrange(len(v))
        if isinstance(v[q], bool):
            v[q] = not v[q]
        elif isinstance(v[q], int):
            v[q] += rng.choice([-1, 1])
        else:
            return None
    else:
        q = 2 * rng.randrange(len(v) // 2)
        y = struct.unpack(">d", struct.pack(">II", v[q] & 0xffffffff, v[q + 1] & 0xffffffff))[0]
        if y != y or abs(y) > 1e300:
            return None
        y = y * rng.choice([0.7, 1.5]) if abs(y) > 1e-300 else rng.choice([-0.3, 0.3])
        a, b = struct.unpack(">ii", struct.pack(">d", y))
        v[q], v[q + 1] = a, b
    return ".".join(str(k) for k in path if not isinstance(k, int))


def judge(run, module, recs):
    """Properties that reject each record; "-" if it makes no sense at all."""
    hit = collections.defaultdict(set)
    d = os.path.join(run.work, "c")
    todo = list(range(len(recs)))
    while True:
        os.makedirs(d)
        path = os.path.join(d, "trace.json")
        with open(path, "w") as f:
            f.writelines(recs[k] for k in todo)
        with open(os.path.join(d, "Rep.tla"), "w") as f:
            f.write("---- MODULE Rep ----\nEXTENDS %s\nReport == bad = {} \\/ PrintT(<<\"@\", s, bad>>)\n====\n" % module)
        st, _, _, text = run.tlc("Rep", 'INIT Init\nNEXT Next\nCONSTANTS\n  TraceFile = "%s"\n  Prop = "X"\nINVARIANT Report\n' % path,
                                 "c", f64=True, workers=1)
        shutil.rmtree(d)
        for part in re.split(r'<<\s*"@",\s*', text)[1:]:
            hit[todo[int(re.match(r"\d+", part)[0]) - 1]] |= set(re.findall(r'<<"(C\d+)"', part))
        if st == "ok":
            return hit
        # The evaluation of one record fails; go on with those behind it.
        at = re.findall(r"/\\ s = (\d+)", text)
        if not at:
            raise base.ToolError(text[-2000:])
        bad = todo[int(at[-1]) - 1]
        hit[bad].add("-")
        todo.remove(bad)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    run = base.Run("corrupt", "quick", seed)
    rng = random.Random(seed)
    ops = {}
    out = run.tlc("MCDrive", 'SPECIFICATION Spec\nCONSTANTS\n  W = {1, 2}\n  MaxRun = 2\n  Depth = 3\n  Show = TRUE\nINVARIANT Emit\n', "d")[3]
    ops["drive"] = ["".join("%d%s" % (w, props.LETTER[op]) for w, op in json.loads(json.loads(l)))
                    for l in out.splitlines() if l.startswith('"[[')]
    ops["builder"] = ["dp5 reltol=%s dtmax=0.5 hess=true" % v for v in props.VALUES["reltol"]] + \
                     ["radau %s=%s" % (k, v[0]) for k, v in props.VALUES.items()] * 3
    for k, v in ops.items():
        rng.shuffle(v)
        with open(os.path.join(run.work, k + ".txt"), "w") as f:
            f.writelines(q + "\n" for q in v)
    for module, group, profile in PLAN:
        args = {"ops": os.path.join(run.work, group + ".txt")} if group in ops else {}
        lines = run.vh(group, group=group, profile=profile, count=60, **args)
        recs, kinds = [], []
        while len(recs) < n:
            x = json.loads(rng.choice(lines))
            paths = collections.defaultdict(list)
            for p in leaves(x):
                paths[tuple(k for k in p if not isinstance(k, int))].append(p)
            what = change(x, rng.choice(paths[rng.choice(sorted(paths))]), rng)
            if what:
                recs.append(json.dumps(x) + "\n")
                kinds.append(what)
        hit = judge(run, module, recs)
        print("%s %s %s: %d of %d changed records rejected" % (module, group, profile, len(hit), n))
        by = collections.defaultdict(list)
        for k, what in enumerate(kinds):
            by[what].append(hit.get(k, set()))
        for what in sorted(by):
            ps = collections.Counter(p for x in by[what] for p in x)
            print("  %-20s %3d/%-3d %s" % (what, sum(map(bool, by[what])), len(by[what]), " ".join(p for p, _ in ps.most_common(6))), flush=True)
    shutil.rmtree(run.work)


if __name__ == "__main__":
    main()
