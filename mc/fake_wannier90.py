"""Stand-in for wannier90.x: reads and writes its files by the rules of its manual.

The directory in FAKE_W90 holds plan.json and receives what the program was given.
"""
import json
import os
import re
import sys


def parse_win(text):
    keys, blocks, block = {}, {}, None
    for raw in text.splitlines():
        line = re.split(r"[!#]", raw)[0].strip()
        if not line:
            continue
        low = line.lower()
        if block is not None:
            if low.split()[0] == "end":
                assert low.split()[1] == block, "block ended by another name"
                block = None
            else:
                blocks[block].append(line)
            continue
        if low.split()[0] == "begin":
            block = low.split()[1]
            assert block not in blocks, "duplicate block"
            blocks[block] = []
            continue
        m = re.match(r"(\w+)\s*[=:\s]\s*(.+)$", low)
        assert m and m.group(1) not in keys, f"bad line {line!r}"
        keys[m.group(1)] = m.group(2).strip()
    assert block is None, "block not ended"
    known = {"postproc_setup", "num_iter", "conv_tol", "conv_window", "write_u_matrices", "auto_projections",
             "use_bloch_phases", "num_wann", "num_bands", "mp_grid", "search_shells", "kmesh_tol"}
    assert set(keys) <= known, f"unknown keywords {set(keys) - known}"
    return keys, blocks


def logical(s):
    return s in (".true.", "true", "t", ".t.")


def neighbours(points, grid):
    """Every step of one k-point spacing along each axis: (k, k', G), one based."""
    where = {tuple(round(f * n) % n for f, n in zip(p, grid)): i for i, p in enumerate(points)}
    out = []
    for i, p in enumerate(points):
        for axis in range(3):
            for step in (1, -1):
                target = [f * n for f, n in zip(p, grid)]
                target[axis] += step
                j = where[tuple(round(t) % n for t, n in zip(target, grid))]
                g = [round((t - f * n) / n) for t, f, n in zip(target, points[j], grid)]
                out.append((i + 1, j + 1, *g))
    return out


def main():
    home = os.environ["FAKE_W90"]
    plan = json.load(open(os.path.join(home, "plan.json")))
    count = len([f for f in os.listdir(home) if f.startswith("run")])
    record = {"args": sys.argv[1:], "cwd": os.getcwd(), "files": {f: open(f).read() for f in sorted(os.listdir("."))}}
    fault = plan["faults"][count] if count < len(plan["faults"]) else "ok"
    record["fault"] = fault
    json.dump(record, open(os.path.join(home, f"run{count}.json"), "w"))
    if fault == "nothing":
        sys.exit(1)
    if fault == "killed":
        os.kill(os.getpid(), 9)
    seed = sys.argv[1].removesuffix(".win")
    keys, blocks = parse_win(open(seed + ".win").read())
    if logical(keys.get("postproc_setup", "f")):
        points = [[float(x) for x in line.split()] for line in blocks["kpoints"]]
        grid = [int(x) for x in keys["mp_grid"].split()]
        nn = neighbours(points, grid)
        per = len(nn) // len(points)
        if plan.get("reverse"):
            nn = [x for i in range(len(points)) for x in reversed(nn[i * per : (i + 1) * per])]
        text = "File written on  9Mar2026 at 10:00:00\n\ncalc_only_A  :  F\n\nbegin kpoints\n" + f"{len(points):6d}\n"
        text += "".join("  %14.8f%14.8f%14.8f\n" % tuple(p) for p in points)
        text += "end kpoints\n\nbegin nnkpts\n" + f"{per:4d}\n"
        text += "".join("%6d%6d   %4d%4d%4d\n" % x for x in nn)
        text += "end nnkpts\n\nbegin exclude_bands\n    0\nend exclude_bands\n"
        if fault == "partial":
            open(seed + ".nnkp", "w").write(text[:30])
            sys.exit(1)
        open(seed + ".nnkp", "w").write(text)
        return
    assert os.path.exists(seed + ".mmn"), "no overlaps"
    u = plan["u"]  # [k][wannier][band] of (re, im)
    nw, nb = len(u[0]), len(u[0][0])
    text = " written on  9Mar2026 at 10:00:00\n" + f"{len(u):12d}{nw:12d}{nw:12d}\n"
    points = [[float(x) for x in line.split()] for line in blocks["kpoints"]]
    for k, p in zip(u, points):
        text += "\n" + "%15.10f%+15.10f%+15.10f\n" % tuple(p)
        for w in range(nw):
            for b in range(nb):
                text += "%15.10f%+15.10f\n" % tuple(k[w][b])
    if fault == "partial":
        open(seed + "_u.mat", "w").write(text[:20])
        sys.exit(1)
    open(seed + "_u.mat", "w").write(text)


main()
