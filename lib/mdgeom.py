"""Model and writer of .md/.geom files."""
from __future__ import annotations

from hypothesis import strategies as st

from . import gen as g
from .gen import F, spread_expo

ALIAS = {"E": "energy", "T": "temperature", "P": "pressure", "h": "lattice_vectors", "hv": "lattice_velocity",
         "S": "stress", "R": "position", "V": "velocity", "F": "force"}


def atoms_of(names):
    seen = {}
    out = []
    for name in names:
        seen[name] = seen.get(name, 0) + 1
        out.append((name, seen[name]))
    return out


@st.composite
def shape_st(draw):
    """What a frame contains."""
    return {"names": draw(g.rows(g.tagged, min_size=1, max_size=4)),
            "ne": draw(st.integers(1, 3)), "T": draw(st.booleans()), "P": draw(st.booleans()),
            "h": draw(st.booleans()), "hv": draw(st.booleans()), "S": draw(st.booleans()),
            "ionic": draw(st.sampled_from((["R"], ["R", "V"], ["R", "F"], ["R", "V", "F"]))),
            "first": draw(st.sampled_from((0, 0, 0, 9998)))}


@st.composite
def file_st(draw, uniform=False, max_frames=6):
    n = draw(g.count(1, max_frames) if max_frames > 1 else st.just(1))
    shapes = [draw(shape_st())] * n if uniform else draw(
        st.lists(shape_st(), min_size=n, max_size=n) if draw(st.booleans()) else shape_st().map(lambda s: [s] * n))
    return {"header": draw(st.sampled_from((None, "", "blank", "My comment", "Ångström δ run 3"))),
            "sep": draw(st.sampled_from(("", "  "))), "hsep": draw(st.booleans()),
            "seed": draw(g.seed_st), "shapes": shapes, "style": draw(st.sampled_from(("md", "geom")))}


def build(case):
    """Text and expected frames (ordinary values)."""
    seed, sep = case["seed"], case["sep"]
    lines = []
    if case["header"] is not None:
        body = [] if case["header"] == "" else [sep if case["header"] == "blank" else f" {case['header']}"]
        lines += [" BEGIN header", *body, " END header"]
        if case["hsep"]:
            lines.append(sep)
    frames = []
    for fi, shape in enumerate(case["shapes"]):
        base = 10000 * fi
        tok = lambda i: spread_expo(seed, base + i, 16, -30, 5)
        row = lambda i, n: [tok(i + k) for k in range(n)]
        exp = {"ions": {}}
        if case["style"] == "md":
            time = tok(0).lstrip("-")
            lines.append(f"{'':21}{time.rjust(24)}")
            exp["time"] = F(time)
        else:
            lines.append(f"{shape['first'] + fi:38d}{'':60}<-- c")
            exp["c"] = [[float(shape["first"] + fi)]]

        def put(tag, toks):
            lines.append(f"{'':18}" + "".join(t.rjust(27) for t in toks).ljust(81) + f"  <-- {tag}")
            exp.setdefault(tag, []).append([F(t) for t in toks])

        put("E", row(1, shape["ne"]))
        for tag, pos in (("T", 5), ("P", 6)):
            if shape[tag]:
                put(tag, row(pos, 1))
        for ti, tag in enumerate(("h", "hv", "S")):
            if shape[tag]:
                for r in range(3):
                    put(tag, row(100 * (ti + 1) + 3 * r, 3))
        for ti, tag in enumerate(shape["ionic"]):
            for ai, (spec, ind) in enumerate(atoms_of(shape["names"])):
                toks = row(1000 * (ti + 1) + 3 * ai, 3)
                num = shape["first"] + ind
                lines.append(f" {spec:<8}{num:9d}" + "".join(t.rjust(27) for t in toks) + f"  <-- {tag}")
                ent = exp["ions"].setdefault((spec, num), {})
                ent[tag] = ent[ALIAS[tag]] = tuple(map(F, toks))
        for tag, alias in ALIAS.items():
            if tag in exp:
                exp[alias] = exp[tag]
        lines.append(sep)
        frames.append(exp)
    return "\n".join(lines) + "\n", frames
