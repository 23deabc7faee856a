"""Iterations (MD, geometry optimisation) and composition of whole .castep files."""
from __future__ import annotations

from hypothesis import strategies as st

from . import castep as cs
from . import castep2  # noqa: F401  (registers sections)
from . import gen as g
from .castep import ADD, E, F, FV, SECTIONS, SET, T, apply_ops, rec, section, seed

#: Lines CASTEP prints which carry no data for the report.
NOISE = (
    " Calculation parallelised over 4 processes.", " Data is distributed by G-vector(4-way)", " Each process may use up to 2 threads",
    "+-------------------------------------------------+", "|      CCC   AA    SSS  TTTTT  EEEEE  PPPP        |", " Calculating finite-displacement something",
    "Writing model to something.check", "  Initialising wavefunctions", " Pseudopotentials generated on-the-fly", "Total energy has converged after 11 SCF iterations.",
    " *** nothing to see here ***", " Number of electrons =  16.00", "k-point list follows", "    1    2    3", "  0.1234  -0.5678  9.1011", "(energy not corrected for finite basis set)",
    "BFGS: improving iteration", "Have a nice day", "x", "*", "-----", "Stress free", "  Forces of nature", "The Unit Cell of the crystal", "Si 1 0.0 0.0 0.0",
    "License: nobody", "Spin up", "    ", "\t", "=-=-=-=", "Energy gain", " NB dispersion corrected est. 0K energy* (Ecor-0.5TS) =  -1234.338872426     eV",
)
noise_st = st.lists(st.sampled_from(NOISE + ("",) * 12), max_size=2)


def pick(names):
    """One section of those named."""
    return st.sampled_from(tuple(names)).flatmap(lambda n: SECTIONS[n].strategy.map(lambda c: [n, c]))


def compose(names, lo=1, hi=6):
    """Sections in any order: those that may only be printed once appear once."""
    def ok(parts):
        seen, out = set(), []
        for n, c in parts:
            sec = SECTIONS[n]
            if sec.group in seen and not (sec.multi and sec.group == n):
                continue
            seen.add(sec.group)
            out.append([n, c])
        # The build information opens a run
        return sorted(out, key=lambda p: p[0] != "build_info")
    return st.lists(pick(names), min_size=lo, max_size=hi).map(ok)


def text_of(parts, noise=(), names=cs.FULL):
    lines = []
    for i, (n, c) in enumerate(parts):
        lines += cs.render(n, c, names)[0]
        if i < len(noise):
            lines += noise[i]
    return lines


# ---------------------------------------------------------------- C22: MD and geometry optimisation

INNER = [n for n, s in SECTIONS.items() if s.inner]
inner_st = compose(INNER, 0, 4)

MD_ROWS = (("             time :", "time", "ps"), ("  Potential Energy:", "potential_energy", "eV"), ("  Kinetic   Energy:", "kinetic_energy", "eV"),
           ("  Total     Energy:", "total_energy", "eV"), ("          Enthalpy:", "enthalpy", "eV"), ("  Hamilt    Energy:", "hamilt_energy", "eV"),
           ("       Temperature:", "temperature", "K"))


@section("md_data", rec(seed=seed, rows=st.lists(st.integers(0, len(MD_ROWS) - 1), min_size=1, max_size=7, unique=True)), prop="C22", group="whole",
         need=lambda n: bool(n & {"MD", "MD_SUMMARY"}))
def md_data(c):
    bar = "            " + "x" * 62
    lines = [bar, "            x                                               MD Data:     x", "            x                                                            x"]
    val = []
    for i in sorted(c["rows"]):
        txt, k, unit = MD_ROWS[i]
        t = T(c["seed"], i, 4, 6)
        lines.append(f"            x {txt} {t:>13}{unit:>21}     x")
        val.append(SET(k, F(t)))
    return [*lines, "            x                                                            x", bar], val


def rename(run):
    run = dict(run)
    for a, b in (("initial_positions", "positions"), ("initial_cell", "cell")):
        if a in run:
            run[b] = run.pop(a)
    return run


def inner_run(parts, names, extra=()):
    """Report of the sections inside an iteration."""
    run = {}
    for n, c in [*parts, *extra]:
        apply_ops(run, cs.render(n, c, names)[1])
    return run


EQ = "=" * 80


@section("md_steps", rec(first=st.integers(1, 900), steps=g.rows(rec(parts=inner_st, data=SECTIONS["md_data"].strategy, silent=g.rarely), min_size=1, max_size=4, big=(8, 10)),
                         zero=st.booleans(), done=st.booleans()), prop="C22", need="MD", group="whole")
def md_steps(c, names):
    lines, ops = [], []
    if c["zero"]:
        # Zeroth iteration: from the announcement to the next double line
        step = c["steps"][0]
        lines += [EQ, " Starting MD", *cs.render("md_data", step["data"])[0], ""]
        ops.append(ADD("md", rename(inner_run([], names, [("md_data", step["data"])]))))
    for i, step in enumerate(c["steps"]):
        n = c["first"] + i
        lines += [EQ, f" Starting MD iteration {n:10d} ...", EQ, ""]
        for p in step["parts"]:
            lines += [*cs.render(*p)[0], ""]
        # an iteration which reports nothing is an iteration all the same
        told = [] if step["silent"] else [("md_data", step["data"])]
        lines += [*(cs.render(*told[0])[0] if told else []), "", "-" * 80, f" ... finished MD iteration {n:10d}", ""]
        run = rename(inner_run(step["parts"], names, told))
        if "memory_estimate" in run:  # known finding: replaces the estimates already found
            ops.append(SET("memory_estimate", run.pop("memory_estimate")))
        ops.append(ADD("md", run))
    if c["done"]:
        lines += [EQ, " Finished MD", EQ]
    return lines, ops


MINIMS = ("BFGS", "LBFGS", "FIRE", "TPSD")


def conv_table(s, minim, rows):
    lines = [f" +-----------+-----------------+-----------------+------------+-----+ <-- {minim}",
             f" | Parameter |      value      |    tolerance    |    units   | OK? | <-- {minim}",
             f" +-----------+-----------------+-----------------+------------+-----+ <-- {minim}"]
    val = {}
    for i in sorted(rows):
        nm, k, unit = (("dE/ion", "de_ion", "eV"), ("|F|max", "f_max", "eV/A"), ("|dR|max", "dr_max", "A"), ("Smax", "smax", "GPa"))[i]
        a, b = g.spread_expo(s, 2 * i, 6, -9, 2).lstrip("-"), g.spread_expo(s, 2 * i + 1, 6, -6, -1).lstrip("-")
        if (s + i) % 5 == 0:
            a = "0.000000E+000"
        ok = (s + i) % 2 == 0
        lines.append(f" |  {nm:<8} |   {a} |   {b} |{unit:>11} | {'Yes' if ok else 'No '} | <-- {minim}")
        val[k] = {"value": F(a), "tolerance": F(b), "converged": ok}
    return [*lines, lines[2]], val


def step_table(s, minim, rows):
    lines = [f" +------------+-------------+-------------+-----------------+ <-- min {minim}",
             f" |    Step    |   lambda    |   F.delta'  |    enthalpy     | <-- min {minim}",
             f" +------------+-------------+-------------+-----------------+ <-- min {minim}"]
    val = {}
    for i in sorted(rows):
        nm = (" previous  ", "trial step ", " line step ", " quad step ")[i]
        a, b, e = T(s, 3 * i, 2, 6), T(s, 3 * i + 1, 2, 6), T(s, 3 * i + 2, 5, 6)
        lines.append(f" |{nm:<12}|{a:>12} |{b:>12} |{e:>16} | <-- min {minim}")
        val[nm.strip()] = {"lambda": F(a), "fdelta": F(b), "enthalpy": F(e)}
    return [*lines, lines[2]], val


rows4 = st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True)
table_case = rec(kind=st.sampled_from(("conv", "step")), rows=rows4, seed=seed)


@section("geom_table", rec(table=table_case, minim=st.sampled_from(MINIMS)), prop="C22", need="GEOM_OPT", multi=True)
def geom_table(c):
    t = c["table"]
    lines, val = (conv_table if t["kind"] == "conv" else step_table)(t["seed"], c["minim"], t["rows"])
    return lines, [ADD("minimisation", val)]


def fin_iter(minim, n, s):
    t = g.spread_expo(s, 0, 8, 0, 4)
    return f" {minim}: finished iteration {n:5d} with enthalpy= {t} eV", F(t)


final_case = rec(cell=SECTIONS["cell"].strategy, atoms=SECTIONS["positions"].strategy, seed=seed, bulk=st.booleans(), freq=st.booleans())


@section("geom_opt", rec(minim=st.sampled_from(MINIMS), initial=inner_st, seed=seed, conv0=table_case,
                         steps=g.rows(rec(parts=inner_st, trial=st.booleans(), tables=st.lists(table_case, max_size=2), seed=seed, silent=g.rarely), max_size=3, big=(8, 10)),
                         final=st.one_of(st.none(), final_case)), prop="C22", group="whole")
def geom_opt(c, names):
    lines = geom_walk(c, names, {})
    return lines, [("fn", (), lambda run: geom_walk(c, names, run))]


def geom_walk(c, names, run):
    """Lines of an optimisation; `run`, the report so far, is brought up to date."""
    mn, lines = c["minim"], []
    it_on, fin_on = "GEOM_OPT" in names, bool(names & {"GEOM_OPT", "FINAL_CONFIG"})
    # state at the start of the optimisation
    for p in c["initial"]:
        ln, op = cs.render(*p, names)
        lines += [*ln, ""]
        apply_ops(run, op)
    txt, enth = fin_iter(mn, 0, c["seed"])
    tl, tv = (conv_table if c["conv0"]["kind"] == "conv" else step_table)(c["conv0"]["seed"], mn, c["conv0"]["rows"])
    lines += [txt, "", *tl, ""]
    if it_on:
        apply_ops(run, [ADD("enthalpy", enth), ADD("minimisation", tv)])
    iters = []
    for i, step in enumerate(c["steps"]):
        lines += ["", EQ, f" Starting {mn} iteration {i + 1:10d} ...", EQ, ""]
        if i == 0 and it_on:
            first = {k: run[k] for k in ("enthalpy", "initial_cell", "initial_positions", "scf", "forces", "stresses", "minimisation") if k in run}
            for k in ("enthalpy", "scf", "forces", "stresses", "minimisation"):
                run.pop(k, None)
            iters.append(rename(first))
        inner = {} if step["silent"] else {"geom_opt": {}}
        if step["trial"]:
            t = T(step["seed"], 1, 1, 6)
            lines += ["-" * 80, f" {mn}: starting iteration {i + 1:9d} with trial guess (lambda={t:>10})", "-" * 80, ""]
            inner.setdefault("geom_opt", {})
            apply_ops(inner, [ADD("geom_opt/trial", F(t))])
        for p in step["parts"]:
            lines += [*cs.render(*p)[0], ""]
            apply_ops(inner, cs.render(*p, names)[1])
        for t in step["tables"]:
            tl, tv = (conv_table if t["kind"] == "conv" else step_table)(t["seed"], mn, t["rows"])
            lines += [*tl, ""]
            apply_ops(inner, [ADD("minimisation", tv)])
        if not step["silent"]:
            txt, enth = fin_iter(mn, i + 1, step["seed"])
            lines += [txt, ""]
            apply_ops(inner, [ADD("enthalpy", enth)])
        iters.append(rename(inner))
    if c["steps"] or c["final"]:
        lines += [f" {mn}: Geometry optimization completed successfully.", "", EQ]
    gopt = {}
    if it_on:
        run.setdefault("geom_opt", {})
    if it_on and c["steps"]:
        gopt["iterations"] = iters
    if c["final"]:
        f = c["final"]
        cl, cv = cs.cell_report({**f["cell"], "final": True})
        pl, pv = cs.positions_table(f["atoms"])
        e, b = g.spread_expo(f["seed"], 0, 8, 0, 4), T(f["seed"], 1, 3, 5)
        lines += [f" {mn}: Final Configuration:", EQ, "", *cl, *cs.title_block("Cell Contents"), "", *pl, "", f" {mn}: Final Enthalpy     = {e} eV"]
        fin = {"cell": cv, "atoms": pv, "final_enthalpy": F(e)}
        if f["freq"]:
            lines.append(f" {mn}: Final <frequency>  unchanged from initial value")
        if f["bulk"]:
            lines.append(f" {mn}: Final bulk modulus = {b:>13} GPa")
            if it_on:
                fin["final_bulk_modulus"] = F(b)
        lines.append("")
        if fin_on:
            gopt["final_configuration"] = fin
    if gopt:
        run.setdefault("geom_opt", {}).update(gopt)
    return lines


@section("internal_constraints", g.rows(rec(type=st.sampled_from(("Bond", "Angle", "Torsion")), sat=st.booleans(), seed=seed,
                                              atoms=st.lists(st.integers(1, 99), min_size=4, max_size=4, unique=True)), min_size=1, max_size=12), prop="C22", need="GEOM_OPT")
def internal_constraints(c):
    lines, val = ["  INTERNAL CONSTRAINTS", " #  Type     Target    Actual           Definition", ""], []
    # the title is followed by column headings and a line, and the table ends at a blank line
    lines[2] = " ---------------------------------------------------------------------"
    lines.append("")
    for i, k in enumerate(c):
        n = {"Bond": 2, "Angle": 3, "Torsion": 4}[k["type"]]
        a, b = (T(k["seed"], j, 3, 3, k["type"] == "Torsion") for j in (0, 1))
        cells = [[(k["seed"] // (3 ** (j + 3 * m))) % 3 - 1 for j in range(3)] for m in range(n)]
        txt = "  ".join(f"{at} ({x:2d}{y:2d}{z:2d})" for at, (x, y, z) in zip(k["atoms"], cells))
        lines.append(f"{i + 1:3d} {k['type']:<8}{a:>8} {'Satisfied' if k['sat'] else b:>9}   {txt}")
        val.append({"type": k["type"], "target": None if k["sat"] else F(a), "current": F(a) if k["sat"] else F(b), "satisfied": k["sat"],
                    "constraints": {at: tuple(v) for at, v in zip(k["atoms"], cells)}})
    return [*lines, ""], [SET("internal_constraints", val)]


@section("deloc", rec(map=g.table(st.integers(1, 99), st.integers(1, 999), max_size=4), nums=st.lists(st.integers(0, 9999), min_size=4, max_size=4),
                      space=st.one_of(st.none(), st.lists(st.integers(0, 999), min_size=3, max_size=3))), prop="C22", need="GEOM_OPT")
def deloc(c):
    lines = ["Message: Generating delocalized internals", *(f" constraint # {k:5d} is a primitive # {v:5d}" for k, v in c["map"].items()), ""]
    val = {"constraint_mapping": {int(k): v for k, v in c["map"].items()}}
    for n, k in zip(c["nums"], ("bonds", "angles", "dihedrals", "internals")):
        lines.append(f"Total number of primitive {k}:{n:15d}")
        val[f"num_{k}"] = n
    lines += ["", "Message: Generation of delocalized internals is successful"]
    if c["space"]:
        a, b, d = c["space"]
        lines += ["", f" The size of active space is : {a:5d}", f" There are : {b:6d}  degrees of freedom", f" There are : {d:6d}  primitive internals", ""]
        val.update(active_space_size=a, num_dof=b, num_primitive_internals=d)
    return lines, [cs.UPD("delocalised_internal", val)]
