"""Writers of .castep sections: each section is a strategy, the text CASTEP prints and what it means for the report.

A section's meaning is a list of operations on the report of the run (a plain dict), so that files made of any
sections in any order have a model: ``model(ops)``.
"""
from __future__ import annotations

import copy

from hypothesis import strategies as st

from . import gen as g
from .gen import F
from .oracle import AnyOf, Near
from .pspot import expect_pspot, pspot_st, write_pspot

SECTIONS = {}


class Section:
    def __init__(self, name, func, strategy, prop, need, multi, group, inner):
        self.name, self.func, self.strategy, self.prop = name, func, strategy, prop
        self.need, self.multi, self.group, self.inner = need, multi, group or name, inner


def section(name, strategy, *, prop, need=None, multi=False, group=None, inner=False):
    """Register a section.

    need: None (always reported) or a function of the set of selected filter names.
    multi: may be printed several times in one run.  group: at most one section per group in one run.
    inner: may be printed within an MD or geometry iteration.
    """
    if isinstance(need, str):
        need = (lambda flag: lambda names: flag in names)(need)

    def inner_dec(func):
        SECTIONS[name] = Section(name, func, strategy, prop, need, multi, group, inner)
        return func
    return inner_dec


# ---------------------------------------------------------------- model

def apply_ops(run, ops):
    for kind, path, val in ops:
        if kind == "fn":
            val(run)
            continue
        tgt = run
        for key in path[:-1]:
            tgt = tgt.setdefault(key, {})
        val = copy.deepcopy(val)
        if kind == "set":
            tgt[path[-1]] = val
        elif kind == "add":
            tgt.setdefault(path[-1], []).append(val)
        elif kind == "upd":
            tgt.setdefault(path[-1], {}).update(val)
        else:
            raise AssertionError(kind)
    return run


def SET(path, val):
    return ("set", tuple(path.split("/")) if isinstance(path, str) else tuple(path), val)


def ADD(path, val):
    return ("add", tuple(path.split("/")) if isinstance(path, str) else tuple(path), val)


def UPD(path, val):
    return ("upd", tuple(path.split("/")) if isinstance(path, str) else tuple(path), val)


#: All filter names and the preset sets, as documented.
LOW = {"BS", "CELL", "CHEM_SHIELDING", "DIPOLE", "ELASTIC", "ELF", "FINAL_CONFIG", "FORCE", "MD_SUMMARY", "OPTICS",
       "POPN_ANALYSIS", "POSITION", "POLARISATION", "SOLVATION", "SPECIES_PROPS", "SPIN", "STRESS", "TDDFT",
       "THERMODYNAMICS", "TSS", "DELTA_SCF"}
MEDIUM = LOW | {"PARAMETERS", "GEOM_OPT", "MD", "PHONON"}
HIGH = MEDIUM | {"PSPOT", "SYMMETRIES", "SYS_INFO"}
FULL = HIGH | {"SCF"}
EVERYTHING = FULL | {"TEST_EXTRA_DATA"}


def render(name, case, names=FULL):
    """Lines of a section and its operations under a set of selected filters."""
    sec = SECTIONS[name]
    out = sec.func(case, names) if sec.func.__code__.co_argcount == 2 else sec.func(case)
    lines, ops = out
    if sec.need is not None and not sec.need(names):
        ops = []
    return list(lines), ops


def model(parts, names=FULL):
    """Report of one run made of [(section name, case), ...]."""
    run = {}
    for name, case in parts:
        apply_ops(run, render(name, case, names)[1])
    return run


# ---------------------------------------------------------------- tokens

def T(seed, idx, nint=2, ndec=6, signed=True):
    """Table token."""
    return g.spread(seed, idx, nint, ndec, signed)


def E(seed, idx, ndec=6, lo=-8, hi=4, width=3):
    """Exponent token; zero every so often."""
    if (seed * 29 + idx * 13 + (seed >> 6)) % 11 == 0:
        return "0." + "0" * ndec + f"E{0:+0{width + 1}d}"
    return g.spread_expo(seed, idx, ndec, lo, hi, width)


def I(seed, idx, lo, hi):
    return lo + ((seed + 1) * 2654435761 + (idx + 1) * 40503) // 7 % (hi - lo + 1)


def toks(seed, base, n, *a, **kw):
    return [T(seed, base + i, *a, **kw) for i in range(n)]


def FV(tokens):
    return tuple(F(t) for t in tokens)


def row(tokens, width):
    return "".join(t.rjust(width) for t in tokens)


seed = g.seed_st
rec = g.rec
label = st.from_regex(r"[A-Za-z][A-Za-z0-9_]{0,7}", fullmatch=True)
#: Species as printed in tables: element, element:tag or element [label].
spec_st = st.one_of(g.element, g.element, g.tagged, st.builds("{} [{}]".format, g.element, label))
index_st = st.one_of(st.integers(1, 12), st.integers(1, 999))
atoms_st = g.rows(st.tuples(spec_st, index_st).map(list), min_size=1, max_size=6,
                    unique_by=lambda a: (a[0], a[1]))
#: As atoms_st, species without labels.
tag_atoms_st = g.rows(st.tuples(g.tagged, index_st).map(list), min_size=1, max_size=6,
                        unique_by=lambda a: (a[0], a[1]))


def key(atom):
    return (atom[0], atom[1])


def title_block(text, dash="-", width=31, pad=27):
    return [" " * pad + dash * width, " " * pad + text.center(width).rstrip(), " " * pad + dash * width]


# ---------------------------------------------------------------- C17: run header, options, warnings, timings

text_st = st.from_regex(r"[A-Za-z][A-Za-z0-9_.+-]{0,8}( [A-Za-z0-9(][A-Za-z0-9_.()+-]{0,8}){0,3}", fullmatch=True)


@section("build_info", rec(comp=text_st, date=st.dates().map(lambda d: d.strftime("%d-%m-%Y")), version=text_st,
                           entries=st.dictionaries(st.sampled_from(("Compiler", "Comms   ", "MATHLIBS", "FFT Lib ",
                                                                    "Fundamental constants values", "Code version")),
                                                   st.one_of(text_st, st.tuples(text_st, text_st).map(": ".join),
                                                             st.tuples(text_st, text_st).map("; Optimisation: ".join)), max_size=5),
                           indent=st.sampled_from(("", " ", "        "))),
         prop="C17", need="SYS_INFO", group="build")
def build_info(c):
    pad = c["indent"]
    lines = [f"{pad}Compiled for  {c['comp']} on {c['date']} 15:14:41", f"{pad}from code version {c['version']}"]
    info = {"summary": f"Compiled for {c['comp']} on {c['date']} 15:14:41 from code version {c['version']}"}
    for k, v in c["entries"].items():
        lines.append(f"{pad}{k}: {v}")
        info["_".join(k.lower().split())] = v
    return [*lines, ""], [SET("build_info", info)]


@section("time_started", st.datetimes(), prop="C17", need="SYS_INFO")
def time_started(c):
    stamp = c.strftime("%a, %d %b %Y %H:%M:%S +0100") if hasattr(c, "strftime") else c
    return [f" Run started: {stamp}"], [SET("time_started", stamp)]


SECTIONS["time_started"].strategy = st.datetimes().map(lambda d: d.strftime("%a, %d %b %Y %H:%M:%S +0100"))


@section("continuation", st.from_regex(r"[A-Za-z0-9_./-]{1,20}", fullmatch=True), prop="C17", need="SYS_INFO")
def continuation(c):
    return [f"Reading continuation data from model file {c}"], [SET("continuation", c)]


@section("warning_box", g.rows(text_st, min_size=1, max_size=4), prop="C17", need="SYS_INFO", multi=True)
def warning_box(c):
    bar = "?" * 72
    return [bar, *(" " * (3 * i) + " " + t for i, t in enumerate(c)), bar], [ADD("warning", " ".join(c))]


@section("warning", rec(prefix=st.sampled_from(("", "", "TS: ")), word=st.sampled_from(("Warning", "WARNING", "warning")),
                        indent=st.sampled_from((" ", "", "  ")), text=text_st,
                        cont=g.rows(text_st, max_size=9), end=st.sampled_from(("blank", "plain", "data")), seed=seed),
         prop="C17", multi=True)
def warning(c, names):
    first = f"{c['prefix']}{c['indent'] if not c['prefix'] else ''}{c['word']} - {c['text']}"
    # Continuation lines are indented further than the word.
    lines = [first, *("         - " + t for t in c["cont"])]
    ops = [ADD("warning", " ".join([first.strip(), *("- " + t for t in c["cont"])]))] if "SYS_INFO" in names else []
    if c["end"] == "data":
        # A line which is not indented further is not part of the warning
        t = T(c["seed"], 0, 5, 10)
        return [*lines, f"Final energy = {t:>18}     eV"], [*ops, ADD("energies/final_energy", F(t))]
    return [*lines, "" if c["end"] == "blank" else "Calculation goes on."], ops


@section("memory_estimate", rec(rows=st.dictionaries(st.sampled_from((
    "BLAS internal memory storage", "Model and support data", "Electronic energy minimisation requirements",
    "Force calculation requirements", "Geometry minimisation requirements", "Molecular Dynamics requirements",
    "Phonon requirements", "Spectral calculation requirements")), seed, min_size=1, max_size=6)),
    prop="C17", need="SYS_INFO", multi=True, inner=True)
def memory_estimate(c):
    lines = ["+---------------- MEMORY AND SCRATCH DISK ESTIMATES PER PROCESS --------------+",
             "|                                                     Memory          Disk    |"]
    est = {}
    for k, s in c["rows"].items():
        mem, disk = T(s, 0, 5, 1, False), T(s, 1, 4, 1, False)
        lines.append(f"| {k:<48}{mem:>9} MB{disk:>12} MB |")
        est["_".join(k.lower().split())] = {"memory": F(mem), "disk": F(disk)}
    lines += ["|                                               ----------------------------- |",
              "| Approx. total storage required per process        10120.1 MB         0.0 MB |",
              "|                                                                             |",
              "| Requirements will fluctuate during execution and may exceed these estimates |",
              "+-----------------------------------------------------------------------------+"]
    return lines, [ADD("memory_estimate", est)]


@section("title", st.one_of(text_st, st.just("")), prop="C17", need="PARAMETERS")
def title(c):
    return ["************************************ Title ************************************", f" {c}".rstrip(), ""], \
        [SET("title", c)]


GROUPS = ("General", "Exchange-Correlation", "Pseudopotential", "Basis Set", "Electronic", "Electronic Minimization",
          "Density Mixing", "Population Analysis", "Geometry Optimization", "Molecular Dynamics", "Phonon")
opt_key = st.from_regex(r"[a-zA-Z][a-zA-Z.-]{0,9}( [a-zA-Z0-9][a-zA-Z0-9_/-]{0,8}){0,3}", fullmatch=True).filter(
    lambda k: not k.lower().startswith("output") and "unit" not in k.lower())
# such as "DFT+D: Semi-empirical dispersion correction"
opt_key = st.one_of(opt_key, opt_key, opt_key, st.tuples(st.sampled_from(("DFT+D", "DFT+U")), opt_key).map(": ".join))
opt_val = st.one_of(
    st.integers(-999, 99999).map(lambda i: [str(i), None]),
    st.tuples(g.fixed(3, 4), st.one_of(st.none(), st.sampled_from(("eV", "A", "GPa", "1/A", "s")))).map(list),
    st.tuples(g.expo(4), st.one_of(st.none(), st.sampled_from(("eV", "eV/A")))).map(list),
    text_st.map(lambda t: [t, "text"]),
)


@section("options", rec(groups=st.dictionaries(st.sampled_from(GROUPS), g.table(opt_key, opt_val, min_size=1, max_size=5),
                                               min_size=1, max_size=4),
                        units=st.dictionaries(st.sampled_from(("length", "mass", "time", "charge", "spin", "energy", "force constant",
                                                               "inv_length", "dipole")), st.sampled_from(("A", "amu", "ps", "eV/A**2", "1/A", "DEBYE")),
                                              max_size=4),
                        scf=st.booleans(),
                        devel=st.one_of(st.none(), st.dictionaries(st.from_regex(r"[A-Z]{2,8}", fullmatch=True), st.integers(0, 99), min_size=1, max_size=3))),
         prop="C17", need="PARAMETERS")
def options(c):
    lines, exp = [], {}
    for i, (name, opts) in enumerate(c["groups"].items()):
        head = f" {name} Parameters "
        lines += [" " + head.center(79, "*"), " "]
        for k, (v, unit) in opts.items():
            u = f"   {unit}" if unit and unit != "text" else ""
            lines.append(f" {k:<46} : {v:>10}{u}")
        if i == 0:
            for k, u in c["units"].items():
                lines.append(f" output {k:>14} unit                     : {u}")
        lines.append(" ")
        val = {}
        for k, (v, unit) in opts.items():
            if unit == "text":
                val[k.replace(": ", " ")] = v
            else:
                num = int(v) if v.lstrip("-").isdigit() else F(v)
                val[k.replace(": ", " ")] = (num, unit) if unit else num
        exp[name.lower()] = val
    if c["units"]:
        exp["output_units"] = dict(c["units"])
    if c["scf"]:
        lines += [" ************************* Constrained DFT - deltaSCF **************************", " ",
                  " deltaSCF method                                : simple", " "]
        exp["constrained dft - deltascf"] = {"deltaSCF method": "simple"}
    if c["devel"]:
        lines += [" ******************************* Developer Code ********************************", " "]
        for k, v in c["devel"].items():
            lines += [f" {k}_BLK:", f" val={v}", f" :END{k}_BLK"]
        exp["devel_code"] = {f"{k}_blk".lower(): {"val": v} for k, v in c["devel"].items()}
        lines.append(" ")
    lines.append(" " + "*" * 79)
    return lines, [SET("options", exp)]


@section("finalisation", rec(seed=seed, peak=st.integers(0, 10 ** 7), eff=st.one_of(st.none(), st.integers(0, 100))),
         prop="C17", need="SYS_INFO")
def finalisation(c):
    t = [T(c["seed"], i, 5, 2, False) for i in range(4)]
    lines = [f"Initialisation time ={t[0]:>10} s", f"Calculation time    ={t[1]:>10} s",
             f"Finalisation time   ={t[2]:>10} s", f"Total time          ={t[3]:>10} s",
             f"Peak Memory Use     = {c['peak']} kB", " "]
    ops = [SET(k, F(v)) for k, v in zip(("initialisation_time", "calculation_time", "finalisation_time", "total_time"), t)]
    ops.append(SET("peak_memory_use", float(c["peak"])))
    if c["eff"] is not None:
        lines.append(f"Overall parallel efficiency rating: Satisfactory ({c['eff']}%)")
        ops.append(SET("parallel_efficiency", float(c["eff"])))
    return lines, ops


# ---------------------------------------------------------------- C18: system report

cell_case = rec(seed=seed, final=st.booleans())


def cell_report(c):
    s = c["seed"]
    lines = title_block("Unit Cell")
    lines.append("        Real Lattice(A)                      Reciprocal Lattice(1/A)")
    val = {"real_lattice": [], "recip_lattice": [], "lattice_parameters": [], "cell_angles": []}
    for i in range(3):
        a, b = toks(s, 10 * i, 3, 3, 7), toks(s, 100 + 10 * i, 3, 1, 9)
        lines.append(row(a, 14) + "  " + row(b, 14))
        val["real_lattice"].append(FV(a))
        val["recip_lattice"].append(FV(b))
    lines += ["", "                       Lattice parameters(A)       Cell Angles"]
    for i, (x, ang) in enumerate((("a", "alpha"), ("b", "beta "), ("c", "gamma"))):
        p, q = T(s, 200 + i, 3, 6, False), T(s, 300 + i, 3, 6, False)
        lines.append(f"                    {x} ={p:>14}          {ang} ={q:>12}")
        val["lattice_parameters"].append(F(p))
        val["cell_angles"].append(F(q))
    v, d, e = (T(s, 400 + i, 3, 6, False) for i in range(3))
    unit = "amu/A**3" if c["final"] else "  AMU/A**3"
    lines += ["", f"                       Current cell volume =       {v:>15}       A**3",
              f"                                   density =      {d:>15} {unit}",
              f"                                           =      {e:>15}     g/cm^3", ""]
    val.update(volume=F(v), density_amu=F(d), density_g=F(e))
    return lines, val


@section("cell", cell_case, prop="C18", need="CELL", inner=True)
def cell(c):
    lines, val = cell_report(c)
    return lines, [SET("initial_cell", val)]


def positions_table(c, head="Fractional coordinates of atoms", cols=("u", "v", "w")):
    s = c["seed"]
    bar = " " * 12 + "x" * 66
    lines = [bar, f"            x  Element         Atom        {head}   x",
             f"            x                 Number           {cols[0]}          {cols[1]}          {cols[2]}       x",
             "            x" + "-" * 64 + "x"]
    val = {}
    for i, at in enumerate(c["atoms"]):
        p = toks(s, 10 * i, 3, 1 + (s + i) % 2, 6)
        lines.append(f"            x  {at[0]:<16}{at[1]:>4}      {row(p, 12)}   x")
        val[key(at)] = FV(p)
    return [*lines, bar], val


atom_table = rec(seed=seed, atoms=atoms_st)


@section("positions", atom_table, prop="C18", need="POSITION", group="positions", inner=True)
def positions(c):
    lines, val = positions_table(c)
    return [*title_block("Cell Contents"), "", *lines], [SET("initial_positions", val)]


@section("positions_labelled", rec(seed=seed, atoms=g.rows(st.tuples(g.tagged, index_st, st.one_of(st.just(""), label)).map(list),
                                                             min_size=1, max_size=6, unique_by=lambda a: (a[0], a[1]))),
         prop="C18", need="POSITION", group="positions")
def positions_labelled(c):
    bar = "     " + "x" * 76
    lines = [bar, "     x  Element    Atom        Fractional coordinates of atoms  User-defined  x",
             "     x            Number           u          v          w          LABEL     x",
             "     x" + "-" * 74 + "x"]
    pos, labels = {}, {}
    for i, (spec, ind, lab) in enumerate(c["atoms"]):
        p = toks(c["seed"], 10 * i, 3, 1, 6)
        lines.append(f"     x  {spec:<8}{ind:>6}       {row(p, 11)}     {lab:<8}    x")
        pos[(f"{spec} [{lab}]" if lab else spec), ind] = FV(p)
        labels[spec, ind] = lab or "NULL"
    return [*lines, bar], [SET("labels", labels), SET("initial_positions", pos)]


@section("positions_mixture", rec(seed=seed, sites=g.rows(st.lists(spec_st, min_size=2, max_size=3, unique=True), min_size=1, max_size=4)),
         prop="C18", need="POSITION", group="positions")
def positions_mixture(c):
    bar = "        " + "x" * 68
    lines = [bar, "        x  Mixture   Fractional coordinates of atoms  Components  Weights  x",
             "        x   atoms       u          v          w                            x",
             "        x" + "-" * 66 + "x"]
    val = {}
    for i, specs in enumerate(c["sites"]):
        p = toks(c["seed"], 10 * i, 3, 1, 6)
        for j, spec in enumerate(specs):
            w = T(c["seed"], 10 * i + 5 + j, 1, 6, False)
            if j == 0:
                lines.append(f"        x {i + 1:>4}      {row(p, 11)}   {spec:<8} {w:>9}  x")
            else:
                lines.append(f"        x {'':>46} {spec:<8} {w:>9}  x")
            val[spec, i + 1] = {"pos": FV(p), "weight": F(w)}
    return [*lines, bar], [SET("initial_positions", val)]


def tss_table(which, c):
    bar = " " * 12 + "x" * 66
    lines, val = positions_table(c)
    return [bar, f"            x                          {which:<38}x", *lines], val


@section("reactant", atom_table, prop="C18", need=lambda n: {"TSS", "POSITION"} <= n)
def reactant(c):
    lines, val = tss_table("Reactant", c)
    return lines, [SET("reactant", val)]


@section("product", atom_table, prop="C18", need=lambda n: {"TSS", "POSITION"} <= n)
def product(c):
    lines, val = tss_table("Product", c)
    return lines, [SET("product", val)]


@section("velocities", atom_table, prop="C18", need="POSITION")
def velocities(c):
    lines, val = positions_table(c, "User Supplied Ionic Velocities", ("Vx", "Vy", "Vz"))
    return lines, [SET("initial_velocities", val)]


@section("supercell", st.lists(st.lists(st.integers(-12, 12), min_size=3, max_size=3), min_size=3, max_size=3), prop="C18")
def supercell(c):
    txt = "; ".join(",".join(map(str, r)) for r in c)
    return [f"    Supercell generated using matrix  [{txt}]"], [SET("supercell", tuple(tuple(map(float, r)) for r in c))]


@section("initial_spins", rec(seed=seed, atoms=g.rows(st.tuples(g.tagged, index_st, st.booleans()).map(list), min_size=1,
                                                        max_size=5, unique_by=lambda a: (a[0], a[1]))), prop="C18", need="PARAMETERS")
def initial_spins(c):
    bar = "         " + "x" * 70
    lines = [bar, "         |  Element    Atom         Initial            Initial magnetic       |",
             "         |            Number    spin polarization        moment (uB)     Fix? |", "         |" + "-" * 68 + "|"]
    val = {}
    for i, (spec, ind, fix) in enumerate(c["atoms"]):
        a, b = T(c["seed"], 2 * i, 1, 6), T(c["seed"], 2 * i + 1, 2, 3)
        lines.append(f"         | {spec:<10}{ind:>6}         {a:>9}            {b:>7}       {'T' if fix else 'F'}      |")
        val[spec, ind] = {"spin": F(a), "magmom": F(b), "fix": fix}
    return [*lines, bar], [SET("initial_spins", val)]


@section("target_stress", seed, prop="C18", need="PARAMETERS", multi=True)
def target_stress(c):
    t = toks(c, 0, 6, 2, 5)
    lines = ["                         External pressure/stress (GPa)", "                       " + row(t[:3], 10),
             "                       " + " " * 10 + row(t[3:5], 10), "                       " + " " * 20 + row(t[5:], 10)]
    return lines, [ADD("target_stress", FV(t))]


@section("kpoints_grid", rec(seed=seed, grid=st.one_of(st.none(), st.lists(st.integers(1, 24), min_size=3, max_size=3)),
                             n=st.integers(1, 4096)), prop="C18", need="PARAMETERS", group="kpoints")
def kpoints_grid(c):
    lines, val = title_block("k-Points For BZ Sampling"), {"num_kpoints": c["n"]}
    if c["grid"]:
        off = toks(c["seed"], 0, 3, 1, 3)
        lines += ["                       MP grid size for SCF calculation is" + "".join(f"{i:3d}" for i in c["grid"]),
                  "                            with an offset of  " + row(off, 7)]
        val.update(kpoint_mp_grid=tuple(c["grid"]), kpoint_mp_offset=FV(off))
    return [*lines, f"                       Number of kpoints used = {c['n']:>13}", ""], [SET("k-points", val)]


@section("kpoints_list", rec(seed=seed, n=st.integers(1, 30)), prop="C18", need="PARAMETERS", group="kpoints")
def kpoints_list(c):
    bar = "             " + "+" * 55
    lines = [bar, "             +  Number       Fractional coordinates        Weight  +", "             +" + "-" * 53 + "+"]
    pts = []
    for i in range(c["n"]):
        q, w = toks(c["seed"], 5 * i, 3, 1, 6), T(c["seed"], 5 * i + 4, 1, 7, False)
        lines.append(f"             +{i + 1:6d}{row(q, 11)}{w:>12}  +")
        x, y, z = FV(q)
        # known finding: the x component is reported in place of z
        pts.append({"qpt": AnyOf((x, y, z), (x, y, x)), "weight": F(w)})
    return [*lines, bar], [SET("k-points", {"points": pts, "num_kpoints": c["n"]})]


@section("applied_field", seed, prop="C18", need="PARAMETERS")
def applied_field(c):
    t = toks(c, 0, 3, 1, 5)
    return ["                          Applied Electric Field (eV/A/e)", "                    " + row(t, 12)], [SET("applied_field", FV(t))]


@section("quantisation_axis", seed, prop="C18", need="SPECIES_PROPS")
def quantisation_axis(c):
    t = toks(c, 0, 3, 1, 5)
    return ["         Quantisation axis: " + row(t, 10)], [SET("quantisation_axis", FV(t))]


species_table = g.table(g.tagged, seed, min_size=1, max_size=4)


@section("mass", species_table, prop="C18", need="SPECIES_PROPS")
def mass(c):
    lines, ops = ["                               Mass of species in AMU"], []
    for spec, s in c.items():
        m = T(s, 0, 3, 7, False)
        lines.append(f"                                    {spec:<8}{m:>12}")
        ops.append(SET(("species_properties", spec, "mass"), F(m)))
    return [*lines, ""], ops


@section("quadrupole", rec(table=species_table, bar=st.booleans(), iso=st.sampled_from((" Isotope 55", " No Isotope Defined", ""))),
         prop="C18", need="SPECIES_PROPS")
def quadrupole(c):
    lines, ops = ["                          Electric Quadrupole Moment (Barn)"], []
    for spec, s in c["table"].items():
        m = T(s, 1, 2, 7)
        lines.append(f"                                    {spec:<8}{m:>12}{c['iso']}")
        ops.append(SET(("species_properties", spec, "electric_quadrupole_moment"), F(m)))
    return [*lines, "         " + "x" * 70 if c["bar"] else ""], ops


@section("pseudopots", g.table(g.tagged, st.one_of(st.sampled_from(("my_pot.usp", "C_00PBE.usp", "Si_OTF.recpot", "on-the-fly", "H_04.uspcc")), pspot_st),
                                       min_size=1, max_size=4), prop="C18", need="SPECIES_PROPS")
def pseudopots(c, names):
    lines = ["                          Files used for pseudopotentials:"]
    ops = []
    for spec, pot in c.items():
        if isinstance(pot, dict):
            txt = write_pspot(pot)[0]
            lines.append(f"                                    {spec:<8} {txt}")
            ops.append(SET(("species_properties", spec, "pseudopot"), expect_pspot(pot) if "PSPOT" in names else txt))
            continue
        lines.append(f"                                    {spec:<8} {pot}" if pot != "on-the-fly" else
                     f"                                    {spec:<8} Pseudopotential generated on-the-fly")
        ops.append(SET(("species_properties", spec, "pseudopot"), pot))
    return [*lines, ""], ops


@section("ps_energy", rec(spec=g.element, seed=seed, shells=st.lists(st.sampled_from(("1s2", "2s2", "2p6", "3d10", "4s1", "3p3", "4f7", "5d")),
                                                                     min_size=1, max_size=4), n=st.integers(1, 200), spill=st.integers(0, 2)),
         prop="C18", need="SPECIES_PROPS", multi=True)
def ps_energy(c):
    e = T(c["seed"], 0, 4, 4)
    lines = [f" Pseudo atomic calculation performed for {c['spec']} {' '.join(c['shells'])}", " ",
             f" Converged in {c['n']} iterations to a total energy of {e} eV"]
    ops = [SET(("species_properties", c["spec"], "pseudo_atomic_energy"), F(e))]
    spill = []
    for i in range(c["spill"]):
        p = T(c["seed"], 1 + i, 1, 2, False)
        lines.append(f"Charge spilling parameter for spin component {i + 1} = {p}%")
        spill.append(Near(F(p) / 100))
    if spill:
        ops.append(SET(("species_properties", c["spec"], "charge_spilling"), spill))
    return [*lines, ""], ops


@section("pspot_report", rec(spec=g.element, seed=seed, charge=st.integers(1, 40), theory=st.sampled_from(("LDA", "PBE", "RSCAN", "PW91")),
                             solver=st.sampled_from(("Koelling-Harmon", "Schroedinger", "ZORA")),
                             ref=st.lists(st.sampled_from(("2s", "3s1/2", "3p1/2", "3p3/2", "4f7/2", "3d")), min_size=1, max_size=4),
                             defn=st.lists(st.tuples(st.one_of(st.just("loc"), st.integers(1, 12).map(str)), st.integers(0, 3),
                                                     st.one_of(st.none(), st.integers(0, 7)), st.sampled_from(("qc", "pn", "tm", "es")), st.integers(0, 2)).map(list),
                                           min_size=1, max_size=5),
                             detail=st.one_of(st.none(), pspot_st), aug=st.booleans(), core=st.booleans()), prop="C18", need="PSPOT", multi=True)
def pspot_report(c):
    s = c["seed"]

    def line(txt=""):
        return f"   | {txt:<57}|"
    lines = ["   " + "=" * 60, line("Pseudopotential Report - Date of generation 14-07-2023"), "   " + "-" * 60,
             line(f"Element: {c['spec']} Ionic charge: {c['charge']:.2f} Level of theory: {c['theory']}"),
             line(f"Atomic Solver: {c['solver']}"), line(), line("              Reference Electronic Structure"),
             line("        Orbital         Occupation         Energy")]
    val = {"element": c["spec"], "ionic_charge": float(c["charge"]), "level_of_theory": c["theory"], "solver": c["solver"],
           "reference_electronic_structure": [], "pseudopotential_definition": []}
    for i, orb in enumerate(c["ref"]):
        o, e = T(s, 2 * i, 2, 3, False), T(s, 2 * i + 1, 3, 3)
        lines.append(line(f"         {orb:<8}{o:>18}{e:>17}"))
        val["reference_electronic_structure"].append({"orb": orb, "occupation": F(o), "energy": F(e)})
    lines += [line(), line("                Pseudopotential Definition"), line("     Beta    l   2j     e      Rc     scheme   norm")]
    for i, (beta, l, j, scheme, norm) in enumerate(c["defn"]):
        e, rc = T(s, 100 + 2 * i, 2, 3), T(s, 101 + 2 * i, 1, 3, False)
        lines.append(line(f"{beta:>9} {l:>5} {'' if j is None else j:>4} {e:>8} {rc:>7} {scheme:>6} {norm:>5}"))
        val["pseudopotential_definition"].append({"beta": int(beta) if beta.isdigit() else beta, "l": l, "j": j, "e": F(e), "Rc": F(rc),
                                                  "scheme": scheme, "norm": norm})
    lines.append(line())
    a, b = T(s, 200, 1, 3, False), T(s, 201, 1, 3, False)
    lines.append(line(f"Augmentation charge Rinner = {a}" if c["aug"] else "No charge augmentation"))
    lines.append(line(f"Partial core correction Rc = {b}" if c["core"] else "No partial core correction"))
    if c["aug"]:
        val["augmentation_charge_rinner"] = (F(a),)
    if c["core"]:
        val["partial_core_correction"] = (F(b),)
    if c["detail"]:
        # known finding pspot_detail: never reported
        lines += [line(), "   " + "-" * 60, line(f'"{write_pspot(c["detail"])[0]}"')]
    lines += ["   " + "-" * 60, line(), line("     Author: Chris J. Pickard, Cambridge University"), "   " + "=" * 60]
    return lines, [ADD("pspot_detail", val)]


@section("pspot_debug", rec(typ=st.sampled_from(("AE", "PS")), nl=st.integers(0, 99), seed=seed), prop="C18", need="PSPOT", multi=True)
def pspot_debug(c):
    e = T(c["seed"], 0, 4, 8)
    return [f" {c['typ']} eigenvalue nl {c['nl']} = {e}"], [ADD("pspot_debug", {"type": c["typ"], "nl": c["nl"], "eigenvalue": F(e)})]


@section("symmetry", rec(seed=seed, nsym=st.integers(1, 48), ncons=st.integers(0, 30), prim=st.one_of(st.none(), st.integers(2, 64)),
                         pg=st.one_of(st.none(), st.sampled_from(([1, "C1", "1", "1"], [32, "Oh", "m-3m", "4/m -3 2/m"], [27, "D6h", "6/mmm", "6/m 2/m 2/m"]))),
                         sg=st.one_of(st.none(), st.sampled_from(([1, "P1", "P 1"], [213, "P4_132", "P 4bd 2ab 3"], [227, "Fd-3m", "F 4d 2 3 -1d"],
                                                                  [166, "R-3m:H", '-R 3 2"']))),
                         ops=st.lists(st.dictionaries(g.tagged, g.rows(st.integers(1, 120), min_size=1, max_size=6), min_size=1, max_size=2), max_size=4),
                         more=g.rare(st.just(0), st.integers(1, 200)), com=st.sampled_from((" ", " NOT ")), cell=st.lists(st.integers(0, 6), min_size=6, max_size=6),
                         cons=st.one_of(st.none(), g.rows(st.tuples(g.tagged, st.integers(1, 120)).map(list), min_size=1, max_size=4,
                                                            unique_by=lambda a: (a[0], a[1]))),
                         ncell=st.integers(0, 6)), prop="C18", need="SYMMETRIES")
def symmetry(c):
    s = c["seed"]
    lines = [*title_block("Symmetry and Constraints"), ""]
    sym, con = {}, {}
    if c["prim"] is not None:
        lines.append(f"                      Cell is a supercell containing {c['prim']} primitive cells")
        sym["n_primitives"] = c["prim"]
    dev = T(s, 0, 1, 5, False)
    lines += [f"                      Maximum deviation from symmetry =  {dev}         ANG", "",
              f"                      Number of symmetry operations   = {c['nsym']:>11}",
              f"                      Number of ionic constraints     = {c['ncons']:>11}"]
    sym.update(max_deviation=F(dev), num_symmetry_operations=c["nsym"])
    con["num_ionic_constraints"] = c["ncons"]
    if c["pg"]:
        n, a, b, d = c["pg"]
        lines.append(f"                      Point group of crystal = {n:>5}: {a}, {b}, {d}")
        sym["point_group"] = {"id": n, "schoenflies": a, "hermann_mauguin": b, "hermann_mauguin_full": d}
    if c["sg"]:
        n, a, b = c["sg"]
        lines.append(f"                      Space group of crystal = {n:>5}: {a}, {b}")
        sym["space_group"] = {"id": n, "international": a, "hall": b}
    lines.append("")
    if c["ops"]:
        sym["symop"] = []
    # a supercell of a cubic crystal has 48 operations for every primitive cell
    for i, related in enumerate([*c["ops"], *c["ops"][:1] * c["more"]]):
        rot = [toks(s, 100 * (i + 1) + 10 * j, 3, 1, 11) for j in range(3)]
        dis = toks(s, 100 * (i + 1) + 50, 3, 1, 11)
        lines.append(f"               {i + 1:>6} rotation")
        lines += [f"                 ({row(r, 16)} )" for r in rot]
        lines += [f"               {i + 1:>6} displacement", f"                 ({row(dis, 16)} )", "                      symmetry related atoms:"]
        lines += [f"             {spec}: " + "".join(f"{k:>5}" for k in inds) for spec, inds in related.items()]
        lines.append("")
        sym["symop"].append({"rotation": [FV(r) for r in rot], "displacement": FV(dis),
                             "symmetry_related": [(spec, k) for spec, inds in related.items() for k in inds]})
    lines.append(f"                         Centre of mass is{c['com']}constrained")
    con["com_constrained"] = c["com"].strip() != "NOT"
    if c["cons"]:
        con["ionic_constraints"] = {}
        bar = "            " + "x" * 62 + "...."
        lines += [bar, "            x  Species       atom   co-ordinate  constraints.....", "            x" + "-" * 61 + "...."]
        for i, at in enumerate(c["cons"]):
            rows = [toks(s, 1000 + 20 * i + 4 * j, 3, 3, 4) for j in range(3)]
            for xyz, t in zip("xyz", rows):
                lines.append(f"            x {at[0]:<12}{at[1]:>6}       {xyz}       {row(t, 13)}")
            con["ionic_constraints"][key(at)] = [FV(t) for t in rows]
        lines += [bar, ""]
    lines += [f"                         Number of cell constraints= {c['ncell']}",
              "                         Cell constraints are:  " + " ".join(map(str, c["cell"]))]
    con["num_cell_constraints"] = c["ncell"]
    con["cell_constraints"] = tuple(c["cell"])
    return lines, [SET("symmetries", sym), SET("constraints", con)]


pair = st.tuples(g.element, g.element).map(list)


@section("pair_params", rec(tag=st.sampled_from(("", "SR", "WL", "A1")), seed=seed,
                            two=g.rows(rec(pairs=st.lists(pair, min_size=1, max_size=4, unique_by=tuple),
                                             vals=st.lists(st.tuples(st.sampled_from(("r", "e", "s", "r_d", "A", "C6")), st.sampled_from(("A", "eV", "eV/A^2", "A^6*eV"))).map(list),
                                                           min_size=1, max_size=3, unique_by=lambda v: v[0]),
                                             typ=st.sampled_from(("LJ", "BUCK", "COUL", "DZ"))), max_size=2, big=(6, 9)),
                            one=st.one_of(st.none(), g.element),
                            three=st.lists(st.lists(g.element, min_size=3, max_size=3), max_size=2, unique_by=tuple),
                            glob=st.lists(st.tuples(st.sampled_from(("A", "CUT1", "EPS", "SIG", "m")), st.sampled_from(("", "eV", "A"))).map(list),
                                          max_size=4, unique_by=lambda v: v[0])).filter(lambda c: c["two"] or c["one"] or c["three"] or c["glob"]),
         prop="C18", need="PARAMETERS", multi=True)
def pair_params(c):
    pre = f"{c['tag']} " if c["tag"] else "   "
    s, acc = c["seed"], {}
    n = [0]

    def tok(ndec):
        n[0] += 1
        return T(s, n[0], 2, ndec)

    def typ(t):
        return f"{c['tag']}_{t}" if c["tag"] else t

    def star(txt):
        return f"{pre}*{txt:<66}*"
    sep = f"{pre}" + "*" * 68
    lines = [f"{pre}************************     PairParams     ************************", star("")]
    for blk in c["two"]:
        lines.append(star("                               Two Body"))
        # Pairs and their parameters are printed in rows of four
        lines.append(star("     " + "".join(f"    {a:<2}-{b:<5}" for a, b in blk["pairs"])))
        for lab, unit in blk["vals"]:
            t = [tok(5) for _ in blk["pairs"]]
            lines.append(f"{pre}*{lab:>5}  {row(t, 12):<52} {unit:<6} * <-- {blk['typ']:>4}")
            acc.setdefault(typ(blk["typ"]), {}).setdefault(lab, {}).update({tuple(p): F(v) for p, v in zip(blk["pairs"], t)})
        lines.append(sep)
    if c["one"]:
        lines += [star("                               Two Body"), star(f"                               {c['one']}")]
        for lab, unit in (("r", "A"), ("k", "eV/A^2")):
            t = tok(10)
            lines.append(f"{pre}*{lab:>5}  {t:>24}                  {unit:<8} * <--  SHO")
            acc.setdefault(typ("SHO"), {}).setdefault(lab, {})[(c["one"],)] = F(t)
        lines.append(sep)
    for three in c["three"]:
        lines += [star("                             Three Body"), star("                            " + "   ".join(three))]
        for lab in ("l", "c", "C"):
            t = tok(10)
            lines.append(f"{pre}*{lab:>5}  {t:>24}                           * <--   SW")
            acc.setdefault(typ("SW"), {}).setdefault(lab, {})[tuple(three)] = F(t)
        lines.append(sep)
    if c["glob"]:
        for lab, unit in c["glob"]:
            t = tok(10)
            lines.append(f"{pre}*{lab:>5}  {t:>24}                  {unit:<8} * <--   PES")
            acc.setdefault(typ("PES"), {})[lab] = F(t)
        lines.append(sep)
    return [*lines, ""], [ADD("pair_params", acc)]


@section("dftd", rec(scheme=st.sampled_from(("G06", "TS", "XDM", "MBD*")), seed=seed,
                     pars=st.lists(st.sampled_from(("s6", "d", "sc", "a1", "a2", "sR")), max_size=4, unique=True),
                     species=st.lists(g.tagged, max_size=3, unique=True)), prop="C18", need="PARAMETERS")
def dftd(c):
    val = {"dispersion_correction_scheme": c["scheme"], "species": {}}
    lines = ["                                --------------------", "                                  DFT-D parameters",
             "                                --------------------", "", f"                          Dispersion-correction scheme : {c['scheme']}"]
    for i, p in enumerate(c["pars"]):
        t = T(c["seed"], i, 2, 6)
        lines.append(f"                        Parameter {p:<3}:{t:>12} (default)")
        val[f"parameter_{p.lower()}"] = F(t)
    lines.append("")
    if c["species"]:
        bar = "        " + "x" * 68
        lines += [bar, "        x              Atomic DFT-D parameters                             x",
                  "        x  Species      C6            R0                                   x",
                  "        x               eV A^6        Ang                                  x", "        x" + "-" * 66 + "x"]
        for i, sp in enumerate(c["species"]):
            a, b = T(c["seed"], 100 + 2 * i, 2, 4), T(c["seed"], 101 + 2 * i, 1, 4)
            lines.append(f"        x  {sp:<10}{a:>13}{b:>13}   (default)                   x")
            val["species"][sp] = {"c6": F(a), "r0": F(b)}
        lines.append(bar)
    return [*lines, ""], [SET("dftd", val)]
