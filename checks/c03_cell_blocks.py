"""C03: %BLOCK sections of .cell/.param files are reported exactly."""
from collections import Counter

from hypothesis import strategies as st

from lib import gen as g
from lib.harness import facet
from lib.oracle import expect, parse_text

UNIT_WORDS = ("ang", "Bohr", "nm", "ANG", "m", "cm")
numtok = st.one_of(g.fixed(3, 10), g.fixed(1, 4), st.integers(-9, 9).map(str), g.rational_tok,
                   g.expo(6, -20, 5))

# ---------------------------------------------------------------- block models: (strategy, write, expect)
BLOCKS = {}


def block(name, strategy):
    def deco(fn):
        BLOCKS[name] = (strategy, fn)
        return fn
    return deco


def row(toks, gap="  "):
    return gap.join(toks)


def numeric_general(titles, units, shape):
    return g.rec(title=st.sampled_from(titles), units=st.sampled_from((None, *units)), rows=shape)


def _general(case):
    lines = ([case["units"]] if case["units"] else []) + [row(r) for r in case["rows"]]
    exp = {"data": [tuple(map(g.F, r)) for r in case["rows"]]}
    if case["units"]:
        exp["units"] = case["units"]
    return case["title"], lines, exp


for nm, titles, units, shape in (
    ("lattice", ("lattice_cart", "lattice_abc"), UNIT_WORDS, g.mat(numtok)),
    ("kpoints", ("kpoint_list", "kpoints_list", "bs_kpoint_path", "phonon_kpoint_list",
                 "supercell_kpoint_list", "optics_kpoint_list", "magres_kpoint_list"), (),
     g.rows(st.one_of(g.vec(numtok), g.vec(numtok, 4)), min_size=1, max_size=14)),
    ("cell_constraints", ("cell_constraints",), (), g.vec(g.vec(g.inttok(0, 6)), 2)),
    ("matrix", ("phonon_supercell_matrix", "phonon_gamma_directions", "augmented_grid"), (),
     st.lists(g.vec(st.integers(-5, 5).map(str)), min_size=1, max_size=3)),
    ("velocities", ("ionic_velocities",), ("ang/ps", "bohr/fs"),
     g.rows(g.vec(numtok), min_size=1, max_size=8)),
    ("pressure", ("external_pressure",), ("GPa", "kbar", "eV/ang**3"),
     st.tuples(g.vec(numtok), g.vec(numtok, 2), g.vec(numtok, 1)).map(list)),
    ("efield", ("external_efield",), ("HARTREE/BOHR/E", "eV/ang/e"), g.vec(g.vec(numtok), 1)),
):
    block(nm, numeric_general(titles, units, shape))(_general)


@block("species_values", g.rec(
    title=st.sampled_from(("species_mass", "species_lcao_states", "species_gamma", "species_q")),
    rows=st.lists(st.tuples(g.tagged, st.one_of(g.fixed(3, 6, signed=False), st.integers(-9, 99).map(str),
                                                g.expo(3))),
                  min_size=1, max_size=6, unique_by=lambda x: x[0]).map(lambda x: [list(y) for y in x]),
    units=st.sampled_from((None, "amu", "me"))))
def _species_values(case):
    lines = ([case["units"]] if case["units"] and case["title"] == "species_mass" else [])
    exp = {"data": {}}
    if lines:
        exp["units"] = case["units"]
    for spec, val in case["rows"]:
        lines.append(f"  {spec:>8}   {val}")
        exp["data"][spec] = int(val) if val.lstrip("+-").isdigit() else g.F(val)
    return case["title"], lines, exp


atom_row = g.rec(spec=g.tagged, pos=g.vec(numtok),
                 spin=g.opt(g.rec(sep=st.sampled_from(("= ", "=", " ", " : ", " = ", ":", "\t")),
                                  word=st.sampled_from(("SPIN", "spin", "Spin", "MAGMOM", "magmom")),
                                  val=st.one_of(g.rational_tok, g.fixed(1, 4), st.integers(-5, 5).map(str)))),
                 mix=g.opt(g.rec(ind=g.inttok(1, 20), wt=g.fixed(0, 6, signed=False),
                                 word=st.sampled_from(("MIXTURE", "mixture", "Mixture")),
                                 sep=st.sampled_from((":", ":", "=", " ", " : ", " = ")), lead=st.sampled_from(("", " ", "   ")), tail=st.sampled_from(("", "", " ")))))


@block("positions", g.rec(
    title=st.sampled_from(("positions_frac", "positions_abs", "positions_frac_intermediate",
                           "positions_frac_product", "positions_abs", "positions_abs_intermediate", "positions_abs_product")),
    units=st.sampled_from((None, *UNIT_WORDS)), rows=g.rows(atom_row, min_size=1, max_size=12)))
def _positions(case):
    absolute = case["title"].startswith("positions_abs")
    lines = [case["units"]] if case["units"] else []
    count, exp = Counter(), {}
    for atom in case["rows"]:
        line = f"{atom['spec']}   " + row(atom["pos"], "   ")
        count[atom["spec"]] += 1
        info = {"pos": tuple(map(g.F, atom["pos"]))}
        if absolute:
            info["units"] = case["units"] or "Ang"
        if (spin := atom["spin"]):
            line += f"  {spin['word']}{spin['sep']}{spin['val']}"
            info["spin"] = g.F(spin["val"])
        if (mix := atom["mix"]):
            line += f" {mix['word']}{mix['sep']}({mix['lead']}{mix['ind']}  {mix['wt']}{mix['tail']})"
            info["mix_index"] = int(mix["ind"])
            info["weight"] = float(mix["wt"])
        lines.append(line)
        exp[atom["spec"], count[atom["spec"]]] = info
    return case["title"], lines, exp


@block("symmetry_ops", g.rec(ops=g.rows(g.mat(numtok, 4, 3), min_size=1, max_size=12, big=(22, 25)),
                             comment=st.booleans()))
def _symops(case):
    lines, exp = [], []
    for i, op in enumerate(case["ops"], 1):
        if case["comment"]:
            lines.append(f"# SYM OP {i}")
        lines += ["   " + row(r, "   ") for r in op]
        nums = [tuple(map(g.F, r)) for r in op]
        exp.append({"r": nums[:3], "t": nums[3]})
    return "symmetry_ops", lines, exp


@block("ionic_constraints", g.rows(
    st.tuples(g.tagged, g.inttok(1, 120), g.vec(g.fixed(2, 10))), min_size=1, max_size=15).map(
        lambda x: [list(y) for y in x]))
def _ionic(case):
    lines, exp = [], {}
    for i, (spec, ind, vec) in enumerate(case, 1):
        lines.append(f"  {i:6d}  {spec:>8}  {ind:>5}  " + row(vec, "   "))
        exp.setdefault((spec, int(ind)), []).append(tuple(map(float, vec)))
    return "ionic_constraints", lines, exp


small = st.integers(-2, 2).map(str)
natoms = {"distance": 2, "bend": 3, "torsion": 4}


def _nl(kind):
    return st.lists(st.tuples(st.tuples(g.tagged, g.inttok(1, 99)), g.vec(small)),
                    min_size=natoms[kind], max_size=natoms[kind], unique_by=lambda x: x[0]).map(
        lambda x: [kind, [[*k, v] for k, v in x]])


@block("nonlinear_constraints", g.rows(st.sampled_from(sorted(natoms)).flatmap(_nl),
                                         min_size=1, max_size=6))
def _nonlinear(case):
    lines, exp = [], []
    for kind, atoms in case:
        lines.append(f" {kind:>8}  " + "   ".join(f"{s:>4}  {i}  {row(v)}" for s, i, v in atoms))
        exp.append({"key": kind, "atoms": {(s, int(i)): tuple(map(int, v)) for s, i, v in atoms}})
    return "nonlinear_constraints", lines, exp


valtok = st.one_of(g.fixed(1, 4), st.integers(-9, 99).map(str))


def autonum(tok):
    return int(tok) if tok.lstrip("+-").isdigit() else g.F(tok)


@block("hubbard_u", g.rec(units=st.sampled_from((None, "eV", "Ha", "Ry")), rows=g.rows(
    st.tuples(g.tagged, g.opt(g.inttok(1, 30)),
              st.dictionaries(st.sampled_from(("s", "p", "d", "f", "alpha")), valtok, min_size=1)),
    min_size=1, max_size=6, unique_by=lambda x: (x[0], x[1])).map(lambda x: [list(y) for y in x]),
    gap=st.sampled_from((": ", ":", " : "))))
def _hubbard(case):
    lines = [case["units"]] if case["units"] else []
    exp = {"units": case["units"] or "eV"}
    for spec, ind, vals in case["rows"]:
        lines.append(f"   {spec} {ind or '  '}   " + " ".join(f"{k}{case['gap']}{v}" for k, v in vals.items()))
        exp[(spec, int(ind)) if ind else spec] = {k: autonum(v) for k, v in vals.items()}
    return "hubbard_u", lines, exp


@block("sedc_custom_params", g.rec(
    units=st.sampled_from((None, ["eV", "Ang"], ["Ha", "Bohr"], ["kJ/mol", "nm"])),
    rows=g.rows(st.tuples(g.tagged, st.dictionaries(
        st.sampled_from(("C6", "R0", "alpha", "Neff", "mass")), valtok, min_size=1)),
        min_size=1, max_size=5, unique_by=lambda x: x[0]).map(lambda x: [list(y) for y in x]),
    colon=st.sampled_from((":", ":", ": ", " : "))))
def _sedc(case):
    lines = [" ".join(case["units"])] if case["units"] else []
    uni = case["units"] or ["eV", "Ang"]
    exp = {"units": {"energy": uni[0], "distance": uni[1]}}
    for spec, vals in case["rows"]:
        lines.append(f"{spec} " + " ".join(f"{k}{case['colon']}{v}" for k, v in vals.items()))
        exp[spec] = {k: autonum(v) for k, v in vals.items()}
    return "sedc_custom_params", lines, exp


@block("xc_definition", g.rec(
    xc=st.dictionaries(st.sampled_from(("oep", "hf", "lda", "PBE", "rHF", "LIBXC_MGGA_XC_ZLP", "shf",
                                        "LIBXC_GGA_X_PBE", "b3lyp")),
                       st.one_of(g.fixed(1, 4), st.integers(0, 9).map("{}.".format), g.expo(3, -5, 5)),
                       min_size=1),
    length=g.opt(g.fixed(1, 3, signed=False)),
    func=st.sampled_from((None, "THOMAS-FERMI", "ERROR-FUNCTION", "erfc")),
    ppd=st.sampled_from((None, "ON", "OFF", "on", "off")),
    div=st.sampled_from((None, "ON", "OFF", "On", "Off")), upper=st.booleans(), first=st.booleans()))
def _xc(case):
    up = str.upper if case["upper"] else str.lower
    xcs = [f"{k} {v}" for k, v in case["xc"].items()]
    exp = {"xc": {k.lower(): float(v) for k, v in case["xc"].items()}, "params": {}}
    par = []
    for key, val, conv in (("nlxc_screening_length", case["length"], float),
                           ("nlxc_screening_function", case["func"], str),
                           ("nlxc_ppd_int", case["ppd"], lambda x: x.upper() == "ON"),
                           ("nlxc_divergence_corr", case["div"], lambda x: x.upper() == "ON")):
        if val is not None:
            par.append(f"{up(key)}   {val}")
            exp["params"][key] = conv(val)
    return "xc_definition", (par + xcs if case["first"] else xcs + par), exp


@block("species_pot", g.rec(
    rows=st.lists(st.tuples(g.tagged, st.sampled_from(("Si_00.usp", "{}_C19_LDA_OTF.usp", "C9", "NCP19",
                                                       "./pots/{}_00PBE.usp", "Al_NCP19_PBE_OTF.usp",
                                                       "Fe_00.recpot", "SOC19"))),
                  max_size=5, unique_by=lambda x: x[0]).map(lambda x: [list(y) for y in x]),
    library=st.sampled_from((None, "C19", "QC5", "NCP19"))))
def _pot(case):
    lines = [case["library"]] if case["library"] else []
    exp = {None: case["library"]} if case["library"] else {}
    if not case["rows"] and not lines:
        lines, exp = ["C9"], {None: "C9"}
    for spec, pot in case["rows"]:
        pot = pot.format(spec.split(":")[0])
        lines.append(f"  {spec}   {pot}")
        exp[spec] = pot
    return "species_pot", lines, exp


# ---------------------------------------------------------------- file level writer
NOISE = ("# comment 1.0 2.0", "! Fe 0.0 0.0 0.0", "   ", "", "  # %endblock nothing", "!")
layout = g.rec(case=st.sampled_from(("lower", "upper", "title")),
               gap=st.sampled_from((" ", " ", "  ", "\t")),
               lead=st.sampled_from(("", "  ", "", "\t", "            ")),
               indent=st.sampled_from(("", " ", "    ", "none", "\t")),
               tail=st.sampled_from(("", "", "  ", " # note", " ! 3.0 note", "#1")),
               noise=st.lists(st.tuples(st.integers(0, 30), st.sampled_from(NOISE)), max_size=3).map(
                   lambda x: [list(y) for y in x]),
               endtitle=st.booleans())


def write_block(name, case, lay):
    title, lines, exp = BLOCKS[name][1](case)
    recase = {"lower": str.lower, "upper": str.upper, "title": str.title}[lay["case"]]
    indent = (lambda ln: ln.lstrip()) if lay["indent"] == "none" else (lambda ln: lay["indent"] + ln)
    out = [indent(ln) + lay["tail"] for ln in lines]
    for pos, noise in lay["noise"]:
        out.insert(pos % (len(out) + 1), noise)
    head = f"{lay['lead']}%{recase('block')}{lay['gap']}{recase(title)}"
    end = f"{lay['lead']}%{recase('endblock')}" + (f" {recase(title)}" if lay["endtitle"] else "")
    return title, [head, *out, end], exp


one_block = st.sampled_from(sorted(BLOCKS)).flatmap(
    lambda n: g.rec(name=st.just(n), block=BLOCKS[n][0], lay=layout))
keyword = st.sampled_from((("fix_all_cell : T", "fix_all_cell", True),
                           ("KPOINT_MP_GRID 4 4 2", "kpoint_mp_grid", (4, 4, 2)),
                           ("symmetry_tol = 0.01 ang", "symmetry_tol", (0.01, "ang")),
                           ("# nothing", None, None), ("", None, None), ("! %block foo", None, None)))
cell_file = g.rec(parts=st.lists(one_block, min_size=1, max_size=5),
                  keys=st.lists(st.integers(0, 5), max_size=6))
KEYS = (("fix_all_cell : T", "fix_all_cell", True), ("KPOINT_MP_GRID 4 4 2", "kpoint_mp_grid", (4, 4, 2)),
        ("symmetry_tol = 0.01 ang", "symmetry_tol", (0.01, "ang")), ("# nothing", None, None),
        ("", None, None), ("! %block foo", None, None))


def run_blocks(parser, parts, keys=()):
    lines, exp = [], {}
    keys = list(keys)
    for part in parts:
        title, blk, bexp = write_block(part["name"], part["block"], part["lay"])
        if title in exp:
            continue
        if keys:
            text, key, val = KEYS[keys.pop(0)]
            lines.append(text)
            if key:
                exp[key] = val
        lines += blk
        exp[title] = bexp
    for ind in keys:
        text, key, val = KEYS[ind]
        lines.append(text)
        if key:
            exp[key] = val
    text = "\n".join(lines) + "\n"
    expect(parse_text(parser, text), [exp], strict=True, text=text)


@facet(cell_file, quick=1500, nontrivial=lambda c: len(c["parts"]) > 1,
       rule="two or more blocks, possibly between keywords", labels=lambda c: {p["name"] for p in c["parts"]})
def cell_file_blocks(case):
    import castep_outputs as co
    run_blocks(co.parse_cell_file, case["parts"], case["keys"])


def make(name):
    @facet(g.rec(block=BLOCKS[name][0], lay=layout), quick=400, name=f"block_{name}",
           rule="one generated block with random layout (case, indentation, comments, blank lines)")
    def fct(case):
        import castep_outputs as co
        run_blocks(co.parse_cell_param_file, [{"name": name, **case}])
    return fct


FACETS = [cell_file_blocks, *(make(n) for n in sorted(BLOCKS))]
