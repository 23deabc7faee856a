"""C30: the files predicted for a calculation are exactly those of its task and of the features switched on."""
import copy
import json
import os
import subprocess
import sys
import tempfile
from itertools import combinations_with_replacement
from pathlib import Path

from hypothesis import strategies as st

from lib.gen import ELEMENTS, rare, rec
from lib.harness import HarnessError, Violation, facet
from lib.oracle import expect

# ------------------------------------------------------------------ reference model
TASKS = {"singlepoint": "singlepoint", "energy": "singlepoint", "spe": "singlepoint",
         "geometryoptimisation": "geomopt", "geometryoptimization": "geomopt", "geomopt": "geomopt", "geom": "geomopt",
         "moleculardynamics": "md", "dynamics": "md", "md": "md", "molecular dynamics": "md",
         "phonon": "phonon", "phonon+efield": "phonon_efield", "phonon_efield": "phonon_efield", "phonon + efield": "phonon_efield",
         "efield": "efield", "magres": "magres", "thermodynamics": "thermo", "epcoupling": "epcoupling", "elastic": "elastic",
         "transitionstatesearch": "tss", "tss": "tss", "autosolvation": "autosolvation",
         "spectral": "spectral", "electronicspectroscopy": "spectral", "bandstructure": "spectral", "optics": "spectral", "elnes": "spectral"}
#: switch -> files, for features which add files whatever else is asked for
SIMPLE = {"write_formatted_density": ["{s}.den_fmt"], "write_formatted_dielec_perm": ["{s}.eps_format"],
          "write_formatted_potential": ["{s}.pot_fmt"],
          "write_orbitals": ["{s}.orbitals"], "write_cif_structure": ["{s}-out.cif"], "write_cell_structure": ["{s}-out.cell"],
          "efield_calc_ion_permittivity": ["{s}.efield"], "calculate_modos": ["{s}.modos_state*"],
          "calculate_densdiff": ["{s}.chdiff"], "calculate_elf": ["{s}.elf"]}
#: both switches -> files
PAIRS = {("calculate_densdiff", "write_formatted_density"): ["{s}.chdiff_fmt"], ("calculate_elf", "write_formatted_elf"): ["{s}.elf_fmt"]}
#: files written unless switched off
DEFAULT = {"write_bib": ["{s}.bib"], "write_cst_esp": ["{s}.cst_esp"], "write_bands": ["{s}.bands"]}
DEVEL = {"zdos_scf": ["{s}.scf_zdos"], "write_unformatted_density": ["{s}.altden"], "trace": ["{s}.*.profile"], "prof": ["{s}.*.profile"],
         "profclass": ["{s}.*.profile"], "write_formatted_bands": ["{s}_*.orbit_fmt"], "calculate_xrd_sf": ["{s}.xrd_sf"],
         "calc_elastic": ["{s}.elastic"]}
CHECKPOINT = {"all": ["check", "castep_bin"], "both": ["check", "castep_bin"], "full": ["check", "castep_bin"], "true": ["check", "castep_bin"],
              "minimal": ["castep_bin"], "none": [], "false": []}
THEORY = {"pw91": "PBE", "pbe": "PBE", "rpbe": "RPBE", "pbesol": "PBESOL", "wc": "WC", "blyp": "BLYP", "rscan": "RSCAN", "r2scan": "RSCAN", "ms2": "MS2", "lda_pw": "LDA_PW"}
NONLOCAL = ("hf", "hf-lda", "shf", "sx-lda", "shf-lda", "pbe0", "b3lyp", "hse03", "hse06", "spbe0")
MGGA = ("rscan", "r2scan", "ms2")
OEP = ("oep", "lfx", "elp", "ceda")
LIBXC = {"libxc_gga_x_pbe": "gga", "libxc_hyb_gga_xc_pbeh": "gga", "libxc_mgga_x_tpss": "mgga", "libxc_hyb_mgga_xc_revtpssh": "mgga",
         "libxc_lda_x": "lda", "LIBXC_GGA_XC_B97_D": "gga"}
SINGLE_XC = ("lda", "pbe", "pw91", "rpbe", "pbesol", "wc", "blyp", "lda_pw", *MGGA, *NONLOCAL, *OEP)


def model(p, devel, xc, pots, seed):
    """(files which must be predicted, [alternatives for the potential files]) for a calculation."""
    s, out = seed, set()

    def add(*names):
        out.update(n.format(s=s) for n in names)

    on = lambda k: bool(p.get(k))
    task = TASKS[p.get("task", "singlepoint").lower()]
    raw = p.get("task", "singlepoint").lower()
    none = on("write_none")
    names = [x.lower() for x in xc]
    mgga = any(x in MGGA for x in names) or any(LIBXC.get(x) == "mgga" for x in xc)
    nonlocal_ = any(x in NONLOCAL for x in names)
    spin = p.get("spin_treatment", "none").lower() == "vector" or on("spin_polarised") or on("spin_polarized") or on("spin_orbit_coupling")
    excited = p.get("tddft_selected_state", 0)
    pair_pot = devel.get("_pp", False)
    add("{s}.castep")
    if not none:
        for ext in CHECKPOINT[str(p.get("write_checkpoint", "all")).lower()]:
            add(f"{{s}}.{ext}")
    for key, files in DEFAULT.items():
        if p.get(key, True) and not none and not (pair_pot and key != "write_bib"):
            add(*(f.replace(".bands", "_tddft.bands") if excited else f for f in files))
    for key, files in SIMPLE.items():
        if on(key):
            add(*files)
    for (a, b), files in PAIRS.items():
        if on(a) and on(b):
            add(*files)
    if on("write_formatted_potential") and any(x in OEP for x in names):
        add("{s}.oep_fmt")
    for key, files in DEVEL.items():
        if devel.get(key):
            add(*files)
    if "elastic" in devel:
        add("{s}.elastic")
    if devel.get("lda_sf_pot_write") and spin:
        add("{s}.B_xc.pot_fmt")
    if devel.get("pp_hybrid") and task in ("geomopt", "md"):
        add("{s}.hybrid-md.xyz")
    if devel.get("zdos_spectral") and task == "spectral":
        add("{s}.spectral_zdos")
    if pair_pot and devel.get("pp", {}).get("fd_check"):
        add("{s}.fd")
    if on("pdos_calculate_weights") and raw not in ("bandstructure", "electronicspectroscopy"):
        add("{s}.pdos_weights")
    theories = [THEORY[x] for x in names if x in THEORY] or ["LDA"]
    if any(LIBXC.get(x) == "mgga" for x in xc):
        theories = ["RSCAN"]
    elif any(LIBXC.get(x) == "gga" for x in xc):
        theories = ["PBE"]
    alts = []
    for theory in theories:
        alt = set()
        for spec, pot in pots.items():
            base = f"{spec}_EXT_{theory}_OTF"
            if pot["print"]:
                alt |= {f"{base}.{x}" for x in ("gamma", "pwave", "beta", "econv")}
            if not mgga and p.get("write_otfg", True):
                alt.add(f"{base}.usp{'so' if spin else ''}")
        alts.append(alt)
    if task == "autosolvation":
        add("{s}.vacuum_den")
    elif task == "epcoupling":
        add("{s}.epme", "{s}-*-*-*.ep_pot")
    elif task == "geomopt":
        if p.get("write_geom", True) and not none:
            add("{s}.geom")
        if p.get("geom_method", "").lower() == "pes":
            add("{s}.pes")
    elif task == "md":
        if p.get("write_md", True) and not none:
            add("{s}.md")
        if p.get("md_ensemble", "").lower() in ("nvhug", "nphug"):
            add("{s}.hug")
        if p.get("md_num_beads", 1) > 1 and p.get("num_farms", 1) > 1:
            add(*(f"{{s}}_farm{i:03d}.castep" for i in range(p["num_farms"])))
        extrap = p.get("md_extrap", "first").lower()
        if p.get("metals_method", "dm").lower() == "dm" and (p.get("opt_strategy", "").lower() == "memory" or p.get("opt_strategy_bias", 0) >= 0):
            if extrap in ("first", "second", "mixed"):
                add("{s}.*.wfm", "{s}.*.drhom")
            if extrap in ("second", "mixed"):
                add("{s}.*.wf2m", "{s}.*.drho2m")
    elif task == "magres":
        add("{s}.magres")
        if on("magres_write_response"):
            out.update(("current.dat", "gsden.cube"))
    elif task == "tss":
        add("{s}.ts")
    elif task == "spectral":
        add("{s}-out.cell")
        if p.get("spectral_restart", True):
            add("{s}.*.spec")
        if raw == "bandstructure":
            add("{s}.orbitals")
        theory, what = p.get("spectral_theory", "dft").lower(), p.get("spectral_task", "bandstructure").lower()
        if theory == "tddft":
            bins = {"optics": ["dome"], "all": ["dome"]}.get(what, [])
        elif what == "optics":
            bins = ["dome"]
        elif nonlocal_:
            bins = []
        else:
            bins = {"coreloss": ["elnes", "ome"], "dos": ["ome"], "all": ["elnes", "ome", "dome"]}.get(what, [])
        if on("pdos_calculate_weights"):
            bins = [*bins, "pdos"]
        for switch, v in devel.get("spectral", {}).items():
            kind = {"calc_core": "elnes", "calc_ome": "ome", "calc_pdos": "pdos", "calc_dome": "dome"}[switch]
            bins = [b for b in bins if b != kind] + [kind] * v
        if "spectral_spinvec" in devel and "spectral_spinvec_append" in devel:
            add("{s}.nc_spinvec")
        add(*(f"{{s}}{'_tddft' if theory == 'tddft' else ''}.{b}_bin" for b in bins))
    if task in ("phonon", "phonon_efield"):
        add("{s}.phonon")
        if on("phonon_calculate_dos"):
            add("{s}.phonon_dos")
        sub = devel.get("phonon", {})
        if sub.get("write_external_born"):
            out.add(sub["write_external_born"])
        if sub.get("write_first_order_potential"):
            add("{s}-*-*-*.ep_pot")
    if task in ("efield", "phonon_efield"):
        add("{s}.efield")
    if excited > 0:
        add("{s}.tddft")
        if devel.get("tddft", {}).get("den1_write"):
            add("{s}.td_den")
        if devel.get("tddft", {}).get("save_td_den_fmt"):
            out.add("den_dump*.dat")
    return out, alts


def refused(p, xc):
    """Core-loss spectra are impossible with TDDFT or non-local functionals."""
    return (TASKS[p.get("task", "singlepoint").lower()] == "spectral" and p.get("spectral_task", "").lower() == "coreloss"
            and (p.get("spectral_theory", "dft").lower() == "tddft" or any(x.lower() in NONLOCAL for x in xc)))


# ------------------------------------------------------------------ generated calculations
SWITCHES = (*SIMPLE, *DEFAULT, "write_formatted_elf", "write_none", "write_otfg", "write_geom", "write_md",
            "spin_polarised", "spin_polarized", "spin_orbit_coupling", "pdos_calculate_weights", "magres_write_response",
            "phonon_calculate_dos", "spectral_restart", "popn_calculate", "calculate_stress")
WORDS = {"write_checkpoint": ("all", "both", "full", "minimal", "none"), "spin_treatment": ("none", "scalar", "vector"),
         "geom_method": ("pes", "bfgs", "lbfgs"), "md_ensemble": ("nve", "nvhug", "nphug", "npt"),
         "md_extrap": ("none", "first", "second", "mixed"), "metals_method": ("dm", "edft", "none"), "opt_strategy": ("memory", "speed", "default"),
         "spectral_theory": ("dft", "tddft"), "spectral_task": ("bandstructure", "optics", "dos", "all", "coreloss")}
CASES = ("lower", "upper", "title")
recase = {"lower": str.lower, "upper": str.upper, "title": str.title}
#: What matters most to a task, so that it is often asked for together.
FOCUS = {"spectral": dict(tasks=("spectral", "SPECTRAL", "bandstructure", "electronicspectroscopy", "optics", "elnes"), words=("spectral_theory", "spectral_task"),
                          switches=("pdos_calculate_weights", "spectral_restart", "write_orbitals", "write_cell_structure"), devel=("zdos_spectral", "zdos_scf")),
         "md": dict(tasks=("md", "moleculardynamics", "dynamics"), words=("md_ensemble", "md_extrap", "metals_method", "opt_strategy"), switches=("write_md", "write_none"), devel=("pp_hybrid",)),
         "geomopt": dict(tasks=("geomopt", "geometryoptimisation", "geom"), words=("geom_method",), switches=("write_geom", "write_none"), devel=("pp_hybrid",)),
         "magres": dict(tasks=("magres",), words=(), switches=("magres_write_response", "spin_polarised"), devel=("lda_sf_pot_write",)),
         "phonon": dict(tasks=("phonon", "phonon+efield", "efield"), words=(), switches=("phonon_calculate_dos", "efield_calc_ion_permittivity"), devel=("calculate_xrd_sf",)),
         "formatted": dict(tasks=("singlepoint", "energy", "elastic"), words=("write_checkpoint", "spin_treatment"),
                           switches=("write_formatted_density", "calculate_densdiff", "write_formatted_elf", "calculate_elf", "write_formatted_potential", "write_otfg", "spin_orbit_coupling"),
                           devel=("lda_sf_pot_write", "write_formatted_bands"))}


@st.composite
def calc_any(draw):
    case = draw(base_st)
    name = draw(st.sampled_from((None, *FOCUS)))
    if name is not None:
        f = FOCUS[name]
        case["task"] = draw(st.sampled_from(f["tasks"])).lower()
        case["words"] = {k: draw(st.sampled_from(WORDS[k])) for k in f["words"] if draw(st.integers(0, 3))}
        case["switches"] = {k: draw(st.sampled_from((True, True, False))) for k in f["switches"] if draw(st.booleans())}
        case["devel"] = {k: draw(st.sampled_from((True, True, False))) for k in f["devel"] if draw(st.booleans())}
    return case


pot_st = st.sampled_from(("otf", "otf-print", "library", "file.usp"))
base_st = rec(
    task=st.one_of(st.none(), st.sampled_from(sorted(TASKS))), case=st.sampled_from(CASES),
    switches=st.dictionaries(st.sampled_from(SWITCHES), st.booleans(), max_size=6),
    words=st.lists(st.sampled_from(sorted(WORDS)), max_size=4, unique=True).flatmap(
        lambda ks: st.fixed_dictionaries({k: st.sampled_from(WORDS[k]) for k in ks})),
    excited=st.sampled_from((None, None, 0, 1, 2)), bias=st.sampled_from((None, None, -3, 0, 3)),
    devel=st.dictionaries(st.sampled_from((*DEVEL, "lda_sf_pot_write", "pp_hybrid", "zdos_spectral")), st.booleans(), max_size=3),
    pp=st.sampled_from((None, None, None, "plain", "print", "check", "both")),
    sub=st.dictionaries(st.sampled_from(("den1_write", "save_td_den_fmt", "write_first_order_potential", "write_external_born")), st.booleans(), max_size=2),
    xc=st.one_of(st.none(), st.sampled_from(SINGLE_XC).map(lambda x: [x]),
                 st.lists(st.sampled_from((*LIBXC, "lda", "pbe", "hf", "wc", "rpbe", "b3lyp", "rscan", "blyp")), min_size=1, max_size=10, unique=True).map(
                     lambda xs: ["definition", *xs])),
    species=rare(st.lists(st.sampled_from(("Si", "N", "O", "Fe", "Ar")), min_size=1, max_size=3, unique=True),
                 st.lists(st.sampled_from(ELEMENTS), min_size=8, max_size=14, unique=True)),
    pots=rare(st.dictionaries(st.sampled_from(("Si", "N", "O")), pot_st, max_size=3), st.dictionaries(st.sampled_from(ELEMENTS), pot_st, min_size=8, max_size=14)),
    calc=st.one_of(st.just({}), st.dictionaries(st.sampled_from(("calc_core", "calc_ome", "calc_pdos", "calc_dome")), st.booleans(), max_size=3)),
    spinvec=st.sampled_from(("", "", "both", "one")), elastic=st.sampled_from((None, None, None, "on", "pot")),
    farm=st.sampled_from((None, None, [1, 4], [4, 1], [4, 3], [16, 12], [None, 5], [8, None])),
    positions=st.sampled_from(("positions_frac", "positions_frac", "positions_abs")))
calc_st = calc_any()


def params(case):
    up = recase[case["case"]]
    p = dict(case["switches"])
    if case["task"]:
        p["task"] = up(case["task"])
    p |= {k: up(v) for k, v in case["words"].items()}
    if case["excited"] is not None:
        p["tddft_selected_state"] = case["excited"]
    if case["bias"] is not None:
        p["opt_strategy_bias"] = case["bias"]
    if case["xc"] and case["xc"][0] == "definition":
        p["xc_definition"] = {"xc": {up(x): round(1 / (i + 2), 3) for i, x in enumerate(case["xc"][1:])}}
    elif case["xc"]:
        p["xc_functional"] = up(case["xc"][0])
    devel = dict(case["devel"])
    if case["pp"]:
        devel["_pp"] = True
        devel["pp"] = {"lj": True} | {k: True for k in ("pot_print", "fd_check") if case["pp"] == "both" or k.endswith(case["pp"])}
    for k, v in case["sub"].items():
        sub = devel.setdefault("tddft" if "den" in k else "phonon", {})
        sub[k] = v if k != "write_external_born" else "born.dat" if v else ""
    if case["calc"]:
        devel["spectral"] = dict(case["calc"])
    if case["spinvec"]:
        devel |= {"spectral_spinvec": True} | ({"spectral_spinvec_append": True} if case["spinvec"] == "both" else {})
    if case["elastic"]:
        devel["elastic"] = {"deform_pot": case["elastic"] == "pot"}
    for k, v in zip(("md_num_beads", "num_farms"), case["farm"] or ()):
        if v is not None:
            p[k] = v
    if devel:
        p["devel_code"] = devel
    return p


STRING = "2|1.9|2.1|1.3|3.675|5.512|7.35|30N1.9:31N2.1:32N2.1(tm,nonlcc)"


def cell(case):
    seen, out = {}, {}
    for i, spec in enumerate([*case["species"], case["species"][0]]):
        seen[spec] = seen.get(spec, 0) + 1
        info = {"pos": (0.1 * i, 0.25, 0.5)}
        if case["positions"] == "positions_abs":
            info["units"] = "Ang"
        out[spec, seen[spec]] = info
    data = {case["positions"]: out}
    if case["pots"]:
        data["species_pot"] = {k: {"string": STRING + "[]" * (v == "otf-print"), "print": v == "otf-print"} if v.startswith("otf") else
                               "C19" if v == "library" else v for k, v in case["pots"].items()}
    return data


def predicted(case, seed="seedname"):
    xc = case["xc"][1:] if case["xc"] and case["xc"][0] == "definition" else case["xc"] or ["lda"]
    p = params(case)
    out, alts = model(p, p.get("devel_code", {}), xc,
                      {k: {"print": v == "otf-print"} for k, v in case["pots"].items() if v.startswith("otf")}, seed)
    if case["pp"] in ("print", "both"):
        # without the cell the species are not known
        out |= {f"{seed}_{a}_{b}.pot" for a, b in combinations_with_replacement(case["species"] or "*", 2)}
    return None if refused(p, xc) else [sorted(out | alt) for alt in alts]


def agree(res, exp, what):
    if exp is None:
        raise Violation(f"{what}: an impossible calculation gave {res}")
    if res not in exp:
        raise Violation(f"{what}: " + "; or ".join(f"unexpected {sorted(set(res) - set(e))}, missing {sorted(set(e) - set(res))}" for e in exp)
                        + (" (not sorted or repeated)" if any(sorted(set(res)) == e for e in exp) else ""))


def predict(what, case, **kw):
    """Prediction, checked; None when refused."""
    from castep_outputs import get_generated_files
    exp = predicted(case, kw.pop("stem", "seedname"))
    try:
        res = get_generated_files(**kw)
    except KeyError:
        if exp is None:
            return None
        raise
    agree(res, exp, f"{what}: {kw}")
    return res


RULE = "more files than those of a plain calculation"


def rich(case):
    exp = predicted(case)
    return exp is not None and len(exp[0]) > 6


@facet(rec(task=st.sampled_from(("wannier", "socketdriver", "socket_driver", "SOCKETDRIVER", "frobnicate", "")), path=st.booleans()), quick=40, rule="every case")
def unknown_tasks(case):
    """A task or level of checkpoints whose files cannot be known is refused, not guessed."""
    from castep_outputs import get_generated_files
    for param in ({"task": case["task"]}, {"write_checkpoint": case["task"]}):
        try:
            res = get_generated_files(param_data=param, cell_data={})
        except (KeyError, NotImplementedError, ValueError):
            continue
        raise Violation(f"{param} gave {res}")


@facet(calc_st, quick=9000, rule=RULE, nontrivial=rich, labels=lambda c: [f"task={TASKS[c['task'] or 'singlepoint']}", *(["xc-definition"] if c["xc"] and c["xc"][0] == "definition" else [])])
def from_data(case):
    p, c = params(case), cell(case)
    was = copy.deepcopy((p, c))
    predict("data", case, param_data=p, cell_data=c)
    expect((p, c), was, "the caller's data were changed")


def param_text(p):
    lines = []
    for k, v in p.items():
        if k == "devel_code":
            lines.append("%BLOCK DEVEL_CODE")
            for a, b in v.items():
                if isinstance(b, dict):
                    lines.append(f"{a.upper()}: " + " ".join(f"{x}={'T' if y is True else 'F' if y is False else y}" for x, y in b.items() if y != "") + f" :END{a.upper()}")
                else:
                    lines.append(f"{a.lstrip('_').upper()}={str(b).upper()}")
            lines.append("%ENDBLOCK DEVEL_CODE")
        elif k == "xc_definition":
            lines += ["%BLOCK XC_DEFINITION", *(f"{x} {y}" for x, y in v["xc"].items()), "%ENDBLOCK XC_DEFINITION"]
        else:
            lines.append(f"{k} : {v}")
    return "\n".join(lines) + "\n"


def cell_text(c):
    lines = []
    for k, v in c.items():
        lines.append(f"%BLOCK {k}")
        for a, b in v.items():
            if k == "species_pot":
                lines.append(f"{a} {b if isinstance(b, str) else b['string']}")
            else:
                lines.append(f"{a[0]} {b['pos'][0]:.4f} {b['pos'][1]} {b['pos'][2]}")
        lines += [f"%ENDBLOCK {k}", ""]
    return "\n".join(lines)


@facet(rec(calc=calc_st, stem=st.sampled_from(("seed", "Si8", "run.2", "a b", "x-1.5")), folder=st.sampled_from(("", "sub")), absolute=st.booleans(),
           text=st.booleans(), ends=st.sampled_from(("", "", ".param", ".cell")), has=st.sampled_from(("both", "both", "param", "cell", "none"))),
       quick=1500, rule=RULE, nontrivial=lambda c: rich(c["calc"]), labels=lambda c: [c["has"], c["stem"]])
def from_files(case):
    """Reading the seed's own files, named files or parsed data gives the same prediction, under the seed's name."""
    import castep_outputs as co
    calc, stem = case["calc"], case["stem"]
    with tempfile.TemporaryDirectory() as tmp:
        root, cwd = Path(tmp), os.getcwd()
        folder = root / case["folder"]
        folder.mkdir(exist_ok=True)
        parts = ("param", "cell") if case["has"] == "both" else (case["has"],)
        texts = {"param": param_text(params(calc)), "cell": cell_text(cell(calc))}
        for part in parts:
            if part != "none":
                for name in (folder / f"{stem}.{part}", root / f"elsewhere.{part}"):
                    name.write_text(texts[part], encoding="utf-8")
        for name in ("run.param", "x-1.param"):  # another calculation's
            (folder / name).write_text("task : magres\n")
        calc = dict(calc)
        if "param" not in parts:
            calc |= dict(task=None, switches={}, words={}, excited=None, bias=None, devel={}, pp=None, sub={}, xc=None, calc={}, spinvec="", elastic=None, farm=None)
        if "cell" not in parts:
            calc |= dict(pots={}, species=None)
        # one of the calculation's input files stands for its seed
        seed = (folder if case["absolute"] else Path(case["folder"])) / f"{stem}{case['ends']}"
        seed = str(seed) if case["text"] else seed
        try:
            os.chdir(root)
            one = predict("seed", calc, seedname=seed, stem=stem)
            two = predict("files", calc, param_file=root / "elsewhere.param", cell_file=root / "elsewhere.cell")
            data = {f"{k}_data": co.parse_cell_param_file(folder / f"{stem}.{k}")[0] for k in parts if k != "none"}
            three = predict("parsed", calc, **{"param_data": {}, "cell_data": {}} | data)
            four = predict("data before files", calc, seedname="nowhere", stem="nowhere", param_file=root / "no.param",
                           cell_file=root / "no.cell", **{"param_data": {}, "cell_data": {}} | data)
            # Data that say nothing are data all the same: the seed's files are not consulted
            (folder / "run.cell").write_text(cell_text({"species_pot": {"Ar": {"string": STRING + "[]"}}}))
            five = predict("data before the seed's files", calc, seedname=folder / "run", stem="run",
                           **{"param_data": {}, "cell_data": {}} | data)
        finally:
            os.chdir(cwd)
        if one is not None:
            named = [sorted(n.replace(s, "@", 1) if n.startswith(s) else n for n in res)
                     for res, s in ((one, stem), (two, "seedname"), (three, "seedname"), (four, "nowhere"), (five, "run"))]
            for res in named[1:]:
                expect(res, named[0], "the same input by another route")


SCRIPT = """
import json, sys
sys.path.insert(0, "/repo")
from castep_outputs import get_generated_files
for p, xc in json.load(sys.stdin):
    try:
        print(json.dumps(get_generated_files(param_data=p, cell_data={"species_pot": {"Si": {"print": True}}})))
    except KeyError:
        print("refused")
"""


@facet(st.lists(calc_st, min_size=40, max_size=40), quick=16, thorough=160, rule="forty calculations each")
def every_process(case):
    """The prediction is the same in every process (whatever the hash seed)."""
    data = json.dumps([[params(c), c["xc"]] for c in case])
    outs = []
    for seed in ("1", "2", "3"):
        env = {**os.environ, "PYTHONHASHSEED": seed, "PYTHONDONTWRITEBYTECODE": "1"}
        res = subprocess.run([sys.executable, "-c", SCRIPT], input=data, env=env, capture_output=True, text=True, timeout=120, check=False)
        if res.returncode:
            raise HarnessError(res.stderr) if "castep_outputs" not in res.stderr else Violation(res.stderr[-600:])
        outs.append(res.stdout.splitlines())
    for c, *rows in zip(case, *outs):
        if len(set(rows)) > 1:
            raise Violation(f"prediction depends on the process: {params(c)}: {sorted(set(rows))}")


FACETS = [from_data, unknown_tasks, from_files, every_process]
