"""More .castep sections: electronic energies, forces, vibrations, populations, response properties."""
from __future__ import annotations

from hypothesis import strategies as st

from . import gen as g
from .oracle import Near
from .castep import (ADD, E, F, FV, SET, T, UPD, atom_table, index_st, key, label, pair, rec, row, section, seed, spec_st,
                     tag_atoms_st, title_block, toks)

SCF_BAR = "-" * 72 + " <-- SCF"


def tag(txt, mark, width=72):
    return f"{txt:<{width}} <-- {mark}"


# ---------------------------------------------------------------- C19: electronic structure

CONTRIB = (("Exchange-correlation energy      =", "exchange_correlation_energy"), ("+Hartree energy                  =", "hartree_energy"),
           ("+Local pseudopotential energy    =", "local_pseudopotential_energy"), ("Potential energy (total)         =", "potential_energy_total"),
           ("+Kinetic energy                  =", "kinetic_energy"), ("+Non-local energy                =", "non_local_energy"),
           ("+Electronic entropy term (-TS)   =", "electronic_entropy_term_ts"), ("+Ewald energy (const)            =", "ewald_energy_const"),
           ("+non-Coulombic energy (const)    =", "non_coulombic_energy_const"), ("Total free energy (E-TS)         =", "total_free_energy_e_ts"),
           ("(XC correction to eigenvalue sum =", "xc_correction"), ("(Apolar corr to eigenvalue sum   =", "apolar_correction"),
           ("(Hubbard U correction to eigenvalu", "hubbard_u_correction"))

scf_case = rec(seed=seed, fermi=st.booleans(), initfermi=st.booleans(), n=g.count(0, 13),
               notes=st.lists(st.sampled_from(("none", "none", "notmixed", "norm", "constraint", "dipole")), min_size=1, max_size=4),
               debug=st.one_of(st.none(), st.none(), rec(bands=st.integers(1, 4), sweeps=st.integers(1, 3), kpts=st.integers(1, 2),
                                                         contrib=st.lists(st.integers(0, len(CONTRIB) - 1), unique=True, max_size=6))))


def scf_block(c):
    s = c["seed"]
    if c["fermi"]:
        head = ["SCF loop      Energy           Fermi           Energy gain       Timer   <-- SCF",
                "                               energy          per atom          (sec)   <-- SCF"]
    else:
        head = ["SCF loop      Energy                           Energy gain       Timer   <-- SCF",
                "                                               per atom          (sec)   <-- SCF"]
    lines, val = [SCF_BAR, *head, SCF_BAR], []
    for i in range(c["n"] + 1):
        if c["debug"] and i:
            d, dl, info = c["debug"], [], {}
            dl += [f"Starting SCF cycle {i:5d} of up to    30", f" no. bands in each block= {d['bands']:11d}"]
            info.update(no_bands=d["bands"], kinetic_eigenvalue=[], eigenvalue=[])
            for k in range(d["kpts"]):
                # Kinetic eigenvalues are listed once per band of the block
                for b in range(d["bands"]):
                    t = E(s, 7000 + 1000 * i + 100 * k + b, 8, 0, 2, 2)
                    dl.append(f"Kinetic eigenvalue #{b + 1:4d} = {t:>18}")
                    info["kinetic_eigenvalue"].append(F(t))
                for w in range(d["sweeps"]):
                    dl.append(" Diagonalising expanded subspace")
                    eig = []
                    for b in range(d["bands"]):
                        x, y, z = toks(s, 9000 + 1000 * i + 100 * k + 30 * w + 4 * b, 3, 2, 2)
                        dl.append(f"eigenvalue{b + 1:5d} init={x:>7}     fin={y:>7}     change={z:>7}")
                        eig.append({"initial": F(x), "final": F(y), "change": F(z)})
                    dl.append(" Checking convergence criteria")
                    info["eigenvalue"].append(eig)
            if d["contrib"]:
                info["contributions"] = {}
                dl += ["", "End of SCF cycle energies"]
                for j in d["contrib"]:
                    t = T(s, 20000 + 100 * i + j, 4, 17)
                    txt, name = CONTRIB[j]
                    dl.append(f"{txt} {t:>29} eV{')' if txt[0] == '(' else ''}")
                    info["contributions"][name] = F(t)
                dl.append("")
            lines += dl
            pending = info
        e, f, gain = (g.spread_expo(s, 10 * i + j, 8, -3, 5) for j in range(3))
        tm = T(s, 10 * i + 4, 4, 2, False)
        hasf = c["fermi"]
        left = "Initial" if i == 0 else f"{i:7d}"
        lines.append(f"{left}{e:>18}{f if hasf else '':>17}{gain if i else '':>18}{tm:>11}  <-- SCF")
        cyc = {"energy": F(e), "fermi_energy": F(f) if hasf else None, "energy_gain": F(gain) if i else None, "time": F(tm)}
        if c["debug"] and i:
            cyc["debug_info"] = pending
        if i:
            note = c["notes"][i % len(c["notes"])]
            t = E(s, 10 * i + 5, 16, -9, 0)
            if note == "notmixed":
                lines.append(" Density was not mixed in this cycle")
                cyc["density_residual"] = None
            elif note == "norm":
                lines.append(f" Norm of density residual is {t:>26}")
                cyc["density_residual"] = F(t)
            elif note == "constraint":
                lines.append(f" Total constraint energy: {t:>24} eV")
                cyc["constraint_energy"] = F(t)
            elif note == "dipole":
                lines.append(f" Correcting PBC dipole-dipole with self-consistent method: dE ={t:>26} eV")
                cyc["dipole_corr_energy"] = F(t)
        val.append(cyc)
    return [*lines, SCF_BAR], val


@section("scf", scf_case, prop="C19", need="SCF", multi=True, group="scf", inner=True)
def scf(c):
    lines, val = scf_block(c)
    return lines, [ADD("scf", val)]


@section("bsc", rec(ncut=st.one_of(st.integers(2, 4), g.count(9, 12)), seed=seed, fermi=st.booleans(), n=st.integers(0, 3), free=st.booleans(),
                    warn=st.lists(st.booleans(), max_size=3)), prop="C19", group="scf",
         need=None)
def bsc(c, names):
    s, nc = c["seed"], c["ncut"]
    lines = [f"Calculating finite basis set correction with {nc:2d} cut-off energies."]
    ops, blocks, en = [], [], {"final_energy": [], "est_0K": [], "free_energy": []}
    for i in range(nc):
        lines.append(f"Calculating total energy with cut-off of  {150 + 5 * i}.000 eV.")
        lb, val = scf_block({"seed": s + 17 * i, "fermi": c["fermi"], "initfermi": True, "n": c["n"], "notes": ["none"], "debug": None})
        blocks.append(val)
        a, b, d = (T(s, 100 + 10 * i + j, 4, 10) for j in range(3))
        if i < len(c["warn"]) and c["warn"][i]:
            lines += [f" Warning - cut-off {i} is low", ""]
            if "SYS_INFO" in names:
                ops.append(ADD("warning", f"Warning - cut-off {i} is low"))
        lines += [*lb, "", f"Final energy, E             = {a:>18}     eV"]
        en["final_energy"].append(F(a))
        if c["free"]:
            lines.append(f"Final free energy (E-TS)    = {b:>18}     eV")
            en["free_energy"].append(F(b))
        lines += ["(energies not corrected for finite basis set)", " ", f"NB est. 0K energy (E-0.5TS)      = {d:>18}     eV", ""]
        en["est_0K"].append(F(d))
    if not c["free"]:
        del en["free_energy"]
    if "SCF" in names:
        ops += [SET("bsc_energies", {k: v[:-1] for k, v in en.items()}), SET("scf", blocks[-1]), SET("bsc_scf", blocks[:-1])]
    ops += [ADD(("energies", k), v[-1]) for k, v in en.items()]
    return lines, ops


ENERGY = (("Final energy =", "final_energy"), ("Final energy, E             =", "final_energy"),
          ("Final free energy (E-TS)    =", "free_energy"), ("NB est. 0K energy (E-0.5TS)      =", "est_0K"),
          (" Total energy corrected for finite basis set =", "final_basis_set_corrected"),
          ("(SEDC) Total Energy Correction :", "sedc_correction"), ("Dispersion corrected final energy* =", "disperson_corrected"))


@section("energies", st.lists(st.tuples(st.integers(0, len(ENERGY) - 1), seed).map(list), min_size=1, max_size=6), prop="C19", multi=True, inner=True)
def energies(c):
    lines, ops = [], []
    for i, s in c:
        txt, name = ENERGY[i]
        t = g.spread_expo(s, 0, 6, -3, 4, 2) if i == 5 else T(s, 0, 5, 10)
        lines.append(f"{txt} {t:>18}     eV")
        ops.append(ADD(("energies", name), F(t)))
    return lines, ops


@section("dedlne", seed, prop="C19", inner=True)
def dedlne(c):
    t = T(c, 0, 2, 6)
    return [f" For future reference: finite basis dEtot/dlog(Ecut) = {t:>14}eV"], [SET("dedlne", F(t))]


@section("solvation_energy", seed, prop="C19", need="SOLVATION", multi=True)
def solvation_energy(c):
    t = T(c, 0, 2, 10)
    return [f" Free energy of solvation         = {t:>20} eV"], [ADD("energies/solvation", F(t))]


SOLV = (("Total energy in solvent          =", "total_energy_in_solvent"), ("-Total energy in vacuum          =", "total_energy_in_vacuum"),
        ("Free energy of solvation         =", "free_energy_of_solvation"), (" (Apolar cavitation energy       =", "apolar_cavitation_energy"),
        (" (Apolar dis-rep energy          =", "apolar_dis_rep_energy"), (" (Total apolar solvation energy  =", "total_apolar_solvation_energy"),
        (" (Total polar solvation energy   =", "total_polar_solvation_energy"))


@section("autosolvation", rec(seed=seed, rows=st.lists(st.integers(0, len(SOLV) - 1), min_size=1, max_size=7, unique=True)), prop="C19", need="SOLVATION")
def autosolvation(c):
    lines = [" ********************** AUTOSOLVATION CALCULATION RESULTS **********************", " Calculation succeeded:",
             "  - Vacuum calculation converged to a ground state", "  - Solvent calculation converged to a ground state", ""]
    val = {}
    for i in sorted(c["rows"]):
        t = T(c["seed"], i, 3, 17)
        txt, name = SOLV[i]
        lines.append(f" {txt} {t:>28} eV{')' if '(' in txt else ''}")
        val[name] = F(t)
    return [*lines, " " + "*" * 79], [SET("autosolvation", val)]


@section("spin", rec(seed=seed, vector=st.booleans(), both=st.booleans()), prop="C19", need=lambda n: bool(n & {"SCF", "SPIN"}), multi=True)
def spin(c):
    s = c["seed"]
    if c["vector"]:
        a, b = toks(s, 0, 3, 1, 5), toks(s, 10, 3, 1, 5, False)
        lines = ["2*Integrated Spin Density (Sx,Sy,Sz) =     " + row(a, 15) + "     hbar/2",
                 "2*Integrated |Spin Density| (|Sx|,|Sy|,|Sz|) = " + row(b, 15) + "     hbar/2"]
        va, vb = FV(a), FV(b)
    else:
        a, b = E(s, 0, 6, -8, 2, 2), T(s, 10, 2, 5, False)
        lines = [f"Integrated Spin Density     = {a:>15} hbar/2", f"Integrated |Spin Density|   = {b:>11}     hbar/2"]
        va, vb = F(a), F(b)
    ops = [ADD("spin", va), ADD("modspin", vb)]
    return (lines, ops) if c["both"] else (lines[:1], ops[:1])


@section("line_min", rec(seed=seed, n=st.integers(1, 5)), prop="C19", need="SCF", multi=True)
def line_min(c):
    s = c["seed"]
    e, d = g.spread_expo(s, 0, 6, -2, 4), g.spread_expo(s, 1, 3, -4, 2)
    st_, ga = [E(s, 10 + i, 3, -3, 1, 2) for i in range(c["n"])], [E(s, 20 + i, 3, -3, 1, 2) for i in range(c["n"])]

    def cells(t):
        return "".join(f"{x:>11}{'*' if i == len(t) - 1 else ' '}" for i, x in enumerate(t)) + " unnecessary" * (5 - len(t))
    lines = ["+------------------- WAVEFUNCTION LINE MINIMISATION --------------------+<- line",
             f"| Initial energy = {e} eV; initial dE/dstep = {d} eV |<- line",
             "|                                                                       |<- line",
             "|            1st step    2nd step    3rd step    4th step    5th step   |<- line",
             "+--------+--------------------------------------------------------------+<- line",
             f"| step   |{cells(st_)}  |<- line", f"| gain   |{cells(ga)}  |<- line",
             "+--------+--------------------------------------------------------------+<- line",
             " * indicates the final, accepted state (should have the lowest energy)"]
    # the header contains the ordinals 1st..5th on its own line, which is no data
    return lines, [ADD("wvfn_line_min", {"init_energy": F(e), "init_de_dstep": F(d), "steps": FV(st_), "gain": FV(ga)})]


@section("occupancies", rec(seed=seed, n=st.integers(1, 12), first=st.integers(1, 200)), prop="C19", need="SCF", multi=True)
def occupancies(c):
    s = c["seed"]
    lines = ["+--------+-------------------+----------------+                   <- occ",
             "|  Band  |   Eigenvalue      |    Occupancy   |                   <- occ",
             "+--------+-------------------+----------------+                   <- occ"]
    val = []
    for i in range(c["n"]):
        e, o = E(s, 2 * i, 6, -3, 2, 2), E(s, 2 * i + 1, 6, -15, 0, 2)
        if s % 2:  # some smearing schemes give small negative occupancies
            o = o.lstrip("-")
        if i % 3 == 2:
            o = "1.00000"
        lines.append(f"| {c['first'] + i:5d}  |  {e:>15}  |  {o:>12}  |                   <- occ")
        val.append({"band": c["first"] + i, "eigenvalue": F(e), "occupancy": F(o)})
    return [*lines, "+--------+-------------------+----------------+                   <- occ", "Have a nice day."], [ADD("occupancies", val)]


@section("delta_scf", rec(seed=seed, file=st.from_regex(r"[A-Za-z][A-Za-z0-9_-]{0,8}\.check", fullmatch=True),
                          states=g.rows(st.tuples(st.integers(1, 200), st.integers(1, 2)).map(list), min_size=1, max_size=4, unique_by=tuple)),
         prop="C19", need="DELTA_SCF")
def delta_scf(c):
    lines = ["               Calculating MODOS weights", " +-------------------INPUT PARAMETERS-------------------+",
             f"Taking band from model   {c['file']}"]
    states = []
    for i, (b, sp) in enumerate(c["states"]):
        lines += [f"  MODOS state {i + 1:15d}", f"  MODOS band  nr. {b:11d}", f"  MODOS band has spin {sp:7d}"]
    for i, (b, sp) in enumerate(c["states"]):
        p = T(c["seed"], i, 1, 6, False)
        root = c["file"].split(".")[0]
        lines += [f"|DeltaSCF| Population of state: {b:5d} {sp:5d} {p:>10}", f" Writing file   {root}.modos_state_{b}_{sp}"]
        states.append({"band": b, "spin": sp, "pop": F(p), "file": f"{root}.modos_state_{b}_{sp}"})
    return [*lines, ""], [SET("delta_scf", {"file": c["file"], "states": states})]


# ---------------------------------------------------------------- C20: forces and stresses

FORCE_KINDS = (("", "non_descript"), ("Symmetrised ", "symmetrised"), ("Constrained ", "constrained"), ("Constrained Symmetrised ", "constrained_symmetrised"),
               ("Unconstrained ", "unconstrained"), ("Cartesian NCM ", "cartesian_ncm"))


@section("forces", rec(kind=st.integers(0, len(FORCE_KINDS) - 1), seed=seed, atoms=atom_table.flatmap(lambda a: st.just(a["atoms"])),
                       marks=st.lists(st.sampled_from(("", "", "(cons'd)", " (mixed)")), min_size=1, max_size=4)), prop="C20", need="FORCE", multi=True, inner=True)
def forces(c):
    txt, name = FORCE_KINDS[c["kind"]]
    lines = [" " + f" {txt}Forces ".center(84, "*"), " *" + " " * 82 + "*", " *" + "Cartesian components (eV/A)".center(82) + "*",
             " * " + "-" * 80 + " *", " *                         x                    y                    z              *", " *" + " " * 82 + "*"]
    val = {}
    for i, at in enumerate(c["atoms"]):
        t = toks(c["seed"], 10 * i, 3, 2, 5)
        body = f" * {at[0]:<10}{at[1]:>7} "
        for j, x in enumerate(t):
            body += f"{x:>12}{c['marks'][(i + j) % len(c['marks'])]:<9}"
        lines.append(body + "*")
        val[key(at)] = FV(t)
    return [*lines, " *" + " " * 82 + "*", " " + "*" * 84], [ADD(("forces", name), val)]


@section("com_force", seed, prop="C20", need="FORCE", multi=True)
def com_force(c):
    t = [g.spread_expo(c, i, 16, -11, -2) for i in range(3)]
    return ["firstd_calculate: removing force on centre of mass", *(f" dF{x}: {v:>25} eV/A" for x, v in zip("xyz", t)), ""], \
        [ADD("forces/com_force_removal", FV(t))]


@section("stress", rec(kind=st.integers(0, 2), seed=seed, kinetic=st.booleans()), prop="C20", need="STRESS", multi=True, inner=True)
def stress(c):
    txt, name = (("", "non_descript"), ("Symmetrised ", "symmetrised"), ("Fun ", "fun"))[c["kind"]]
    t = toks(c["seed"], 0, 6, 3, 6)
    xx, xy, xz, yy, yz, zz = t
    lines = [" " + f" {txt}Stress Tensor ".center(49, "*"), " *" + " " * 47 + "*", " *          Cartesian components (GPa)           *",
             " * --------------------------------------------- *", " *             x             y             z     *", " *" + " " * 47 + "*"]
    for lab, r in (("x", (xx, xy, xz)), ("y", (xy, yy, yz)), ("z", (xz, yz, zz))):
        lines.append(f" *  {lab}" + "".join(v.rjust(13) + (" " if i < 2 else "") for i, v in enumerate(r)) + "  *")
    lines += [" *" + " " * 47 + "*", f" *  Pressure: {T(c['seed'], 9, 3, 4):>9}                          *", " *" + " " * 47 + "*", " " + "*" * 49]
    return lines, [ADD(("stresses", name), FV(t))]


# ---------------------------------------------------------------- C21: vibrations and thermodynamics

CHARS = ("E", "2'", "2", "4", '2"', "I", "m_v", "m_h", "-4", "-6")


@section("phonons", st.lists(rec(seed=seed, n=g.count(1, 7), irrep=st.booleans(), ir=st.booleans(), raman=st.booleans(), ractive=st.booleans(),
                                 lo=st.booleans(), gamma=st.booleans(), same=st.booleans(),
                                 chars=st.one_of(st.none(), rec(cols=st.integers(1, 9), reps=g.rows(st.sampled_from(("", "Eu", "A2u", "B1", "T1g")), min_size=1, max_size=4, big=(22, 26)),
                                                                                ends=st.sampled_from(("", "", "", " Sum over 3 | modes", " *** Warning: | 4", "? 3 |"))))),
                             min_size=1, max_size=4), prop="C21", need="PHONON")
def phonons(c):
    def line(txt):
        return f" + {txt:<75}+"
    lines = [" " + "=" * 78, line("                          Vibrational Frequencies"), line("                          -----------------------"), line(""),
             line(f"Performing frequency calculation at  {len(c)} wavevectors (q-pts)"), line("=" * 74), line(""), line("-" * 74)]
    out = []
    for k, p in enumerate(c):
        s = p["seed"]
        q = ["0.000000"] * 3 if p["gamma"] else toks(s, 0, 3, 1, 6)
        w = T(s, 4, 1, 10, False)
        lines.append(line(f" q-pt={k + 1:5d} ({row(q, 10)})     {w}"))
        if p["lo"]:
            lines.append(line(f" q->0 along ({row(toks(s, 5, 3, 1, 6), 10)})"))
        lines += [line("-" * 74), line(" Acoustic sum rule correction <   3.703446 cm-1 applied"),
                  line("    N      Frequency irrep.    ir intensity active            raman active"),
                  line("               (cm-1)         ((D/A)**2/amu)"), line("")]
        val = {"qpt": FV(q), "N": [], "frequency": []}
        ir, ram = p["ir"], p["ir"] and p["raman"]
        for i in range(p["n"]):
            f = T(s, 100 + 10 * i, 4, 6)
            txt = f"{i + 1:6d}  {f:>13}"
            val["N"].append(i + 1)
            val["frequency"].append(F(f))
            rep = "abcdefgh"[i % 4]
            txt += f"   {rep if p['irrep'] else ' '}"
            if p["irrep"]:
                val.setdefault("irrep", []).append(rep)
            if ir:
                x, act = T(s, 101 + 10 * i, 2, 7, False), "YN"[(s + i) % 2]
                txt += f"      {x:>12}  {act}"
                val.setdefault("ir_intensity", []).append(F(x))
                val.setdefault("ir_active", []).append(act)
                if ram:
                    y = T(s, 102 + 10 * i, 2, 7, False)
                    txt += f"         {y:>12}"
                    val.setdefault("raman_intensity", []).append(F(y))
                if ram or p["ractive"]:
                    ra = "YNN"[(s // 3 + i) % 3]
                    txt += f"{'' if ram else ' ' * 21}  {ra}"
                    val.setdefault("raman_active", []).append(ra)
            lines.append(line(f"{txt:<73}"))
        if p["chars"]:
            ch = p["chars"]
            lines += [line("." * 74), line("       Character table from group theory analysis of eigenvectors"), line("                          Point Group =  32, Oh"),
                      line("." * 74), line(" Rep  Mul |" + "".join(f"{h:>5}" for h in CHARS[:ch["cols"]])), line("          | " + "-" * (5 * ch["cols"] + 4))]
            tab = []
            for r, nm in enumerate(ch["reps"]):
                nums = [(s + 7 * r + 3 * j) % 7 - 3 for j in range(ch["cols"])]
                rep, mul = "abcdefghijklmnopqrstuvwxyz"[r], (s + r) % 12 + 1
                lines.append(line(f"{rep} {nm:<4}{mul:4d} |" + "".join(f"{v:>5d}" for v in nums)))
                ent = {"rep": rep, "mul": mul, "chars": list(zip(CHARS, nums))}
                if nm:
                    ent["name"] = nm
                tab.append(ent)
            if ch["ends"]:  # the analysis failed: the rows that follow are not representations
                lines += [ch["ends"], line("z Zz     9 |" + "    1" * ch["cols"])]
            val["char_table"] = tab
        lines.append(line("-" * 74))
        out.append(val)
    return [*lines[:-1], " " + "=" * 78], [SET("phonons", out)]


@section("phonon_symmetry", rec(title=st.sampled_from(("Elements of D with same absolute magnitude", "Elements of BEC  with same absolute magnitude",
                                                       "Phase of Born Effective Charge elements")),
                                seed=seed, n=g.count(1, 6), m=g.count(1, 6), real=st.booleans()), prop="C21", need="PHONON", multi=True)
def phonon_symmetry(c):
    lines = ["  " + "*" * 72, f"  Phonon Symmetry Analysis: {c['title']}", "  " + "*" * 72]
    mat = []
    for i in range(c["n"]):
        t = [T(c["seed"], 20 * i + j, 2, 1) if c["real"] else str((c["seed"] + 13 * i + 7 * j) % 100) for j in range(c["m"])]
        lines.append(row(t, 6))
        mat.append(tuple(F(x) if c["real"] else int(x) for x in t))
    return [*lines, ""], [ADD("phonon_symmetry_analysis", {"title": " ".join(c["title"].split()), "mat": mat})]


@section("dynamical_matrix", rec(n=g.rare(st.integers(1, 3), st.integers(7, 8)), seed=seed), prop="C21", need="PHONON")
def dynamical_matrix(c):
    n, s = 3 * c["n"], c["seed"]
    bar = "  " + "-" * 108
    lines = [bar, "            Dynamical matrix", bar, " Ion XYZ        real part  ((cm-1)**2)"]

    def block(base):
        out, txt = [], []
        for i in range(n):
            t = toks(s, base + 100 * i, n, 6, 6)
            txt.append(f"{i // 3 + 1:4d}{i % 3 + 1:4d}" + row(t, 18))
            out.append(t)
        return out, txt
    re_, rt = block(0)
    im_, it = block(5000)
    lines += [*rt, " Ion XYZ        imaginary part  ((cm-1)**2)", *it, bar]
    # The first bar after the title ends nothing; the block ends at the next pure bar, hence CASTEP prints none in between
    del lines[2]
    return lines, [SET("dynamical_matrix", [[complex(F(a), F(b)) for a, b in zip(x, y)] for x, y in zip(re_, im_)])]


@section("raman", rec(seed=seed, modes=g.rows(st.booleans(), min_size=1, max_size=5)), prop="C21", need="PHONON", multi=True)
def raman(c):
    def line(txt):
        return f" + {txt:<75}+"
    s = c["seed"]
    lines = [" " + "=" * 78, line("                     Raman Susceptibility Tensors ((A/amu)*0.5)"), " +" + "-" * 76 + "+"]
    out = []
    for i, depol in enumerate(c["modes"]):
        lines.append(line(f"Mode number: {i + 1:3d} Raman tensor       Depolarisation Ratio"))
        ten = [toks(s, 100 * i + 10 * j, 3, 2, 4) for j in range(3)]
        d = T(s, 100 * i + 50, 1, 6, False)
        for j, r in enumerate(ten):
            lines.append(line(row(r, 10) + (f"{d:>14}" if j == 0 and depol else "")))
        lines.append(" +" + " " * 76 + "+")
        t = [FV(r) for r in ten]
        out.append({"tensor": t, "depolarisation": F(d) if depol else None, "trace": Near(t[0][0] + t[1][1] + t[2][2]),
                    "ii": Near(t[0][0] * t[1][1] + t[0][0] * t[2][2] + t[1][1] * t[2][2] - t[0][1] * t[1][0] - t[0][2] * t[2][0] - t[1][2] * t[2][1])})
    return [*lines, " +" + "-" * 76 + "+", ""], [ADD("raman", out)]


@section("thermodynamics", rec(seed=seed, n=st.integers(1, 12)), prop="C21", need="THERMODYNAMICS")
def thermodynamics(c):
    s = c["seed"]
    z = T(s, 0, 2, 6)
    bar = " " + "-" * 78
    lines = [" " + "=" * 69, "                             Thermodynamics", "                             ==============", "",
             f"            Zero-point energy = {z:>16}  eV", bar, "       T(K)        E(eV)           F(eV)         S(J/mol/K)      Cv(J/mol/K)", bar]
    val = {"zero_point_energy": F(z), "t": [], "e": [], "f": [], "s": [], "cv": []}
    for i in range(c["n"]):
        t = [f"{10 * i}.0", T(s, 10 * i + 1, 2, 6), T(s, 10 * i + 2, 2, 6), T(s, 10 * i + 3, 3, 3, False), T(s, 10 * i + 4, 3, 3, False)]
        lines.append(f"{t[0]:>10}{t[1]:>16}{t[2]:>16}{t[3]:>16}{t[4]:>16}")
        for k, v in zip(("t", "e", "f", "s", "cv"), t):
            val[k].append(F(v))
    return [*lines, bar], [SET("thermodynamics", val)]


@section("atomic_displacements", rec(seed=seed, temps=g.count(1, 5), atoms=tag_atoms_st), prop="C21", need="THERMODYNAMICS")
def atomic_displacements(c):
    bar = " " + "-" * 78
    lines = [" " + "=" * 78, "                      Atomic Displacement Parameters (A**2)", "                      ==============================", "", bar,
             "      T(K)  Ion        U11       U22       U33       U23       U31       U12", bar]
    val = {}
    for i in range(c["temps"]):
        temp = f"{50 * i}.0"
        for j, at in enumerate(c["atoms"]):
            t = toks(c["seed"], 100 * i + 7 * j, 6, 1, 6)
            lines.append(f"{temp:>10}  {at[0]} {at[1]:<5}{row(t, 10)}")
            val.setdefault(temp, {})[key(at)] = FV(t)
    return [*lines, bar, ""], [SET("atomic_displacements", val)]


@section("born", rec(seed=seed, atoms=g.rows(st.tuples(g.tagged, index_st, st.one_of(st.none(), label)).map(list), min_size=1, max_size=5,
                                               unique_by=lambda a: (a[0], a[1]))), prop="C21", need="POPN_ANALYSIS", multi=True)
def born(c):
    lines = [" " + "=" * 51, "                   Born Effective Charges", "                   ----------------------"]
    val = {}
    for i, (spec, ind, lab) in enumerate(c["atoms"]):
        ten = [toks(c["seed"], 20 * i + 4 * j, 3, 2, 5) for j in range(3)]
        lines.append(f"   {spec:<6} {ind:>3}     {row(ten[0], 12)}{' ID=' + lab if lab else ''}")
        lines += ["                 " + row(r, 12) for r in ten[1:]]
        val[(f"{spec} [{lab}]" if lab else spec), ind] = [FV(r) for r in ten]
    return [*lines, " " + "=" * 51], [ADD("born", val)]


# ---------------------------------------------------------------- C23: populations

ORBS = ("s", "p", "d", "f")


@section("mulliken", rec(seed=seed, atoms=atom_table.flatmap(lambda a: st.just(a["atoms"])), spin=st.sampled_from(("no", "sep", "col"))),
         prop="C23", need="POPN_ANALYSIS")
def mulliken(c):
    s, sep = c["seed"], c["spin"] == "sep"
    lines = ["     Atomic Populations (Mulliken)", "     -----------------------------",
             "Species          Ion " + ("Spin " if sep else "") + "    s       p       d       f      Total   Charge (e)" + ("   Spin (hbar/2)" if c["spin"] != "no" else ""),
             "=" * (94 if sep else 74)]
    val = {}
    for i, at in enumerate(c["atoms"]):
        up, dn = toks(s, 100 * i, 5, 2, 3, False), toks(s, 100 * i + 20, 5, 2, 3, False)
        ch, sp = T(s, 100 * i + 40, 2, 3), T(s, 100 * i + 41, 2, 3)
        ent = {"spin_sep": sep, "charge": F(ch), "spin": F(sp) if c["spin"] != "no" else None}
        name = f"  {at[0]:<12}{at[1]:>5}"
        spin = f"{sp:>12}" if c["spin"] != "no" else ""
        if sep:
            lines.append(f"{name}   up: {row(up, 8)}{ch:>10}{spin}")
            lines.append(f"{'':14}{at[1]:>5}   dn: {row(dn, 8)}")
            ent.update({f"up_{o}": F(t) for o, t in zip((*ORBS, "total"), up)})
            ent.update({f"dn_{o}": F(t) for o, t in zip((*ORBS, "total"), dn)})
            ent["total"] = F(up[4]) + F(dn[4])
        else:
            lines.append(f"{name}   {row(up, 8)}{ch:>10}{spin}")
            ent.update({o: F(t) for o, t in zip((*ORBS, "total"), up)})
        val[key(at)] = ent
    return [*lines, lines[3]], [SET("mulliken_popn", val)]


ORBITALS = ("S", "Px", "Py", "Pz", "Dzz", "Dzy", "Dzx", "Dxx-yy", "Dxy", "Fxxx", "Fxyz")


@section("orbital_popn", rec(seed=seed, atoms=g.rows(st.tuples(spec_st, index_st, st.lists(st.sampled_from(ORBITALS), min_size=1, max_size=6, unique=True)).map(list),
                                                       min_size=1, max_size=4, unique_by=lambda a: (a[0], a[1])), projected=st.booleans()), prop="C23", need="POPN_ANALYSIS")
def orbital_popn(c):
    s = c["seed"]
    bar = "  " + "-" * 43
    lines = ["            Orbital Populations", "     Ion    Atom   Orbital             Charge", bar]
    val = {}
    for i, (spec, ind, orbs) in enumerate(c["atoms"]):
        val[spec, ind] = {}
        for j, o in enumerate(orbs):
            t = T(s, 100 * i + j, 1, 3)
            lines.append(f"      {spec:<5} {ind:>2}      {o:<8}{t:>18}")
            val[spec, ind][o] = F(t)
    tot = T(s, 999, 2, 3, False)
    lines += [bar, f"                           Total: {tot:>11}", bar]
    val["total"] = F(tot)
    if c["projected"]:
        a, b = toks(s, 1000, 2, 2, 3, False)
        # printed after the closing line of the table
        lines += [f"The total projected population is {a:>8} {b:>7}", ""]
    return lines, [SET("orbital_popn", val)]


@section("bonds", rec(seed=seed, spin=st.booleans(), bonds=g.rows(st.tuples(g.tagged, st.integers(1, 120), g.tagged, st.integers(1, 120)).map(list),
                                                                   min_size=1, max_size=6, unique_by=tuple)), prop="C23", need="POPN_ANALYSIS")
def bonds(c):
    s, val = c["seed"], {}
    head = "                 Bond                   Population      Length (A)" if not c["spin"] else \
        "                 Bond                   Population        Spin       Length (A)"
    lines = [head, "=" * (80 if c["spin"] else 70)]
    for i, (a, ia, b, ib) in enumerate(c["bonds"]):
        p, sp, ln = T(s, 10 * i, 2, 2), T(s, 10 * i + 1, 1, 2), T(s, 10 * i + 2, 1, 5, False)
        lines.append(f"              {a} {ia} -- {b} {ib}     {p:>14}{f'{sp:>14}' if c['spin'] else ''}{ln:>16}")
        val[(a, ia), (b, ib)] = {"population": F(p), "length": F(ln), **({"spin": F(sp)} if c["spin"] else {})}
    return [*lines, lines[1]], [SET("bonds", val)]


@section("hirshfeld", rec(seed=seed, atoms=atom_table.flatmap(lambda a: st.just(a["atoms"])), spin=st.booleans()), prop="C23", need="POPN_ANALYSIS")
def hirshfeld(c):
    lines = ["     Hirshfeld Analysis", "     ------------------", "Species   Ion     Hirshfeld Charge (e)" + ("  Spin (hbar/2)" if c["spin"] else ""), "=" * 38]
    val = {}
    for i, at in enumerate(c["atoms"]):
        t = T(c["seed"], 2 * i, 2, 2)
        lines.append(f"  {at[0]:<6}{at[1]:>4} {t:>20}" + (f"{T(c['seed'], 2 * i + 1, 1, 2):>12}" if c["spin"] else ""))
        val[key(at)] = F(t)
    return [*lines, "=" * 38], [SET("hirshfeld", val)]


@section("elf", rec(seed=seed, n=st.integers(1, 15)), prop="C23", need="ELF")
def elf(c):
    t = [T(c["seed"], i, 1, 6, False) for i in range(c["n"])]
    bar = "-" * 23
    return ["      ELF grid sample", bar, *(f" ELF {i:8d} {v}" for i, v in enumerate(t, 1)), bar], [SET("elf", FV(t))]


# ---------------------------------------------------------------- C24: response properties

def mat3(s, base, n=3, m=3, nint=2, ndec=5):
    return [toks(s, base + 10 * i, m, nint, ndec) for i in range(n)]


@section("permittivity", rec(seed=seed, dc=st.booleans()), prop="C24", need="OPTICS")
def permittivity(c):
    a, b = mat3(c["seed"], 0), mat3(c["seed"], 100)
    bar = " " + "=" * (79 if c["dc"] else 39)
    lines = [bar, "        Optical Permittivity (f->infinity)" + ("             DC Permittivity (f=0)" if c["dc"] else ""),
             "        ----------------------------------" + ("             ---------------------" if c["dc"] else "")]
    lines += [row(x, 12) + ("    " + row(y, 12) if c["dc"] else "") for x, y in zip(a, b)]
    ops = [SET("optical_permittivity", [FV(r) for r in a])]
    if c["dc"]:
        ops.append(SET("dc_permittivity", [FV(r) for r in b]))
    return [*lines, bar], ops


@section("polarisability", rec(seed=seed, static=st.booleans()), prop="C24", need="OPTICS")
def polarisability(c):
    a, b = mat3(c["seed"], 0), mat3(c["seed"], 100)
    bar = " " + "=" * (79 if c["static"] else 39)
    if c["static"]:
        lines = [bar, "                                    Polarisabilities (A**3)",
                 "                Optical (f->infinity)                       Static  (f=0)", "                ---------------------                       -------------"]
    else:
        lines = [bar, "             Polarisability (A**3)", "                   Optical (f->infinity)", "                   ---------------------"]
    lines += [row(x, 12) + ("    " + row(y, 12) if c["static"] else "") for x, y in zip(a, b)]
    ops = [SET("optical_polarisability", [FV(r) for r in a])]
    if c["static"]:
        ops.append(SET("static_polarisability", [FV(r) for r in b]))
    return [*lines, bar], ops


@section("nlo", seed, prop="C24", need="OPTICS")
def nlo(c):
    a = mat3(c, 0, 3, 6)
    bar = " " + "=" * 75
    return [bar, "      Nonlinear Optical Susceptibility (pm/V)", "      ---------------------------------------", *(row(x, 12) for x in a), bar], \
        [SET("nlo", [FV(r) for r in a])]


@section("tddft", rec(seed=seed, types=g.rows(st.sampled_from(("spurious", "Singlet", "Triplet", "unknown")), min_size=1, max_size=12)), prop="C24", need="TDDFT")
def tddft(c):
    def line(txt):
        return f"  + {txt:<66}+TDDFT"
    lines = [line("=" * 65), line("                    TDDFT excitation energies"), line("                    -------------------------"),
             line("  State number         Energy in   eV     Estimated error"), line("=" * 65), line("")]
    lines = [x.replace("= +TDDFT", "= +TDDFT") for x in lines]
    val = []
    for i, typ in enumerate(c["types"]):
        e, err = T(c["seed"], 2 * i, 2, 15), E(c["seed"], 2 * i + 1, 10, -9, -2, 2).lstrip("-")
        lines.append(line(f"{i + 1:9d}   {e:>19}   {err:>18}     {typ}"))
        val.append({"energy": F(e), "error": F(err), "type": typ})
    return [*lines, line(""), line("=" * 65), line(" TDDFT calculation time:      39.35"), line("=" * 65)], [SET("tddft", val)]


@section("bs", rec(seed=seed, style=st.booleans(), kpts=g.rows(rec(spin=st.integers(1, 2), grp=st.integers(1, 99), n=st.integers(1, 8)), min_size=1, max_size=12)), prop="C24", need="BS")
def bs(c):
    def line(txt):
        return f"  + {txt:<66}+"
    if c["style"]:
        lines = [line("=" * 65), line("    Band Structure Calculation: Progress report on root process")]
    else:
        lines = [line("=" * 65), line("  B A N D   S T R U C T U R E   C A L C U L A T I O N"), line("                 Also called spectral calculation")]
    lines += [line("  There are   10 BS k-points. Root process contains   10 of them."), line("  Spin= 1 of  1, K-point=   1 of   10 completed, Time:     0.11s."),
              line("=" * 65), line("                      Electronic energies"), line("  Band number   Energy in eV"), line("=" * 65)]
    val = []
    for i, k in enumerate(c["kpts"]):
        q = toks(c["seed"], 100 * i, 3, 1, 6)
        lines += [line("-" * 65), line(f" Spin={k['spin']} kpt={i + 1:5d} ({row(q, 10)}) kpt-group={k['grp']:3d}"), line("-" * 65), line("")]
        ens = [T(c["seed"], 100 * i + 10 + j, 2, 6) for j in range(k["n"])]
        lines += [line(f"{j + 1:11d}{e:>16}") for j, e in enumerate(ens)]
        val.append({"spin": k["spin"], "kx": F(q[0]), "ky": F(q[1]), "kz": F(q[2]), "kpgrp": k["grp"], "band": list(range(1, k["n"] + 1)), "energy": FV(ens)})
    return [*lines, line("-" * 65), "  " + "=" * 69], [SET("bs", val)]


@section("dipole", seed, prop="C24", need="DIPOLE")
def dipole(c):
    def line(txt):
        return f"  +  {txt:<65}+"
    ion, va, mag = T(c, 0, 3, 4, False), T(c, 1, 3, 4, False), T(c, 2, 2, 5, False)
    ce, cp, dr = toks(c, 10, 3, 2, 4), toks(c, 20, 3, 2, 4), toks(c, 30, 3, 1, 6)
    lines = ["  " + "=" * 69, line(""), line(" D I P O L E   O F   M O L E C U L E   I N   S U P E R C E L L"), line("    Cite: S. J. Clark, et al. Europhys Lett 44, 578 (1998)"),
             line("    WARNING: This is only correct for isolated molecules"), line(f"  Total  ionic  charge in supercell: {ion:>12} electrons"),
             line(f"  Total valence charge in supercell: {va:>12} electrons"), line(""), line(" Centre of electronic charge for system:"), line(f"{row(ce, 12)}       ANG"),
             line(" Centre of positive ionic charges:"), line(f"{row(cp, 12)}       ANG"), line(""), line(f"Magnitude of Dipole = {mag:>9}  DEBYE"),
             line(f"Direction of Dipole = {row(dr, 12)}"), line(""), "  " + "=" * 69]
    return lines, [SET("molecular_dipole", {"total_ionic": F(ion), "total_valence": F(va), "centre_electronic": FV(ce), "centre_positive": FV(cp),
                                            "dipole_magnitude": F(mag), "dipole_direction": FV(dr)})]


MAGRES = (("Chemical Shielding Tensor", "Chemical Shielding", ("cs_iso", "cs_aniso", "asym")),
          ("Chemical Shielding and Electric Field Gradient Tensors", "Chemical Shielding and Electric Field Gradient", ("cs_iso", "cs_aniso", "asym", "cq", "eta")),
          ("Electric Field Gradient Tensor", "Electric Field Gradient", ("cq", "asym")),
          ("Isotropic J-coupling", "(An)Isotropic J-coupling", ("fermi_contact", "spin_dipolar", "paramagnetic", "diamagnetic", "total")),
          ("Anisotropic J-coupling", "(An)Isotropic J-coupling", ("fermi_contact", "spin_dipolar", "paramagnetic", "diamagnetic", "total")),
          ("Hyperfine Tensor", "Hyperfine", ("hf_iso",)))


@section("magres", rec(task=st.integers(0, len(MAGRES) - 1), seed=seed, atoms=tag_atoms_st, na=st.booleans()), prop="C24", need="CHEM_SHIELDING", multi=True)
def magres(c):
    head, task, cols = MAGRES[c["task"]]
    bar, s = "  " + "=" * 84, c["seed"]

    def line(txt):
        return f"  |{txt:<82}|"
    lines = [bar, line(head.center(82)), line("-" * 82), line("     Nucleus                               values"), line("  Species          Ion            ...")]
    val = {"task": task}
    for i, at in enumerate(c["atoms"]):
        ent, txt = {}, ""
        perturbing = c["task"] in (3, 4) and i == 0 and c["na"]
        for j, k in enumerate(cols):
            na = k == "asym" and c["na"] and i % 2 == 0
            t = "N/A" if na else g.spread_expo(s, 10 * i + j, 3, -2, 3, 2) if k in ("cq", "hf_iso") else T(s, 10 * i + j, 3, 2)
            ent[k] = None if na else F(t) if not perturbing else None
            txt += f"{'--.--' if perturbing else t:>11}"
        lines.append(line(f"{'**' if perturbing else '  '} {at[0]:<12}{at[1]:>6} {txt} "))
        if not perturbing:
            val[key(at)] = ent
    if c["task"] in (3, 4):
        lines += [line(""), line("** Signifies Perturbing Nucleus A of coupling J_AB")]
    return [*lines, bar], [ADD("magres", val)]


def el_mat(name, head, nint, ndec):
    @section(name, seed, prop="C24", need="ELASTIC")
    def sec(c):
        a = mat3(c, 0, 6, 6, nint, ndec)
        bar = " " + "=" * 79
        return [bar, head.center(79).rstrip(), " " + "-" * 79, *(row(x, 13) for x in a), bar], [SET(("elastic", name), [FV(r) for r in a])]


el_mat("elastic_constants", "Elastic Constants Tensor (GPa)", 3, 6)
el_mat("compliance_matrix", "Compliance Matrix (GPa^-1)", 1, 9)


@section("elastic_contribution", rec(kind=st.sampled_from(("Ewald", "Hartree", "<psi^1|H^(1)|psi^0>", "Local Potential", "Kinetic")), seed=seed), prop="C24", need="ELASTIC", multi=True)
def elastic_contribution(c):
    a = mat3(c["seed"], 0, 6, 6, 2, 8)
    return [f"{c['kind']} Contribution ::", *(row(x, 17) for x in a), ""], [SET(("elastic", f"{c['kind']} Contribution"), [FV(r) for r in a])]


@section("elastic_properties", seed, prop="C24", need="ELASTIC")
def elastic_properties(c):
    bar, dash = " " + "=" * 79, " " + "-" * 79
    y, p, b, sh = (toks(c, 10 * i, 6 if i == 1 else 3, 3, 6) for i in range(4))
    snd = mat3(c, 100, 3, 3, 2, 6)
    lo, tr = T(c, 200, 2, 6, False), T(c, 201, 2, 6, False)
    lines = [bar, "                               Elastic Properties", dash, "                            x              y              z", dash,
             f"  Young's Modulus ::{row(y, 15)}     (GPa)", "", dash, "                        xy        xz        yx        yz        zx        zy", dash,
             f"  Poisson Ratios  ::{row(p, 12)}", "", dash, "                          Voigt          Reuss          Hill", dash,
             f"   Bulk Modulus   ::{row(b, 15)}     (GPa)", f"  Shear Modulus   ::{row(sh, 15)}     (GPa)", "", dash,
             "                                 Speed of Sound", dash, "                            x              y              z", dash,
             f"                  x {row(snd[0], 15)}     (A/ps)", f"  (Anisotropic)   y {row(snd[1], 15)}     (A/ps)", f"                  z {row(snd[2], 15)}     (A/ps)",
             "", " Assuming Isotropic material", f"  Longitudinal waves ::{lo:>14}   (A/ps)", f"   Transverse waves  ::{tr:>14}   (A/ps)", bar]
    return lines, [UPD("elastic", {"young_s_modulus": FV(y), "poisson_ratios": FV(p), "bulk_modulus": FV(b), "shear_modulus": FV(sh),
                                   "speed_of_sound": [FV(r) for r in snd], "longitudinal_waves": F(lo), "transverse_waves": F(tr)})]


POL_BAR = "=" * 85


def pol_table(s, n):
    """Final polarisation tables (printed at every verbosity)."""
    dirs = (("1.0000", "0.0000", "0.0000"), ("0.0000", "1.0000", "0.0000"), ("0.0000", "0.0000", "1.0000"))
    lines = [POL_BAR, " Polarisation (C/m^2) in Recip Lattice Basis defined on range [-Quantum/2:Quantum/2]",
             "              Direction                   Electronic   Ionic    Total    (Quantum)", POL_BAR]
    pol = {}
    for i, d in enumerate(dirs):
        e, io, to, q = (T(s, 10 * i + j, 1, 4, j < 3) for j in range(4))
        lines.append(f" G_{i + 1}:  ({d[0]:>8}, {d[1]:>7}, {d[2]:>7}   ) {e:>11} {io:>9} {to:>9} ({q:>10} )")
        pol[FV(d)] = {"elec": F(e), "ionic": F(io), "total": F(to), "quantum": F(q), "units": "C/m^2"}
    lines += [POL_BAR, ""]
    val = {"polarisation": pol}
    for u, unit in enumerate(("e/bohr^2", "C/m^2")):
        lines += [POL_BAR]
        for k, nm in enumerate(("Ionic", "Elec ", "Total")):
            t = toks(s, 100 + 20 * u + 4 * k, 3, 1, 6)
            lines.append(f" {nm} Polarisation (Cartesian Basis): {row(t, 12)} ({unit})")
            val[nm.strip().lower()] = {"units": unit, "val": FV(t)}
        lines += [POL_BAR, ""]
    return lines, val


@section("berry", rec(seed=seed, verbose=st.one_of(st.none(), g.rows(st.tuples(st.integers(1, 9), st.integers(1, 20)).map(list), min_size=1, max_size=5, unique_by=tuple))),
         prop="C24", need="POLARISATION")
def berry(c):
    s = c["seed"]
    lines, val = ["         ------------------------------------", "         Berry phase polarisation calculation", "         ------------------------------------", ""], {}
    if c["verbose"]:
        lines += [POL_BAR, "             Ionic contribution to polarisation (phase) [-1:1]", POL_BAR,
                  "ni nsp  Zion     frac_a1     frac_a2     frac_a3      pol_G1      pol_G2     pol_G3"]
        ions = {}
        for i, (nsp, ni) in enumerate(c["verbose"]):
            z, p, q = T(s, 500 + 20 * i, 2, 2, False), toks(s, 501 + 20 * i, 3, 1, 6), toks(s, 505 + 20 * i, 3, 1, 6)
            lines.append(f"{ni:3d}{nsp:2d} {z:>6} {row(p, 12)}{row(q, 12)}")
            ions[nsp, ni] = {"coords": FV(p), "polarisation": FV(q)}
        tot = toks(s, 700, 3, 1, 6)
        lines += [f" Total ionic polarisation (phase [-1:1])           {row(tot, 12)}", POL_BAR, ""]
        val["ionic_contribution_to_polarisation"] = {"units": "phase", "total": FV(tot), "ions": ions}
        for u, (nm, unit, kk) in enumerate((("       Polarisation", "phase", None), ("       Polarisation", "e bohr", None),
                                            ("Volume Polarisation", "e /bohr^2", "volume_polarisation"), ("Volume Polarisation", "C/m^2", "volume_polarisation"))):
            lines += [POL_BAR, f"      {nm} ({unit})        in Recip Lattice Basis (G_1, G_2, G_3)", POL_BAR]
            tab = {"units": unit}
            for k, lab in enumerate(("Electronic", "Ionic", "Total")):
                t = toks(s, 800 + 50 * u + 10 * k, 3, 1, 6)
                lines.append(f"{lab + ' polarisation':<24}{row(t, 12)}")
                tab[lab] = FV(t)
            lines += [POL_BAR, ""]
            if kk:
                val[kk] = tab
    more, v = pol_table(s, 0)
    # The Recip Lattice table replaces the per-unit ones of verbose output (known finding berry_verbose)
    val.update(v)
    return [*lines, *more], [UPD("berry_phase", val)]
