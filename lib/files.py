"""Generated files of every supported type, as bytes, with no expected contents attached.

A generated file is plain JSON: {"type": extension, "case": case of the writer}.
"""
from __future__ import annotations

import importlib

from hypothesis import strategies as st

from . import castep3 as c3, gen as g, mdgeom
from .castep import SECTIONS
from .oracle import contents


def _facet(module, name):
    mod = importlib.import_module(f"checks.{module}")
    return next(f for f in mod.FACETS if f.name == name)


#: extension -> (module, facet) whose writer is borrowed.
BORROWED = {
    "cell": ("c03_cell_blocks", "cell_file_blocks"), "param": ("c02_keywords", "keywords_param"),
    "bands": ("c08_bands", "bands_file"), "phonon": ("c10_phonon", "phonon_file"),
    "phonon_dos": ("c10_phonon", "phonon_dos_file"), "efield": ("c11_response", "efield_file"),
    "elastic": ("c11_response", "elastic_file"), "magres": ("c12_magres_file", "magres_file"),
    "ts": ("c15_small_files", "ts_file"), "tddft": ("c15_small_files", "tddft_file"),
    "epme": ("c15_small_files", "epme_file"), "hug": ("c15_small_files", "hug_file"),
    "xrd_sf": ("c15_small_files", "xrd_sf_file"), "err": ("c15_small_files", "err_file"),
    "cst_esp": ("c07_binary_files", "cst_esp"), "epme_bin": ("c07_binary_files", "epme_bin"),
}
#: extension -> (module, facet, title) of a block which may follow what is borrowed.
EXTRA = {"cell": ("c04_pspot_devel", "pspot_strings", "species_pot"), "param": ("c04_pspot_devel", "devel_code", "devel_code")}
GRIDS = ("den_fmt", "chdiff_fmt", "pot_fmt", "elf_fmt")
BINARY = ("cst_esp", "epme_bin")
TYPES = (*BORROWED, *GRIDS, "md", "geom", "castep")

castep_st = g.rec(parts=c3.compose(list(SECTIONS), 1, 4), noise=st.lists(c3.noise_st, min_size=5, max_size=5))


def case_st(typ):
    """Strategy of writer cases for one type."""
    if typ == "castep":
        return castep_st
    if typ in ("md", "geom"):
        return mdgeom.file_st(max_frames=3).map(lambda c: {**c, "style": typ})
    if typ in EXTRA:
        module, name, _title = EXTRA[typ]
        return g.rec(main=_facet(*BORROWED[typ]).strategy, extra=st.one_of(st.none(), _facet(module, name).strategy))
    if typ in GRIDS:
        return _facet("c09_fmt_grids", "fmt_grid").strategy.filter(lambda c: c["kind"] == typ)
    return _facet(*BORROWED[typ]).strategy


def raw(typ, case):
    """Contents (bytes) of the file."""
    if typ == "castep":
        text = "\n".join(["start", *c3.text_of(case["parts"], case["noise"]), "", "the end"]) + "\n"
    elif typ in ("md", "geom"):
        text = mdgeom.build(case)[0]
    elif typ in EXTRA:
        text = contents(_facet(*BORROWED[typ]), case["main"])
        module, name, title = EXTRA[typ]
        if case["extra"] and title not in text.lower():
            lines = contents(_facet(module, name), case["extra"]).splitlines()
            ends = [k for k, ln in enumerate(lines) if ln.lower().startswith(("%block", "%endblock"))]
            text = text.rstrip("\n") + "\n\n" + "\n".join(lines[ends[0]:ends[-1] + 1]) + "\n"
    elif typ in GRIDS:
        text = contents(_facet("c09_fmt_grids", "fmt_grid"), case)
    else:
        text = contents(_facet(*BORROWED[typ]), case)
    return text if isinstance(text, bytes) else text.encode("utf-8")


def file_st(types=TYPES):
    return st.sampled_from(tuple(types)).flatmap(lambda t: g.rec(type=st.just(t), case=case_st(t)))


def parser_for(typ):
    """The public parser of a type."""
    from castep_outputs import bin_parsers, parsers
    name = "parse_md_geom_file" if typ in ("md", "geom") else f"parse_{typ}_file"
    return getattr(bin_parsers if typ in BINARY else parsers, name)
