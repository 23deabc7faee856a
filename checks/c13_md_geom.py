"""C13: .md/.geom files, read whole."""
from hypothesis import strategies as st

from lib import gen as g, mdgeom
from lib.harness import facet
from lib.oracle import expect, parse_text


@facet(mdgeom.file_st(), quick=2400, nontrivial=lambda c: len(c["shapes"]) > 1, rule="several frames",
       labels=lambda c: {c["style"], f"header={c['header'] is not None}",
                         "uniform" if all(s == c["shapes"][0] for s in c["shapes"]) else "varying"})
def md_geom_file(case):
    from castep_outputs.parsers import parse_md_geom_file
    text, frames = mdgeom.build(case)
    expect([dict(x) for x in parse_text(parse_md_geom_file, text)], frames, text=text)


@facet(g.rec(case=mdgeom.file_st(max_frames=4), cut=st.integers(0, 3)), quick=600,
       nontrivial=lambda c: len(c["case"]["shapes"]) > 1, rule="several frames")
def md_geom_open_end(case):
    """The blank line after the last frame may be missing."""
    from castep_outputs.parsers import parse_md_geom_file
    text, frames = mdgeom.build(case["case"])
    text = text.rstrip() + ("\n" if case["cut"] else "")
    expect([dict(x) for x in parse_text(parse_md_geom_file, text)], frames, text=text)


FACETS = [md_geom_file, md_geom_open_end]
