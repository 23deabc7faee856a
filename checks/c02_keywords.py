"""C02: scalar and vector keywords of .cell/.param files."""
from hypothesis import strategies as st

from lib import gen as g
from lib.harness import facet
from lib.oracle import expect, parse_text

KEYWORDS = ("task", "cut_off_energy", "iprint", "spin", "kpoint_mp_grid", "kpoints_mp_spacing",
            "fix_all_cell", "sedc_s6_g06", "sedc_d_g06", "reuse", "comment", "run_time",
            "geom_energy_tol", "md_delta_t", "nextra_bands", "xc_functional", "smearing_width",
            "phonon_fine_kpoint_mp_offset", "continuation", "quantization_axis", "charge")
key_st = st.one_of(st.sampled_from(KEYWORDS),
                   st.from_regex(r"[a-z][a-z_]{1,12}[a-z]", fullmatch=True),
                   st.from_regex(r"[a-z]{1,5}_[a-z0-9]{1,4}_[a-z][0-9]{1,2}", fullmatch=True))

UNITS = ("eV", "Ha", "1/Ang", "ang", "GPa", "fs", "eV/ang", "cm-1", "K", "bohr", "mRy", "ang/ps",
         "eV/ang**2", "Hartree/Bohr", "HARTREE/BOHR/E")
BOOLS = {"t": True, "f": False, "true": True, "false": False}

int_tok = st.one_of(st.integers(-10 ** 9, 10 ** 9).map(str), st.integers(0, 99).map(str),
                    st.integers(0, 99).map("+{}".format), st.sampled_from(("0", "00", "007")))
flt_tok = st.one_of(g.fixed(3, 4), g.fixed(1, 10), g.expo(4, -99, 99), g.expo(3, -9, 9, char="e"),
                    st.builds("{}.{}".format, st.sampled_from(("", "-", "+")), st.integers(0, 999)),
                    st.builds("{}{}.".format, st.sampled_from(("", "-")), st.integers(0, 99)),
                    st.builds("{}e{}".format, st.integers(1, 9), st.integers(-12, 12)))
str_word = st.one_of(st.from_regex(r"[A-Za-z_/(\"][A-Za-z0-9_.,/()+-]{0,12}", fullmatch=True),
                     st.sampled_from(("LDA", "PBE0", "ColdSmearing", "aa.bbb", "./dir/x.check",
                                      "default", "NULL", "e", "q=1", "a:b")))
# Text values that begin like a number (file names, labels) are still text.
num_word = st.sampled_from(("3C-SiC.check", "1-out.check", "2nd", "10x10", "4d_run", "1e", "0.5eV_x",
                            "6-31G", "2.5.1", "1/2/3", "-x", ".hidden", "+U", "1e5e5"))

plain_word = st.from_regex(r"[A-Za-z]{2,9}", fullmatch=True)


def not_bool(words):
    return " ".join(words).lower() not in BOOLS


item = st.one_of(
    st.tuples(st.just("int"), int_tok, st.none()),
    st.tuples(st.just("int"), int_tok, st.sampled_from(UNITS)),
    st.tuples(st.just("float"), flt_tok, st.none()),
    st.tuples(st.just("float"), flt_tok, st.sampled_from(UNITS)),
    st.tuples(st.just("rational"), g.rational_tok, st.none()),
    st.tuples(st.just("bool"), st.sampled_from(("T", "F", "t", "f", "true", "false", "TRUE", "FALSE",
                                                "True", "False", "tRuE")), st.none()),
    st.tuples(st.just("ivec"), st.lists(int_tok, min_size=2, max_size=9), st.none()),
    st.tuples(st.just("fvec"), st.lists(flt_tok, min_size=2, max_size=9), st.none()),
    st.tuples(st.just("mvec"), st.lists(st.one_of(int_tok, flt_tok, g.rational_tok),
                                        min_size=2, max_size=6), st.none()),
    st.tuples(st.just("mvec"), st.lists(st.one_of(int_tok, flt_tok), min_size=2, max_size=6),
              st.sampled_from(UNITS)),
    st.tuples(st.just("str"), st.lists(str_word, min_size=1, max_size=1).filter(not_bool), st.none()),
    st.tuples(st.just("str"), st.lists(str_word, min_size=2, max_size=6), st.none()),
    st.tuples(st.just("numstr"), st.builds(lambda a, b: [a, *b], num_word,
                                           st.lists(str_word, max_size=3)), st.none()),
    # a logical keyword which stands alone is true
    st.tuples(st.just("flag"), st.just(""), st.none()),
    # a number followed by several words is text, not a quantity
    st.tuples(st.just("numtext"), st.builds(lambda a, b: [a, *b], st.integers(0, 10 ** 30).map(str),
                                            st.lists(plain_word, min_size=2, max_size=4)), st.none()),
)
line_st = g.rec(
    key=key_st, case=st.sampled_from(("lower", "upper", "title", "asis")), item=item,
    sep=st.sampled_from((" : ", ":", "=", " = ", " ", "   ", "\t", ": ", " =", "\t:\t", "  :  ")),
    lead=st.sampled_from(("", "", " ", "   ", "\t")), gap=st.sampled_from((" ", "  ", "\t", "     ")),
    tail=st.sampled_from(("", "", " ", "   ", " # comment : 3", " ! tail 4.0 eV", "#x", "!1 2 3")),
    before=st.lists(st.sampled_from(("", "   ", "# comment = 5", "! other : T", "  # fix_com : T",
                                     "#%BLOCK foo", "!\t", "#")), max_size=2),
)
case_st = g.rec(lines=g.rows(line_st, min_size=1, max_size=8, unique_by=lambda x: x["key"]),
                final=st.booleans())


def render(case):
    out = []
    for ln in case["lines"]:
        key = {"lower": str.lower, "upper": str.upper, "title": str.title}.get(
            ln["case"], lambda x: x)(ln["key"])
        _, val, unit = ln["item"]
        # string values keep the text between their words verbatim; numbers do not
        body = val if isinstance(val, str) else ln["gap"].join(val)
        if unit:
            body += ln["gap"][:1] + unit
        if ln["item"][0] == "flag":
            out += [*ln["before"], f"{ln['lead']}{key}{ln['tail']}"]
            continue
        out += [*ln["before"], f"{ln['lead']}{key}{ln['sep']}{body}{ln['tail']}"]
    return "\n".join(out) + ("\n" if case["final"] else "")


def value(item, gap):
    kind, val, unit = item
    if kind == "int":
        out = int(val)
    elif kind in ("float", "rational"):
        out = g.F(val)
    elif kind == "bool":
        out = BOOLS[val.lower()]
    elif kind == "flag":
        out = True
    elif kind == "ivec":
        out = tuple(map(int, val))
    elif kind in ("fvec", "mvec"):
        try:
            out = tuple(map(int, val))
        except ValueError:
            out = tuple(map(g.F, val))
    else:
        out = gap.join(val)
    return (out, unit) if unit else out


def expected(case):
    return [{ln["key"].lower(): value(ln["item"], ln["gap"]) for ln in case["lines"]}]


RULE = "at least one keyword line; labels count value kinds"
LABELS = lambda case: {ln["item"][0] + ("+unit" if ln["item"][2] else "") for ln in case["lines"]}


def run(parser, case):
    text = render(case)
    expect(parse_text(parser, text), expected(case), text=text)


@facet(case_st, quick=2500, rule=RULE, labels=LABELS)
def keywords_cell(case):
    import castep_outputs as co
    run(co.parse_cell_file, case)


@facet(case_st, quick=1200, rule=RULE, labels=LABELS)
def keywords_param(case):
    import castep_outputs as co
    run(co.parse_param_file, case)


@facet(g.rec(lines=case_st.map(lambda c: c["lines"]), perm=st.permutations(range(8)), final=st.just(True)), quick=600,
       nontrivial=lambda c: len(c["lines"]) > 1, rule="two or more keywords reordered")
def order_irrelevant(case):
    """Permuting keyword lines does not change any reported value."""
    import io
    import castep_outputs as co
    perm = [*case["perm"], *range(8, len(case["lines"]))]
    lines = [case["lines"][i] for i in perm if i < len(case["lines"])]
    one = co.parse_param_file(io.StringIO(render(case)))
    two = co.parse_param_file(io.StringIO(render({**case, "lines": lines})))
    expect(two, one, "after reordering", text=render(case))


FACETS = [keywords_cell, keywords_param, order_irrelevant]
