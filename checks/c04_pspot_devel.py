"""C04: pseudopotential definition strings and devel_code blocks."""

from hypothesis import strategies as st

from lib import gen as g
from lib.harness import facet
from lib.oracle import expect, parse_text
from lib.pspot import expect_pspot, pspot_st, write_pspot

spec_rows = st.lists(st.tuples(g.tagged, pspot_st), min_size=1, max_size=4, unique_by=lambda x: x[0]).map(
    lambda x: [list(y) for y in x])


@facet(spec_rows, quick=2000, rule="one or more species with a structured definition string",
       nontrivial=lambda c: any(b["proj"] for _, p in c for b in p["beta"]),
       labels=lambda c: {k for _, p in c for k in ("inner", "adj", "flags", "poly") if p[k]} | {
           "neg-energy" for _, p in c for b in p["beta"] for q in b["proj"] if q["e"] and "-" in q["e"][0]})
def pspot_strings(case):
    import castep_outputs as co
    lines = ["%BLOCK SPECIES_POT"] + [f"  {s}   {write_pspot(p)[0]}" for s, p in case] + ["%ENDBLOCK SPECIES_POT"]
    text = "\n".join(lines) + "\n"
    expect(parse_text(co.parse_cell_file, text),
           [{"species_pot": {s: expect_pspot(p) for s, p in case}}], text=text)


# ------------------------------------------------------------------ devel_code
name = st.from_regex(r"[a-z][a-z0-9]{0,5}(_[a-z0-9]{1,4})?", fullmatch=True).filter(
    lambda x: x not in ("t", "f", "true", "false") and "end" not in x)
RESERVED = {"true", "false", "t", "f"}
dval = st.one_of(
    st.tuples(st.just("int"), st.integers(-999, 99999).map(str)),
    st.tuples(st.just("float"), st.one_of(g.fixed(2, 3), g.expo(3, -9, 9))),
    st.tuples(st.just("bool"), st.sampled_from(("T", "F", "True", "False", "TRUE", "false"))),
    st.tuples(st.just("str"), st.one_of(st.from_regex(r"[A-Za-z][A-Za-z0-9_]{1,8}", fullmatch=True),
                                        st.sampled_from(("a.dat", "./x/y.txt", "re-use", "3d_x", "1-2", "2nd", "a=b", "x:y=1", "12:30:05")))
              .filter(lambda x: x.lower() not in RESERVED and "end" not in x.lower()))).map(list)
pairs = st.lists(st.tuples(name, dval), max_size=4, unique_by=lambda x: x[0]).map(lambda x: [list(y) for y in x])
dblock = g.rec(title=st.from_regex(r"[A-Z][A-Z0-9]{1,4}", fullmatch=True).filter(lambda x: "END" not in x),
               pairs=pairs, data=st.lists(st.one_of(
                   st.sampled_from(("flag", "CALCULATE_X", "fast")),
                   st.integers(0, 99).map(str)), max_size=3), newline=st.booleans(),
               first=st.booleans())
flag = st.from_regex(r"[a-z][a-z0-9]{1,5}(_[a-z][a-z0-9]{1,4})?", fullmatch=True).filter(lambda x: "end" not in x)


def devel_ok(case):
    names = [k for k, _ in case["pairs"]] + case["flags"] + [b["title"].lower() for b in case["blocks"]]
    return len(names) == len(set(names)) and len({b["title"] for b in case["blocks"]}) == len(case["blocks"])


devel_st = g.rec(pairs=pairs, flags=st.lists(flag, max_size=2, unique=True),
                 blocks=st.lists(dblock, max_size=3, unique_by=lambda x: x["title"]),
                 order=st.permutations(range(12)).map(list),
                 upper=st.booleans(), sep=st.sampled_from("==:"), split=st.booleans(), clash=st.sampled_from((None, None, "pair", "flag")), oneline=st.booleans()).filter(devel_ok)


def dvalue(val):
    kind, tok = val
    return {"int": int, "float": float, "str": str,
            "bool": lambda x: x.lower() in ("t", "true")}[kind](tok)


def autoval(tok):
    return int(tok) if tok.isdigit() else tok


def write_devel(case):
    items, exp = [], {}
    for key, val in case["pairs"]:
        items.append(f"{key.upper() if case['upper'] else key}{case['sep']}{val[1]}")
        exp[key] = dvalue(val)
    for key in case["flags"]:
        items.append(key.upper() if case["upper"] else key)
        exp[key] = None
    for blk in case["blocks"]:
        sep = "\n" if blk["newline"] else " "
        prs = [f"{k}{case['sep']}{v[1]}" for k, v in blk["pairs"]]
        if case["split"] and len(prs) > 1:  # the same block opened twice
            items.append(sep.join([blk["title"] + ":", prs.pop(0), f":END{blk['title']}"]))
        body = prs + blk["data"] if blk["first"] else blk["data"] + prs
        items.append(sep.join([blk["title"] + ":", *body, f":END{blk['title']}"]))
        sub = {k: dvalue(v) for k, v in blk["pairs"]}
        if blk["data"]:
            sub["data"] = [autoval(x) for x in blk["data"]]
        exp[blk["title"].lower()] = sub
    if case["clash"] and case["blocks"]:  # something else named as a block
        title = case["blocks"][0]["title"]
        items.append(f"{title}=17" if case["clash"] == "pair" else title)
        exp[f"_{title.lower()}"] = 17 if case["clash"] == "pair" else None
    items = [items[i] for i in case["order"] if i < len(items)] + items[len(case["order"]):]
    return (" " if case["oneline"] else "\n").join(items), exp


@facet(devel_st, quick=2500, nontrivial=lambda c: len(c["pairs"]) + len(c["blocks"]) + len(c["flags"]) > 1,
       rule="two or more devel_code entries (pairs, flags, nested blocks)",
       labels=lambda c: {k for k in ("pairs", "flags", "blocks") if c[k]})
def devel_code(case):
    import castep_outputs as co
    body, exp = write_devel(case)
    text = f"task : md\n%BLOCK DEVEL_CODE\n{body}\n%ENDBLOCK DEVEL_CODE\niprint 2\n"
    expect(parse_text(co.parse_param_file, text), [{"task": "md", "devel_code": exp, "iprint": 2}], text=text)


FACETS = [pspot_strings, devel_code]
