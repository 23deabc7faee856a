"""C34: text becomes values, and values are rearranged, by the same rules everywhere."""
import copy
import json
import re

from hypothesis import strategies as st

from lib import gen as g
from lib.gen import F, rec
from lib.harness import facet
from lib.oracle import check, expect

int_tok = st.builds("{}{}".format, st.sampled_from(("", "", "-", "+")), st.integers(0, 10 ** 6))
float_tok = st.one_of(g.fixed(3, 4), g.expo(5), g.fixed(1, 12), st.builds("{}.".format, st.integers(-99, 99)), st.builds("{}.{:03d}".format, st.sampled_from(("", "-", "+")), st.integers(0, 999)),
                      st.builds("{}{}{}{}".format, st.integers(-99, 99), st.sampled_from("eE"), st.sampled_from(("", "+", "-")), st.integers(0, 250)), g.expo(8, -300, 300, char="e"))
number = st.one_of(int_tok, float_tok)
BETWEEN = (" ", "   ", "\t", " eV ", ", ", " (", ") ", " = ", ": ", " x ", " Energy: ", " [", "] ", " | ", " A**-", " per unit cell ", "; ", " and\t")
BETWEEN = tuple(b for b in BETWEEN if not b.endswith("-"))


@facet(rec(toks=g.rows(st.tuples(st.sampled_from(BETWEEN), number).map(list), max_size=8), tail=st.sampled_from(("", "\n", " eV\n", ")", " .", " <-- E"))),
       quick=3000, rule="two numbers", nontrivial=lambda c: len(c["toks"]) > 1)
def numbers_in_text(case):
    """get_numbers finds the numbers of a line, whole and in order."""
    from castep_outputs.utilities.castep_res import get_numbers
    from castep_outputs.utilities.type_conv import to_type
    line = "".join(sep + tok for sep, tok in case["toks"]) + case["tail"]
    toks = [t for _, t in case["toks"]]
    expect(get_numbers(line), toks, repr(line))
    expect(to_type(get_numbers(line), float), [float(t) for t in toks], repr(line))


words = {"int": int_tok, "float": float_tok, "rational": g.rational_tok}
TEXTS = ("BEEF", "1a", "a1", "1.2.3", "--1", "1-2", "-", "+", ".", "1 a", "e5", "1e", "", " ", "TT", "Tru", "0x10", "1_0", "1/", "/2", "1/2/3", "nan", "inf", "1..2", "1,2", "1e5.5", "none", "1 2 x", "12 eV", "é", "½",
         "T F", "yes", "1.0d0x", "3 .", "∞", "- 1")


@facet(st.one_of(*(rec(kind=st.just(k), words=g.rows(t, min_size=1, max_size=4)) for k, t in words.items()),
                 rec(kind=st.just("mixed"), words=g.rows(st.one_of(int_tok, float_tok, g.rational_tok), min_size=1, max_size=4)),
                 rec(kind=st.just("bool"), words=st.tuples(st.sampled_from(("T", "F", "true", "False", "TRUE", "f", "tRue", "FALSE"))).map(list)),
                 rec(kind=st.just("str"), words=st.tuples(st.sampled_from(TEXTS)).map(list))),
       quick=3000, rule="not a lone plain integer", nontrivial=lambda c: not (len(c["words"]) == 1 and c["words"][0].isdigit()), labels=lambda c: [c["kind"]])
def typed_text(case):
    """determine_type names the narrowest kind which holds every word, and to_type converts to it."""
    from castep_outputs.utilities.type_conv import determine_type, to_type
    kind, toks = case["kind"], case["words"]
    text = "  ".join(toks)
    typ = determine_type(text)
    ints = all(re.fullmatch(r"[+-]?\d+", t) for t in toks)
    want = {"bool": bool, "str": str}.get(kind) or (int if ints else float)
    check(typ is want, f"{text!r} is taken for {typ.__name__}, not {want.__name__}")
    conv = {bool: lambda t: t.lower() in ("t", "true"), str: str, int: int, float: F}[want]
    if kind == "str":
        expect(to_type(text, typ), text)
        return
    expect(to_type(toks, typ), [conv(t) for t in toks], repr(text))
    expect(to_type(toks[0], typ), conv(toks[0]), repr(toks[0]))


@facet(rec(toks=st.one_of(g.rows(int_tok, min_size=1, max_size=5), g.rows(number, min_size=1, max_size=5)), one=st.booleans(), lazy=st.booleans()), quick=1500,
       rule="a sign or a fraction is present", nontrivial=lambda c: not all(t.isdigit() for t in c["toks"]))
def int_or_float(case):
    """parse_int_or_float gives integers only when every element is one."""
    from castep_outputs.utilities.type_conv import parse_int_or_float
    toks = case["toks"][:1] if case["one"] else case["toks"]
    conv = int if all(re.fullmatch(r"[+-]?\d+", t) for t in toks) else float
    if case["one"]:
        expect(parse_int_or_float(toks[0]), conv(toks[0]), toks[0])
    expect(parse_int_or_float(iter(toks) if case["lazy"] else toks), [conv(t) for t in toks], str(toks))


CONV = {"float": (float, float), "int": (int, int), "str": (str, str), "bool": (bool, lambda t: t.lower() in ("t", "true", "1")), "complex": (complex, complex)}
TOK = {"float": float_tok, "int": int_tok, "str": st.text("ab 1.", max_size=4), "bool": st.sampled_from(("T", "F", "true", "FALSE", "1", "0")), "complex": st.sampled_from(("1", "2.5", "1j", "1+2j"))}
other = st.one_of(st.none(), st.integers(-5, 5), st.booleans(), st.floats(-3, 3))


def nested(kind):
    return st.recursive(st.one_of(TOK[kind], TOK[kind], other), lambda sub: st.one_of(st.lists(sub, max_size=3), st.dictionaries(st.sampled_from("pqrs"), sub, max_size=3)), max_leaves=8)


@facet(st.sampled_from(sorted(CONV)).flatmap(lambda k: rec(kind=st.just(k), data=g.rare(st.dictionaries(st.sampled_from("abcd"), nested(k), max_size=4), st.dictionaries(st.sampled_from("abcdefghijklmnopqrst"), nested(k), min_size=10, max_size=20)),
                                                           keys=g.rare(st.lists(st.sampled_from(("a", "b", "x")), unique=True), st.lists(st.sampled_from("abcdefghijklmnopqrstxyz"), unique=True)))),
       quick=2500, rule="a key to convert is present", nontrivial=lambda c: bool(set(c["keys"]) & set(c["data"])), labels=lambda c: [c["kind"]])
def listed_keys(case):
    """to_type converts every text of a structure and nothing else; fix_data_types does so for the keys named, in place."""
    from castep_outputs.utilities.type_conv import fix_data_types, to_type
    typ, conv = CONV[case["kind"]]

    def ref(obj):
        if isinstance(obj, str):
            return conv(obj)
        if isinstance(obj, dict):
            return {k: ref(v) for k, v in obj.items()}
        return tuple(map(ref, obj)) if isinstance(obj, list) else obj
    data = copy.deepcopy(case["data"])
    expect(to_type(data, typ), ref(data), "to_type")
    check(data == case["data"], f"to_type changed its argument to {data!r}")
    res = fix_data_types(data, dict.fromkeys(case["keys"], typ))
    check(res is None, "fix_data_types returns something")
    expect(data, {k: ref(v) if k in case["keys"] else v for k, v in case["data"].items()}, "fix_data_types")


label = st.from_regex(r"[A-Za-z0-9_ .-]{1,8}", fullmatch=True).filter(lambda s: s.strip())


@facet(rec(spec=g.element, tag=g.opt(g.tag), label=g.opt(label), gap=st.sampled_from(("", " ", "  ")), rest=st.sampled_from(("", " ", "   1", " x")), index=st.integers(1, 9999), clear=st.booleans(), extra=st.dictionaries(st.sampled_from("xyz"), st.floats(-1, 1), max_size=3)),
       quick=1500, rule="a tag or a label", nontrivial=lambda c: bool(c["tag"] or c["label"]))
def atom_names(case):
    """Species, tag and label of an atom name; species and index of a table row."""
    from castep_outputs.utilities.castep_res import ATOM_RE, get_atom_parts
    from castep_outputs.utilities.utility import atreg_to_index
    name = case["spec"] + (f":{case['tag']}" if case["tag"] else "") + (f"{case['gap']}[{case['label']}]" if case["label"] else "")
    want = {"species": case["spec"]} | ({"tag": case["tag"]} if case["tag"] else {}) | ({"label": case["label"].strip()} if case["label"] else {})
    expect(get_atom_parts(name + case["rest"]), want, name)
    match = re.search(ATOM_RE, f"  {name}   {case['index']}  ")
    check(match is not None, f"no atom in {name} {case['index']}")
    expect(atreg_to_index(match), (name, case["index"]), name)
    row = {**case["extra"], "spec": name, "index": str(case["index"])}
    expect(atreg_to_index(row, clear=case["clear"]), (name, case["index"]), name)
    expect(row, case["extra"] if case["clear"] else {**case["extra"], "spec": name, "index": str(case["index"])}, "the row afterwards")


@facet(rec(text=st.text("aBZ09 \t_-.;<>()é\n*", max_size=16), other=st.text(max_size=12)), quick=2000, rule="text with words", nontrivial=lambda c: len(c["text"].split()) > 1)
def names(case):
    """normalise_string and normalise_key."""
    from castep_outputs.utilities.utility import normalise_key, normalise_string
    for text in (case["text"], case["other"]):
        got = normalise_string(text)
        expect(got, re.sub(r"\s+", " ", text).strip(), repr(text))
        expect(normalise_string(got), got, "again")
    text = case["text"]
    got = normalise_key(text)
    expect(got, "_".join(w for w in re.split(r"[^a-z0-9é]+", text.lower()) if w), repr(text))
    expect(normalise_key(got), got, "again")


KEYS = ("a", "b", "c", "_a", "_d", "e", *"fghijklmno")
flat = g.rare(st.dictionaries(st.sampled_from(KEYS[:6]), st.one_of(st.none(), st.integers(0, 9)), max_size=6),
              st.dictionaries(st.sampled_from(KEYS), st.one_of(st.none(), st.integers(0, 9)), min_size=9, max_size=16))


@facet(rec(data=flat, more=st.lists(flat, max_size=4), sub=st.lists(st.sampled_from(KEYS[:9]), unique=True), inc=g.opt(st.lists(st.sampled_from(KEYS), unique=True)),
           alias=st.dictionaries(st.sampled_from(KEYS), st.sampled_from(("X", "Y", "Z")), max_size=3), replace=st.booleans(), inplace=st.booleans(), seq=st.lists(st.integers(0, 5), max_size=3)),
       quick=2000, rule="data present", nontrivial=lambda c: len(c["data"]) > 1)
def dictionaries(case):
    """The small helpers on dictionaries, each against a one-line model."""
    from collections import defaultdict

    from castep_outputs.utilities import utility as ut
    data = dict(case["data"])
    ut.strip_nones(data, include=case["inc"], exclude=case["sub"])
    expect(data, {k: v for k, v in case["data"].items() if v is not None or k in case["sub"] or (case["inc"] is not None and k not in case["inc"])}, "strip_nones")
    expect(ut.filter_underscore(case["data"]), {k: v for k, v in case["data"].items() if k[0] != "_"}, "filter_underscore")

    stacked = defaultdict(list)
    for item in (case["data"], *case["more"]):
        ut.stack_dict(stacked, item)
    expect(dict(stacked), {k: [d[k] for d in (case["data"], *case["more"]) if k in d] for k in {k for d in (case["data"], *case["more"]) for k in d}}, "stack_dict")

    data = dict(case["data"])
    alias = {}
    for frm, new in case["alias"].items():      # one name each
        if new not in alias.values():
            alias[frm] = new
    res = ut.add_aliases(data, alias, replace=case["replace"], inplace=case["inplace"])
    want = {k: v for k, v in case["data"].items() if not (case["replace"] and k in alias)} | {new: case["data"][frm] for frm, new in alias.items() if frm in case["data"]}
    expect(res, want, "add_aliases")
    check((res is data) == case["inplace"], "add_aliases: in place or not")
    if not case["inplace"]:
        expect(data, case["data"], "add_aliases: the original")

    try:
        got = ut.get_only(case["seq"])
    except ValueError:
        got = ValueError
    check(got == (case["seq"][0] if len(case["seq"]) == 1 else ValueError), f"get_only({case['seq']}) gives {got}")


tree = st.recursive(st.one_of(st.none(), st.integers(0, 9), st.text("xy", max_size=2)),
                    lambda sub: st.one_of(st.lists(sub, max_size=3).map(lambda v: v), st.dictionaries(st.sampled_from(("k", "m", "long key")), sub, max_size=3)), max_leaves=12)


@facet(rec(data=st.dictionaries(st.sampled_from(("p", "q", "r")), tree, max_size=3), sep=st.sampled_from(("_", ".", "/", "--")), default=st.booleans(), parent=st.sampled_from(("", "top"))),
       quick=2000, rule="something nested", nontrivial=lambda c: any(isinstance(v, (list, dict)) and v for v in c["data"].values()))
def flattened(case):
    """flatten_dict: one entry for every leaf, named by its path."""
    from castep_outputs.utilities.utility import flatten_dict
    sep = "_" if case["default"] else case["sep"]
    want = {}

    def walk(obj, path):
        if isinstance(obj, dict):
            for k, v in obj.items():
                walk(v, [*path, k])
        elif isinstance(obj, list):
            for k, v in enumerate(obj):
                walk(v, [*path, str(k)])
        else:
            want[sep.join(path)] = obj
    walk(case["data"], [case["parent"]] if case["parent"] else [])
    before = copy.deepcopy(case["data"])
    kw = {} if case["default"] else {"separator": sep}
    expect(flatten_dict(case["data"], case["parent"], **kw), want, f"separator {sep!r}")
    check(before == case["data"], "flatten_dict changed its argument")


atom = st.tuples(g.tagged, st.integers(1, 99)).map(tuple)
safe_key = st.one_of(st.sampled_from(("a", "b c", "d")), st.tuples(atom).map(lambda a: ["t", list(a[0])]), st.lists(atom, min_size=2, max_size=3).map(lambda a: ["tt", [list(x) for x in a]]))
safe_tree = st.recursive(st.one_of(st.integers(0, 9), st.floats(-9, 9), st.none(), st.text("xy", max_size=2), st.tuples(st.floats(-9, 9), st.floats(-9, 9)).map(lambda c: ["c", *c])),
                         lambda sub: st.one_of(st.lists(sub, max_size=3).map(lambda v: ["l", v]), st.lists(st.tuples(safe_key, sub).map(list), max_size=3, unique_by=lambda kv: str(kv[0])).map(lambda v: ["d", v])), max_leaves=10)


@facet(safe_tree, quick=2000, rule="a container", nontrivial=lambda c: isinstance(c, list) and c[0] in "ld")
def json_ready(case):
    """json_safe: any nested data becomes what JSON holds, keys joined and complex numbers split."""
    from castep_outputs.utilities.utility import json_safe

    def make(node, key):
        if not isinstance(node, list):
            return node
        if node[0] == "c":
            return complex(node[1], node[2]) if key == "raw" else {"real": node[1], "imag": node[2]}
        if node[0] == "l":
            return [make(v, key) for v in node[1]]
        out = {}
        for k, v in node[1]:
            if not isinstance(k, str):
                k = (tuple(k[1]) if k[0] == "t" else tuple(map(tuple, k[1]))) if key == "raw" else "_".join(map(str, k[1] if k[0] == "t" else sum(k[1], [])))
            out[k] = make(v, key)
        return out
    res = json_safe(make(case, "raw"))
    expect(json.loads(json.dumps(res)), make(case, "safe"), "json_safe")


LAB = ("x", "y", "z", "w")


@facet(rec(groups=st.lists(st.tuples(st.lists(number, min_size=1, max_size=4), st.booleans()).map(list), min_size=1, max_size=4), sep=st.sampled_from((" ", "   ", "\t", ",", ";")), suffix=st.sampled_from(("", "", " MB", "%")), unit=st.sampled_from(("", " eV", "\n"))),
       quick=2000, rule="several groups", nontrivial=lambda c: len(c["groups"]) > 1)
def labelled(case):
    """labelled_floats captures each labelled number, or group of numbers, whole."""
    from castep_outputs.utilities.castep_res import labelled_floats
    groups = case["groups"]
    many = any(grp for _, grp in groups)
    sep = case["sep"] if not (case["sep"] in ",;" and many) else " "
    suffix = "" if many else case["suffix"]
    counts = [len(toks) if grp else None for toks, grp in groups]
    toks = [t if grp else t[:1] for t, grp in groups]
    kw = {} if not sep.strip() else {"sep": sep}
    pat = labelled_floats(LAB[:len(groups)], **({"counts": counts} if many else {}), **kw, **({"suffix": suffix} if suffix else {}))
    text = "".join("".join(sep + t + suffix for t in grp) for grp in toks) + case["unit"]
    match = re.match(pat if sep.strip() else r"\s*" + pat, (" " if not sep.strip() else "") + text)
    check(match is not None, f"{text!r} not recognised by {pat}")
    expect({k: v.split() for k, v in match.groupdict().items()}, {LAB[i]: t for i, t in enumerate(toks)}, repr(text))


FACETS = [numbers_in_text, typed_text, int_or_float, listed_keys, atom_names, names, dictionaries, flattened, json_ready, labelled]
