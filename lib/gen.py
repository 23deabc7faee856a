"""Shared Hypothesis strategies producing JSON data (numbers are kept as text tokens)."""
from __future__ import annotations

from hypothesis import strategies as st

ELEMENTS = ("H", "He", "Li", "B", "C", "N", "O", "F", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "K",
            "Ca", "Ti", "Mn", "Fe", "Ni", "Cu", "Sr", "Y", "Sm", "W", "U", "Pb")

element = st.sampled_from(ELEMENTS)
#: Element, or element with tag.
tag = st.from_regex(r"[A-Za-z0-9_]{1,6}", fullmatch=True)
tagged = st.one_of(element, element, st.builds("{}:{}".format, element, tag))

word = st.from_regex(r"[A-Za-z][A-Za-z_]{0,9}", fullmatch=True)


def F(tok: str) -> float:
    """Independent reading of a numeric token (decimal or rational)."""
    if "/" in tok:
        num, den = tok.split("/")
        return int(num) / int(den)
    return float(tok)


def fixed(nint: int = 3, ndec: int = 6, signed: bool = True):
    """Fortran Fw.d style token: optional sign, digits, point, exactly ndec digits."""
    top = 10 ** (nint + ndec) - 1

    def fmt(val):
        sign = "-" if val < 0 else ""
        txt = str(abs(val)).rjust(ndec + 1, "0")
        return f"{sign}{txt[:-ndec]}.{txt[-ndec:]}"

    small = 10 ** ndec
    lo = -top if signed else 0
    return st.one_of(st.integers(lo, top), st.integers(-small if signed else 0, small)).map(fmt)


def expo(ndec: int = 6, lo: int = -30, hi: int = 30, signed: bool = True, char: str = "E"):
    """Exponent token such as -1.234560E-03."""
    return st.builds(
        lambda neg, man, exp: f"{'-' if neg and signed else ''}{man[0]}.{man[1:]}{char}{exp:+03d}",
        st.booleans(),
        st.text("0123456789", min_size=ndec + 1, max_size=ndec + 1),
        st.integers(lo, hi),
    )


#: False, save now and then.
rarely = st.integers(0, 6).map(lambda i: i == 6)


def inttok(lo: int = 0, hi: int = 9999):
    return st.integers(lo, hi).map(str)


posint = inttok(1, 9999)


#: Any real token CASTEP input may carry (no rationals).
real_tok = st.one_of(
    fixed(3, 4), fixed(1, 10), expo(4),
    st.integers(-999, 999).map(str),
    st.builds("{}{}.".format, st.sampled_from(("", "-")), st.integers(0, 99)),
    st.builds("{}.{:03d}".format, st.sampled_from(("", "-", "+")), st.integers(0, 999)),
    st.builds("{}e{}".format, st.integers(1, 9), st.integers(-12, 12)),
    st.builds("{}{}".format, st.just("+"), st.integers(0, 99)),
)

rational_tok = st.builds("{}{}/{}".format, st.sampled_from(("", "", "-", "+")), st.integers(0, 99),
                         st.integers(1, 99))


def vec(tok, n=3):
    return st.lists(tok, min_size=n, max_size=n)


def mat(tok, n=3, m=3):
    return vec(vec(tok, m), n)


def rec(**kw):
    return st.fixed_dictionaries(kw)


def opt(strategy):
    return st.one_of(st.none(), strategy)


def rare(usual, unusual):
    """Mostly the usual strategy, once in a while the unusual one."""
    return st.integers(0, 23).flatmap(lambda k: unusual if k == 17 else usual)


def rows(elem, *, min_size=0, max_size, big=(22, 32), **kw):
    """List of min_size to max_size rows, once in a while far more."""
    return rare(st.lists(elem, min_size=min_size, max_size=max_size, **kw), st.lists(elem, min_size=big[0], max_size=big[1], **kw))


def table(key, val, *, min_size=0, max_size, big=(22, 28)):
    """Dictionary of min_size to max_size entries, once in a while far more."""
    return rare(st.dictionaries(key, val, min_size=min_size, max_size=max_size),
                st.dictionaries(key, val, min_size=big[0], max_size=big[1]))


def count(lo, hi, big=(22, 30)):
    """Integer from lo to hi, once in a while far more."""
    return rare(st.integers(lo, hi), st.integers(*big))


spaces = st.sampled_from((" ", "  ", "   ", "\t", " \t ", "      "))
blank = st.sampled_from(("", " ", "    "))


def uniq(strategy, lo=1, hi=6):
    return st.lists(strategy, min_size=lo, max_size=hi, unique=True)


def name_case(draw, text):
    """Randomly re-case text (draw = composite's draw)."""
    mode = draw(st.sampled_from(("lower", "upper", "title", "asis")))
    return {"lower": text.lower(), "upper": text.upper(), "title": text.title(), "asis": text}[mode]


#: Seed of a table of values, expanded by `spread` (keeps cases small while every entry differs).
seed_st = st.integers(0, 10 ** 9)


def fold(seed, idx):
    """Index of the value to use: some tables hold runs of six equal values, or repeat their first 25."""
    return idx - idx % 6 if seed % 11 == 5 else idx % 25 if seed % 11 == 7 else idx


def spread(seed, idx, nint=3, ndec=6, signed=True):
    """Fixed-point token number `idx` of the table called `seed` (pure function of its arguments).

    Every so often it is zero or repeats the token before: these are values like any other.
    """
    idx = fold(seed, idx)
    mark = seed * 31 + idx * 17 + (seed >> 5)
    if mark % 9 == 0:
        return "0." + "0" * ndec
    if mark % 13 == 1 and idx > 0:
        return spread(seed, idx - 1, nint, ndec, signed)
    top = 10 ** (nint + ndec)
    val = ((seed + 1) * 2654435761 + (idx + 1) * 40503 * 2246822519 + (seed % 97) * idx * 7919)
    neg = signed and (val >> 7) % 3 == 0
    txt = str((val >> 3) % top).rjust(ndec + 1, "0")
    return f"{'-' if neg else ''}{txt[:-ndec]}.{txt[-ndec:]}"


def spread_expo(seed, idx, ndec=9, lo=-30, hi=9, width=3, lead=True):
    """Exponent token such as -1.23456789E-003 number `idx` of the table called `seed`."""
    man = spread(seed, idx, 1, ndec)
    exp = lo + ((seed >> 2) + fold(seed, idx) * 7919) % (hi - lo + 1)
    return f"{man}E{exp:+0{width + 1}d}"
