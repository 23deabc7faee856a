"""C06: Fortran unformatted record reader agrees with a list-with-cursor model under any history."""
import io

from hypothesis import strategies as st

from lib import fortran, gen as g
from lib.harness import Violation, facet
from lib.oracle import check, expect

i32 = st.one_of(st.integers(-2 ** 31, 2 ** 31 - 1), st.integers(0, 300))
f64 = st.floats(allow_nan=False, allow_infinity=False)
TYPES = {"int": int, "bool": bool, "float": float, "complex": complex, "str": str}
rec_st = st.one_of(
    st.tuples(st.just("int"), g.rows(i32, min_size=0, max_size=5, big=(60, 90))),
    st.tuples(st.just("bool"), st.lists(st.booleans(), min_size=1, max_size=4)),
    st.tuples(st.just("float"), g.rows(f64, min_size=0, max_size=5, big=(60, 90))),
    st.tuples(st.just("complex"), st.lists(st.tuples(f64, f64).map(list), min_size=1, max_size=3)),
    st.tuples(st.just("str"), st.lists(st.text(st.characters(min_codepoint=32, max_codepoint=126),
                                               max_size=300), min_size=1, max_size=1)),
).map(list)
small = g.count(0, 12)
op_st = st.one_of(
    st.tuples(st.sampled_from(("next", "get", "drain", "past"))).map(list),
    st.tuples(st.sampled_from(("skip", "rewind", "skipneg")), small).map(list),
    st.tuples(st.sampled_from(("iter", "dict")), st.integers(0, 4)).map(list),
    st.tuples(st.just("cycle"), st.integers(1, 2), st.integers(0, 3)).map(list),
)
case_st = g.rec(recs=g.rows(rec_st, min_size=0, max_size=14), ops=st.lists(op_st, min_size=1, max_size=25))


def typ(rec, tup):
    kind, vals = rec
    return TYPES[kind] if (len(vals) == 1 and not tup) or kind == "str" else (TYPES[kind], ...)


def val(rec, tup):
    out = fortran.pyvals(*rec)
    return out[0] if (len(out) == 1 and not tup) or rec[0] == "str" else out


@facet(case_st, quick=3000, nontrivial=lambda c: len(c["recs"]) > 2 and any(
    o[0] in ("rewind", "skipneg") for o in c["ops"]),
       rule="at least three records and at least one rewind", labels=lambda c: {o[0] for o in c["ops"]})
def history(case):
    from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader
    recs = case["recs"]
    raw = [fortran.payload(*r) for r in recs]
    reader = FortranBinaryReader(io.BytesIO(fortran.write([[r] for r in recs])))
    pos, step = 0, 0
    for step, (op, *args) in enumerate(case["ops"]):
        left = len(recs) - pos
        what = f"step {step} {op}{args} at record {pos}/{len(recs)}"
        if op == "next" and left:
            expect(next(reader), raw[pos], what)
            pos += 1
        elif op == "get" and left:
            expect(reader.get(typ(recs[pos], step % 2)), val(recs[pos], step % 2), what)
            pos += 1
        elif op == "drain":
            expect(list(reader), raw[pos:], what)
            pos = len(recs)
        elif op == "past" and not left:
            check(next(reader, None) is None, f"{what}: record invented after the end")
        elif op == "skip":
            n = min(args[0], left)
            reader.skip(n)
            pos += n
        elif op == "rewind":
            n = min(args[0], pos)
            if n:
                reader.rewind(n) if n > 1 or step % 2 else reader.rewind()
            pos -= n
        elif op == "skipneg":
            n = min(args[0], pos)
            reader.skip(-n)
            pos -= n
        elif op == "iter":
            n = min(args[0], left)
            want = recs[pos:pos + n]
            expect(list(reader.get_dtype_iter(tuple(typ(r, True) for r in want))),
                   [val(r, True) for r in want], what)
            pos += n
        elif op == "dict":
            n = min(args[0], left)
            want = recs[pos:pos + n]
            expect(reader.get_dtype_dict({f"k{i}": typ(r, False) for i, r in enumerate(want)}),
                   {f"k{i}": val(r, False) for i, r in enumerate(want)}, what)
            pos += n
        elif op == "cycle":
            width, n = args
            # A cycle re-reads the same types: find how many rows of this shape really follow.
            shape = [(r[0], len(r[1]) != 1) for r in recs[pos:pos + width]]
            rows = 0
            while rows < n and len(shape) == width and [
                    (r[0], len(r[1]) != 1) for r in recs[pos + rows * width:pos + (rows + 1) * width]] == shape:
                rows += 1
            types = tuple(typ(r, True) for r in recs[pos:pos + width])
            got = list(reader.get_dtype_cycle(types, n=rows)) if rows else []
            expect(got, [tuple(val(r, True) for r in recs[pos + i * width:pos + (i + 1) * width])
                         for i in range(rows)], what)
            pos += rows * width
    expect(list(reader), raw[pos:], "records remaining after the history")


@facet(rec_st.filter(lambda r: r[1]), quick=1500, rule="one typed record",
       nontrivial=lambda c: len(c[1]) > 1, labels=lambda c: {c[0]})
def bytes_convert(case):
    """Typed conversion of raw bytes; a scalar request for several values is refused."""
    from castep_outputs.utilities.type_conv import parse_bytes
    kind, vals = case
    raw = fortran.payload(kind, vals)
    expect(parse_bytes(raw, (TYPES[kind], ...)), fortran.pyvals(kind, vals), f"{kind} vector")
    if len(vals) == 1:
        expect(parse_bytes(raw, TYPES[kind]), fortran.pyvals(kind, vals)[0], f"{kind} scalar")
    else:
        try:
            got = parse_bytes(raw, TYPES[kind])
        except ValueError:
            return
        raise Violation(f"scalar {kind} requested from {len(vals)} values gave {got!r}")


FACETS = [history, bytes_convert]
