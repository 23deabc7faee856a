"""C27: every way of handing a file to the package gives the same data."""
import io
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from lib import files
from lib.gen import rec
from lib.harness import Violation, facet
from lib.oracle import expect

STEMS = ("seed", "Si2", "run.2", "a b", "Ünïcode", "UPPER", "x-1_2", "castep", "cell.param", "run.2.1", "a..b", "..x", ".hidden")
EXTS = ("", ".txt", ".out", ".old", ".dat.bak")


def handle(typ, raw, kind):
    if typ in files.BINARY:
        return io.BytesIO(raw)
    return io.StringIO(raw.decode("utf-8")) if kind == "memory" else io.TextIOWrapper(io.BytesIO(raw), encoding="utf-8")


def routes(typ, raw, tmp, stem, other):
    """Name and result of every way of reading the file."""
    import castep_outputs as co
    parser = files.parser_for(typ)
    named, renamed = tmp / f"{stem}.{typ}", tmp / f"{stem}-copy{other}"
    named.write_bytes(raw)
    renamed.write_bytes(raw)

    yield "parser(handle)", parser(handle(typ, raw, "memory"))
    yield "parser(file-like)", parser(handle(typ, raw, "wrapped"))
    yield "parser(str)", parser(str(named))
    yield "parser(Path)", parser(named)
    yield "parser(renamed)", parser(renamed)
    with open(named, "rb") if typ in files.BINARY else open(named, encoding="utf-8") as file:
        yield "parser(open file)", parser(file)
    yield "parse_single(str)", co.parse_single(str(named))
    yield "parse_single(Path)", co.parse_single(named)
    yield "parse_single(renamed, function)", co.parse_single(renamed, parser)
    yield "parse_single(renamed, name)", co.parse_single(str(renamed), typ)
    yield "parse_single(handle, function)", co.parse_single(handle(typ, raw, "memory"), parser)
    yield "parse_single(handle, name)", co.parse_single(handle(typ, raw, "memory"), parser=typ)
    for name in (named, renamed):
        if name.read_bytes() != raw:
            raise Violation(f"{name.name} was changed by reading it")


@facet(rec(file=files.file_st(), stem=st.sampled_from(STEMS), other=st.sampled_from(EXTS)), quick=1600,
       rule="any generated file", labels=lambda c: [c["file"]["type"]])
def same_data(case):
    typ = case["file"]["type"]
    raw = files.raw(typ, case["file"]["case"])
    with tempfile.TemporaryDirectory() as tmp:
        first = None
        for name, data in routes(typ, raw, Path(tmp), case["stem"], case["other"]):
            if first is None:
                first = data
            else:
                expect(data, first, name, text=repr(raw))


@facet(rec(file=files.file_st(), before=st.sampled_from(("", "x", "a line\n", "BEGIN\n\n 1 2 3\n", "0 1 2 3 end\n"))), quick=700, rule="any generated file",
       labels=lambda c: [c["file"]["type"]])
def callers_handle(case):
    """A handle stays its owner's: it is read from where it stands, left open, and can be read again."""
    typ = case["file"]["type"]
    raw, before = files.raw(typ, case["file"]["case"]), case["before"].encode()
    parser = files.parser_for(typ)
    first = parser(handle(typ, raw, "memory"))
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / "file"
        path.write_bytes(before + raw)
        for kind in ("memory", "wrapped", "open"):
            if kind == "open":
                file = path.open("rb") if typ in files.BINARY else path.open(encoding="utf-8")
            else:
                file = handle(typ, before + raw, kind)
            with file:
                file.read(len(before))
                start = file.tell()
                expect(parser(file), first, f"handle ({kind}) at {start}", text=repr(before + raw))
                if file.closed:
                    raise Violation(f"parsing a .{typ} file closed the handle it was given ({kind})")
                file.seek(start)
                expect(parser(file), first, f"handle ({kind}), read again", text=repr(before + raw))


TEXT_TYPES = tuple(t for t in files.TYPES if t not in files.BINARY)


@facet(rec(file=files.file_st(TEXT_TYPES), chomp=st.booleans()), quick=800, rule="any generated text file",
       labels=lambda c: [c["file"]["type"]])
def line_endings(case):
    """Carriage returns at the line ends (a file from another system) change nothing."""
    typ = case["file"]["type"]
    raw = files.raw(typ, case["file"]["case"])
    parser = files.parser_for(typ)
    with tempfile.TemporaryDirectory() as tmp:
        unix, dos = Path(tmp) / f"unix.{typ}", Path(tmp) / f"dos.{typ}"
        unix.write_bytes(raw)
        dos.write_bytes(raw.replace(b"\n", b"\r\n"))
        expect(parser(dos), parser(unix), "CRLF", text=repr(raw))


@facet(rec(file=files.file_st(), good=st.sampled_from(files.TYPES),
           bad=st.sampled_from(("", "check", "castep_bin", "CASTEP", "castep2", "cel", "den", "nothing", "txt", "orbitals"))),
       quick=600, rule="any type nobody can parse")
def unknown_type(case):
    """A file of unknown type is refused, not guessed at."""
    import castep_outputs as co
    typ = case["file"]["type"]
    raw = files.raw(typ, case["file"]["case"])
    bad = case["bad"].lstrip(".")
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / f"seed.{bad}"
        path.write_bytes(raw)
        known = Path(tmp) / f"seed.{typ}"
        known.write_bytes(raw)
        for what, args in ((f"parse_single(seed.{bad})", (path,)), (f"parse_single('seed.{bad}')", (str(path),)),
                           ("parse_single(handle)", (handle(typ, raw, "memory"),)),
                           (f"parse_single(seed.{bad}, {case['bad']!r})", (path, bad)),
                           (f"parse_single(handle, {case['bad']!r})", (handle(typ, raw, "memory"), bad)),
                           (f"parse_single(seed.{typ}, {case['bad']!r})", (known, bad))):
            try:
                data = co.parse_single(*args)
            except ValueError:
                continue
            raise Violation(f"{what} gave {data!r:.200}")


FACETS = [same_data, callers_handle, line_endings, unknown_type]
