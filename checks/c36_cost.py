"""C36: the cost of reading grows with what is read, not faster."""
import io
import itertools
import re
import signal
import sys
import tempfile
import time
from pathlib import Path

from hypothesis import strategies as st

from castep_outputs.utilities.filewrapper import Block, FileWrapper

from lib import files, gen as g, mdgeom
from lib.castep import SECTIONS
from lib.harness import HarnessError, Violation, facet
from lib.oracle import expect

TEXT_TYPES = tuple(t for t in files.TYPES if t not in files.BINARY)
#: Half of the files are .castep files, where the work is.
file_st = st.one_of(files.file_st(("castep",)), files.file_st(("castep", "cell", "param")), files.file_st(TEXT_TYPES))
MON = sys.monitoring
#: .castep files of one section, so that each section has its turn.
one_section = st.sampled_from(sorted(SECTIONS)).flatmap(lambda n: g.rec(type=st.just("castep"), case=g.rec(
    parts=SECTIONS[n].strategy.map(lambda c: [[n, c]]), noise=st.just([[]] * 5))))


class TooLong(BaseException):
    pass


def too_long(*_):
    raise TooLong


class Steps:
    """Counts the steps (lines entered, jumps taken) made in castep_outputs."""

    def __enter__(self):
        self.count = 0
        ev = MON.events
        MON.use_tool_id(4, "cost")
        for event in (ev.LINE, ev.JUMP, ev.BRANCH):
            MON.register_callback(4, event, self.step)
        MON.set_events(4, ev.LINE | ev.JUMP | ev.BRANCH)
        return self

    def step(self, code, *_):
        if "/castep_outputs/" not in code.co_filename:
            return MON.DISABLE
        self.count += 1
        return None

    def __exit__(self, *_):
        MON.set_events(4, 0)
        MON.free_tool_id(4)


def chunk(text, case):
    """What surrounds some lines of the text, and these lines."""
    lines = text.split("\n")
    at = case["at"] % len(lines)
    end = at + case["len"] if case["len"] else len(lines)
    return lines[:at], lines[at:end], lines[end:]


def attempt(parser, lines):
    """True if the file is accepted."""
    text = "\n".join(lines)
    try:
        parser(io.StringIO(text))
    except RecursionError as exc:
        raise Violation(f"RecursionError for {len(lines)} lines, such as {lines[len(lines) // 2]!r}") from exc
    except Exception:  # noqa: BLE001  (refused: what it cost does not matter)
        return False
    return True


def cost(parser, lines):
    with Steps() as steps:
        good = attempt(parser, lines)
    return steps.count if good else None


ROOM = 24000        # characters of repeated lines


@facet(g.rec(file=file_st, at=st.integers(0, 10 ** 6), len=st.sampled_from((0, 1, 1, 2, 3, 4, 6, 9))), quick=700, thorough=12000,
       rule="lines which fit ten times or more", nontrivial=lambda c: repeats(c)[1] >= 10, labels=lambda c: [c["file"]["type"], f"lines={c['len'] or 'all'}"])
def more_of_the_same(case):
    """Repeating lines four times as often costs at most four times as much."""
    (pre, mid, post), many = repeats(case)
    if many < 4:
        return
    parser = files.parser_for(case["file"]["type"])
    def f(times):
        return cost(parser, [*pre, *mid * (times * many), *post])
    four, one = f(4), None
    if four is not None:
        one = f(1)
    if one is None or four <= 4.4 * one + 2000:
        return
    # What comes first may cost less than what follows, so that a line which misses the origin is no reason for alarm.
    costs = [one, f(2), four, f(8), f(16)]
    if None not in costs and costs[4] - costs[3] > 2.2 * (costs[3] - costs[2]):
        raise Violation(f"{many} copies of {mid[:4]} and 2, 4, 8, 16 times as many cost {costs} steps, in\n" + "\n".join([*pre, *mid, *post]))


def repeats(case):
    """The parts of the file, and how often the middle one fits into the room there is."""
    parts = chunk(files.raw(case["file"]["type"], case["file"]["case"]).decode(), case)
    return parts, min(100, ROOM // (4 * sum(len(ln) + 1 for ln in parts[1])))


@facet(g.rec(file=file_st, at=st.integers(0, 10 ** 6), len=st.sampled_from((1, 1, 1, 2, 3, 0))), quick=400, thorough=6000, rule="one or two lines repeated a thousand times",
       nontrivial=lambda c: c["len"] in (1, 2), labels=lambda c: [c["file"]["type"]])
def many_lines(case):
    """Any number of lines is read without running out of stack."""
    pre, mid, post = repeats(case)[0]
    attempt(files.parser_for(case["file"]["type"]), [*pre, *mid * min(1100, 1 + 100000 // sum(len(ln) + 1 for ln in mid)), *post])


def cpu(parser, lines):
    before = time.process_time()
    good = attempt(parser, lines)
    return time.process_time() - before if good else None


HUGE = 8            # how many times as many lines
MOST = 96000        # lines of the larger file


@facet(g.rec(file=st.one_of(files.file_st(TEXT_TYPES), one_section), at=st.integers(0, 10 ** 6), len=st.sampled_from((1, 1, 2, 3, 0))), quick=120, thorough=2400,
       rule="ten thousand lines or more", nontrivial=lambda c: huge_case(c)[1] * max(1, len(huge_case(c)[0][1])) >= 10000, labels=lambda c: [c["file"]["type"]])
def huge_files(case):
    """Time does not grow with the square of the lines in files of tens of thousands of lines either (what happens inside the C library is seen here only)."""
    (pre, mid, post), many = huge_case(case)
    if not many:
        return
    parser = files.parser_for(case["file"]["type"])
    one = cpu(parser, [*pre, *mid * (many // HUGE), *post])
    if one is None or one > 0.8:
        return
    all_ = cpu(parser, [*pre, *mid * many, *post])
    if all_ is not None and all_ > 3 * HUGE * one + 2:
        again = cpu(parser, [*pre, *mid * (many // HUGE), *post]) or 0
        if all_ > 3 * HUGE * again + 2:
            raise Violation(f"{many // HUGE} copies of {mid[:4]} took {one:.2f} s and {many} copies {all_:.2f} s, in\n" + "\n".join([*pre, *mid, *post]))


def huge_case(case):
    parts = chunk(files.raw(case["file"]["type"], case["file"]["case"]).decode(), case)
    return parts, min(MOST // max(1, len(parts[1])), 8_000_000 // sum(len(ln) + 1 for ln in parts[1]))


READS = ("iterate", "from_re", "get_lines", "remove_bounds", "asstringio", "rewind", "nested", "index", "from_iterable")


@facet(g.rec(line=st.sampled_from(("a line\n", "1.0 2.0 3.0\n", "x\n", "  y = 2  # remark\n")), inner=st.sampled_from(("file", "StringIO", "block")), ops=st.lists(st.sampled_from(READS), min_size=1, max_size=6)),
       quick=80, thorough=1200, rule="every case", labels=lambda c: [c["inner"], *c["ops"]])
def long_blocks(case):
    """Files and blocks of two hundred thousand lines are cursors at no more cost a line than small ones."""
    count = 200_000
    before = signal.signal(signal.SIGVTALRM, too_long)
    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    try:
        text = "start\n" + case["line"] * count + "end\n"
        with tempfile.TemporaryDirectory() as tmp:
            if case["inner"] == "file":
                path = Path(tmp) / "long"
                path.write_text(text, encoding="utf-8")
                with path.open(encoding="utf-8") as file:
                    cursor(FileWrapper(file), case, count)
            elif case["inner"] == "StringIO":
                cursor(FileWrapper(io.StringIO(text)), case, count)
            else:
                cursor(Block.from_iterable(text.splitlines(keepends=True)), case, count)
    except TooLong:
        raise Violation(f"no answer after 20 CPU seconds for {count} lines: {case}") from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, before)


def cursor(src, case, count):
    for op in case["ops"]:
        want = count + 2
        if op == "iterate":
            got = sum(1 for _ in src)
        elif op in ("from_re", "nested"):
            src = Block.from_re(next(src), src, "^start", "^end")
            got = len(src)
        elif op == "get_lines":
            src = Block.get_lines(src, count + 2)
            got = len(src)
        elif op == "asstringio":
            src = src.asstringio() if isinstance(src, Block) else src.file
            got = sum(1 for _ in src)
            src.seek(0)
            src = FileWrapper(src)
        elif op == "rewind":
            got = 0
            for _ in src:
                src.rewind()
                next(src)
                got += 1
        elif op == "index" and isinstance(src, Block):
            got = sum(1 for k in range(len(src)) if src[k] and src.lineno)
            src = Block.from_iterable(src.aslist())
        else:
            src = Block.from_iterable(src)
            got = len(src)
            if op == "remove_bounds":
                data = src.aslist()
                src.remove_bounds(1, 1)
                got = len(src) + 2
                src = Block.from_iterable(data)
        if got != want:
            raise Violation(f"{op}: {got} lines of {want} in {case}")
        if op in ("iterate", "rewind"):
            return


# ------------------------------------------------------------------------------------------- long lines
WIDE = 320
LINE_CPU = 12.0     # CPU seconds; the slowest line takes about one
UNITS = (" ", "-", "*", "1", "1 ", "a", "a ", "(", "()", "| ", "+", "=", "1.", "x ", ": ", "[", "]", "{", "1 1 ", "1.0E+01 ")


def widen(line, seed):
    """The line with a part of it, or something else, repeated over hundreds of columns."""
    seed = (seed + 1) * 2654435761 % 2 ** 32
    pos = seed // 7 % (len(line) + 1)
    if seed // 3 % 5 < 3:
        unit = line[pos:pos + 1 + seed // 11 % 12] or " "
    else:
        unit = UNITS[seed // 13 % len(UNITS)]
    wide = line[:pos] + (unit * WIDE)[:WIDE] + line[pos:]
    # What nearly matches takes longest.
    return (wide, wide, wide[:pos + WIDE] + "!" + wide[pos + WIDE:], wide + "!", line[:pos] + "!" + line[pos:])[seed // 17 % 5]


@facet(g.rec(file=st.one_of(one_section, one_section, files.file_st(TEXT_TYPES)), seed=g.seed_st, most=st.just(45)), quick=700, thorough=9000,
       rule="a file of five lines or more", nontrivial=lambda c: len(files.raw(c["file"]["type"], c["file"]["case"]).splitlines()) > 4,
       labels=lambda c: [c["file"]["type"], *([c["file"]["case"]["parts"][0][0]] if c["file"]["type"] == "castep" else [])])
def long_lines(case):
    """A line of a few hundred characters is read, or refused, at once, whichever line it is."""
    lines = files.raw(case["file"]["type"], case["file"]["case"]).decode().split("\n")
    parser = files.parser_for(case["file"]["type"])
    if len(lines) > 300:
        return
    step = max(1, len(lines) // case["most"])
    for k, more in itertools.product(range(case["seed"] % step, len(lines), step), range(2)):
        line = widen(lines[k], case["seed"] + 7919 * (2 * k + more))
        if re.search(r"[eEdD][+-]?\d{4,}", line):
            continue  # Numbers of thousands of digits are numbers of thousands of digits
        before = signal.signal(signal.SIGVTALRM, too_long)
        signal.setitimer(signal.ITIMER_VIRTUAL, LINE_CPU)
        try:
            attempt(parser, [*lines[:k], line, *lines[k + 1:]])
        except TooLong:
            raise Violation(f"no answer after {LINE_CPU} CPU seconds for the line {line!r} in place of\n{lines[k]}") from None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, before)


# ------------------------------------------------------------------------------------------- lazy reading
def bytes_read():
    """Bytes this process has read from files so far."""
    return int(re.search(r"rchar: (\d+)", Path("/proc/self/io").read_text())[1])


SLACK = 65536


@facet(g.rec(case=mdgeom.file_st(uniform=True, max_frames=1), ops=st.lists(st.tuples(st.sampled_from(("get", "index", "next", "iter", "len")), st.floats(0, 1)).map(list), min_size=1, max_size=8)),
       quick=300, thorough=3000, rule="every case", labels=lambda c: [op[0] for op in c["ops"]])
def lazily(case):
    """The lazy trajectory reader opens a long file, and reads a frame anywhere in it, without reading the rest."""
    from castep_outputs.tools import MDGeomParser
    text, frames = mdgeom.build(case["case"])
    body = text.split("\n")
    head = body.index(" END header") + 1 if " END header" in body else 0
    while head < len(body) and not body[head].strip():
        head += 1
    start, frame = "\n".join([*body[:head], ""]) if head else "", "\n".join(body[head:]).rstrip("\n") + "\n"
    frame = "\n".join(ln for ln in frame.split("\n") if ln.strip()) + "\n\n"
    count = max(40, 1_500_000 // len(frame))
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / "long.md"
        path.write_text(start + frame * count, encoding="utf-8")
        size = path.stat().st_size
        if size < 10 * SLACK:
            raise HarnessError("the file should be long")
        was = bytes_read()
        reader = MDGeomParser(path)
        if len(reader) != count:
            raise Violation(f"length {len(reader)} of {count} frames of\n{frame}")
        spent("opening it", was, frame, start)
        for what, where in case["ops"]:
            k = min(int(where * count), count - 2)
            was = bytes_read()
            if what == "get":
                got = reader.get_frame(k)
            elif what == "index":
                got = reader[k - count]
            elif what == "next":
                got = reader.read_next()
            elif what == "iter":
                it = iter(reader)
                next(it)
                got = it.send(k)
                it.close()
            else:
                len(reader)
                continue
            spent(f"{what} {k} of {count}", was, frame, start)
            expect(got, frames[0], f"{what} {k} of {count}")
            if reader.next_frame is None:
                reader.get_frame(0)


def spent(what, was, frame, start):
    used = bytes_read() - was
    if used > SLACK + 4 * len(frame.encode()) + 4 * len(start.encode()):
        raise Violation(f"{what}: {used} bytes were read, with frames of {len(frame)}:\n{frame}")


FACETS = [more_of_the_same, many_lines, huge_files, long_blocks, long_lines, lazily]
