"""C33: files and blocks are cursors over lines."""
import io
import re
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from lib.gen import rec
from lib.harness import Violation, facet
from lib.oracle import check, expect

KINDS = ("start a", "start b", " end ", "value 1 2", "  ", "", "é µ", "end of start", "-- end", "# note", "x # tail ! more", "\ttab", "x" * 40)
line_st = st.sampled_from(KINDS)
text_st = rec(lines=st.lists(line_st, max_size=14), final=st.booleans())
START = ("start", "^start a", "nothing like it", "")
END = ("end", "^ end", r"^\s*$", "never")
block_op = st.tuples(st.just("block"), st.sampled_from(START), st.sampled_from(END), st.integers(1, 3), st.booleans()).map(list)
op_st = st.one_of(st.just(["next"]), st.just(["next"]), st.just(["rewind"]), block_op, block_op,
                  st.tuples(st.just("lines"), st.integers(0, 4), st.booleans()).map(list), st.just(["rest"]))


def lines_of(case):
    out = [x + "\n" for x in case["lines"]]
    if out and not case["final"]:
        out[-1] = out[-1][:-1]
        if not out[-1]:
            out.pop()
    return out


class Lines:
    """Reference: a list, the index of the next line, and whether the last read can be taken back."""

    def __init__(self, lines, pos=0, many=False):
        self.lines, self.pos, self.back, self.many = lines, pos, pos, many

    def next(self):
        if self.pos >= len(self.lines):
            self.back = self.pos
            return None
        if not self.many:
            self.back = self.pos
        self.pos += 1
        return self.lines[self.pos - 1]

    def block(self, first, start, end, n_end, eof):
        """Lines of the block, None if none starts, or an error."""
        if not re.search(start, first):
            return []
        out, found = [first], 0
        while (line := self.next()) is not None:
            out.append(line)
            if re.search(end, line):
                found += 1
                if found == n_end:
                    return out
        return out if eof else OSError

    def take(self, n, eof):
        out = []
        while len(out) < n:
            if (line := self.next()) is None:
                return out if eof else OSError
            out.append(line)
        return out


def run(source, model, ops, text, numbered):
    """The same operations on both; returns the blocks made."""
    from castep_outputs.utilities.filewrapper import Block
    last, blocks, ended = "", [], False
    for k, op in enumerate(ops):
        what = f"operation {k}: {op}"
        if op[0] == "next":
            want, got = model.next(), next(source, None)
            check(got == want, f"{what}: next line {want!r}, got {got!r}", text)
            ended = want is None
            last = want or last
        elif op[0] == "rewind":
            if ended:
                continue
            if model.many:
                if model.pos == model.back:
                    try:
                        source.rewind()
                    except ValueError:
                        pass
                    else:
                        raise Violation(f"{what}: rewound before the beginning")
                else:
                    source.rewind()
                    model.pos -= 1
            else:
                source.rewind()
                model.pos = model.back
        elif op[0] == "rest":
            want, got = [], list(source)
            while (line := model.next()) is not None:
                want.append(line)
            expect(got, want, what, text=text)
            ended = True
        else:
            # The block starts with the line read last, unless that has been given back or the end was met
            number = numbered + model.pos - 1 if numbered and op[0] == "block" and not ended and model.pos and model.lines[model.pos - 1] is last else 0
            want = model.block(last, *op[1:]) if op[0] == "block" else model.take(*op[1:])
            try:
                got = (Block.from_re(last, source, op[1], op[2], n_end=op[3], eof_possible=op[4]) if op[0] == "block" else
                       Block.get_lines(source, op[1], eof_possible=op[2]))
            except OSError:
                got = OSError
            ended = model.pos >= len(model.lines) and (want is OSError or op[0] == "lines" or not want or len(want) < 2 or not re.search(op[2], want[-1])
                                                       or sum(bool(re.search(op[2], x)) for x in want[1:]) < op[3])
            if want is OSError or got is OSError:
                check(want is got, f"{what}: expected {want!r}, got {got!r}", text)
                continue
            expect(got.aslist(), want, what, text=text)
            check(bool(got) == any(x.strip() for x in want), f"{what}: the block is {'true' if got else 'false'}", text)
            if want:
                last = want[-1]
                blocks.append((got, want, number))
        if numbered and (not ended or not model.many):
            check(source.lineno == model.pos + numbered - 1, f"{what}: {model.pos} lines read, line number {source.lineno - numbered + 1}", text)
    return blocks


def has_block(case):
    return any(op[0] in ("block", "lines") for op in case["ops"]) and len(case["text"]["lines"]) > 1


@facet(rec(text=text_st, ops=st.lists(op_st, max_size=14), inner=st.lists(op_st, max_size=8), how=st.sampled_from(("memory", "disk"))), quick=4000, rule="a block operation",
       nontrivial=has_block, labels=lambda c: [c["how"], *{op[0] for op in c["ops"]}])
def wrapped_file(case):
    """Any sequence of reads, single-line rewinds and blocks on a FileWrapper."""
    from castep_outputs.utilities.filewrapper import FileWrapper
    lines = lines_of(case["text"])
    text = "".join(lines)
    with tempfile.TemporaryDirectory() as tmp:
        if case["how"] == "disk":
            path = Path(tmp) / "a.txt"
            path.write_text(text, encoding="utf-8", newline="")
            file = path.open(encoding="utf-8")
        else:
            file = io.StringIO(text)
        wrapper = FileWrapper(file)
        check(wrapper.name == (str(path) if case["how"] == "disk" else "unknown"), f"name {wrapper.name!r}")
        blocks = run(wrapper, Lines(lines), case["ops"], text, 1)
        wrapper.close()
        check(file.closed, "close() leaves the file open")
        for block, want, number in blocks:
            run(block, Lines(want, many=True), case["inner"], "".join(want), number)


@facet(rec(text=text_st, ops=st.lists(op_st, max_size=14)), quick=1500, rule="a block operation", nontrivial=has_block)
def plain_file(case):
    """Blocks read from a plain file take exactly their lines."""
    lines = lines_of(case["text"])
    run(io.StringIO("".join(lines)), Lines(lines), [op for op in case["ops"] if op[0] != "rewind"], "".join(lines), 0)


@facet(rec(text=text_st, before=st.integers(0, 3), ops=st.lists(op_st, max_size=16), inner=st.lists(op_st, max_size=10)), quick=4000,
       rule="a block operation", nontrivial=has_block, labels=lambda c: sorted({op[0] for op in c["ops"]}))
def block_ops(case):
    """Any sequence of reads, rewinds and blocks on a block, and on the blocks inside it."""
    from castep_outputs.utilities.filewrapper import Block, FileWrapper
    lines = ["top start\n", *lines_of(case["text"])]
    before = ["one\n", "two\n", "three\n"][:case["before"]]
    text = "".join([*before, *lines])
    wrapper = FileWrapper(io.StringIO(text))
    for _ in range(len(before)):
        next(wrapper)
    first = next(wrapper)
    outer = Block.from_re(first, wrapper, "top start", "\0never", eof_possible=True)
    base = len(before) + 1
    check(len(outer) == len(lines), f"block of {len(lines)} lines has {len(outer)}", text)
    blocks = run(outer, Lines(lines, many=True), case["ops"], text, base)
    for block, want, number in blocks:
        expect([len(block), block[0], block[-1], list(block[1:3])], [len(want), want[0], want[-1], want[1:3]], "length and items", text=text)
        if any(x.strip() for x in want):
            for deep, lines_, deeper in run(block, Lines(want, many=True), case["inner"], "".join(want), number):
                run(deep, Lines(lines_, many=True), case["inner"], "".join(lines_), deeper)


@facet(rec(text=text_st, start=st.integers(0, 14), fore=st.integers(0, 4), back=st.integers(0, 4)), quick=800, rule="bounds are removed",
       nontrivial=lambda c: c["fore"] + c["back"] > 0)
def bounds(case):
    """remove_bounds leaves the lines between, with their line numbers."""
    from castep_outputs.utilities.filewrapper import Block, FileWrapper
    lines = ["start\n", *lines_of(case["text"])]
    wrapper = FileWrapper(io.StringIO("".join(lines)))
    block = Block.from_re(next(wrapper), wrapper, "start", "never", eof_possible=True)
    fore, back = case["fore"], case["back"]
    block.remove_bounds(fore, back)
    want = lines[fore:max(len(lines) - back, fore)] if fore < len(lines) else []
    expect(block.aslist(), want, f"without {fore} and {back} lines", text="".join(lines))
    for k, line in enumerate(want):
        check(next(block) == line and block.lineno == fore + k + 1, f"line {fore + k + 1} is numbered {block.lineno}", "".join(lines))
    file = block.asstringio()
    expect([x.rstrip("\n") for x in file.readlines()], [x.rstrip("\n") for x in want], "asstringio", text="".join(lines))


COMMENT = ("#", "!", "//", ";", "--", "*", "(", "|", "?", "++", ".", "$", "^", "[")
piece = st.sampled_from(("a", "b c", " ", "1.0", "x.y", "f(x)", "\t", "é", *COMMENT))


@facet(rec(lines=st.lists(st.lists(piece, max_size=5).map("".join), max_size=8), chars=st.lists(st.sampled_from(COMMENT), min_size=1, max_size=3, unique=True),
           inline=st.booleans(), as_str=st.booleans(), default=st.booleans()), quick=3000, rule="a comment is present",
       nontrivial=lambda c: any(ch in x for x in c["lines"] for ch in ("#!" if c["default"] else c["chars"])), labels=lambda c: [f"inline={c['inline']}", f"default={c['default']}"])
def comments(case):
    """strip_comments removes comments, trailing blanks and empty lines, and nothing else."""
    from castep_outputs.utilities.utility import strip_comments
    chars = case["chars"]
    if case["default"]:
        kw, chars = {}, ["#", "!"]
    elif case["as_str"]:
        chars = [c for c in chars if len(c) == 1] or ["#"]
        kw = {"comment_char": "".join(chars)}
    else:
        kw = {"comment_char": set(chars)}
    want = []
    for line in case["lines"]:
        if case["inline"]:
            line = line[:min((line.find(c) for c in chars if c in line), default=len(line))]
        elif any(line.lstrip().startswith(c) for c in chars):
            continue
        if line.rstrip():
            want.append(line.rstrip())
    text = "".join(x + "\n" for x in case["lines"])
    got = strip_comments(io.StringIO(text), remove_inline=case["inline"], **kw)
    expect(list(got), want, f"without {chars}", text=text)


FACETS = [wrapped_file, plain_file, block_ops, bounds, comments]
