"""C14: random access to .md/.geom files agrees with a list of frames under any access history."""
import os
import tempfile

from hypothesis import strategies as st

from lib import gen as g, mdgeom
from lib.harness import Violation, facet
from lib.oracle import check, expect

small = st.integers(-9, 9)
op_st = st.one_of(
    st.tuples(st.just("get"), small).map(list),
    st.tuples(st.just("item"), small).map(list),
    st.tuples(st.just("slice"), g.opt(small), g.opt(small), st.sampled_from((None, 1, 2, -1, 3, -2))).map(list),
    st.tuples(st.just("many"), st.lists(small, max_size=4)).map(list),
    st.tuples(st.just("next")).map(list), st.tuples(st.just("next")).map(list),
    st.tuples(st.just("all")).map(list),
    # Generator steps: None advances, a number jumps there
    st.tuples(st.just("iter"), st.lists(g.opt(st.integers(0, 6)), min_size=1, max_size=6)).map(list),
    st.tuples(st.just("held"), g.opt(st.integers(0, 6))).map(list),
    st.tuples(st.just("state")).map(list),
)


class Model:
    def __init__(self, frames):
        self.frames, self.pos, self.held, self.dead = frames, 0, None, False

    def get(self, i):
        if not -len(self.frames) <= i < len(self.frames):
            return IndexError
        i %= len(self.frames)
        self.pos = i + 1
        return self.frames[i]

    def next(self):
        if self.pos >= len(self.frames):
            return StopIteration
        self.pos += 1
        return self.frames[self.pos - 1]


def attempt(fn, *args):
    try:
        return fn(*args)
    except (IndexError, StopIteration) as exc:
        return type(exc)


def same(act, exp, what):
    if exp in (IndexError, StopIteration):
        check(act is exp, f"{what}: expected {exp.__name__}, got {act!r:.300}")
    else:
        if act in (IndexError, StopIteration):
            raise Violation(f"{what}: {act.__name__}, expected a frame")
        expect(act, exp, what)


class GenModel:
    """Generator over a model: where it stands, and what it yields next."""

    def __init__(self, model):
        self.model, self.i, self.started = model, 0, False

    def step(self, jump):
        if self.started:
            self.i += 1
            if jump is not None:
                self.i = jump
        self.started = True
        if self.i >= len(self.model.frames):
            self.i = len(self.model.frames) + 99    # finished for good
            return StopIteration
        return self.model.get(self.i)


@facet(g.rec(case=mdgeom.file_st(uniform=True, max_frames=7), ops=st.lists(op_st, min_size=3, max_size=24)),
       quick=2400, nontrivial=lambda c: len(c["case"]["shapes"]) > 1 and len(c["ops"]) > 3,
       rule="several frames and more than three operations",
       labels=lambda c: {f"frames={len(c['case']['shapes'])}"} | {op[0] for op in c["ops"]})
def lazy_history(case):
    from castep_outputs.parsers import parse_md_geom_file
    from castep_outputs.tools import MDGeomParser
    text, frames = mdgeom.build(case["case"])
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x.md")
        with open(path, "w", encoding="utf-8") as out:
            out.write(text)
        expect([dict(x) for x in parse_md_geom_file(path)], frames, "read whole", text=text)
        lazy, model = MDGeomParser(path), Model(frames)
        head = case["case"]["header"]
        expect(lazy.comment, "" if head in (None, "blank") else head, "comment")
        gen, gmod = None, None
        for n, op in enumerate(case["ops"]):
            what = f"operation {n} {op}"
            kind = op[0]
            if kind == "get":
                same(attempt(lazy.get_frame, op[1]), model.get(op[1]), what)
            elif kind == "item":
                same(attempt(lambda: lazy[op[1]]), model.get(op[1]), what)
            elif kind == "slice":
                sl = slice(*op[1:])
                same(attempt(lambda: lazy[sl]), [model.get(i) for i in range(len(frames))[sl]], what)
            elif kind == "many":
                exp = []
                for i in op[1]:
                    exp.append(model.get(i))
                    if exp[-1] is IndexError:
                        exp = IndexError
                        break
                same(attempt(lambda: lazy[list(op[1])]), exp, what)
            elif kind == "next":
                same(attempt(lazy.read_next), model.next(), what)
            elif kind == "all":
                same(list(lazy), [model.get(i) for i in range(len(frames))], what)
            elif kind == "iter":
                it, im = iter(lazy), GenModel(model)
                for jump in op[1]:
                    act = attempt(it.send, jump if im.started else None)
                    exp = im.step(jump)
                    same(act, exp, what)
                    if exp is StopIteration:
                        break
            elif kind == "held":        # an iterator that other operations happen around
                if gen is None:
                    gen, gmod = iter(lazy), GenModel(model)
                act = attempt(gen.send, op[1] if gmod.started else None)
                same(act, gmod.step(op[1]), what)
                if act is StopIteration:
                    gen = None
            expect(len(lazy), len(frames), f"{what}: length")
            expect(lazy.next_frame, model.pos if model.pos < len(frames) else None, f"{what}: next frame")


@facet(mdgeom.file_st(uniform=True, max_frames=1), quick=400, rule="a frame is present", nontrivial=lambda c: len(c["shapes"]) == 1)
def lone_frame(case):
    """A single frame need not be followed by a blank line."""
    from castep_outputs.tools import MDGeomParser
    text, frames = mdgeom.build(case)
    if not frames:
        return
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x.geom")
        with open(path, "w", encoding="utf-8") as out:
            out.write(text.rstrip() + "\n")
        lazy = MDGeomParser(path)
        expect(len(lazy), 1, "length", text=text)
        expect([lazy[0], lazy[-1], *lazy], frames * 3, "frames", text=text)
        expect(lazy.next_frame, None, "next frame")


FACETS = [lazy_history, lone_frame]
