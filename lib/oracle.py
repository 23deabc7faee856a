"""Comparison helpers shared by the oracles."""
from __future__ import annotations

import io
import math
import numbers

from .harness import HarnessError, Violation


class Near(float):
    """A float which may differ from the exact value by rounding (derived quantities)."""


class AnyOf:
    """One of several acceptable values (a recorded finding's value, or the right one)."""

    def __init__(self, *alts):
        self.alts = alts

    def __repr__(self):
        return " | ".join(map(repr, self.alts))


def _kind(val):
    if isinstance(val, bool):
        return "bool"
    if isinstance(val, int):
        return "int"
    if isinstance(val, float):
        return "float"
    if isinstance(val, complex):
        return "complex"
    return type(val).__name__


def diff(act, exp, path="$", *, strict=True):
    """First difference between actual and expected (None if equal).

    Sequences compare as sequences whether list or tuple; mappings as mappings; numbers must agree in
    value, and in kind when ``strict``.
    """
    if isinstance(exp, AnyOf):
        outs = [diff(act, e, path, strict=strict) for e in exp.alts]
        return outs[0] if all(outs) else None
    if isinstance(exp, dict):
        if not isinstance(act, dict):
            return f"{path}: expected mapping {exp!r:.300}, got {act!r:.300}"
        for key in exp:
            if key not in act:
                return f"{path}: missing {key!r} (expected {exp[key]!r:.300}); has {list(act)!r:.300}"
        for key in act:
            if key not in exp:
                return f"{path}: unexpected {key!r} = {act[key]!r:.300}"
        for key in exp:
            if (out := diff(act[key], exp[key], f"{path}[{key!r}]", strict=strict)):
                return out
        return None
    if isinstance(exp, (list, tuple)):
        if not isinstance(act, (list, tuple)):
            return f"{path}: expected sequence {exp!r:.300}, got {act!r:.300}"
        if len(act) != len(exp):
            return f"{path}: expected {len(exp)} items {exp!r:.300}, got {len(act)}: {act!r:.300}"
        for i, (a, e) in enumerate(zip(act, exp)):
            if (out := diff(a, e, f"{path}[{i}]", strict=strict)):
                return out
        return None
    if isinstance(exp, (set, frozenset)):
        if not isinstance(act, (set, frozenset)) or act != exp:
            return f"{path}: expected {exp!r:.300}, got {act!r:.300}"
        return None
    if isinstance(exp, Near):
        if isinstance(act, float) and abs(act - exp) <= 1e-9 * max(1.0, abs(exp)):
            return None
        return f"{path}: expected about {float(exp)!r}, got {act!r}"
    if isinstance(exp, float) and isinstance(act, numbers.Number) and math.isnan(exp):
        return None if isinstance(act, float) and math.isnan(act) else f"{path}: expected nan, got {act!r}"
    if isinstance(exp, numbers.Number) and isinstance(act, numbers.Number):
        if act != exp or (isinstance(exp, bool) != isinstance(act, bool)):
            return f"{path}: expected {exp!r}, got {act!r}"
        if strict and _kind(exp) != _kind(act):
            return f"{path}: expected {_kind(exp)} {exp!r}, got {_kind(act)} {act!r}"
        return None
    if type(exp) is not type(act) or exp != act:
        return f"{path}: expected {exp!r:.400}, got {act!r:.400}"
    return None


def expect(act, exp, what="", *, strict=True, text=None):
    out = diff(act, exp, strict=strict)
    if out:
        msg = f"{what}: {out}" if what else out
        if text is not None:
            msg += f"\n----- input -----\n{text:.6000}"
        raise Violation(msg)


def check(cond, msg, text=None):
    if not cond:
        raise Violation(msg if text is None else f"{msg}\n----- input -----\n{text:.6000}")


class Captured(BaseException):
    """Carries the contents of a generated file out of the check that writes it."""


_capturing = False


def parse_text(parser, text, **kw):
    """Parse text through an in-memory handle."""
    if _capturing:
        raise Captured(text)
    return parser(io.StringIO(text), **kw)


def parse_bytes(parser, raw):
    """Parse bytes through an in-memory handle."""
    if _capturing:
        raise Captured(raw)
    return parser(io.BytesIO(raw))


def contents(fct, case):
    """The file a facet writes for a case, without parsing it."""
    global _capturing
    _capturing = True
    try:
        fct.fn(case)
    except Captured as cap:
        return cap.args[0]
    finally:
        _capturing = False
    raise HarnessError(f"{fct.name} wrote no file")


def to_jsonable(obj):
    """Make nested data comparable: tuples -> lists, keys -> repr."""
    if isinstance(obj, dict):
        return {repr(k): to_jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [to_jsonable(v) for v in obj]
    return obj
