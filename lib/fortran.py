"""Independent writer of Fortran unformatted (big-endian, 4-byte marker) records."""
import struct


def payload(kind, vals):
    if kind == "int":
        return struct.pack(f">{len(vals)}i", *vals)
    if kind == "bool":
        return struct.pack(f">{len(vals)}i", *(int(bool(v)) for v in vals))
    if kind == "float":
        return struct.pack(f">{len(vals)}d", *vals)
    if kind == "complex":  # list of [re, im]
        return b"".join(struct.pack(">2d", *v) for v in vals)
    if kind == "str":
        return vals[0].encode("ascii")
    raise ValueError(kind)


def record(data: bytes) -> bytes:
    size = struct.pack(">i", len(data))
    return size + data + size


def write(records) -> bytes:
    """records: iterable of lists of (kind, vals) items making up one record."""
    return b"".join(record(b"".join(payload(*item) for item in rec)) for rec in records)


def pyvals(kind, vals):
    return tuple(complex(*v) for v in vals) if kind == "complex" else tuple(vals)
