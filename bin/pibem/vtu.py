"""Reads the VTU files written by the real code (uncompressed, compressed or ASCII)."""
import base64, re, struct, zlib
import numpy as np

TY = {"Float32": "<f4", "Float64": "<f8", "Int32": "<i4", "UInt8": "<u1", "Int64": "<i8", "UInt32": "<u4", "UInt64": "<u8", "Int8": "<i1"}


def _dec(txt, ty, comp, fmt):
    if fmt == "ascii":
        return np.array([float(w) for w in txt.split()])
    txt = "".join(txt.split())
    if not comp:
        raw = base64.b64decode(txt)
        return np.frombuffer(raw[4:4 + struct.unpack("<I", raw[:4])[0]], TY[ty])
    nb = struct.unpack("<I", base64.b64decode(txt[:8])[:4])[0]
    hl = 4 * ((4 * (3 + nb) + 2) // 3)
    h = struct.unpack("<%dI" % (3 + nb), base64.b64decode(txt[:hl])[:4 * (3 + nb)])
    raw, out, p = base64.b64decode(txt[hl:]), b"", 0
    for k in range(nb):
        out += zlib.decompress(raw[p:p + h[3 + k]])
        p += h[3 + k]
    return np.frombuffer(out, TY[ty])


def read(text):
    if isinstance(text, bytes):
        text = text.decode(errors="replace")
    comp = "vtkZLibDataCompressor" in text[:2000]
    np_ = int(re.search(r'NumberOfPoints="(\d+)"', text).group(1))
    nc = int(re.search(r'NumberOfCells="(\d+)"', text).group(1))
    f = {}
    for a, body in re.findall(r"<DataArray([^>]*)>(.*?)</DataArray>", text, re.S):
        at = dict(re.findall(r'(\w+)="([^"]*)"', a))
        v = _dec(body, at["type"], comp, at.get("format", "binary"))
        c = int(at.get("NumberOfComponents", "1"))
        f[at.get("Name", "points")] = v.reshape(-1, c) if c > 1 else v
    return {"points": np_, "cells": nc, "f": f}
