#!/usr/bin/env python3
"""P20: output files describe exactly the elements of the mesh and the fields handed to the writer."""
import base64
import xml.etree.ElementTree as ET
from geomlib import *

DIRS = ("LinearAlgebra", "Geometry", "Geometry/Mappings", "Base", "FE", "Integration", "Integration/QuadratureRules")
OUT = ["VTKLagrangeCurve", "VTKLagrangeHexahedron", "VTKLagrangeQuadrilateral", "VTKLagrangeTetrahedron", "VTKLagrangeTriangle", "VTKStandardElements", "TecplotPhysicalGeometryIterator"]
SIZE = {"Float64": 8, "UInt32": 4, "UInt8": 1, "Int32": 4, "Int64": 8, "UInt64": 8}
VTKTYPE = {3: "line", 5: "triangle", 9: "square", 10: "tetrahedron", 12: "cube", 13: "prism", 14: "pyramid"}
LAGTYPE = {68: "line", 69: "triangle", 70: "square", 71: "tetrahedron", 72: "cube"}
TOL = 1e-9
PAD = {1: "pad"}


# ---- values as affine forms over the indeterminates -------------------------------------------------------------
def aff(v):
    """{symbol or 1: coefficient}, or None when the value is not affine"""
    if isinstance(v, (int, float)):
        return {1: v} if v else {}
    if not isinstance(v, dict):
        return None
    if "c" in v:
        return {1: v["c"]} if v["c"] else {}
    if set(v) == {"n"}:
        r = {}
        for m, c in v["n"]:
            if not m:
                r[1] = r.get(1, 0) + c
            elif len(m) == 2 and m[1] == 1:
                r["s%d" % m[0]] = r.get("s%d" % m[0], 0) + c
            else:
                return None
        return r
    return None


def same(a, b):
    return a is not None and b is not None and all(abs(a.get(k, 0) - b.get(k, 0)) < TOL for k in set(a) | set(b))


def shape(name, p):
    if name == "line":
        return [(1 - p[0]) / 2, (1 + p[0]) / 2]
    if name in ("square", "cube"):
        r = []
        for v in VERT[name]:  # hpGEM numbers corners with the first coordinate fastest
            q = 1
            for a, b in zip(reversed(v), p):
                q *= (1 + a * b) / 2
            r.append(q)
        return r
    if name in ("triangle", "tetrahedron"):
        return [1 - sum(p)] + list(p)
    if name == "prism":
        return [b * z for z in ((1 - p[2]) / 2, (1 + p[2]) / 2) for b in (1 - p[0] - p[1], p[0], p[1])]
    pts = VERT["pyramid"]  # corners only
    return [1. if close(p, q) else 0. for q in pts]


# ---- the point sequences of VTK cells, in the cell's own parametric coordinates ---------------------------------
def lat_line(n):
    return [(0,), (n,)] + [(i,) for i in range(1, n)]


def lat_tri(n):
    if n == 0:
        return [(0, 0)]
    c = [(0, 0), (n, 0), (0, n)]
    r = list(c)
    for a, b in ((0, 1), (1, 2), (2, 0)):
        for i in range(1, n):
            r.append(tuple(c[a][k] + (c[b][k] - c[a][k]) * i // n for k in range(2)))
    if n >= 3:
        r += [(x + 1, y + 1) for x, y in lat_tri(n - 3)]
    return r


def lat_quad(n):
    c = [(0, 0), (n, 0), (n, n), (0, n)]
    r = list(c)
    for a, b in ((0, 1), (1, 2), (3, 2), (0, 3)):
        for i in range(1, n):
            r.append(tuple(c[a][k] + (c[b][k] - c[a][k]) * i // n for k in range(2)))
    return r + [(i, j) for j in range(1, n) for i in range(1, n)]


def lat_tet(n):
    if n == 0:
        return [(0, 0, 0)]
    c = [(0, 0, 0), (n, 0, 0), (0, n, 0), (0, 0, n)]
    r = list(c)
    for a, b in ((0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)):
        for i in range(1, n):
            r.append(tuple(c[a][k] + (c[b][k] - c[a][k]) * i // n for k in range(3)))
    if n >= 3:
        for f in ((0, 1, 3), (2, 3, 1), (0, 3, 2), (0, 2, 1)):
            for x, y in lat_tri(n - 3):
                w = (n - 3 - x - y + 1, x + 1, y + 1)
                r.append(tuple(sum(w[m] * c[f[m]][k] for m in range(3)) // n for k in range(3)))
    if n >= 4:
        r += [(x + 1, y + 1, z + 1) for x, y, z in lat_tet(n - 4)]
    return r


def lat_hex(n):
    c = [(0, 0, 0), (n, 0, 0), (n, n, 0), (0, n, 0), (0, 0, n), (n, 0, n), (n, n, n), (0, n, n)]
    r = list(c)
    for a, b in ((0, 1), (1, 2), (3, 2), (0, 3), (4, 5), (5, 6), (7, 6), (4, 7), (0, 4), (1, 5), (3, 7), (2, 6)):  # numbering of file versions before 2.1
        for i in range(1, n):
            r.append(tuple(c[a][k] + (c[b][k] - c[a][k]) * i // n for k in range(3)))
    R = range(1, n)
    for i in (0, n):
        r += [(i, j, k) for k in R for j in R]
    for j in (0, n):
        r += [(i, j, k) for k in R for i in R]
    for k in (0, n):
        r += [(i, j, k) for j in R for i in R]
    return r + [(i, j, k) for k in R for j in R for i in R]


LAT = {"line": lat_line, "triangle": lat_tri, "square": lat_quad, "tetrahedron": lat_tet, "cube": lat_hex,
       "prism": lambda n: [(x, y, z) for z in (0, n) for x, y in ((0, 0), (n, 0), (0, n))],
       "pyramid": lambda n: [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (1, 1, 1)]}


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def solve(A, b):
    d = det(A)
    return [det([r[:j] + [b[i]] + r[j + 1:] for i, r in enumerate(A)]) / d for j in range(len(A))]


def affine_image(lat, pts):
    """pts = the lattice under one invertible affine map?  returns the determinant of the linear part, or None"""
    d = len(lat[0])
    base, idx = lat[0], []
    for i in range(1, len(lat)):  # an affine frame among the lattice points
        t = idx + [i]
        g = [[sum((lat[a][k] - base[k]) * (lat[b][k] - base[k]) for k in range(d)) for b in t] for a in t]
        if abs(det(g)) > 1e-9:
            idx = t
        if len(idx) == d:
            break
    M = [[float(lat[i][k] - base[k]) for k in range(d)] for i in idx]
    lin = [solve(M, [pts[i][c] - pts[0][c] for i in idx]) for c in range(d)]
    for q, p in zip(lat, pts):
        for c in range(d):
            if abs(pts[0][c] + sum(lin[c][k] * (q[k] - base[k]) for k in range(d)) - p[c]) > TOL:
                return None
    return det([list(r) for r in lin])


def sid(e, t, q, c):
    return 1000 + ((((e * 3 + t) * 4 + q) * 9 + c) * 16) * 5


def refpoint(v, e, t, q, c, d):
    """the reference point at which component c of field q was evaluated (None: it is something else)"""
    a = aff(v)
    if a is None:
        return None
    s = sid(e, t, q, c)
    if abs(a.pop("s%d" % s, 0) - 1) > TOL:
        return None
    p = [a.pop("s%d" % (s + 1 + k), 0.) for k in range(d)]
    return p if all(abs(x) < TOL for x in a.values()) else None


def dataform(e, t, q, c, p, scale=1):
    s = sid(e, t, q, c)
    r = {"s%d" % s: scale}
    for k, x in enumerate(p):
        r["s%d" % (s + 1 + k)] = scale * x
    return r


def position(e, name, p, d):
    N = shape(name, p)
    return [{"s%d" % (100 + 30 * e + i * d + k): n for i, n in enumerate(N) if n} for k in range(d)]


class Reader:
    def __init__(s, G):
        s.G = G
        s.buf, s.file, s.name = {}, {}, {}
        for r in G.recs:
            if r["t"] == "buffer":
                s.buf.setdefault(r["x"][0], []).append((r["x"][1], r["x"][2], r["v"]))
            elif r["t"] == "file":
                s.file.setdefault(r["x"][0], []).append(r["v"] if r["x"][2] == 0 else ("#", r["v"]))
            elif r["t"] == "open":
                s.name[r["x"][0]] = r["v"]

    def text(s, f):
        """text of the file; numbers are replaced by {k}"""
        out, nums = [], []
        for x in s.file[f]:
            if isinstance(x, str):
                out.append(x)
            else:
                out.append("{%d}" % len(nums))
                nums.append(x[1])
        return "".join(out), nums

    def values(s, b, size):
        """the numbers of the given byte size stored in buffer b"""
        r = []
        for off, sz, v in sorted(s.buf.get(b, []), key=lambda x: x[0]):
            if off == len(r) * size and sz % size == 0 and v == 0:  # cleared in one go
                r += [0] * (sz // size)
                continue
            if off != len(r) * size or sz != size:
                raise ValueError("element of %d bytes at offset %d" % (sz, off))
            r.append(v)
        return r


class Bad(Exception):
    pass


def array(R, el):
    """(name, components, values) of a binary data array"""
    m = re.findall(r"@(\d+):(\d+)@", el.text or "")
    if el.get("format") != "binary" or len(m) != 2:
        raise Bad("a data array is not a length header followed by the data")
    size = SIZE.get(el.get("type"))
    if size is None:
        raise Bad("unknown number type %s" % el.get("type"))
    n = int(m[1][1])
    try:
        h = R.values(int(m[0][0]), 4)
        v = R.values(int(m[1][0]), size) if n else []
    except ValueError as e:
        raise Bad("array %s is declared as %s but holds an %s" % (el.get("Name", "Points"), el.get("type"), e))
    if int(m[0][1]) != 4 or len(h) != 1 or h[0] != n:
        raise Bad("the header of array %s announces %s bytes, %d follow" % (el.get("Name", "Points"), h, n))
    if len(v) * size != n:
        raise Bad("array %s of %d bytes holds %d numbers" % (el.get("Name", "Points"), n, len(v)))
    return el.get("Name"), int(el.get("NumberOfComponents", "1")), v


def xml(c, R, f, kind, key):
    t, nums = R.text(f)
    try:
        root = ET.fromstring(t)
    except ET.ParseError as e:
        raise Bad("%s is not well-formed: %s" % (R.name[f], e))
    if root.tag != "VTKFile" or root.get("type") != kind:
        raise Bad("%s is not declared as a %s" % (R.name[f], kind))
    if root.get("byte_order") != "LittleEndian":
        raise Bad("%s declares byte order %s" % (R.name[f], root.get("byte_order")))
    c.ok("file structure")
    return root, nums


def local(c, R, f, D, elems, order, level, key, fields):
    """checks one .vtu file; returns [(name, components)]"""
    root, _ = xml(c, R, f, "UnstructuredGrid", key)
    pieces = root.findall("./UnstructuredGrid/Piece")
    if len(pieces) != 1:
        raise Bad("%d pieces" % len(pieces))
    pc = pieces[0]
    nP, nC = int(pc.get("NumberOfPoints")), int(pc.get("NumberOfCells"))
    pts = [array(R, x) for x in pc.findall("./Points/DataArray")]
    cells = {a[0]: a for a in (array(R, x) for x in pc.findall("./Cells/DataArray"))}
    arrays = [array(R, x) for x in pc.findall("./PointData/DataArray")]
    if len(pts) != 1 or pts[0][1] != 3 or len(pts[0][2]) != 3 * nP:
        raise Bad("the points are not an array of %d x 3 numbers" % nP)
    P = pts[0][2]
    if set(cells) != {"connectivity", "offsets", "types"}:
        raise Bad("cell arrays %s" % sorted(map(str, cells)))
    conn, offs, types = (cells[k][2] for k in ("connectivity", "offsets", "types"))
    if nC != len(elems):
        raise Bad("%d cells for %d elements" % (nC, len(elems)))
    if len(offs) != nC or len(types) != nC or (offs and offs[-1] != len(conn)) or sorted(offs) != offs:
        raise Bad("offsets %s, %d types and %d connectivity entries do not describe %d cells" % (offs, len(types), len(conn), nC))
    if any(not isinstance(x, int) or not 0 <= x < nP for x in conn):
        raise Bad("the connectivity refers to a point outside the %d points" % nP)
    c.ok("file structure", 4)
    got = {}
    for n, k, v in arrays:
        if n in got:
            raise Bad("array %s appears twice" % n)
        if len(v) != k * nP:
            raise Bad("array %s announces %d components for %d points but holds %d numbers" % (n, k, nP, len(v)))
        got[n] = (k, v)
        c.ok("array sizes")
    for n in fields:
        if n not in got:
            raise Bad("the field %s that was written is not in the file" % n)
    seen, beg = set(), 0
    for i in range(nC):
        ids, beg = conn[beg:offs[i]], offs[i]
        ctx = "cell %d of %s" % (i, R.name[f])
        # which element: from the field value
        el = None
        for e in elems:
            n0, q0, c0 = ("scalar", 0, 0) if "scalar" in got else ("vector", 1, 0)
            if ids and refpoint(got[n0][1][ids[0] * got[n0][0]], e, level, q0, c0, D) is not None:
                el = e
        if el is None:
            raise Bad("%s: the field is not the value on any element of the mesh at the requested time level" % ctx)
        if el in seen:
            raise Bad("element %d is written more than once" % el)
        seen.add(el)
        name = elems[el]
        want = LAGTYPE if order > 1 else VTKTYPE
        if order == 1 and LAGTYPE.get(types[i]) == name:
            want = LAGTYPE
        if want.get(types[i]) != name:
            raise Bad("%s: cell type %s for a %s with order %d" % (ctx, types[i], name, order))
        lat = LAT[name](order)
        if len(ids) != len(lat):
            raise Bad("%s: %d points for a %s of order %d" % (ctx, len(ids), name, order))
        ref = []
        for k in ids:
            p = refpoint(got[n0][1][k * got[n0][0]], el, level, q0, c0, D)
            if p is None:
                raise Bad("%s: point %d does not carry the field value of element %d" % (ctx, k, el))
            ref.append(p)
            pos = position(el, name, p, D)
            for d in range(3):
                if not same(aff(P[3 * k + d]), pos[d] if d < D else {}):
                    raise Bad("%s: coordinate %d of the point is not the image of the reference point %s at which its data was evaluated" % (ctx, d, [round(x, 6) for x in p]))
            c.ok("point position")
        dd = affine_image(lat, ref)
        lo = min(sum(abs(a - b) for a, b in zip(p, v)) for p in ref for v in VERT[name])
        corners = sum(1 for v in VERT[name] if any(close(p, v) for p in ref))
        if dd is None or corners != len(VERT[name]):
            raise Bad("%s: the points of the %s of order %d are not in the order of the VTK cell" % (ctx, name, order))
        if dd < 0 and name != "prism":
            raise Bad("%s: the %s is written with reversed orientation" % (ctx, name))
        c.ok("cell ordering")
        for n, (k, v) in got.items():
            if n not in fields:
                continue
            for m, r in zip(ids, ref):
                exp = fields[n](el, r)
                if len(exp) != k:
                    raise Bad("array %s has %d components per point where %d are expected" % (n, k, len(exp)))
                for x, w in zip(v[m * k:m * k + k], exp):
                    if w is PAD:
                        w = {1: (aff(x) or {}).get(1, 0)}  # any constant
                    if not same(aff(x), w):
                        raise Bad("%s: array %s does not hold the value of the field at point %d" % (ctx, n, m))
                c.ok("field value")
    return [(n, k, "Float64") for n, k, v in arrays]


def master(c, R, f, size, base, arrays):
    root, _ = xml(c, R, f, "PUnstructuredGrid", None)
    src = [x.get("Source") for x in root.findall("./PUnstructuredGrid/Piece")]
    want = ["%s.%d.vtu" % (base, r) for r in range(size)]
    if sorted(src) != sorted(want):
        raise Bad("the pieces of the master file are %s, must be %s" % (src, want))
    got = [(x.get("Name"), int(x.get("NumberOfComponents", "1")), x.get("type")) for x in root.findall("./PUnstructuredGrid/PPointData/PDataArray")]
    if got != arrays:
        raise Bad("the master file declares the arrays %s where the pieces hold %s" % (got, arrays))
    pp = [(int(x.get("NumberOfComponents", "1")), x.get("type")) for x in root.findall("./PUnstructuredGrid/PPoints/PDataArray")]
    if pp != [(3, "Float64")]:
        raise Bad("the master file declares points %s" % pp)
    c.ok("master file", 3)


def vec(q, D, t):
    return lambda e, p: [dataform(e, t, q, d, p) if d < D else {} for d in range(3)]


def fieldset(D, t):
    return {"scalar": lambda e, p: [dataform(e, t, 0, 0, p)], "vector": vec(1, D, t),
            "tensor": lambda e, p: [dataform(e, t, 2, a * 3 + b, p) if a < D and b < D else PAD for a in range(3) for b in range(3)],
            "zs": lambda e, p: [dataform(e, t, 3, 8, p)], "as": lambda e, p: [dataform(e, t, 3, 8, p, 2)], "mv": vec(3, D, t)}


# element numbers in the order of the probe
def mesh(G, cfg, first):
    n = sum(1 for k in G.t["mesh.type"] if k[0] == cfg)
    return {first + i: TYPE[G.t["mesh.type"][(cfg, i, 0)]] for i in range(n)}


def vtk(c, G, R, cfg):
    g = lambda k: G.t["vtk." + k][(cfg, 0, 0)]
    D = G.t["mesh.dim"][(cfg, 0, 0)]
    elems = mesh(G, cfg, 0)
    rank, size, order = g("rank"), g("size"), g("order")
    nxt = min([v for k, v in G.t["vtk.firstfile"].items() if v > g("firstfile")] + [10 ** 9] + list(G.t["tecplot.file"].values()))
    files = {R.name[f]: f for f in R.name if g("firstfile") <= f < nxt}
    want = {"dir/name.%d.vtu" % rank} | ({"dir/name.pvtu"} if rank == 0 else set())
    if set(files) != want:
        raise Bad("rank %d of %d writes %s, must write %s" % (rank, size, sorted(files), sorted(want)))
    arrays = local(c, R, files["dir/name.%d.vtu" % rank], D, elems, order, {0: 0, 1: 1}[g("level")], cfg, fieldset(D, g("level")))
    if rank == 0:
        master(c, R, files["dir/name.pvtu"], size, "name", arrays)


def series(c, G, R, cfg):
    D = G.t["mesh.dim"][(cfg, 0, 0)]
    elems = mesh(G, cfg, 0)
    rank = G.t["series.rank"][(cfg, 0, 0)]
    f0 = G.t["series.firstfile"][(cfg, 0, 0)]
    nxt = min([v for v in G.t["series.firstfile"].values() if v > f0] + [10 ** 9])
    files = {R.name[f]: f for f in R.name if f0 <= f < nxt}
    steps = [(0., 0, ("scalar", "vector")), (.5, 1, ("scalar", "vector")), (.75, 0, ("vector",)), (2., 1, ("scalar",))]
    want = {}
    size = 1 + 2 * rank
    if rank == 0:
        if "dir/series.pvd" not in files:
            raise Bad("no collection file is written")
        root, nums = xml(c, R, files["dir/series.pvd"], "Collection", None)
        ds = root.findall("./Collection/DataSet")
        if len(ds) != len(steps):
            raise Bad("the collection lists %d data sets for %d times" % (len(ds), len(steps)))
        names = [x.get("file") for x in ds]
        if len(set(names)) != len(names):
            raise Bad("two times share one file: %s" % names)
        for x, (t, _, _) in zip(ds, steps):
            m = re.fullmatch(r"\{(\d+)\}", x.get("timestep"))
            tt = aff(nums[int(m.group(1))]) if m else None
            if not same(tt, {1: t} if t else {}):
                raise Bad("the collection gives file %s the time %s instead of %g" % (x.get("file"), tt, t))
            if not x.get("file").endswith(".pvtu"):
                raise Bad("data set %s is not a master file" % x.get("file"))
            c.ok("time series")
        bases = [n[:-5] for n in names]
    else:
        bases = sorted({re.sub(r"\.%d\.vtu$" % rank, "", k)[4:] for k in files})
    if len(bases) != len(steps):
        raise Bad("%d files for %d times" % (len(bases), len(steps)))
    for b, (t, lvl, fs) in zip(bases, steps):
        n = "dir/%s.%d.vtu" % (b, rank)
        if n not in files:
            raise Bad("the file of time %g is missing" % t)
        F = fieldset(D, lvl)
        arrays = local(c, R, files[n], D, elems, 2, lvl, cfg, {k: F[k] for k in fs})
        if {a[0] for a in arrays} != set(fs):
            raise Bad("the file of time %g holds %s, written were %s" % (t, sorted(a[0] for a in arrays), fs))
        if rank == 0:
            if "dir/%s.pvtu" % b not in files:
                raise Bad("the master file of time %g is missing" % t)
            master(c, R, files["dir/%s.pvtu" % b], size, b, arrays)
        c.ok("time series")


# ---- Tecplot and gnuplot ---------------------------------------------------------------------------------------
def tokens(line):
    return re.findall(r"\{(\d+)\}", line)


def collapsed(name, seq):
    """seq (corners of a FELINESEG/FEQUADRILATERAL/FEBRICK) shows the element without overlap: its signed
    measure under the standard subdivision equals that of the reference element and every corner is used"""
    V = [tuple(reversed(v)) if name in ("square", "cube") else v for v in VERT[name]]
    if {tuple(map(round, p)) for p in seq} != {tuple(v) for v in V}:
        return False
    if len(seq) == 2:
        return abs(seq[1][0] - seq[0][0] - MEASURE[name]) < TOL
    if len(seq) == 4:
        return abs(sum(seq[i][0] * seq[(i + 1) % 4][1] - seq[i][1] * seq[(i + 1) % 4][0] for i in range(4)) / 2 - MEASURE[name]) < TOL
    # trilinear brick: volume from the bilinear boundary (each quad face averaged over both diagonals)
    faces = ((0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7))
    vol = 0
    for f in faces:
        q = [seq[i] for i in f]
        for a, b, d in ((0, 1, 2), (0, 2, 3), (0, 1, 3), (1, 2, 3)):
            vol += det([list(q[a]), list(q[b]), list(q[d])]) / 12
    return abs(vol - MEASURE[name]) < 1e-6


PER = {1: 2, 2: 4, 3: 8}


def rows(c, lines, nums, D, dims, elems, comps, withpos, what):
    """checks the block of data rows; one row per point"""
    per = PER[D]
    if len(lines) != per * len(elems):
        raise Bad("%s: %d rows for %d elements" % (what, len(lines), len(elems)))
    order = sorted(elems)
    for n, e in enumerate(order):
        seq = []
        for l in lines[n * per:n * per + per]:
            tk = [nums[int(x)] for x in tokens(l)]
            nd = len(dims) if withpos else 0
            if len(tk) != nd + len(comps):
                raise Bad("%s: a row holds %d numbers" % (what, len(tk)))
            p = refpoint(tk[nd], e, 0, 0, comps[0], D)
            if p is None:
                raise Bad("%s: a row of element %d does not hold the data of that element" % (what, e))
            for m, k in enumerate(comps):
                if not same(aff(tk[nd + m]), dataform(e, 0, 0, k, p)):
                    raise Bad("%s: variable %d of element %d is not the value at the point" % (what, m, e))
            pos = position(e, elems[e], p, D)
            for m in range(nd):
                if not same(aff(tk[m]), pos[dims[m]]):
                    raise Bad("%s: column %d of element %d is not coordinate %d of the point at which the data was evaluated" % (what, m, e, dims[m]))
            seq.append(p)
            c.ok("data row")
        if not collapsed(elems[e], seq):
            raise Bad("%s: the points of element %d (%s) do not describe the element: %s" % (what, e, elems[e], seq))
        c.ok("zone element")


def texts(c, G, R, cfg):
    D = G.t["mesh.dim"][(cfg, 0, 0)]
    a = mesh(G, cfg, 0)
    b = mesh(G, cfg + 1, 0 if D == 3 else len(a))
    dims = [1, 0] if cfg == 106 else list(range(D))
    kind = {1: "FELINESEG", 2: "FEQUADRILATERAL", 3: "FEBRICK"}[D]
    t, nums = R.text(G.t["tecplot.file"][(cfg, 0, 0)])
    zones = t.split("ZONE ")
    head = re.search(r"VARIABLES\s*=\s*(.*)", zones[0])
    want = ["x%d" % d for d in dims] + ["u", "v"]
    if not head or re.findall(r'"([^"]*)"', head.group(1)) != want:
        raise Bad("the variables of the Tecplot file are %s" % (head and head.group(1)))
    if len(zones) != 5:
        raise Bad("%d zones for 4 writes" % (len(zones) - 1))
    c.ok("zone header")
    for n, (z, els, shared, time, comps) in enumerate(zip(zones[1:], (a, a, b, b), (0, 1, 0, 1), (7, 8, 9, 7), ((0, 1), (2, 3), (2, 3), (0, 1)))):
        what = "Tecplot zone %d (%dD)" % (n, D)
        lines = z.splitlines()
        h = lines[0]
        f = lambda k: re.search(r"\b%s\s*=\s*([^,]*)" % k, h)
        if not f("T") or f("T").group(1).strip() != '"zone %d"' % n or f("ZONETYPE").group(1).strip() != kind or f("DATAPACKING").group(1).strip() != "POINT":
            raise Bad("%s: header %s" % (what, h))
        tm = tokens(f("SOLUTIONTIME").group(1)) if f("SOLUTIONTIME") else []
        if len(tm) != 1 or not same(aff(nums[int(tm[0])]), {"s%d" % time: 1}):
            raise Bad("%s: the solution time is not the one given" % what)
        if int(f("N").group(1)) != PER[D] * len(els) or int(f("E").group(1)) != len(els):
            raise Bad("%s: announces N = %s, E = %s for %d elements" % (what, f("N").group(1).strip(), f("E").group(1).strip(), len(els)))
        body = [l for l in lines[1:] if l.strip()]
        dat = [l for l in body if "{" in l]
        con = [[int(x) for x in l.split()] for l in body if "{" not in l]
        if body[:len(dat)] != dat:
            raise Bad("%s: connectivity before the end of the data" % what)
        m = re.search(r"D\s*=\s*\(([^)]*)\)", h)
        if shared:
            if not m or [x.strip() for x in m.group(1).split(",")] != [str(k + 1) for k in range(len(dims))] + ["FECONNECT"] or con:
                raise Bad("%s: shares %s with the previous zone" % (what, m and m.group(1)))
        else:
            if m or con != [[PER[D] * k + j + 1 for j in range(PER[D])] for k in range(len(els))]:
                raise Bad("%s: connectivity %s" % (what, con[:4]))
        c.ok("zone header", 4)
        rows(c, dat, nums, D, dims, els, comps, not shared, what)
    if cfg == 106:
        return  # the gnuplot writer documents its argument as names of the columns only
    t, nums = R.text(G.t["gnuplot.file"][(cfg, 0, 0)])
    head = re.search(r"VARIABLES\s*=\s*(.*)", t)
    if not head or re.findall(r'"([^"]*)"', head.group(1)) != ["x%d" % d for d in dims] + ["u"]:
        raise Bad("the variables of the gnuplot file are %s" % (head and head.group(1)))
    parts = re.split(r"Number of elements = (\d+)", t)
    if [int(x) for x in parts[1::2]] != [len(b), len(a)]:
        raise Bad("the gnuplot file announces %s elements for %s" % (parts[1::2], [len(b), len(a)]))
    c.ok("zone header", 2)
    for blk, els in zip(parts[2::2], (b, a)):
        rows(c, [l for l in blk.splitlines() if "{" in l], nums, D, dims, els, (0,), True, "gnuplot block (%dD)" % D)


def encoder(c):
    G = Geo("base64", dirs=(), files=[REPO + "/kernel/Output/base64.cpp"])
    for (t, x), r in G.fail.items():
        (c.bad if r["fail"] == "abort" else c.unknown)("encoder", "base64", str(r["why"]))
    for (n, pat, _), v in sorted(G.t.get("enc", {}).items()):
        if pat == 0:
            b = bytes(n)
        elif pat < 1000:
            b = bytearray(n)
            b[(pat - 1) // 8] = 1 << ((pat - 1) % 8)
        elif pat == 1000:
            b = b"\xff" * n
        else:
            b = bytes(((pat - 1001) * 37 + 11 * k) % 256 for k in range(n))
        want = base64.b64encode(bytes(b)).decode()
        c.require("encoder", v == want, "base64/%d/%d" % (n, pat), "toBase64 of %s is %s, must be %s" % (bytes(b), v, want))
    c.require("encoder", G.t.get("bigendian", {}).get((0, 0, 0)) == 0, "endian", "isBigEndian() is true on a little-endian machine")


def check():
    c = Check("P20", "abstract interpretation of the VTK, Tecplot and gnuplot writers on meshes with symbolic node positions and opaque affine fields, with recording streams; the files are parsed by the published formats: cell types, "
              "connectivity and point order (affine image of the VTK lattice), positions equal to the image of the point where the field was evaluated, array sizes and headers, master and collection files")
    encoder(c)
    G = Geo("output", entry="probe_output", dirs=DIRS, exclude=("MpiContainer.cpp", "MeshManipulatorBase.cpp"), files=[REPO + "/kernel/Output/%s.cpp" % f for f in OUT], pre=[ENGINE + "/shadow/mesh"])
    R = Reader(G)
    for (t, x), r in sorted(G.fail.items(), key=str):
        (c.bad if r["fail"] == "abort" else c.unknown)("writing", "%s/%d" % (t, x[0]), "%s configuration %d: %s at %s" % (t, x[0], r["why"], r["at"]))
    failed = {x[0] for _, x in G.fail}
    for tag, fn in (("try.vtk", vtk), ("try.text", texts), ("try.series", series)):
        for (cfg, _, _) in sorted(G.t.get(tag, {})):
            if cfg in failed:
                continue
            try:
                fn(c, G, R, cfg)
            except Bad as e:
                what = tag[4:]
                if tag == "try.vtk":
                    what += " output of order %d in %dD" % (G.t["vtk.order"][(cfg, 0, 0)], G.t["mesh.dim"][(cfg, 0, 0)])
                c.bad("output", "%s/%d" % (tag[4:], cfg), "%s: %s" % (what, e))
    if not c.viol and not c.undec:
        for g, n in (("cell ordering", 80), ("field value", 4000), ("data row", 200), ("time series", 20), ("encoder", 400)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0)})


main(check)
