"""Meshes given to the Preprocessor and the mesh files it writes."""
import meshgen
from geomlib import *

PRE = REPO + "/applications/Preprocessor/lib"
FILES = [PRE + "/" + x for x in ("hpgem.cpp", "gmsh.cpp", "ElementReorder.cpp", "mesh/ElementShapes.cpp", "utils/SparseUnionFind.cpp")]


def position(m, p, axis):
    """coordinates: different for every axis and unevenly spaced, exact in binary"""
    v = m.points[p][axis]
    return v * (1 + axis / 4) + v * v / 16 - axis / 2


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def merges(m):
    """the periodic directions as pairings of points, with the translation"""
    out = []
    if not m.glue:
        return out
    for a in range(m.dim):
        hi = max(p[a] for p in m.points)
        lo = min(p[a] for p in m.points)
        idx = {p: i for i, p in enumerate(m.points)}
        pairs = []
        for p, i in idx.items():
            if p[a] == hi:
                q = p[:a] + (lo,) + p[a + 1:]
                if q in idx and m.node_of[i] == m.node_of[idx[q]]:
                    pairs.append((i, idx[q]))
        if pairs:
            i, j = pairs[0]
            out.append((pairs, [position(m, j, k) - position(m, i, k) for k in range(m.dim)]))
    return out


def inc(cs, boxes):
    o = []
    for c, m in enumerate(cs):
        arr = lambda n, t, l: o.append("static const %s %s%d[] = {%s};" % (t, n, c, ", ".join(map(str, l)) or "0"))
        arr("co", "double", [repr(position(m, p, a)) for p in range(len(m.points)) for a in range(m.dim)])
        arr("no", "int", m.node_of)
        arr("si", "int", [len(e) for e in m.elements])
        arr("ve", "int", [x for e in m.elements for x in e])
        arr("pa", "int", m.part)
        arr("zo", "int", m.zone)
        arr("zn", "char* const", [cstr(z) for z in m.zones])
        ms = merges(m)
        for k, (p, t) in enumerate(ms):
            o.append("static const int me%d_%d[] = {%s, -1};" % (c, k, ", ".join("%d, %d" % x for x in p)))
        arr("me", "int* const", ["me%d_%d" % (c, k) for k in range(len(ms))] or ["nullptr"])
        arr("tr", "double", [repr(x) for _, t in ms for x in t])
    o.append("static const Case cases[] = {")
    for c, m in enumerate(cs):
        o.append("{%d, %d, %d, %d, %s, %d, me%d, tr%d, %s}," % (m.dim, m.size, len(m.points), len(m.elements), ", ".join("%s%d" % (n, c) for n in ("co", "no", "si", "ve", "pa", "zo", "zn")), len(merges(m)), c, c,
                                                              cstr(m.text(number=lambda m, p, a: repr(position(m, p, a)), version=1))))
    o.append("};\nstatic const int numberOfCases = %d;" % len(cs))
    o.append("struct Box { int dim; const char* text; };\nstatic const Box boxes[] = {%s};\nstatic const int numberOfBoxes = %d;" % (", ".join("{%d, %s}" % (d, cstr(t)) for d, t in boxes), len(boxes)))
    return "\n".join(o)


def run(probe, entry, include, files=FILES, dirs=("LinearAlgebra",), extra=()):
    text = open(ENGINE + "/probes/%s.cpp" % probe).read().replace('#include "meshcases.inc"', include)
    ext = [REPO + "/kernel/Base/CommandLineOptions.cpp"]
    return Geo(probe, entry=entry, dirs=dirs, text=text, files=list(files) + ext, pre=[PRE], extra=["-include", ENGINE + "/probes/vtio.h"] + list(extra), flags=["-std=gnu++17" if x.startswith("-std=") else x for x in LOWER])


class Bad(Exception):
    pass


class Reader:
    """the text of a file; numbers written in floating point are records of their own"""

    def __init__(s, parts):
        s.tok = []
        s.lines = []
        line = []
        for v in parts:
            if isinstance(v, str):
                chunks = v.split("\n")
                for i, ch in enumerate(chunks):
                    if i:
                        s.lines.append(line)
                        line = []
                    if ch:
                        line.append(ch)
            else:
                line.append(v)
        if line:
            s.lines.append(line)
        s.i = 0

    def line(s):
        if s.i >= len(s.lines):
            raise Bad("the file ends too early")
        s.i += 1
        return s.lines[s.i - 1]

    def word(s):
        return "".join(x if isinstance(x, str) else "?" for x in s.line()).strip()

    def mixed(s):
        out = []
        for x in s.line():
            if isinstance(x, str):
                out += [int(y) for y in x.split()]
            else:
                out.append(x)
        return out

    def ints(s):
        l = s.mixed()
        if any(not isinstance(x, int) for x in l):
            raise Bad("line %d should have integers only" % s.i)
        return l


def parse(parts):
    """a mesh file of version 2 -> dictionary"""
    r = Reader(parts)
    f = {}
    if r.word() != "mesh 2":
        raise Bad("the file does not start with 'mesh 2'")
    n = r.ints()
    nodes, elements, dim = n[:3]
    f["dim"], f["counts"] = dim, n
    if len(n) != 2 + dim:
        raise Bad("%d counts of entities" % len(n))
    n = r.ints()
    f["processes"], f["per process"] = n[0], n[1:]
    if r.word() != "zones":
        raise Bad("no zones")
    f["zones"] = [r.word() for _ in range(r.ints()[0])]
    if r.word() != "nodes":
        raise Bad("no nodes where they are expected")
    f["nodes"] = []
    for _ in range(nodes):
        p = r.ints()
        if len(p) != p[0] + 1:
            raise Bad("line %d: %d partitions announced, %d given" % (r.i, p[0], len(p) - 1))
        x = r.mixed()
        if len(x) != 1 + x[0] * dim:
            raise Bad("line %d: %d coordinates announced, %d numbers given" % (r.i, x[0], len(x) - 1))
        x = [float(y) if isinstance(y, (int, float)) else y for y in x[1:]]
        f["nodes"].append((p[1:], [tuple(x[k * dim:(k + 1) * dim]) for k in range(len(x) // dim)]))
    if r.word() != "elements":
        raise Bad("no elements where they are expected")
    f["elements"] = []
    for _ in range(elements):
        e = r.ints()
        k = e[0]
        v = [(e[1 + 2 * i], e[2 + 2 * i]) for i in range(k)]
        rest = e[1 + 2 * k:]
        if len(rest) != 2 + rest[1]:
            raise Bad("line %d: %d further processes announced, %d given" % (r.i, rest[1], len(rest) - 2))
        f["elements"].append((v, rest[0], rest[2:], r.ints()[0]))
    f["entities"] = {}
    for codim in range(1, dim):
        if r.word() != "codim%d" % codim:
            raise Bad("no codim%d" % codim)
        l = []
        for _ in range(f["counts"][2 + codim]):
            e = r.ints()
            k = e[0]
            v = [(e[1 + 2 * i], e[2 + 2 * i]) for i in range(k)]
            rest = e[1 + 2 * k:]
            if len(rest) != rest[0] + 1:
                raise Bad("line %d: %d processes announced, %d given" % (r.i, rest[0], len(rest) - 1))
            l.append((v, rest[1:]))
        f["entities"][codim] = l
    if any("".join(str(x) for x in l).strip() for l in r.lines[r.i:]):
        raise Bad("text after the last entity")
    return f
