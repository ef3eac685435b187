"""Small meshes (conforming, mixed, periodic, partitioned) as mesh files of the kernel's format, with the model of what they describe."""
import itertools

FACES = {
    "line": [[0], [1]],
    "square": [[0, 1], [0, 2], [1, 3], [2, 3]],
    "triangle": [[0, 1], [0, 2], [1, 2]],
    "cube": [[0, 1, 2, 3], [0, 1, 4, 5], [0, 2, 4, 6], [1, 3, 5, 7], [2, 3, 6, 7], [4, 5, 6, 7]],
    "tetrahedron": [[0, 3, 2], [0, 1, 3], [0, 2, 1], [1, 2, 3]],
    "pyramid": [[3, 4, 1, 2], [3, 1, 0], [2, 4, 0], [1, 2, 0], [4, 3, 0]],
    "prism": [[0, 2, 1], [3, 4, 5], [2, 0, 5, 3], [0, 1, 3, 4], [1, 2, 4, 5]]}
EDGES = {
    "cube": [[0, 1], [2, 3], [4, 5], [6, 7], [0, 2], [1, 3], [4, 6], [5, 7], [0, 4], [1, 5], [2, 6], [3, 7]],
    "tetrahedron": [[0, 1], [0, 2], [0, 3], [2, 3], [1, 3], [1, 2]],
    "pyramid": [[0, 1], [0, 2], [0, 3], [0, 4], [1, 2], [2, 4], [4, 3], [3, 1]],
    "prism": [[0, 1], [0, 2], [1, 2], [3, 4], [3, 5], [4, 5], [0, 3], [1, 4], [2, 5]]}
SHAPE = {(1, 2): "line", (2, 3): "triangle", (2, 4): "square", (3, 4): "tetrahedron", (3, 5): "pyramid", (3, 6): "prism", (3, 8): "cube",
         (2, 6): "quadratic triangle", (3, 10): "quadratic tetrahedron"}
# curved elements: the corners and the middles of the edges, in lexicographic order
FACES["quadratic triangle"] = [[0, 1, 2], [0, 3, 5], [2, 4, 5]]
FACES["quadratic tetrahedron"] = [[0, 6, 9, 3, 8, 5], [0, 1, 2, 6, 7, 9], [0, 3, 5, 1, 4, 2], [2, 4, 5, 7, 8, 9]]
EDGES["quadratic tetrahedron"] = [[0, 1, 2], [0, 3, 5], [0, 6, 9], [5, 8, 9], [2, 7, 9], [2, 4, 5]]


class Mesh:
    """dim; points: list of integer tuples; elements: lists of point numbers; glue: point -> representative (periodic); partition per element; zone per element"""

    def __init__(m, name, dim, points, elements, glue=None, part=None, zone=None, zones=("zone",)):
        m.name, m.dim, m.points, m.elements = name, dim, points, elements
        m.glue = glue or {}
        m.part = part or [0] * len(elements)
        m.size = max(m.part) + 1
        m.zone = zone or [0] * len(elements)
        m.zones = list(zones)
        m.shape = [SHAPE[dim, len(e)] for e in elements]
        # nodes: classes of glued points, numbered by first use in point order
        rep = [m.glue.get(i, i) for i in range(len(points))]
        order = []
        for r in rep:
            if r not in order:
                order.append(r)
        m.node_of = [order.index(r) for r in rep]
        m.coords = [[i for i in range(len(points)) if m.node_of[i] == n] for n in range(len(order))]
        m.enodes = [[m.node_of[p] for p in e] for e in elements]
        m.node_elems = [[(e, k) for e in range(len(elements)) for k, x in enumerate(m.enodes[e]) if x == n] for n in range(len(order))]
        m.node_nb = [sorted({e for e, _ in l}) for l in m.node_elems]
        # neighbours of an element through its nodes
        m.nb = [sorted({x for n in m.enodes[e] for x in m.node_nb[n]}) for e in range(len(elements))]
        m.shadow = [sorted({m.part[x] for x in m.nb[e]} - {m.part[e]}) for e in range(len(elements))]
        m.present = [set(m.shadow[e]) | {m.part[e]} for e in range(len(elements))]
        m.nparts = [sorted({m.part[x] for e in m.node_nb[n] for x in m.nb[e]}) for n in range(len(order))]
        m.faces = m.entities(FACES) if dim > 1 else [l for l in m.node_elems]
        m.edges = m.entities(EDGES) if dim == 3 else []

    def entities(m, table):
        out, index = [], {}
        for e, sh in enumerate(m.shape):
            for k, loc in enumerate(table[sh]):
                key = tuple(sorted(m.enodes[e][x] for x in loc))
                if key not in index:
                    index[key] = len(out)
                    out.append([])
                out[index[key]].append((e, k))
        return out

    def eparts(m, ent):
        return sorted({m.part[x] for e, _ in ent for x in m.nb[e]})

    def sym(m, point, comp):
        return point * m.dim + comp

    def text(m, number=lambda m, p, c: "s%d" % m.sym(p, c), version=2):
        o = ["mesh %d" % version]
        counts = [str(len(m.coords)), str(len(m.elements)), str(m.dim)]
        if m.dim > 1:
            counts.append(str(len(m.faces)))
        if m.dim > 2:
            counts.append(str(len(m.edges)))
        o.append(" ".join(counts))
        o.append("%d " % m.size + " ".join(str(sum(1 for p in m.nparts if r in p)) for r in range(m.size)) + "   ")
        if version > 1:
            o += ["zones", str(len(m.zones))] + m.zones + ["nodes"]
        for n, pts in enumerate(m.coords):
            o.append("%d " % len(m.nparts[n]) + " ".join(map(str, m.nparts[n])) + " ")
            o.append("%d " % len(pts) + " ".join(number(m, p, c) for p in pts for c in range(m.dim)) + " ")
        if version > 1:
            o.append("elements")
        for e, pts in enumerate(m.elements):
            o.append("%d " % len(pts) + " ".join("%d %d" % (m.node_of[p], m.coords[m.node_of[p]].index(p)) for p in pts) + " %d %d " % (m.part[e], len(m.shadow[e])) + " ".join(map(str, m.shadow[e])) + " ")
            if version > 1:
                o.append(str(m.zone[e]))
        for name, ents, d in (("codim1", m.faces, 2), ("codim2", m.edges, 3)):
            if m.dim >= d:
                if version > 1:
                    o.append(name)
                for f in ents:
                    p = m.eparts(f)
                    o.append("%d " % len(f) + " ".join("%d %d" % x for x in f) + " %d " % len(p) + " ".join(map(str, p)) + " ")
        return "\n".join(o) + "\n"


def line(n, periodic=False, **kw):
    return Mesh(kw.pop("name"), 1, [(i,) for i in range(n + 1)], [[i, i + 1] for i in range(n)], {n: 0} if periodic else None, **kw)


def rot(l, k):
    return l[k:] + l[:k]


def grid(ns, periodic=(), split=None, **kw):
    """structured mesh; split(cell index) -> list of local vertex lists (default: the cube itself)"""
    d = len(ns)
    pts = list(itertools.product(*[range(n + 1) for n in ns]))
    pts.sort(key=lambda p: p[::-1])
    idx = {p: i for i, p in enumerate(pts)}
    els = []
    for c, cell in enumerate(itertools.product(*[range(n) for n in ns[::-1]])):
        cell = cell[::-1]
        v = [idx[tuple(cell[i] + ((k >> i) & 1) for i in range(d))] for k in range(2 ** d)]
        els += [[v[x] for x in loc] for loc in (split(c) if split else [list(range(2 ** d))])]
    glue = {}
    for p, i in idx.items():
        q = tuple(0 if k in periodic and p[k] == ns[k] else p[k] for k in range(d))
        if q != p:
            glue[i] = idx[q]
    return Mesh(kw.pop("name"), d, pts, els, glue, **kw)


# hpgem numbers the vertices of squares and cubes lexicographically, of rotated elements by any of the symmetries
SQ = [[0, 1, 2, 3], [1, 3, 0, 2], [3, 2, 1, 0], [2, 0, 3, 1], [1, 0, 3, 2], [0, 2, 1, 3], [2, 3, 0, 1], [3, 1, 2, 0]]
TRI = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]]


def cubesym(k):
    """the k-th symmetry of the cube (axis permutation and reflections) as a vertex list"""
    perm = list(itertools.permutations(range(3)))[k % 6]
    flip = (k // 6) % 8
    out = []
    for v in range(8):
        w = 0
        for a in range(3):
            if ((v >> a) & 1) ^ ((flip >> a) & 1):
                w |= 1 << perm[a]
        out.append(w)
    return out


KUHN = [[0, 1, 3, 7], [0, 1, 5, 7], [0, 2, 3, 7], [0, 2, 6, 7], [0, 4, 5, 7], [0, 4, 6, 7]]


def cuboid_points(extra=()):
    return [(x, y, z) for z in (0, 2) for y in (0, 2) for x in (0, 2)] + list(extra)


def quadratic(m, name):
    """the same simplices with the middles of their edges as vertices"""
    pts = [tuple(2 * x for x in p) for p in m.points]
    idx = {p: i for i, p in enumerate(pts)}

    def mid(a, b):
        p = tuple((x + y) // 2 for x, y in zip(pts[a], pts[b]))
        if p not in idx:
            idx[p] = len(pts)
            pts.append(p)
        return idx[p]
    els = []
    for e in m.elements:
        k = [[0], [0, 1], [1], [0, 2], [1, 2], [2]] + ([[0, 3], [1, 3], [2, 3], [3]] if m.dim == 3 else [])
        els.append([e[x[0]] if len(x) == 1 else mid(e[x[0]], e[x[1]]) for x in k])
    per = {a for i, j in m.glue.items() for a in range(m.dim) if m.points[i][a] != m.points[j][a]}
    glue = {}
    for p, i in idx.items():
        q = tuple(min(x[a] for x in pts) if a in per and p[a] == max(x[a] for x in pts) else p[a] for a in range(m.dim))
        if q != p:
            glue[i] = idx[q]
    return Mesh(name, m.dim, pts, els, glue, m.part, m.zone, m.zones)


def cases():
    out = []
    out.append(line(3, name="line of 3"))
    out.append(line(4, name="line of 4 on 2 processes", part=[0, 0, 1, 1], zone=[0, 1, 1, 0], zones=("left side", "right")))
    out.append(line(4, True, name="periodic line of 4 on 2 processes", part=[1, 0, 0, 1]))
    out.append(line(7, True, name="periodic line of 7 on 3 processes", part=[0, 0, 2, 2, 1, 1, 1]))
    m = Mesh("line with scrambled numbering on 2 processes", 1, [(3,), (0,), (2,), (1,), (4,)], [[2, 0], [1, 3], [0, 4], [3, 2]], part=[1, 0, 1, 0])
    out.append(m)
    out.append(grid((2, 2), name="2x2 squares"))
    out.append(grid((3, 2), name="3x2 turned squares on 2 processes", split=lambda c: [SQ[c % 8]], part=[0, 0, 1, 0, 1, 1], zone=[0, 1, 2, 0, 1, 2], zones=("a", "b with space", "c")))
    out.append(grid((3, 3), (0,), name="3x3 squares periodic in x on 3 processes", split=lambda c: [SQ[(3 * c + 2) % 8]], part=[0, 0, 1, 2, 1, 1, 2, 2, 0]))
    out.append(grid((3, 3), (0, 1), name="3x3 squares periodic in x and y on 2 processes", part=[0, 0, 0, 1, 0, 1, 1, 1, 1]))
    out.append(grid((2, 2), name="8 triangles on 2 processes", split=lambda c: [[[0, 1, 3][i] for i in TRI[c]], [[0, 2, 3][i] for i in TRI[5 - c]]], part=[0, 0, 1, 0, 1, 1, 0, 1]))
    out.append(grid((2, 2), name="squares and triangles on 2 processes", split=lambda c: [SQ[c]] if c % 3 == 0 else [[0, 1, 2], [3, 2, 1]], part=[0, 0, 1, 1, 0, 1]))
    out.append(grid((5, 1), name="5x1 squares on 3 processes", part=[0, 1, 1, 2, 2]))
    out.append(grid((1, 1, 2), name="2 cubes"))
    out.append(grid((2, 2, 1), name="2x2 turned cubes on 2 processes", split=lambda c: [cubesym(7 * c + 3)], part=[0, 1, 1, 0]))
    out.append(grid((3, 1, 1), (0,), name="3 cubes periodic in x on 2 processes", split=lambda c: [cubesym(11 * c)], part=[1, 0, 0]))
    out.append(grid((1, 1, 1), name="6 tetrahedra on 2 processes", split=lambda c: [[t[i] for i in ((k + j) % 4 for j in range(4))] for k, t in enumerate(KUHN)], part=[0, 0, 1, 1, 0, 1]))
    # a cube, a pyramid on it, prisms beside it, tetrahedra on the pyramid
    pts = cuboid_points([(1, 1, 4), (4, 1, 0), (4, 1, 2), (3, 1, 4)])
    els = [[0, 1, 2, 3, 4, 5, 6, 7], [8, 4, 5, 6, 7], [1, 9, 3, 5, 10, 7], [5, 7, 8, 11], [5, 10, 7, 11]]
    out.append(Mesh("cube, pyramid, prism, tetrahedra", 3, pts, els))
    out.append(Mesh("cube, pyramid, prism, tetrahedra on 2 processes", 3, pts, els, part=[0, 1, 0, 1, 1]))
    out.append(grid((2, 1), name="2x1 squares, the second of 3 processes has none", part=[0, 2]))
    out.append(grid((2, 2), name="2x2 squares on 4 processes", split=lambda c: [SQ[5 * c % 8]], part=[2, 0, 3, 1]))
    out.append(grid((2, 3), (1,), name="triangles, alternating between 2 processes", split=lambda c: [[0, 1, 2], [3, 1, 2]] if c % 2 else [[1, 0, 3], [2, 3, 0]], part=[k % 2 for k in range(12)]))
    return out
