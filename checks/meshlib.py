"""The mesh cases given to the probes."""
import meshgen
from geomlib import *

MDIRS = ("LinearAlgebra", "Geometry", "Geometry/Mappings", "Base", "FE", "Integration", "Integration/QuadratureRules")


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def inc(cases, texts=None):
    out = ["static const MeshCase cases[] = {"]
    for i, m in enumerate(cases):
        out.append("{%s, %d, %d, %s}," % (cstr(m.name), m.dim, m.size, cstr(texts[i] if texts else m.text())))
    out.append("};\nstatic const int numberOfCases = %d;\n" % len(cases))
    return "\n".join(out)


def run(probe, entry, cases, texts=None, dirs=MDIRS, files=(), defs=(), exclude=("HpgemAPISimplified.cpp",), pre=(), preamble="", std="-std=gnu++17", mpi=True):
    tmp = tempfile.mkdtemp()
    try:
        open(tmp + "/meshcases.inc", "w").write(preamble + inc(cases, texts))
        text = open(ENGINE + "/probes/%s.cpp" % probe).read().replace('#include "meshcases.inc"', preamble + inc(cases, texts))
        return Geo(probe, entry=entry, dirs=dirs, text=text, files=[ENGINE + "/models/mpi.cpp"] + list(files), exclude=exclude,
                   defs=list(KDEFS) + (["-DHPGEM_USE_MPI"] if mpi else []) + list(defs), pre=list(pre) + [ENGINE + "/shadow/mpi"], extra=["-include", ENGINE + "/probes/vtio.h"], flags=[std if x.startswith("-std=") else x for x in LOWER])
    finally:
        shutil.rmtree(tmp)
