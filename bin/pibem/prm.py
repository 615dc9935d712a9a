"""Parameter files for the real code (dict -> prm text)."""

DEF3 = {
    "BEMFMA/FMA Params": {"FMA Truncation Order": 6, "Granularity for TBB simple for cycles": 10},
    "BEMFMA/Octree Params": {"Maximum Number of Collocation Points per Childless Block": 20, "Number of Octree Levels": 10},
    "BEMProblem": {"Continuos gradient across edges": "true", "Mapping Q Degree": 1, "Mapping Type": "FE",
                   "Preconditioner": "ILU", "Solution method": "Direct"},
    "BEMProblem/Grid Refinement": {"Coarsening threshold": 0.3, "Refinement threshold": 0.3},
    "BEMProblem/Quadrature rules": {"Quadrature order": 4, "Quadrature type": "gauss", "Singular quadrature order": 5},
    "BEMProblem/Scalar Finite Element": {"Finite Element type": "FEQ", "Finite element order": 1},
    "BEMProblem/Vector Finite Element": {"Finite Element type": "FEQ", "Finite element order": 1},
    "BEMProblem/Solver": {"Log frequency": 1, "Log history": "false", "Log result": "false", "Max steps": 500, "Tolerance": "1.e-12"},
    "BoundaryConditions": {"Output file name": "result"},
    "BoundaryConditions/Potential 2d": {"Function constants": "", "Function expression": "x+y", "Variable names": "x,y,t"},
    "BoundaryConditions/Potential 3d": {"Function constants": "", "Function expression": "x+y+z", "Variable names": "x,y,z,t"},
    "BoundaryConditions/Wind function 2d": {"Function constants": "", "Function expression": "1; 1", "Variable names": "x,y,t"},
    "BoundaryConditions/Wind function 3d": {"Function constants": "", "Function expression": "1; 1; 1", "Variable names": "x,y,z,t"},
    "ComputationalDomain": {"Cells per circle": 12, "Input grid format": "inp", "Input grid name": "grid",
                            "Max aspect ratio": 100., "Number of cycles": 0,
                            "Number of global refinement to be executed before local refinement cycle": 0,
                            "Surface curvature adaptive refinement": "false", "Use iges surfaces and curves": "false",
                            "Use a spheroid": "false"},
    "ComputationalDomain/Boundary Conditions ID Numbers": {"Dirichlet boundary ids": "1,110,110", "Neumann boundary ids": "0,110,110"},
    "Driver": {"Set Global Refinement": "true"},
}

SHORT = {  # short names used by the scenario generators
    "order": "BEMFMA/FMA Params|FMA Truncation Order", "gran": "BEMFMA/FMA Params|Granularity for TBB simple for cycles",
    "maxn": "BEMFMA/Octree Params|Maximum Number of Collocation Points per Childless Block", "levels": "BEMFMA/Octree Params|Number of Octree Levels",
    "cont": "BEMProblem|Continuos gradient across edges", "mapdeg": "BEMProblem|Mapping Q Degree", "maptype": "BEMProblem|Mapping Type",
    "prec": "BEMProblem|Preconditioner", "method": "BEMProblem|Solution method",
    "coarsen": "BEMProblem/Grid Refinement|Coarsening threshold", "refine": "BEMProblem/Grid Refinement|Refinement threshold",
    "qorder": "BEMProblem/Quadrature rules|Quadrature order", "qtype": "BEMProblem/Quadrature rules|Quadrature type", "sorder": "BEMProblem/Quadrature rules|Singular quadrature order",
    "sfe": "BEMProblem/Scalar Finite Element|Finite Element type", "sord": "BEMProblem/Scalar Finite Element|Finite element order",
    "vfe": "BEMProblem/Vector Finite Element|Finite Element type", "vord": "BEMProblem/Vector Finite Element|Finite element order",
    "maxsteps": "BEMProblem/Solver|Max steps", "tol": "BEMProblem/Solver|Tolerance",
    "out": "BoundaryConditions|Output file name",
    "pot2": "BoundaryConditions/Potential 2d|Function expression", "pot3": "BoundaryConditions/Potential 3d|Function expression",
    "wind2": "BoundaryConditions/Wind function 2d|Function expression", "wind3": "BoundaryConditions/Wind function 3d|Function expression",
    "cpc": "ComputationalDomain|Cells per circle", "fmt": "ComputationalDomain|Input grid format", "grid": "ComputationalDomain|Input grid name",
    "aspect": "ComputationalDomain|Max aspect ratio", "cycles": "ComputationalDomain|Number of cycles",
    "pre": "ComputationalDomain|Number of global refinement to be executed before local refinement cycle",
    "curv": "ComputationalDomain|Surface curvature adaptive refinement", "cad": "ComputationalDomain|Use iges surfaces and curves",
    "maxcurv": "ComputationalDomain|Maximum number of curvature adaptive refinement cycles", "cadpath": "ComputationalDomain|Input path to CAD files",
    "cadtol": "ComputationalDomain|Cad tolerance to projectors tolerance ratio",
    "spheroid": "ComputationalDomain|Use a spheroid", "ax": "ComputationalDomain|Axis x dimension", "ay": "ComputationalDomain|Axis y dimension", "az": "ComputationalDomain|Axis z dimension",
    "dids": "ComputationalDomain/Boundary Conditions ID Numbers|Dirichlet boundary ids", "nids": "ComputationalDomain/Boundary Conditions ID Numbers|Neumann boundary ids",
    "global": "Driver|Set Global Refinement",
}


def make(dim, only=None, driver=False, **kw):
    """prm text. `only`: emit just the given keywords (everything else defaulted by the code)."""
    d = {s: dict(v) for s, v in DEF3.items()} if only is None else {}
    for k, v in kw.items():
        sec, key = SHORT[k].split("|") if k in SHORT else k.split("|")
        if v is None:
            d.get(sec, {}).pop(key, None)
        else:
            d.setdefault(sec, {})[key] = v
    out = []
    for s, v in sorted(d.items()):
        parts = s.split("/")
        if parts[0] == "Driver" and not driver:
            continue
        parts[0] = "%s<%d>" % (parts[0], dim)
        for i, p in enumerate(parts):
            out.append("  " * i + "subsection " + p)
        for k, x in v.items():
            if isinstance(x, bool):
                x = "true" if x else "false"
            out.append("  " * len(parts) + "set %s = %s" % (k, x))
        for i in reversed(range(len(parts))):
            out.append("  " * i + "end")
    return "\n".join(out) + "\n"


def linear(dim, a, c=0.0):
    """harmonic linear potential a.x+c as (pot, wind) expressions"""
    n = "xyz"[:dim]
    return ("+".join("(%.17g)*%s" % (a[i], n[i]) for i in range(dim)) + "+(%.17g)" % c, "; ".join("%.17g" % a[i] for i in range(dim)))
