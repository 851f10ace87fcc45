"""Known findings: defects of /repo recorded in known_findings.txt rather than repaired.

Every entry has a demonstrator here that runs the specific input; the KNOWN-FINDING line is printed
only while that input still fails."""



def _collapsed():
    """a hexahedron and a quad whose points all coincide"""
    import numpy as np
    import pyvista as pv
    import pvgridder as pvg

    for celltype, n in ((12, 8), (9, 4)):
        m = pv.UnstructuredGrid(np.append(n, np.arange(n)), [celltype], np.zeros((n, 3)))
        try:
            pvg.extract_cell_geometry(m)
        except (TypeError, ValueError):
            continue
        return False
    return True


DEMOS = {
    "C12": [("extract_cell_geometry of a mesh whose points all coincide (every edge or face is degenerate) raises instead of giving no edges or faces", _collapsed)],
}


def confirmed(prop):
    out = []
    for text, fn in DEMOS.get(prop, []):
        try:
            if fn():
                out.append(text)
        except Exception:
            pass
    return out
