"""What decides each property: contracts discharged deductively (pvc) and the bounded layer (rt)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
IDS = [f"C{i:02d}" for i in range(1, 33) if i != 30]
BOUNDED = "contract-based: runtime contracts on the real functions, bounded (seeded inputs)"
PROOF = "contract-based deductive verification: obligations generated from the source by symbolic execution, discharged by z3/cvc5; bounded runtime contracts for the rest"
# properties whose main functions are proved for all inputs / of which some functions are proved
PROVED = {
    "C01": "resolution_to_perc, arc and line generation proved for every resolution, spacing and size; the multi-block callers are bounded",
    "C02": "generate_surface_from_two_lines proved for every size, plane, data and resolution",
    "C09": "merge of 2 and 3 structured grids of any sizes, flat or not, every axis, scalar and vector data (the number of grids is bounded at 3, nothing else); longer lists are bounded",
    "C29": "MeshExtrude.add and its checks for structured bases of any size, vector, factor and angle, the rotation itself being an uninterpreted function of vector, angle and center; unstructured bases of triangles; other unstructured bases are bounded",
    "C20": "AnnularSector, Annulus, CylindricalShellSector, CylindricalShell, Sector and Circle proved for every radius, angle, height, center and subdivision",
    "C21": "Quadrilateral, Rectangle, Square, RectangleSector, SquareSector, SectorRectangle and SectorSquare proved for every corner, radius, center and subdivision; that joined pieces share their points rests on the assumed contract of clean()",
    "C08": "group arrays of stacks and extrusions on structured bases of any size, for every kind of group specification and precedence; name tables of at most 3 names and mappings of at most 3 entries; merges and unstructured bases are bounded",
    "C11": "remap_categorical_data of cell and point data on meshes of any size, by number and by name, in place and not; mappings of at most 3 entries",
    "C16": "decimate_rdp of one polyline of any number of points and any tolerance, the recursive function by its own contract (measure: number of points), of two polylines by that contract, and of segments; that clean() keeps the vertices where they are is assumed; meshes of more polylines are bounded",
    "C18": "reconstruct_line of any number of points in two or three dimensions, open and closed, any start and tolerance, the three loops by invariants found among candidates and a variant (each pass that goes on shortens the line, of which there are finitely many orders); that an injective order of n indices visits all n is the pigeonhole argument",
    "C17": "split_lines of 2 and 3 polylines of any sizes through any points, scalar and vector data, as segments and as polylines; merge_lines of 2 and 3 meshes of up to 2 such polylines (the number of lines is bounded, nothing else); that merge_points keeps the vertices where they are is assumed, longer lists and shared points are bounded",
    "C03": "generate_volume_from_two_surfaces (structured) and repeat_structured_data proved for every size, axis and data",
}
PARTLY = {
    "C12": "extract_cell_geometry, get_neighborhood and get_connectivity of two triangles, a triangle with a quad or a pixel, and up to three lines and triangles through any of any number of points, sharing any of their edges in any orientation, no edge collapsed; more cells, collapsed edges and faces of 3D meshes are bounded",
    "C15": "average_points of any number of points with up to 3 links in any arrangement and order (and 4, the third joining the first two), and of polygons of 3 and 4 vertices among them with up to 2 links (the close pairs by scipy and clean() are assumed); more links and larger polygons are bounded",
    "C14": "get_cell_centers of structured grids of any size and of unstructured grids of any number of cells of any of 24 types, empty cells included, with and without hidden cells (the parametric centers by VTK are assumed, NaN is only stored); polyhedra with the faces of a tetrahedron, pyramid, wedge or hexahedron through any points, convex or not, alone and among other cells: average of the points and centroid; other polyhedra are bounded",
    "C10": "MeshMerge of up to 3 meshes of any number of cells, each of one cell type, with group tables of up to 2 names of arbitrary numbers, given groups and default groups, generated once and again (the order of the cells by pyvista.merge and clean() are assumed); meshes of several cell types and polyhedra are bounded",
    "C13": "get_dimension of structured grids of any size and of unstructured grids of any number of cells of any of 24 types; extract_cells_by_dimension of the same, every method and option (given or default dimension, with and without empty cells; the extraction of a mask by VTK is assumed); get_cell_connectivity of meshes of triangles, quads and hexahedra of any size, flat and not; mixed meshes, polyhedra and ghost cells are bounded",
    "C04": "uniform surfaces of triangles, quads and pixels of any number of points and cells with 1 to 3 layers and any data; surfaces of polygons of 3 and 5 vertices (closed, wound outwards); rejected arguments; mixed surfaces, longer polygons and more layers are bounded",
    "C26": "meshes of triangles and meshes of quads of any number of points and cells, and other cell types raising; mixed meshes are bounded",
    "C19": "offset_polygon of a single polygon of any number of vertices, every axis, either orientation and any signed offset (edges at least 0.01 long, turns short of a reversal, non-zero area), and the rejected arguments; meshes of several polygons are bounded",
    "C22": "RegularLine for any polyline and resolution, CurvedLine without end direction for any origin, direction, length and resolution; turning lines are bounded",
    "C31": "single polygons of any number of shell points, in two or three dimensions, and the rejected arguments; triangulated and quadrangulated polygons (made by gmsh) are bounded",
    "C05": "stacks of 2 and 3 surfaces on structured bases of any size, every axis and direction, any subdivision (the number of surfaces is bounded, nothing else); extrusions of 1 and 2 items of structured bases and of triangles and quads likewise; bases of triangles, quads and pixels of any number of cells with 1, 2 and 4 layers; transitions, extrusion columns, polygon bases and group mappings are bounded",
    "C06": "numbers (first and later) and functions on structured bases of any size, every axis and direction, and on unstructured bases; planes on structured bases (that scipy's rotation is a linear map is assumed); interpolation is bounded",
    "C07": "stacks of 2 and 3 surfaces on structured bases of any size, every axis (2) and direction, any priorities and thicknesses, and on unstructured bases of triangles, quads and pixels; longer stacks and transitions are bounded",
    "C27": "stacks of 2 and 3 surfaces and extrusions of 1 and 2 items generated again, and added to after generating, on structured bases of any size; the other builders and utilities are bounded",
}
PLAN = {}
for i in IDS:
    if i in PROVED:
        PLAN[i] = dict(level="proof", proof=True, quick_n=1000, quick_s=15.0, technique=PROOF,
                       note=PROVED[i] + ". Floats are reals, integers unbounded; numpy and pyvista by assumed models")
    elif i in PARTLY:
        PLAN[i] = dict(level="exploration", proof=True, quick_n=1500, quick_s=20.0, technique=BOUNDED + "; part of the functions deductively",
                       note="bounded as a whole; proved for all inputs: " + PARTLY[i])
    else:
        PLAN[i] = dict(level="exploration", quick_n=1500, quick_s=20.0, technique=BOUNDED,
                       note="bounded: contracts evaluated on generated inputs only, not proved")
NOT_APPLICABLE = {
    "C30": "the behaviour is a history of GUI events inside VTK/Qt picking callbacks; no contract over the Python functions can express what the user picked",
}
