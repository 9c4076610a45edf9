"""Registry: which harness decides which property, within what bounds."""
LEVEL = "model_checking"

REAL = "gusym: symbolic doubles are treated as real numbers (no rounding, overflow or underflow); concrete doubles use IEEE arithmetic"
BITS = "cbmc: doubles bit-precise (IEEE), malloc assumed to succeed"
JOBS = {}


class Job:
    engine = "sym"
    defs = {}
    utils = ()
    extra = ()
    libflags = {}
    tier = "qt"
    budget = 60
    tbudget = 600
    nl_timeout = 3000
    steps = 6000000
    fork = True
    max_viol = 1
    expect = ()
    nsamples = 6
    noreplay = False
    allow_inconclusive = False
    may_timeout = False
    soft = False        # what only this engine cannot model does not make the check inconclusive
    assume = (REAL,)
    # cbmc
    unwind = 8
    unwindset = {}
    cbmc = ()
    stub_alloc = True
    functions = ()

    def __init__(self, pid, name, harness, entry, bounds, **kw):
        self.name = name
        self.harness = harness
        self.entry = entry
        self.bounds = bounds
        for k, v in kw.items():
            if not hasattr(Job, k):
                raise TypeError(k)
            setattr(self, k, v)
        self.cbmc = list(self.cbmc)
        JOBS.setdefault(pid, []).append(self)


def Cbmc(pid, name, harness, entry, bounds, **kw):
    kw.setdefault("assume", (BITS,))
    return Job(pid, name, harness, entry, bounds, engine="cbmc", **kw)


Job("C09", "tri", "c09.c", "h_sym", "triangles: 3 vertices with all coordinates arbitrary reals in [0,8], any query point in [-1,9]^2; 4 representations",
    defs={"NV": 3})

# ---------------------------------------------------------------- nodes (bit-precise)
NF = ("gridnodes_create", "gridnodes_readnextpoint", "gridnodes_validate", "gridnodes_destroy")


def grid_jobs(pid, tag, entry, sizes, what, tsizes=(), **kw):
    for n, (nx, ny) in enumerate(list(sizes) + list(tsizes)):
        Cbmc(pid, "%s%dx%d" % (tag, nx, ny), "nodes.c", entry, what % (nx, ny), defs={"NX": nx, "NY": ny}, unwind=max(nx * ny, nx, ny) + 2,
             functions=NF + kw.get("fn", ()), tier="qt" if n < len(sizes) else "t", **{k: v for k, v in kw.items() if k != "fn"})


ANY = "%d x %d grid, every coordinate any IEEE double, every pattern of invalid nodes"
grid_jobs("C01", "cor", "h_c01", [(1, 3), (3, 1), (2, 2), (3, 3), (4, 4)], ANY + "; validated twice", [(5, 3), (3, 6), (5, 5)])
grid_jobs("C02", "dd", "h_c02", [(3, 3), (5, 3), (3, 5)], ANY + "; validated twice", [(1, 3), (5, 5)])
grid_jobs("C02", "even", "h_c02_even", [(4, 3), (3, 4)], ANY + " with an even dimension: must be refused", [(4, 4), (2, 2), (5, 4)])
grid_jobs("C03", "dd", "h_c03", [(3, 3), (5, 3), (3, 5)], ANY + "; both target types, both map types", [(5, 5)], fn=("gridnodes_transform",))
grid_jobs("C06", "dd", "h_c06_dd", [(3, 3), (5, 3), (3, 5)], ANY + ", every mask", [(5, 5), (7, 3)], fn=("gridnodes_applymask",))
grid_jobs("C06", "cen", "h_c06_cen", [(3, 3), (4, 2)], ANY + ", every mask", [(5, 5)], fn=("gridnodes_applymask",))
grid_jobs("C06", "refuse", "h_c06_refuse", [(2, 2)], ANY + " of corner or no type", fn=("gridnodes_applymask",))

# ---------------------------------------------------------------- C10 polyline as a list
for e in ("add", "addnan", "addat", "delete", "append", "reverse", "close", "clear", "create", "copy", "find"):
    Job("C10", e, "c10.c", "h_" + e, "operation '%s' on every polyline of up to 3 points (append: two of up to 2) with 0-2 spare places, every coordinate any real, every index" % e)
Job("C10", "grow", "c10.c", "h_grow", "70 points added to a new polyline (concrete)")
Job("C10", "area", "c10.c", "h_area", "4 vertices anywhere in [-10,10]^2 (reals)", budget=30)

# ---------------------------------------------------------------- C04, C05 conversions
BOX = "each node anywhere in its own box around a slanted lattice, either orientation"
Job("C04", "nodes3x3", "trans.c", "h_cor_nodes", "3 x 3 corner nodes, every pattern of invalid nodes, both map types; " + BOX, defs={"NX": 3, "NY": 3})
Job("C04", "nodes2x4", "trans.c", "h_cor_nodes", "2 x 4 corner nodes, every pattern of invalid nodes, both map types; " + BOX, defs={"NX": 2, "NY": 4})
Job("C04", "cells4x4", "trans.c", "h_cor_cells", "4 x 4 corner nodes, every set of valid cells, both map types; slanted lattice with a distortion of any size, either orientation", defs={"NX": 4, "NY": 4, "ONEPAR": 1})
Job("C04", "cells5x4", "trans.c", "h_cor_cells", "5 x 4 corner nodes, every set of valid cells, both map types; slanted lattice with a distortion of any size, either orientation", defs={"NX": 5, "NY": 4, "ONEPAR": 1}, tier="t")
Job("C04", "cells4x4box", "trans.c", "h_cor_cells", "4 x 4 corner nodes, every set of valid cells, both map types; " + BOX, defs={"NX": 4, "NY": 4}, tier="t")
for nx, ny, t in ((1, 1, "qt"), (1, 3, "qt"), (3, 1, "qt"), (2, 2, "qt"), (3, 3, "qt"), (4, 3, "qt"), (2, 5, "qt"), (4, 4, "t"), (5, 3, "t")):
    Job("C05", "cen%dx%d" % (nx, ny), "trans.c", "h_cen", "%d x %d centres, every pattern of invalid ones, any affine image of index space, with and without fixed offsets of the nodes; both targets" % (nx, ny),
        defs={"NX": nx, "NY": ny}, tier=t)
Job("C05", "any2x2", "trans.c", "h_cen_any", "2 x 2 centres, every coordinate any real in [-100,100]; both targets", defs={"NX": 2, "NY": 2})

# ---------------------------------------------------------------- C07 boundary
for nx, ny, t in ((2, 2, "qt"), (4, 4, "qt"), (5, 5, "qt"), (6, 4, "qt"), (4, 6, "qt"), (6, 5, "t"), (5, 6, "t"), (6, 6, "t"), (8, 4, "t"), (4, 8, "t")):
    Job("C07", "b%dx%d" % (nx, ny), "bound.c", "h_bound", "%d x %d corner nodes, every simply connected set of valid cells, each node anywhere in its own box around a slanted lattice" % (nx, ny), defs={"NX": nx, "NY": ny}, tier=t)

# larger regions: given cells (1 in, 0 out) with any of the others (?)
def tpl(rows):
    """rows from the top down, as seen with j upwards"""
    return '"' + "".join(reversed(rows)) + '"'
def transp(rows):
    return ["".join(rows[len(rows) - 1 - k][i] for k in range(len(rows))) for i in reversed(range(len(rows[0])))]
SP1 = ["?0?01", "?00?1", "001?1", "10001", "10001", "1111?"]
SP0 = ["00001", "?0001", "001?1", "10001", "10001", "11111"]
Job("C07", "any4x3", "bound.c", "h_bound", "4 x 3 corner nodes, every simply connected set of valid cells, any one node anywhere, the others in boxes around a slanted lattice", defs={"NX": 4, "NY": 3, "ANYNODE": 1})
for nx, ny, t in ((3, 3, "qt"), (4, 3, "qt"), (3, 4, "qt")):
    Job("C07", "tool%dx%d" % (nx, ny), "getb.c", "h_getbound", "getbound run on %d x %d corner nodes (or the double-density grid around them), every simply connected set of valid cells, any spacing and bend of the columns; with and without compaction, vertices or their indices" % (nx, ny),
        defs={"NX": nx, "NY": ny}, utils=("getbound",), tier=t)
Job("C07", "spiral", "bound.c", "h_bound", "6 x 7 corner nodes, cells in a spiral, 7 of them free, each node anywhere in its own box around a slanted lattice", defs={"NX": 6, "NY": 7, "TEMPLATE": tpl(SP1)})
Job("C07", "spiralt", "bound.c", "h_bound", "7 x 6 corner nodes, cells in a spiral, 7 of them free, each node anywhere in its own box around a slanted lattice", defs={"NX": 7, "NY": 6, "TEMPLATE": tpl(transp(SP1))})

# ---------------------------------------------------------------- C15, C16 cell lookup
for nx, ny, t in ((5, 5, "qt"), (6, 4, "qt"), (4, 6, "qt"), (6, 5, "t"), (5, 6, "t"), (6, 6, "t"), (8, 4, "t"), (4, 8, "t")):
    Job("C15", "build%dx%d" % (nx, ny), "map.c", "h_build", "%d x %d corner nodes, every simply connected set of valid cells, both orientations: map is built and finds all cell centres" % (nx, ny), defs={"NX": nx, "NY": ny}, tier=t)
Job("C15", "bent3x3", "map.c", "h_bent", "3 x 3 bent corner grid, every simply connected set of valid cells, both orientations; any query point around the grid, NaN included", defs={"NX": 3, "NY": 3})
Job("C15", "bent4x3", "map.c", "h_bent", "4 x 3 bent corner grid, every simply connected set of valid cells, both orientations; any query point around the grid, NaN included", defs={"NX": 4, "NY": 3}, tier="t")
for n, (t, a, b) in enumerate(((SP0, "2", "qt"), (SP1, "7", "t"))):
    TW = "cells in a spiral, %s of them free, any of a family of deformations" % a
    Job("C15", "spiral" + "7" * n, "map.c", "h_build", "6 x 7 corner nodes, %s: map is built and finds all cell centres" % TW, defs={"NX": 6, "NY": 7, "SHEAR": 1, "TEMPLATE": tpl(t)}, tier=b)
    Job("C15", "spiralt" + "7" * n, "map.c", "h_build", "7 x 6 corner nodes, %s: map is built and finds all cell centres" % TW, defs={"NX": 7, "NY": 6, "SHEAR": 1, "TEMPLATE": tpl(transp(t))}, tier=b)
Job("C15", "spiralq", "map.c", "h_bent", "6 x 7 corner nodes, cells in a spiral; any query point around the grid, NaN included", defs={"NX": 6, "NY": 7, "TEMPLATE": tpl(["00001", "00001", "00111", "10001", "10001", "11111"])}, tier="t")
Job("C15", "nonfinite", "map.c", "h_nonfinite", "combinations of NaN and infinite coordinates, both map types", defs={"NX": 3, "NY": 3})
Job("C16", "rect3x3", "map.c", "h_rect", "3 x 3 rectangular corner grid with uneven spacing, every set of valid cells; any query point around the grid, NaN included", defs={"NX": 3, "NY": 3, "MT": 1})
Job("C16", "rect4x3", "map.c", "h_rect", "4 x 3 rectangular corner grid with uneven spacing, every set of valid cells; any query point around the grid, NaN included", defs={"NX": 4, "NY": 3, "MT": 1}, tier="t")
Job("C16", "bent3x3", "map.c", "h_sound", "3 x 3 bent corner grid of one orientation, every set of valid cells; any query point around the grid, NaN included", defs={"NX": 3, "NY": 3, "MT": 1, "FLIP": 1}, budget=100)
Job("C16", "bent4x3", "map.c", "h_sound", "4 x 3 bent corner grid, every set of valid cells; any query point around the grid, NaN included", defs={"NX": 4, "NY": 3, "MT": 1}, tier="t")

# ---------------------------------------------------------------- C08 compact
Job("C08", "any5", "poly2.c", "h_compact", "5 vertices, every second one anywhere in [0,10]^2 (reals), without zero-width spikes", defs={"NV": 5})
Job("C08", "outline", "poly2.c", "h_outline", "quadrilateral of variable shape with 0-4 redundant vertices anywhere on its sides, a repeated vertex, any first vertex, closed or not", defs={"NV": 10})
Job("C08", "region", "poly2.c", "h_outline", "quadrilateral with 0-4 redundant vertices anywhere on its sides, closed or not; any query point", defs={"NV": 10, "QUERY": 1})
Job("C08", "degenerate", "poly2.c", "h_degenerate", "coincident points (concrete)", defs={"NV": 5})
Job("C08", "small", "poly2.c", "h_small", "up to 4 vertices anywhere", defs={"NV": 5})

# ---------------------------------------------------------------- C11 thinning, text
Job("C11", "thin", "poly2.c", "h_thin", "up to 3 points anywhere, any distance", defs={"NV": 3})
Job("C11", "thin4", "poly2.c", "h_thin", "up to 4 points anywhere, any distance", defs={"NV": 4}, tier="t")
Job("C11", "tie", "poly2.c", "h_tie", "3 points on a line in 5 directions at 25 pairs of offsets of rational length, any distance, the exact ones included", defs={"NV": 3})
Job("C11", "io", "poly2.c", "h_io", "up to 3 points anywhere, written and appended to 0-1 points", defs={"NV": 4})
Job("C11", "lines", "poly2.c", "h_lines", "3 lines of any of 7 kinds with arbitrary coordinates, last one with or without newline", defs={"NV": 3, "NL": 3})
Job("C11", "lines4", "poly2.c", "h_lines", "4 lines of any of 7 kinds with arbitrary coordinates, last one with or without newline", defs={"NV": 4, "NL": 4}, tier="t")
Job("C11", "digits", "poly2.c", "h_digits", "36 pairs of concrete values of 15 digits", defs={"NV": 4})

# ---------------------------------------------------------------- C12, C13, C14 k-d tree
MAN = "inserted one by one, in bulk, in bulk shuffled, or mixed"
Job("C12", "any1d", "kd.c", "h_near_any", "3 points anywhere in 1-D (reals), any query; " + MAN, defs={"NP": 3, "ND": 1})
Job("C12", "given2d", "kd.c", "h_near_query", "3 points anywhere in 2-D (reals), given query; one by one or mixed", defs={"NP": 3, "ND": 2, "FEW": 1})
Job("C12", "lattice2d", "kd.c", "h_near_lattice", "4 points on a 2 x 2 lattice in 2-D, any query; one by one or mixed", defs={"NP": 4, "ND": 2, "FEW": 1})
Job("C12", "any2d", "kd.c", "h_near_any", "3 points anywhere in 2-D (reals), any query; " + MAN, defs={"NP": 3, "ND": 2}, tier="t", allow_inconclusive=True)
Job("C12", "cloud2d", "kd.c", "h_near_cloud", "6 given points in 2-D with coincident ones in 12 orders, any query; " + MAN, defs={"NP": 6, "ND": 2})
Job("C12", "cloud2d7", "kd.c", "h_near_cloud", "7 given points in 2-D with coincident ones in 28 orders, any query; " + MAN, defs={"NP": 7, "ND": 2}, tier="t")
Job("C12", "cloud3d", "kd.c", "h_near_cloud", "5 given points in 3-D with coincident ones in 5 orders, any query; one by one or mixed", defs={"NP": 5, "ND": 3, "FEW": 1})
Job("C12", "cloud3d8", "kd.c", "h_near_cloud", "8 given points in 3-D with coincident ones in 32 orders, any query; " + MAN, defs={"NP": 8, "ND": 3}, tier="t")
Job("C12", "any2d4", "kd.c", "h_near_any", "4 points anywhere in 2-D (reals), any query; " + MAN, defs={"NP": 4, "ND": 2}, tier="t", allow_inconclusive=True)
Job("C13", "any1d", "kd.c", "h_range_any", "2 points anywhere in 1-D (reals), any query and range, ordered or not; " + MAN, defs={"NP": 2, "ND": 1})
Job("C13", "any2d", "kd.c", "h_range_any", "2 points anywhere in 2-D (reals), any query and range, ordered or not; " + MAN, defs={"NP": 2, "ND": 2})
Job("C13", "cloud2d", "kd.c", "h_range_cloud", "7 given points in 2-D with coincident ones in 28 orders, 4 queries, any range, ordered or not; " + MAN, defs={"NP": 7, "ND": 2})
Job("C13", "line2d", "kd.c", "h_range_query", "5 given points in 2-D with coincident ones in 5 orders, query anywhere on a line, range 5, ordered or not; one by one or mixed", defs={"NP": 5, "ND": 2, "FEW": 1})
Job("C13", "line3d", "kd.c", "h_range_query", "7 given points in 3-D with coincident ones in 28 orders, query anywhere on a line, range 5, ordered or not; " + MAN, defs={"NP": 7, "ND": 3}, tier="t")
Job("C13", "cloud3d", "kd.c", "h_range_cloud", "8 given points in 3-D with coincident ones in 32 orders, 4 queries, any range, ordered or not; " + MAN, defs={"NP": 8, "ND": 3}, tier="t")
Job("C13", "tie", "kd.c", "h_range_tie", "points exactly at the range, range zero (concrete)")
Job("C13", "empty", "kd.c", "h_empty", "tree without points, any query and range")
NFP = "one of them possibly with a non-finite first coordinate"
Job("C14", "mix2d", "kd.c", "h_mix", "any mix of two insertions (single, bulk of 2, shuffled bulk of 2) of points anywhere in 2-D, " + NFP, defs={"NOP": 2})
Job("C14", "mix1d", "kd.c", "h_mix", "any mix of three insertions (single, bulk of 2, shuffled bulk of 2) of points anywhere in 1-D, " + NFP, defs={"NOP": 3, "ND": 1}, tier="t")
Job("C14", "mix2d3", "kd.c", "h_mix", "any mix of three insertions (single, bulk of 2, shuffled bulk of 2) of points anywhere in 2-D, " + NFP, tier="t")
Job("C14", "find2d", "kd.c", "h_mixfind", "8 points in 2-D in two batches of any kind and size, one coordinate any real, one point possibly NaN; all are found again", defs={"ND": 2})
Job("C14", "find3d", "kd.c", "h_mixfind", "8 points in 3-D in two batches of any kind and size, one coordinate any real, one point possibly NaN; all are found again", defs={"ND": 3}, tier="t")
Job("C14", "grow", "kd.c", "h_grow", "8 sequences of up to 2052 given points growing the storage in every way", steps=40000000)
Job("C14", "bigid", "kd.c", "h_bigid", "4 identifiers beyond 32 bits (concrete)")

# ---------------------------------------------------------------- C17, C18, C19 fractional conversions
Job("C17", "fij3x3", "map2.c", "h_fij", "3 x 3 corner nodes, each anywhere in its own box, every set of valid cells, any pair of indices from 2 below to 2 above the range, NaN included; both map types", defs={"NX": 3, "NY": 3})
Job("C17", "fij2x4", "map2.c", "h_fij", "2 x 4 corner nodes, each anywhere in its own box, every set of valid cells, any pair of indices from 2 below to 2 above the range, NaN included; both map types", defs={"NX": 2, "NY": 4})
Job("C17", "extreme", "map2.c", "h_fij_extreme", "144 pairs of extreme values (concrete); both map types", defs={"NX": 4, "NY": 3})
Job("C18", "inv3x3", "map2.c", "h_inv", "3 x 3 corner grids of 6 shapes, mirrored and rotated or not, one of 3 scales each, any point of 4 lines across any cell; both map types", defs={"NX": 3, "NY": 3, "LINES": 2})
Job("C18", "inv3x3l", "map2.c", "h_inv", "3 x 3 corner grids of 6 shapes, mirrored and rotated or not, 3 scales, any point of 4 lines across any cell; both map types", defs={"NX": 3, "NY": 3, "LINES": 1}, tier="t")
Job("C18", "inv3x3f", "map2.c", "h_inv", "3 x 3 corner grids of 6 shapes, mirrored and rotated or not, 3 scales, any point strictly inside any cell; both map types", defs={"NX": 3, "NY": 3}, tier="t", allow_inconclusive=True)
Job("C18", "any3x3", "map2.c", "h_inv_any", "3 x 3 corner grids, rectangular and sheared, every simply connected set of cells, any point around the grid; both map types", defs={"NX": 3, "NY": 3})
Job("C19", "hist3x3", "map2.c", "h_history", "3 x 3 corner grids, general and sheared, mirrored or not; 13 pairs of earlier queries, then a query at any point of a line or any indices; both map types", defs={"NX": 3, "NY": 3, "LINES": 1}, budget=200)
Job("C19", "others", "map2.c", "h_others", "two 3 x 3 corner grids of general quadrilaterals, of the same or opposite orientation, in either order of use; any point of 2 lines across any cell; both map types each", defs={"NX": 3, "NY": 3})
Job("C19", "hist3x3all", "map2.c", "h_history", "3 x 3 corner grids, general and sheared, mirrored or not; any two of 12 earlier queries, then a query at any point of a line or any indices; both map types", defs={"NX": 3, "NY": 3}, tier="t")

# ---------------------------------------------------------------- C20 subgrid
SUBF = ("gridnodes_subgrid", "gridnodes_copy", "gridnodes_create", "gridnodes_destroy")
for nx, ny, t in ((1, 3, "qt"), (3, 1, "t"), (2, 2, "t")):
    Cbmc("C20", "any%dx%d" % (nx, ny), "cb.c", "h_c20", "%d x %d grid of any type, every coordinate any IEEE double, any four int limits" % (nx, ny), defs={"NX": nx, "NY": ny, "MAXTOTAL": nx * ny}, unwind=nx * ny + 3, tier=t,
         functions=SUBF, budget=200, soft=True)
WIN = "%d x %d grid of any type, every coordinate any real, any one node NaN; each limit any of all places in the grid, one before, one after, INT_MIN and INT_MAX"
for nx, ny, t in ((3, 3, "qt"), (4, 2, "qt"), (2, 4, "t"), (5, 4, "t")):
    Job("C20", "win%dx%d" % (nx, ny), "file.c", "h_c20", WIN % (nx, ny), defs={"NX": nx, "NY": ny}, tier=t)
Job("C20", "copy", "file.c", "h_c20_copy", "3 x 2 grid, every coordinate any real or NaN, copied", defs={"NX": 3, "NY": 2})
Job("C20", "tool3x2", "file.c", "h_c20_tool", "subgrid run on a 3 x 2 grid file, every coordinate any real, any one node NaN; ranges given or not, each limit from 1 below to 1 above the grid; x, y or both written", defs={"NX": 3, "NY": 2, "TOOLS": 1}, utils=("subgrid",))
Job("C20", "tool3x4", "file.c", "h_c20_tool", "subgrid run on a 3 x 4 grid file, every coordinate any real, any one node NaN; ranges given or not, each limit from 1 below to 1 above the grid; x, y or both written", defs={"NX": 3, "NY": 4, "TOOLS": 1}, utils=("subgrid",), tier="t")

# ---------------------------------------------------------------- C23, C24 grid files
Job("C23", "lines2x1", "file.c", "h_c23", "2 x 1 grid file, each line of any of 13 kinds with coordinates any real, with or without last newline; x, y or both written", defs={"NX": 2, "NY": 1})
Job("C23", "lines1x3", "file.c", "h_c23", "1 x 3 grid file, each line of any of 6 kinds with coordinates any real, with or without last newline; x, y or both written", defs={"NX": 1, "NY": 3, "NKIND": 6})
Job("C23", "lines3x2", "file.c", "h_c23", "3 x 2 grid file, each line of 2 kinds with coordinates any real; x, y or both written", defs={"NX": 3, "NY": 2, "NKIND": 2})
Job("C23", "lines3x1", "file.c", "h_c23", "3 x 1 grid file, each line of any of 13 kinds with coordinates any real, with or without last newline; x, y or both written", defs={"NX": 3, "NY": 1}, tier="t")
Job("C23", "lines2x2", "file.c", "h_c23", "2 x 2 grid file, each line of any of 6 kinds with coordinates any real, with or without last newline; x, y or both written", defs={"NX": 2, "NY": 2, "NKIND": 6}, tier="t")
Job("C23", "digits", "file.c", "h_c23_digits", "100 pairs of concrete values of 15 digits")
Job("C23", "long", "file.c", "h_c23_long", "three lines, one of 6 lengths up to 10240 bytes: a node and text of 4 kinds, a comment, or leading blanks; coordinates any real")
Job("C24", "read", "file.c", "h_c24", "35 headers, every number of lines, 4 node types, through the library")
Job("C24", "tools", "file.c", "h_c24_tools", "35 headers, 0-2 lines missing, through getnodes, subgrid, getbound, xy2ij, insertgrid", defs={"TOOLS": 2}, utils=("getnodes", "subgrid", "getbound", "xy2ij", "insertgrid"))
Job("C24", "long", "file.c", "h_c24_long", "lines of up to 25000 bytes as header or node")

# ---------------------------------------------------------------- C30 arrays, C31 masks
ALLOC = {"gucommon.c": ["-Dmalloc=vh_malloc", "-Dcalloc=vh_calloc"]}
AF = ("gu_alloc2d", "gu_free2d")
for k, a, u in ((0, "1", 8), (1, "1", 8), (0, "3", 24), (1, "3", 24), (0, "4294967297UL", 8), (1, "4294967297UL", 8), (0, "2305843009213693957UL", 8), (1, "2305843009213693957UL", 8)):
    Cbmc("C30", "size%d_%s_%d" % (k, a.rstrip("UL"), u), "cb.c", "h_c30_size", "%s any 64-bit number, the other dimension %s, units of %d bytes: no size that overflows or is too small is asked from malloc()" % (("nj", "ni")[k], a, u),
         libflags=ALLOC, stub_alloc=False, unwind=12, functions=AF, defs={"ANY": k, "ASIZE": a, "UNIT": u})
Cbmc("C30", "zero", "cb.c", "h_c30_zero", "sizes and unit 0-3, at least one of them zero", stub_alloc=False, unwind=12, functions=AF)
for nx, ny, u, t in ((3, 2, 8, "qt"), (2, 3, 4, "qt"), (1, 1, 1, "qt"), (1, 4, 3, "qt"), (5, 4, 8, "t"), (3, 3, 24, "t")):
    Cbmc("C30", "layout%dx%dx%d" % (nx, ny, u), "cb.c", "h_c30_layout", "%d x %d elements of %d bytes" % (nx, ny, u), defs={"NX": nx, "NY": ny, "UNIT": u}, stub_alloc=False, unwind=nx * ny * u + 10, functions=AF, tier=t)
MASKIO = {"gucommon.c": ["-Dfopen=vhc_fopen", "-Dfclose=vhc_fclose", "-Dfgets=vhc_fgets", "-Dfgetc=vhc_fgetc", "-Dgetc=vhc_fgetc", "-Dfeof=vhc_feof"]}
for nx, ny, nb, t in ((1, 1, 3, "qt"), (2, 1, 4, "t"), (1, 3, 6, "t")):
    Cbmc("C31", "any%dx%d" % (nx, ny), "cb.c", "h_c31", "%d x %d mask, file of up to %d bytes, each any of 256 values" % (nx, ny, nb), defs={"NX": nx, "NY": ny, "NB": nb}, libflags=MASKIO, unwind=nb + 4, functions=("gu_readmask",), tier=t,
         budget=200, soft=True, may_timeout=True)
Job("C31", "lines2x1", "file.c", "h_c31_lines", "2 x 1 mask, 0-3 lines, each any of 16, with or without last newline", defs={"NX": 2, "NY": 1})
Job("C31", "lines1x2", "file.c", "h_c31_lines", "1 x 2 mask, 0-3 lines, each any of 16, with or without last newline", defs={"NX": 1, "NY": 2})
Job("C31", "lines2x2", "file.c", "h_c31_lines", "2 x 2 mask, 0-5 lines, each any of 16, with or without last newline", defs={"NX": 2, "NY": 2}, tier="t")
Job("C31", "bytes2x1", "file.c", "h_c31_bytes", "2 x 1 mask, file of up to 4 bytes, each any of 8 (NUL included)", defs={"NX": 2, "NY": 1, "NB": 4})
Job("C31", "bytes1x3", "file.c", "h_c31_bytes", "1 x 3 mask, file of up to 6 bytes, each any of 8 (NUL included)", defs={"NX": 1, "NY": 3, "NB": 6}, tier="t")

# ---------------------------------------------------------------- C21 insertgrid, C22 setbathy
INS = "%d x %d grid with %d x %d inserted at any offset from 0 to one beyond; every coordinate any real, every pattern of invalid nodes, merged or not"
for a, b, c, d, t in ((2, 2, 2, 1, "qt"), (1, 3, 2, 2, "qt"), (3, 2, 1, 1, "qt"), (1, 1, 2, 3, "t"), (2, 3, 3, 2, "t")):
    Job("C21", "plain%d%d%d%d" % (a, b, c, d), "insert.c", "h_plain", INS % (a, b, c, d), defs={"NX1": a, "NY1": b, "NX2": c, "NY2": d}, utils=("insertgrid",), tier=t)
for a, b, c, d, w, t in ((2, 2, 2, 2, 1, "qt"), (3, 3, 1, 1, 1, "qt"), (2, 2, 2, 2, 0, "t"), (3, 3, 3, 1, 1, "t"), (2, 3, 3, 2, 1, "t")):
    Job("C21", "typed%d%d%d%d%s" % (a, b, c, d, "few" if w else ""), "insert.c", "h_typed", INS % (a, b, c, d) + "; all three node types" + ("; every second node of the first grid is valid" if w else ""), defs={"NX1": a, "NY1": b, "NX2": c, "NY2": d, "FEW": w}, utils=("insertgrid",), tier=t)
Job("C21", "far", "insert.c", "h_far", "offsets at the end of the range of int", utils=("insertgrid",))
SB = "%d x %d lines of 10 kinds; ranges given or not, each limit from 1 below to 1 above the grid"
for nx, ny, t in ((2, 2, "qt"), (3, 2, "qt"), (4, 3, "t")):
    Job("C22", "window%dx%d" % (nx, ny), "setb.c", "h_window", SB % (nx, ny), defs={"NX": nx, "NY": ny}, utils=("setbathy",), tier=t)
for nx, ny, t in ((1, 1, "qt"), (2, 1, "qt"), (2, 2, "t")):
    Job("C22", "stream%dx%d" % (nx, ny), "setb.c", "h_stream", SB % (nx, ny) + ", header or -d, 0-2 lines skipped, 0-2 trailing, any number of lines missing, with and without last newline", defs={"NX": nx, "NY": ny}, utils=("setbathy",), tier=t)
Job("C22", "errors", "setb.c", "h_errors", "13 unusable headers, 7 unusable dimensions, no value, too few lines to skip", utils=("setbathy",))

Job("C22", "long", "setb.c", "h_long", "a line of one of 10 lengths up to 10238 bytes, skipped, in the window, outside of it or after the data", utils=("setbathy",))

# ---------------------------------------------------------------- C27 xy2ij
XY = "%d lines, one with a point anywhere around a rectangular grid of 2 x 2 cells (one invalid), others of any of 8 kinds; both directions, both map types, forced or not, corner or double-density grid"
Job("C27", "lines2", "xy.c", "h_stream", XY % 2, defs={"NL": 2}, utils=("xy2ij",))
Job("C27", "lines3", "xy.c", "h_stream", XY % 3, defs={"NL": 3}, utils=("xy2ij",), tier="t")
Job("C27", "digits", "xy.c", "h_digits", "36 pairs of values of 15 digits, 4 nodes (concrete)", utils=("xy2ij",))

Job("C27", "long", "xy.c", "h_long", "a line of one of 10 lengths up to 10238 bytes, with a point inside, outside or no point; both directions", utils=("xy2ij",))

# ---------------------------------------------------------------- C32 getnodes
GN = "%d x %d cells, all pairs of node types, every mask or none, up to two invalid nodes, x, y or both written; "
for a, b, t in ((2, 1, "qt"), (1, 2, "qt"), (2, 2, "qt"), (1, 3, "qt"), (3, 2, "t"), (2, 3, "t")):
    Job("C32", "sym%dx%d" % (a, b), "getn.c", "h_sym", GN % (a, b) + "every coordinate any real", defs={"CX": a, "CY": b}, utils=("getnodes",), tier=t)
    Job("C32", "verbose%dx%d" % (a, b), "getn.c", "h_verbose", GN % (a, b) + "verbose, slanted lattice", defs={"CX": a, "CY": b}, utils=("getnodes",), tier=t)

# ---------------------------------------------------------------- C25 cell averages
AV = "%d points %s, any z, any split into batches, both map types; 10 fixed locations%s asked"
AVW = "anywhere around a grid of 2 x 2 cells (one invalid)"
AVL = "anywhere on lines across a grid of 2 x 2 cells (one invalid)"
Job("C25", "any1", "avg.c", "h_avg", AV % (1, AVW, " and any on a line"), defs={"NP": 1, "QUERY": 1})
Job("C25", "any2", "avg.c", "h_avg", AV % (2, AVW, ""), defs={"NP": 2})
Job("C25", "line3", "avg.c", "h_avg", AV % (3, AVL, ""), defs={"NP": 3, "LINE": 1}, budget=200)
Job("C25", "any3", "avg.c", "h_avg", AV % (3, AVW, ""), defs={"NP": 3}, tier="t")
Job("C25", "line4", "avg.c", "h_avg", AV % (4, AVL, ""), defs={"NP": 4, "LINE": 1}, tier="t")

# ---------------------------------------------------------------- C26 statistics
SG = "%s, sides of any length in [0.125,8] in directions from a table of 6 (rational cosines), any up to 2 invalid nodes; a grid of %d x %d cells"
Job("C26", "para2x1", "stats.c", "h_para", SG % ("parallelograms", 2, 1), defs={"NI": 2, "NJ": 1, "MASKED": 1, "DD": 1})
Job("C26", "para1x2", "stats.c", "h_para", SG % ("parallelograms", 1, 2), defs={"NI": 1, "NJ": 2})
Job("C26", "trap1", "stats.c", "h_trap", "a trapezoid, any height and bases, legs with any of 5 slopes each", defs={"NI": 1, "NJ": 1})
Job("C26", "trap2", "stats.c", "h_trap", "2 adjacent trapezoids or parallelograms, any height and bases, legs with slopes +-a, a any of 3", defs={"NI": 2, "NJ": 1})
Job("C26", "quad", "stats.c", "h_quad", "a convex or concave quadrilateral with 4 different angles, any size, 4 ratios of two opposite sides, side directions from tables of 4 x 4 (rational cosines)", defs={"NI": 1, "NJ": 1, "DD": 1})
Job("C26", "trap3", "stats.c", "h_trap", "3 adjacent trapezoids or parallelograms, any height and bases, legs with slopes +-a, a any of 3; any up to 2 invalid nodes", defs={"NI": 3, "NJ": 1, "MASKED": 1}, tier="t")
Job("C26", "para2x2", "stats.c", "h_para", SG % ("parallelograms", 2, 2), defs={"NI": 2, "NJ": 2}, tier="t")

# ---------------------------------------------------------------- C28 gridbathy
GB = dict(utils=("gridbathy",), extra=("gbstub.c",))
Job("C28", "values", "gb.c", "h_values", "2 x 1 cells, corner or double-density, any invalid node, 1 or 2 x 2 samples per cell of which half have any value or NaN, no range or any range",
    defs={"NI": 2, "NJ": 1, "SYMB": 2}, **GB)
Job("C28", "options", "gb.c", "h_options", "2 x 2 rectangular cells, any invalid node, mask, rule but averaging, cell, index space or not, 1 or 2 x 2 samples per cell; concrete values", defs={"SYMB": 2, "RECT": 1}, **GB)
Job("C28", "shape", "gb.c", "h_shape", "2 x 2 cells, family of shapes with a real parameter, 1 to 3 x 3 samples per cell", defs={"SHAPE": 1, "PPEMAX": 3, "SYMB": 2}, **GB)
Job("C28", "data", "gb.c", "h_data", "2 x 2 rectangular cells, any invalid node, 3 data points anywhere on lines across the grid, any values; index space with any rule, averaging; any range", defs={"RECT": 1, "SYMB": 2}, **GB)
Job("C28", "values3", "gb.c", "h_values", "2 x 2 cells, corner or double-density, any invalid node, up to 3 x 3 samples per cell of which a third have any value or NaN, no range or any range",
    defs={"NI": 2, "NJ": 1, "SYMB": 3, "PPEMAX": 3}, tier="t", **GB)
Job("C28", "data4", "gb.c", "h_data", "2 x 2 rectangular cells, any invalid node, 4 data points anywhere on lines across the grid, any values; index space with any rule, averaging; any range", defs={"RECT": 1, "SYMB": 2, "ND": 4}, tier="t", **GB)

# ---------------------------------------------------------------- C29 lifetimes
LF = "any sequence of %d operations out of 10 (convert, extract, map, destroy a grid, destroy a map, mask, statistics, boundary polygons, write, average) on up to 3 grids and 2 maps, starting from a grid of any type with and without an invalid node%s"
Job("C29", "seq3", "life.c", "h_life", LF % (3, ""), defs={"NSTEP": 3})
Job("C29", "shape2", "life.c", "h_life", LF % (2, ", family of shapes with a real parameter (without statistics)"), defs={"NSTEP": 2, "SHAPE": 1})
Job("C29", "seq4", "life.c", "h_life", LF % (4, ""), defs={"NSTEP": 4}, tier="t", tbudget=700)
Job("C29", "shape3", "life.c", "h_life", LF % (3, ", family of shapes with a real parameter (without statistics)"), defs={"NSTEP": 3, "SHAPE": 1}, tier="t")

for n, t in ((3, "qt"), (4, "t")):
    Job("C29", "kd%d" % n, "life2.c", "h_kd", "any sequence of %d operations out of 6 on two k-d trees and two result sets, any coordinates along a line" % n, defs={"NSTEP": n}, tier=t)
    Job("C29", "poly%d" % n, "life2.c", "h_poly", "any sequence of %d operations out of 13 on two polylines, starting from no or 5 points, any coordinates along a line" % n, defs={"NSTEP": n}, tier=t)

# ---------------------------------------------------------------- bigger sizes, given shapes
NB = "%d x %d grid, 6 patterns of invalid nodes, any one node flipped or moved anywhere"
Job("C01", "big", "nodes.c", "h_c01", NB % (24, 19) + "; validated twice", defs={"NX": 24, "NY": 19, "BIG": 1})
Job("C02", "big", "nodes.c", "h_c02", NB % (17, 21) + "; validated twice", defs={"NX": 17, "NY": 21, "BIG": 1})
Job("C03", "big", "nodes.c", "h_c03", NB % (21, 17) + "; both targets and map types", defs={"NX": 21, "NY": 17, "BIG": 1})
Job("C06", "bigdd", "nodes.c", "h_c06_dd", NB % (17, 23) + "; a mask", defs={"NX": 17, "NY": 23, "BIG": 1})
Job("C06", "bigcen", "nodes.c", "h_c06_cen", NB % (19, 14) + "; a mask", defs={"NX": 19, "NY": 14, "BIG": 1})
REG = "%d x %d corner nodes, cells in one of 16 regions (discs, combs, spirals, meanders, bands, slots)"
Job("C04", "big", "trans.c", "h_cor_cells", REG % (14, 11) + ", some missing for the k-d map; bent lattice, either orientation, both map types", defs={"NX": 14, "NY": 11, "BIG": 1})
Job("C05", "big", "trans.c", "h_cen", "9 x 11 centres, all valid or some invalid at random, and one node in 14 flipped; with and without fixed offsets of the nodes; both targets", defs={"NX": 9, "NY": 11, "BIG": 1})
Job("C07", "big", "bound.c", "h_bound", REG % (26, 21) + ", each node anywhere in its own box around a slanted lattice", defs={"NX": 26, "NY": 21, "BIG": 1})
Job("C15", "big", "map.c", "h_build", REG % (23, 26) + ", both orientations: map is built and finds all cell centres", defs={"NX": 23, "NY": 26, "BIG": 1})
Job("C15", "bigq", "map.c", "h_bent", REG % (11, 9) + ", both orientations; any query point on a line", defs={"NX": 11, "NY": 9, "BIG": 1})
Job("C15", "bigqt", "map.c", "h_bent", REG % (13, 16) + ", both orientations; any query point on a line", defs={"NX": 13, "NY": 16, "BIG": 1}, tier="t")
Job("C16", "bigrect", "map.c", "h_rect", REG % (13, 16) + ", some missing; any query point on a line", defs={"NX": 13, "NY": 16, "BIG": 1, "MT": 1})
Job("C17", "big", "map2.c", "h_fij", REG % (16, 13) + ", some missing for the k-d map; any indices on a line; both map types", defs={"NX": 16, "NY": 13, "BIG": 1})
Job("C18", "big", "map2.c", "h_inv_any", REG % (9, 11) + "; rectangular and sheared; any point on a line; both map types", defs={"NX": 9, "NY": 11, "BIG": 1})
Job("C08", "big", "polybig.c", "h_compact", "5 outlines of 17 to 56 vertices with 4 sets of redundant vertices each and one anywhere on a side; repeated vertices, any of 4 first vertices, closed or not")
Job("C09", "big", "polybig.c", "h_contains", "5 outlines of 17 to 56 vertices, either direction, closed or not; any point on 5 lines, through vertices and along sides")
Job("C10", "big", "polybig.c", "h_edit", "9 operations on lists of up to 257 points at 4 places, with any new point")
Job("C11", "bigthin", "polybig.c", "h_thin", "lists of 40 and 150 points, any distance")
Job("C11", "bigio", "polybig.c", "h_io", "lists of up to 850 points, one of them any, up to 37 leading lines, lines of up to 2045 bytes")
KB = " given points (scattered, coincident, clustered, sorted, lattice); %s; "
KBM = "one by one, or bulk shuffled after one by one"
KBA = "one by one, in bulk, shuffled or mixed"
ALLHOW = 'vh_int(0,3,"manner")'
Job("C12", "big2d", "kdbig.c", "h_near", "50 to 150" + KB % KBM + "any query on 3 lines", defs={"NP": 150, "ND": 2})
Job("C12", "big3d", "kdbig.c", "h_near", "40 to 120" + KB % KBM + "any query on 3 lines, 3-D", defs={"NP": 120, "ND": 3})
Job("C12", "bigger2d", "kdbig.c", "h_near", "100 to 300" + KB % KBA + "any query on 3 lines", defs={"NP": 300, "ND": 2, "HOW": ALLHOW}, tier="t")
Job("C12", "bigger3d", "kdbig.c", "h_near", "100 to 300" + KB % KBA + "any query on 3 lines, 3-D", defs={"NP": 300, "ND": 3, "HOW": ALLHOW}, tier="t")
Job("C13", "big2d", "kdbig.c", "h_range", "66 to 200" + KB % KBM + "4 queries, ranges 0, 45, 400 and any in two intervals, ordered or not", defs={"NP": 200, "ND": 2})
Job("C13", "big3d", "kdbig.c", "h_range", "50 to 150" + KB % KBM + "4 queries, ranges 0, 45, 400 and any in two intervals, ordered or not, 3-D", defs={"NP": 150, "ND": 3})
Job("C13", "bigger2d", "kdbig.c", "h_range", "166 to 500" + KB % KBA + "4 queries, ranges 0, 45, 400 and any in two intervals, ordered or not", defs={"NP": 500, "ND": 2, "HOW": ALLHOW}, tier="t")
Job("C13", "bigger3d", "kdbig.c", "h_range", "166 to 500" + KB % KBA + "4 queries, ranges 0, 45, 400 and any in two intervals, ordered or not, 3-D", defs={"NP": 500, "ND": 3, "HOW": ALLHOW}, tier="t")
TB = "%d x %d nodes, "
Job("C20", "big", "toolbig.c", "h_sub", TB % (53, 38) + "8 windows, three patterns of invalid nodes, one node anywhere; the window and a copy of it", steps=40000000)
Job("C20", "bigdd", "toolbig.c", "h_sub", TB % (33, 41) + "8 windows, three patterns of invalid nodes, one node anywhere; the window and a copy of it", defs={"NX": 33, "NY": 41}, steps=40000000)
Job("C20", "bigtool", "toolbig.c", "h_subtool", TB % (37, 28) + "8 windows, either range, both or none given; one node anywhere", defs={"TOOL": 1, "NX": 37, "NY": 28}, utils=("subgrid",), steps=40000000)
Job("C21", "big", "toolbig.c", "h_insert", "31 x 15 nodes and 14 x 11 nodes, 12 offsets, merged or not, all node types; one node of each anywhere", defs={"TOOL": 2}, utils=("insertgrid",), steps=40000000)
Job("C22", "big", "toolbig.c", "h_setb", TB % (53, 38) + "8 windows, either range, both or none given; 0 or 30 lines skipped, 0 or 211 trailing, 0, 1 or 53 missing", defs={"TOOL": 3}, utils=("setbathy",), steps=40000000)
Job("C23", "big", "toolbig.c", "h_file", TB % (53, 38) + "three mixes of kinds of lines, one node anywhere; x, y or both written", steps=40000000)
Job("C24", "big", "toolbig.c", "h_trunc", TB % (53, 38) + "7 numbers of lines missing; through the library and subgrid", defs={"TOOL": 1}, utils=("subgrid",), steps=40000000)
Job("C27", "big", "toolbig.c", "h_stream", "1099 lines, one point anywhere in a cell, none or one of two lines outside; both directions and maps, forced or not, verbose or not", defs={"TOOL": 4}, utils=("xy2ij",), steps=40000000)
Job("C30", "big", "toolbig.c", "h_alloc", "6 sizes up to 1025 x 3 and 1 x 300, units of 1, 4, 8 and 24 bytes", steps=40000000)
Job("C31", "big", "toolbig.c", "h_mask", "53 x 38 mask, good, with a bad line, cut or too long at 5 places", steps=40000000)
Job("C25", "big", "avgbig.c", "h_avg", "7 x 9 sheared cells with a slot, 239 given points and one anywhere on a line with any value, three ways of splitting into batches; both map types", steps=40000000)
Job("C25", "bigger", "avgbig.c", "h_avg", "7 x 9 sheared cells with a slot, two sets of 599 given points and one anywhere on a line with any value, three ways of splitting into batches; both map types", defs={"SEED": 'vh_int(0,1,"points")', "NP": 600}, steps=40000000, tier="t")
Job("C32", "big", "getn.c", "h_sym", "6 x 5 cells, all pairs of types but centre to other ones, no mask or 3 masks, no or one or two of 5 invalid nodes, family of shapes with a real parameter", defs={"CX": 6, "CY": 5, "BIG": 1}, utils=("getnodes",), steps=40000000)
Job("C32", "bigverb", "getn.c", "h_verbose", "9 x 7 cells, verbose, slanted lattice, all pairs of types, no mask or 3 masks, no or one or two of 5 invalid nodes", defs={"CX": 9, "CY": 7, "BIG": 1}, utils=("getnodes",), steps=40000000)
Job("C28", "big", "gb.c", "h_big", "5 x 4 cells, 4 choices of invalid nodes, no mask or 2 masks, all cells or either of two, every rule, in index space or not, 1, 4 or 7 x 7 samples per cell, some missing and one of any value, 90 data points of which one is anywhere on a line", defs={"NI": 5, "NJ": 4, "PPEMAX": 7, "ND": 90, "RECT": 1, "SYMB": 2}, utils=("gridbathy",), extra=("gbstub.c",), steps=40000000)
Job("C26", "big", "stats.c", "h_bigpara", "11 x 9 parallelograms, three grids, three patterns of invalid nodes, one of three columns of any width; corner and double-density", defs={"NI": 11, "NJ": 9, "DD": 1}, steps=40000000)

# ---------------------------------------------------------------- made in memory
Job("C33", "fill3x5", "mem.c", "h_fill", "3 x 5 nodes, given once, some given again, or in arrays; one of three nodes anywhere, any one missing or none; all types and conversions, map types 0, 1 or default", defs={"NX": 3, "NY": 5})
Job("C33", "fill7x3", "mem.c", "h_fill", "7 x 3 nodes, given once, some given again, or in arrays; one of three nodes anywhere, any one missing or none; all types and conversions, map types 0, 1 or default", defs={"NX": 7, "NY": 3}, tier="t")
Job("C33", "map4x3", "mem.c", "h_map2", "4 x 3 corner nodes, no corner or one of four missing, any query on three lines; both map types", defs={"NX": 4, "NY": 3})
Job("C33", "map3x5", "mem.c", "h_map2", "3 x 5 corner nodes, no corner or one of four missing, any query on three lines; both map types", defs={"NX": 3, "NY": 5})
Job("C33", "extent", "mem.c", "h_extent", "4 x 3 corner nodes, one of the corners anywhere in a square, no corner or one of four missing, four orientations", defs={"NX": 4, "NY": 3})
Job("C33", "quit", "mem.c", "h_quit", "20 errors; no quit function, either of two, or one after the other")

IR = "%d x %d corner grids of very irregular cells (%d of them), mirrored and rotated or not, any point of %s across any cell; both map types"
Job("C18", "irr5x3", "map2.c", "h_inv", IR % (5, 3, 2, "4 lines"), defs={"NX": 5, "NY": 3, "LINES": 2, "IRREGULAR": 2})
Job("C18", "irr3x5", "map2.c", "h_inv", IR % (3, 5, 1, "4 lines"), defs={"NX": 3, "NY": 5, "LINES": 2, "IRREGULAR": 1})
Job("C18", "irr7x5", "map2.c", "h_inv", IR % (7, 5, 12, "4 lines"), defs={"NX": 7, "NY": 5, "LINES": 2, "IRREGULAR": 12}, tier="t")
Job("C26", "again", "stats.c", "h_para", SG % ("parallelograms", 1, 2) + "; calculated for the second time or without having been validated", defs={"NI": 1, "NJ": 2, "AGAIN": 1})
Job("C26", "none", "stats.c", "h_none", "3 x 3 centre or untyped nodes anywhere, any one missing or none; once or twice, verbose or not")

# ---------------------------------------------------------------- C34 command lines
for n, (u, nw, ng) in enumerate((("getbound", 3, 3), ("getnodes", 3, 3), ("subgrid", 3, 3), ("insertgrid", 3, 4), ("setbathy", 3, 3), ("xy2ij", 3, 3), ("gridbathy", 3, 3))):
    kw = dict(utils=(u,), extra=("gbstub.c",) if u == "gridbathy" else ())
    Job("C34", "words_" + u, "opts.c", "h_words", "%s run with 0-%d words, each any of a vocabulary of option letters, file names, node types and other strings, with or without what is required before them; a node and a value any real" % (u, nw), defs={"TOOL": n + 1, "NWORD": nw, "NGROUP": ng}, **kw)
    Job("C34", "order_" + u, "opts.c", "h_groups", "%s run with %d complete options, each any, in any order and repeated or not, before, between or after what is required; a node and a value any real" % (u, ng), defs={"TOOL": n + 1, "NWORD": nw, "NGROUP": ng}, **kw)
    Job("C34", "order4_" + u, "opts.c", "h_groups", "%s run with %d complete options, each any, in any order and repeated or not, before, between or after what is required; a node and a value any real" % (u, ng + 1), defs={"TOOL": n + 1, "NWORD": nw, "NGROUP": ng + 1}, tier="t", **kw)

# ---------------------------------------------------------------- C35 tweak of polar grids
PO = "centre grid of %d x %d nodes, one or none invalid, longitudes in [-180, 360], latitudes in [-90, 90], 4 places of -p in the command line"
for a, b, t in ((1, 4, "qt"), (4, 1, "qt"), (2, 2, "qt"), (3, 2, "t"), (2, 3, "t")):
    Job("C35", "any%dx%d" % (a, b), "polar.c", "h_any", PO % (a, b), defs={"NX": a, "NY": b}, utils=("getnodes",), tier=t)
for a, b, t in ((4, 3, "qt"), (6, 4, "t")):
    Job("C35", "line%dx%d" % (a, b), "polar.c", "h_line", "%d x %d centre nodes, the longitudes and a latitude of one row or column anything" % (a, b), defs={"NX": a, "NY": b}, utils=("getnodes",), tier=t)
Job("C35", "conv", "polar.c", "h_conv", "3 x 2 cells, double density converted to all types, corners and centres kept, mask or none, longitudes of two nodes anything: the tweak is done on the converted and masked grid", defs={"NX": 3, "NY": 2}, utils=("getnodes",))

# ---------------------------------------------------------------- other units
for n, sc in (("small", "9.5367431640625e-07"), ("large", "1048576.0")):
    SCT = ", coordinates in units of %s" % ("2^-20" if n == "small" else "2^20")
    Job("C15", "build_" + n, "map.c", "h_build", "4 x 4 corner nodes, every simply connected set of valid cells, both orientations" + SCT + ": map is built and finds all cell centres", defs={"NX": 4, "NY": 4, "SCALE": sc})
    Job("C15", "bent_" + n, "map.c", "h_bent", "3 x 2 bent corner grid, every simply connected set of valid cells, both orientations; any query point around the grid, NaN included" + SCT, defs={"NX": 3, "NY": 2, "SCALE": sc})
    Job("C16", "rect_" + n, "map.c", "h_rect", "3 x 2 rectangular corner grid with uneven spacing, every set of valid cells; any query point around the grid, NaN included" + SCT, defs={"NX": 3, "NY": 2, "MT": 1, "SCALE": sc})
