import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=["gridutils/"+f for f in files],mechanism=[dict(name=n,where="gridutils/"+w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where="gridutils/"+w) for n,m,w in state]
    assert len(title)<=80,(id,len(title)); P.append(d)
I,H,C,F="inputs","histories","configurations","fault_sequences"

p("C01","Corner-grid validation keeps exactly the nodes of valid cells",
 "Validating a grid of corner nodes leaves a node valid if and only if it is a corner of at least one cell all four of whose corners were valid; kept nodes keep both coordinates unchanged and every other node has both coordinates NaN. Validation is idempotent and never changes the set of valid cells.",
 [I],"every pattern of invalid nodes and every coordinate value, on every grid shape",
 "The smoke test validates one real grid and only checks that the tool runs; no test looks at which nodes survive.",
 ["gridnodes.c"],[("gridnodes_validate / gridnodes_validate_cor","gridnodes.c")],["gridnodes_validate","gridnodes_getx/gety","getnodes -i CO -o CO"])
p("C02","Double-density validation removes exactly the unsupported nodes",
 "In a double-density grid, validation keeps a corner node iff it belongs to a cell with four valid corners, keeps a cell-centre node iff it was valid and all four corners of its cell are valid, and keeps an edge node iff it was valid and the two corners it lies between are valid (all judged on the corners kept). Kept nodes are unchanged in both coordinates, removed ones are NaN in both; a second validation changes nothing, and a double-density grid with an even dimension is rejected, never read out of bounds.",
 [I],"every pattern of invalid corner, edge and centre nodes, every coordinate value, every odd (and even) size",
 "One real grid is converted by the smoke test, whose output is never compared with anything.",
 ["gridnodes.c","insertgrid.c"],[("gridnodes_validate_dd","gridnodes.c")],["gridnodes_validate","getnodes -i DD -o DD","insertgrid -i DD"])
p("C03","Corner and centre grids sampled from a double-density grid are exact",
 "Converting a validated double-density grid of (2n+1)x(2m+1) nodes to corners gives exactly its (n+1)x(m+1) even-index nodes, and converting it to centres gives exactly its nxm odd-index nodes, bit for bit including invalid nodes. The source is not modified and the result carries the requested node type, the matching cell counts and the source's map type.",
 [I],"all node values and invalid patterns, all odd dimensions",
 "The smoke test performs one conversion and never checks a value.",
 ["gridnodes.c"],[("gridnodes_transform NT_DD branches","gridnodes.c")],["gridnodes_transform","getnodes -i DD -o CO|CE"])
p("C04","Centres and double-density nodes of a corner grid are its bilinear midpoints",
 "Converting a corner grid to centres gives, for every valid cell, the mean of its four corners and NaN for every other cell; converting it to double density keeps the corners, gives every edge node the midpoint of its two end corners and every centre the mean of four corners, with NaN wherever a contributing corner is invalid. Converting the double-density result back to corners returns the original corners.",
 [I,C],"all node coordinates, all invalid patterns of a valid corner grid, both map types",
 "Only one grid is converted and nothing is compared.",
 ["gridnodes.c","gridmap.c"],[("gridnodes_transform NT_COR branches","gridnodes.c"),("gridmap_fij2xy","gridmap.c")],["gridnodes_transform","getnodes -i CO -o CE|DD"])
p("C05","Recovering corner or double-density nodes from centres",
 "Converting a centre grid to corner or double-density nodes yields a grid with one more (respectively twice plus one) nodes per direction; where nodes are produced, they reproduce exactly any grid that is an affine image of index space, and each produced node follows the bilinear mapping of a nearest fully valid 2x2 block of centres. It never crashes, whatever the size and invalid pattern: nodes out of reach (one cell and a half in index space) of every valid block are NaN and the result is a validated grid.",
 [I],"all affine maps, all invalid-centre patterns, all sizes including one row or column",
 "The smoke test recovers one grid and compares nothing; degenerate sizes and patterns are not tried.",
 ["gridnodes.c","kdtree.c"],[("gridnodes_transform NT_CEN branches","gridnodes.c"),("kd_findnearestnode","kdtree.c")],["gridnodes_transform","getnodes -i CE -o CO|DD"])
p("C06","Applying a cell mask invalidates exactly the masked cells",
 "After a mask is applied to a centre grid, exactly the nodes of masked cells become NaN in both coordinates and all others are unchanged. After it is applied to a double-density grid, a cell centre survives iff it was valid and its cell is unmasked, a corner survives iff it was valid and touches a surviving centre, remaining edge and centre nodes survive only between surviving corners, and nothing that survives has moved; a corner or untyped grid is refused with an error.",
 [I],"every mask and every invalid-node pattern, all coordinate values, all sizes",
 "No test passes a mask.",
 ["gridnodes.c","getnodes.c","gucommon.c"],[("gridnodes_applymask","gridnodes.c")],["gridnodes_applymask","getnodes -m"])
p("C07","The boundary polygon encloses exactly the valid cells",
 "For a validated corner grid whose valid cells form one simply connected region that does not touch itself at a node, the boundary polygon is closed, consists of adjacent grid nodes in order along the perimeter, visits every boundary edge of the region exactly once, and encloses the valid cells and no others. The index-space polygon lists the indices of exactly the same vertices in the same order, and an empty grid gives an empty polygon.",
 [I],"every simply connected pattern of valid cells, all node coordinates, both map orientations",
 "One grid's boundary is written by the smoke test and never examined.",
 ["poly.c","getbound.c"],[("poly_formbound","poly.c"),("poly_formboundij","poly.c")],["poly_formbound","poly_formboundij","getbound","getbound -r"])
p("C08","Compacting a polygon removes only redundant vertices",
 "Compacting a closed or open polygon of more than four points, positive area and no zero-width spikes keeps vertices in their original order, keeps every vertex at which the outline turns by more than the tolerance, leaves no three consecutive collinear or coincident vertices, and encloses the same region with the same area. A polygon reduced in this way stays usable: points can still be added to it, tested against it and its extent still bounds it.",
 [I],"every polygon with arbitrary repeated, collinear and closing vertices, and every tolerance",
 "The only compaction run is on one boundary and is not compared.",
 ["poly.c","getbound.c","gridbmap.c"],[("poly_compact","poly.c")],["poly_compact","getbound -c"])
p("C09","Point-in-polygon is exact, boundary inclusive",
 "The containment test returns 1 for a point iff the point lies on the polygon's outline (including vertices and the implied closing edge) or is inside by the even-odd rule, and 0 otherwise. The answer does not depend on the starting vertex, on the direction of traversal, on whether the closing point is repeated, or on repeated vertices.",
 [I],"every polygon and every query point, including points level with vertices and on edges",
 "The test maps a handful of interior points; points on edges and vertices and non-convex polygons are not exercised.",
 ["poly.c"],[("poly_containspoint","poly.c")],["poly_containspoint"])
p("C10","Polyline editing operations behave as a list of points",
 "After any sequence of create, add, insert-at, delete, append, reverse, close, clear, copy and find operations, a polyline holds exactly the points that the same operations give on a plain list, in order, with its extent equal to the bounding box of its points, and no memory is read or written outside its storage. Insertion past the end appends, insertion at an invalid (negative) index does nothing, adding a NaN point is refused, and the signed area is positive for counterclockwise polygons.",
 [H,I],"all operation sequences and all coordinates",
 "Most of these operations are not called by any test.",
 ["poly.c"],[("poly_addpoint/addpointat/append/deletepoint/reverse/close/copy/area","poly.c")],["poly.h API"],
 [("poly.x/y/n/nallocated/e","points, capacity and extent","poly.h")])
p("C11","Thinning, despiking and polyline text I/O follow their definitions",
 "Resampling keeps the first point and then exactly the points farther than the threshold (per coordinate) from the last kept point; despiking keeps the first point and then exactly those closer than the given distance to the last kept one; both keep the extent exact. Writing a polyline prints a header with the number of points and one line per point with 15 significant digits, and reading that text back (lines shorter than 2048 bytes; leading comments and blank lines skipped, reading stops at the first non-point line) appends the same points.",
 [I,H],"all polylines, thresholds and text inputs",
 "No test calls these functions except writing.",
 ["poly.c"],[("poly_resample/poly_despike/poly_read/poly_write","poly.c")],["poly_resample","poly_despike","poly_read","poly_write"])
p("C12","k-d tree nearest neighbour equals exhaustive search",
 "For a k-d tree holding at least one point (all coordinates finite), the nearest-node query returns a point whose distance to the query is the minimum over all inserted points, whatever the order and manner of insertion (one by one, in bulk, shuffled or not), for any dimension and with coincident points. The node it returns carries the coordinates and the original identifier it was inserted with.",
 [I,H],"all point sets, queries, insertion orders and dimensions",
 "The k-d tree is only used indirectly for one grid; results are not compared.",
 ["kdtree.c"],[("_kd_findnearestnode / disttohyperrect","kdtree.c")],["kd_findnearestnode","kd_getnodecoords","kd_getnodeorigid"])
p("C13","k-d tree range search returns exactly the points within range",
 "A range query returns exactly the points at distance at most the given (non-negative) range from the query (points exactly at the range and range zero included), each once, with the result size equal to their number and each reported distance correct. When ordering is requested, results come in non-decreasing distance; reading past the end yields the end marker and NaN, and a query on an empty tree returns an empty set.",
 [I,H],"all point sets, query points, ranges and insertion orders",
 "No test calls range search.",
 ["kdtree.c"],[("_kd_findnodeswithinrange / _kdset_insert / kdset_read","kdtree.c")],["kd_findnodeswithinrange","kdset_read","kdset_getsize"])
p("C14","k-d tree keeps every inserted point across growth and mixed insertion",
 "After any mix of single and bulk insertions the tree holds every inserted point whose first coordinate is finite exactly once, with its coordinates and identifier (the given one, or for a point of a batch its position in the batch plus the size of the tree before), and all of them remain findable, however storage grew on the way. Its size and bounding rectangle always equal the number and the bounding box of those points; points with a non-finite first coordinate are skipped.",
 [H,I],"all insertion histories, including those that cross allocation thresholds",
 "Only one bulk insertion is ever made by the tools under test.",
 ["kdtree.c"],[("kd_insertnode / kd_insertnodes growth","kdtree.c")],["kd_insertnode","kd_insertnodes","kd_getsize","kd_getminmax"])
p("C15","Physical-to-cell lookup finds the containing cell (binary-tree map)",
 "For a validated corner grid whose valid cells form a simply connected region without overlaps that does not touch itself at a node, looking up a point strictly inside a valid cell succeeds and returns that cell's indices; a point outside the closed grid region, or a non-finite point, fails and leaves both indices at -1; a point on a cell edge or node returns one of the valid cells it touches. Building the map never fails or loops for such a grid.",
 [I],"every query point, every simply connected pattern of valid cells, left- and right-handed grids",
 "Three points of one grid are mapped by the smoke test, with no expected values.",
 ["gridbmap.c","gridmap.c","poly.c"],[("gridbmap_build / subgrid_divide / cut_boundary","gridbmap.c"),("gridbmap_xy2ij","gridbmap.c")],["gridmap_xy2ij","xy2ij"])
p("C16","Physical-to-cell lookup finds the containing cell (k-d tree map)",
 "With the k-d tree map, a successful lookup always returns a valid cell that contains the point, and a point outside every valid cell or non-finite fails with both indices at -1. For a grid in which the node nearest to any point is a corner of the cell containing it (such as any rectangular grid), a point in a valid cell is always found, whatever cells are invalid, including regions that are not simply connected.",
 [I],"every query point and every pattern of invalid nodes, within the stated grid class",
 "No test uses the k-d tree map.",
 ["gridkmap.c","kdtree.c","gridmap.c"],[("gridkmap_xy2ij","gridkmap.c")],["gridmap_xy2ij with type k-d tree","xy2ij -k"])
p("C17","Index-to-physical conversion is the bilinear mapping, clamped and safe",
 "Converting fractional indices within the index range returns the bilinear interpolation of the four corners of their cell (exactly the node itself at integer indices, and depending only on the two end nodes along a cell edge), with success. Indices outside the range are reported as failure and evaluated at the nearest end of the range, NaN indices yield a NaN result, and no index value whatsoever makes it read outside the node arrays.",
 [I,C],"all double-precision index pairs and node coordinates, both map types",
 "The smoke test converts one point back and compares nothing.",
 ["gridmap.c"],[("gridmap_fij2xy","gridmap.c")],["gridmap_fij2xy","xy2ij -r"])
p("C18","Physical-to-index conversion inverts the bilinear mapping",
 "For a point inside a valid convex cell, the fractional indices returned lie in that cell and map back to the point (within the relative rounding of the cell size), for rectangular, sheared and general quadrilateral cells of either orientation and any physical scale. The integer parts agree with the integer cell lookup, and a failing lookup returns failure with NaN indices.",
 [I,C],"all points, convex cells, orientations, scales and both map types",
 "Two points are converted, and the output is not compared.",
 ["gridmap.c"],[("gridmap_xy2fij / calc_branch","gridmap.c")],["gridmap_xy2fij","xy2ij"])
p("C19","Map queries do not depend on the queries made before",
 "The result of any index or coordinate conversion on the map of a grid with cells of one orientation depends only on the grid, the map type and the arguments: it is the same whatever sequence of successful and failing conversions was made before, on a map freshly built on the same grid, and after other maps in the same run were built, queried or destroyed. Queries never modify the grid nodes.",
 [H,I],"all query sequences over all grids within the stated class",
 "Tests make one query per process.",
 ["gridmap.c","gridbmap.c","gridkmap.c"],[("gridmap.sign cached branch","gridmap.c")],["gridmap_xy2fij","gridmap_xy2ij","gridmap_fij2xy"],
 [("gridmap.sign","cached sqrt branch","gridmap.c")])
p("C20","Subgrid extraction copies exactly the requested index window",
 "Extracting index ranges [imin:imax] x [jmin:jmax] yields exactly the nodes of that window clipped to the grid, bit for bit and in order, with both ends included, the header sized accordingly and the source untouched; omitted ranges mean the whole extent. A window that does not meet the grid is rejected with an error instead of producing output or corrupting memory, and a full-window extraction is an independent deep copy.",
 [I],"all ranges (negative, reversed, overlong), grid sizes and node values",
 "The smoke test never runs subgrid.",
 ["gridnodes.c","subgrid.c"],[("gridnodes_subgrid / gridnodes_copy","gridnodes.c")],["gridnodes_subgrid","gridnodes_copy","subgrid"])
p("C21","Inserting a grid places every node where it belongs",
 "Inserting grid B into master grid A at offset (i0,j0) >= 0 gives a grid covering the union of both extents in which every node at B's positions comes from B, every other node within A comes from A, and the rest is NaN. With merging, a valid B node wins and an invalid B node leaves A's node (if any); with a node type given the result is then validated as that type, and memory outside the two inputs never influences the output.",
 [I,C],"all sizes, offsets, node values, invalid patterns, with and without merging and node type",
 "No test runs insertgrid.",
 ["insertgrid.c"],[("main insertion loops","insertgrid.c")],["insertgrid"])
p("C22","setbathy replaces exactly the values in the index window",
 "Given nx x ny data lines, setbathy writes them (a header line giving the size is consumed; lines are shorter than 10240 bytes) in order with exactly the lines whose (i,j) falls in the requested inclusive index ranges replaced by the given value and all others byte for byte unchanged; skipped leading lines and trailing lines pass through unchanged. Missing data, a missing value or an unusable header ends with an error instead of made-up output.",
 [I,C],"all sizes, ranges (omitted, negative, out of range), offsets and line contents",
 "No test runs setbathy.",
 ["setbathy.c"],[("main","setbathy.c")],["setbathy"])
p("C23","Grid files survive reading and writing",
 "Reading a grid file and writing the nodes reproduces the header, the row-major order and every node: valid nodes to 15 significant digits in both coordinates, invalid ones as NaN; coordinate-only output prints exactly that coordinate of the same nodes. An empty or commented line, or a line with NaN for either coordinate, is an invalid node with both coordinates NaN, and trailing text on a line is ignored (lines shorter than 10240 bytes).",
 [I],"all grid sizes, coordinates and valid/invalid line forms",
 "The smoke test uses one file and compares nothing.",
 ["gridnodes.c","getnodes.c","subgrid.c"],[("gridnodes_read / gridnodes_write","gridnodes.c")],["gridnodes_read","gridnodes_write","getnodes","subgrid"])
p("C24","Malformed grid input is rejected, never processed",
 "A grid file that is empty, lacks a proper size header, has a non-positive or too big size, has an even dimension for double density, or ends before all nodes are given makes the reader report an error and quit, with nothing written as result. No input text of any content makes the reader access memory out of bounds.",
 [I,F],"all file contents",
 "The tests feed only well-formed files.",
 ["gridnodes.c"],[("gridnodes_read checks","gridnodes.c")],["gridnodes_read","getnodes","subgrid","insertgrid","xy2ij","getbound"])
p("C25","Cell averages are the mean of exactly the points in each cell",
 "After adding any points in any number of batches, the value returned for a location in a valid cell is the arithmetic mean of the z values of exactly the added points that lie in that cell, and NaN when the cell received none or the location is outside the grid. Points outside the grid change nothing.",
 [I,H],"all point sets, batch splits, query locations",
 "The averager is not exercised by any test.",
 ["gridaverager.c"],[("ga_addpoints / ga_getvalue","gridaverager.c")],["ga_addpoints","ga_getvalue","gridbathy -a 4"])
p("C26","Reported grid statistics are those of the valid cells",
 "The statistics reported for a grid are computed over exactly its valid cells: the maximum and mean deviation from orthogonality (|90 deg - angle| over the four cell corners), the maximum and mean aspect ratio (ratio >= 1 of the lengths of the two mean-side vectors) with the cells where the maxima occur, and the mean cell size in each direction. For centre or untyped nodes none are reported. A rectangular grid has zero deviation and a sheared cell its true angle; computing the statistics does not change the nodes.",
 [I],"all node coordinates and invalid patterns",
 "The smoke test prints statistics without checking them.",
 ["gridnodes.c"],[("gridnodes_calcstats / dtheta","gridnodes.c")],["gridnodes_calcstats with verbose output","getnodes -v"])
p("C27","xy2ij converts a stream line by line without losing anything",
 "xy2ij writes exactly one output line per input line (shorter than 10240 bytes), in order: a line starting with two numbers becomes the converted pair followed by the untouched rest of the line, any other line is copied unchanged. A point whose conversion fails ends the run with an error unless forced, in which case it becomes NaN NaN plus the rest of the line, and the following lines are still converted independently; verbose mode reports the right numbers of points, successful and failed conversions and leaves the output unchanged.",
 [I,H,C],"all point streams, both directions, both map types, with and without force",
 "Two single-line runs, with output not compared.",
 ["xy2ij.c","gridmap.c"],[("main conversion loop","xy2ij.c")],["xy2ij"])
p("C28","gridbathy averages clipped samples at regular positions of valid cells",
 "For each cell in row-major order gridbathy prints one value: NaN if the cell is invalid, masked or has no valid sample, otherwise the mean over its n x n regularly spaced sample positions of the interpolated values, with invalid samples dropped and values outside the depth range replaced by the nearest limit. The interpolation method, index-space mode and single-cell selection act as documented, and data points reach the interpolator unchanged (or converted to index space, with points outside the grid dropped).",
 [I,C],"all grids, masks, sample counts, ranges, methods and interpolator results",
 "gridbathy is not built or run by the tests.",
 ["gridbathy.c","gridaverager.c"],[("main cycle","gridbathy.c")],["gridbathy"])
p("C29","No leaks, double frees or invalid accesses over object lifetimes",
 "Any sequence of building grids, transforming, masking, extracting, mapping, querying and destroying, each object destroyed once, releases exactly the memory it allocated and never touches memory outside live objects; destroying one object never invalidates another that does not own it (a map does not own its grid, a transformed, copied or extracted grid is independent of its source). Destroyed-and-rebuilt maps answer as before. The same holds for k-d trees, their result sets (whether all, some or no results were read) and polylines.",
 [H,I],"all object lifecycles and conversion chains over all grids within the stated class",
 "Each tool run makes one short chain and memory is not monitored.",
 ["gridnodes.c","gridmap.c","gridbmap.c","gridkmap.c","kdtree.c","poly.c","gucommon.c"],[("*_destroy functions","gridnodes.c")],["all constructors and destructors"])
p("C30","2-D arrays are zeroed, contiguous and never undersized",
 "An allocated nj x ni array has nj rows of ni zero elements, row j starting exactly ni elements after row j-1, with every element inside the allocation and rows not overlapping one another or the row table. Zero or overflowing sizes are refused with an error instead of returning a smaller block.",
 [I],"all dimension and element size values",
 "Only small successful allocations occur in tests.",
 ["gucommon.c"],[("gu_alloc2d","gucommon.c")],["gu_alloc2d"])
p("C31","Mask files are read exactly or rejected",
 "Reading an nx x ny mask accepts exactly the files whose first nx*ny lines are 0 or 1 (the last line with or without a final newline) and returns them in row-major order. Too few lines or a line that is anything but 0 or 1 is rejected with an error, and no file content causes an access outside the line buffer or the mask.",
 [I,F],"all file contents and sizes",
 "No test reads a mask.",
 ["gucommon.c"],[("gu_readmask","gucommon.c")],["gu_readmask","getnodes -m"])
p("C32","getnodes output is validate, convert, then mask, in that order",
 "For any input and output node types, getnodes prints the grid obtained by reading, validating, converting to the output type and then applying the mask (one value per cell), in the requested coordinates; with equal input and output types and no mask the valid nodes pass through unchanged. Verbose mode changes nothing on standard output, and reported counts of nodes and cells are right.",
 [I,C],"all option combinations, grids and masks",
 "Five option combinations are run once, with outputs not compared.",
 ["getnodes.c","gridnodes.c"],[("main","getnodes.c")],["getnodes"])
p("C33","Grids and maps made in memory behave as those read from files",
 "A grid created in memory and filled point by point (row-major, starting over after the last point), or made around given arrays, holds exactly these nodes and has the sizes, cell counts and map type asked for (the default one otherwise); validation and conversion give the same as for a grid read from a file with the same nodes, and conversion to its own type (or to none in particular) gives an independent copy. A map built directly from a grid answers as one built from its arrays with its map type and has its cell counts, and the extent of a binary-tree map is the bounding box of the nodes of its valid cells. Every error the library detects goes through the quit function installed last, or by default is reported on standard error and ends the run with a non-zero status.",
 [I,H],"all node values, sizes, types and orders of filling",
 "Only grids read from one file are used by the tests.",
 ["gridnodes.c","gridmap.c","gridbmap.c","gucommon.c"],[("gridnodes_create / gridnodes_create2 / gridnodes_readnextpoint","gridnodes.c"),("gridmap_build2","gridmap.c"),("gu_setquitfn","gucommon.c")],["gridnodes_create","gridnodes_create2","gridnodes_readnextpoint","gridmap_build2","gridmap_getnce1","gridbmap_getextent","gu_setquitfn"])
p("C34","Utilities do what their command line says, or nothing",
 "For getbound, getnodes, subgrid, insertgrid, setbathy, xy2ij and gridbathy, what is written on standard output depends only on the settings that the command line gives: not on the order of options and file names, the case of node type names, options repeated (the last one of repeated or exclusive options counts), defaults spelled out, or -v. A command line with an unknown option, an option without its argument, a node type that is unknown or not supported by the utility, an unusable number of points, range, rule or dimensions, or without the files, locations or value required, ends with an error or with the usage or version text and writes no data; no word of the command line, empty ones included, leads to an access outside of it.",
 [I,F],"all command lines",
 "The tests use a dozen valid command lines.",
 ["getbound.c","getnodes.c","subgrid.c","insertgrid.c","setbathy.c","xy2ij.c","gridbathy.c"],[("parse_commandline","getbound.c, getnodes.c, subgrid.c, insertgrid.c, setbathy.c, xy2ij.c, gridbathy.c")],["getbound","getnodes","subgrid","insertgrid","setbathy","xy2ij","gridbathy"])
p("C35","Polar grids are continued across the date line, and cut only at jumps",
 "With -p, getnodes prints the grid it prints without -p (after validation, conversion and masking), changed only as follows: going along each column, the longitude of a node that is more than 180 degrees below that of its predecessor in the column (as continued, both valid) is increased by 360; then in each row every node whose neighbour at the next index is valid and more than 180 degrees of longitude away becomes invalid in both coordinates, and after that every node whose neighbour at the next index is still valid and more than 90 degrees of latitude away. So no two neighbouring nodes of a row that remain valid differ by more than that, no invalid node becomes valid, no latitude changes, and a grid without such jumps is printed unchanged. (Columns whose longitude rises by more than 180 are not specified but for these last guarantees.)",
 [I],"all grids",
 "The tests do not use -p.",
 ["getnodes.c"],[("gridnodes_tweaknpolar","getnodes.c"),("main","getnodes.c")],["getnodes"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
