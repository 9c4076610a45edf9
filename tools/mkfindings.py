import json,subprocess
fx={
"fa98d9c":("C02","validating a double-density grid of even size read and wrote outside the node arrays"),
"0f849b9":("C10","poly_addpointat() moved x but not y, wrote before the arrays for a negative index and accepted NaN"),
"41fb17b":("C10","poly_append() wrote past the storage and left size and extent wrong"),
"d2369cb":("C10","poly_area() was negative for counterclockwise polygons"),
"fff94f6":("C10","poly_close() read the first point of an empty polyline"),
"15bfea1":("C08","poly_compact() left a stale extent, and storage of size zero so that adding a point never grew it"),
"1bc61a1":("C07","the boundary walk took edges between boundary nodes that belong to no valid cell"),
"f39a47f":("C13","range search skipped points exactly at the range across a splitting plane"),
"cf76d93":("C13","queries on an empty tree read a non-existing root node"),
"c67cd6b":("C14","growing the storage at the initial size forgot all points inserted before"),
"7ee3885":("C14","identifiers beyond 32 bits were truncated"),
"9cf7815":("C23","a node line with NaN for y only (or x only) made a half-valid node"),
"4ca62a1":("C05","converting nodes of unspecified type dereferenced NULL"),
"1deec02":("C05","a centre grid without a valid 2x2 block crashed the conversion"),
"4cba15d":("C26","the angle between cell sides was computed from half of its cosine"),
"e80f3a2":("C20","a window that does not meet the grid was allocated with non-positive size"),
"d7cc469":("C17","NaN indices were used as array indices"),
"24f54f3":("C17","indices above the range were evaluated short of the end of the range"),
"2965bc4":("C15","building the binary-tree map of a grid without valid cells crashed"),
"63f05f2":("C15","an absolute tolerance made boundaries of small grids collapse, so points were not found"),
"400f49b":("C18","absolute thresholds gave wrong indices for grids of small physical scale"),
"92454a3":("C31","the last line without newline was rejected or cut, and a NUL wrote before the buffer"),
"2cc9c94":("C30","overflowing sizes gave an array smaller than asked for"),
"0d79822":("C21","insertgrid read past the end of grid rows"),
"2e3edf3":("C22","setbathy without -z wrote made-up values"),
"269c799":("C28","-a 1 and -a 2 selected each other's Natural Neighbours rule"),
"5b13893":("C28","averaging in index space looked the converted points up in physical space"),
"2506ccd":("C21","a location that overflows the size of the grid was accepted"),
"8eae09f":("C15","a region was cut along an edge outside of it, and the map of a spiral could not be built"),
"62446ef":("C34","gridbathy read past the end of an empty argument, and took words without '-' for options"),
"3ac9c39":("C28","a cell outside the grid was read out of bounds"),
}
log=subprocess.run(["git","-C","/repo","log","--format=%h %H","--abbrev=7"],stdout=subprocess.PIPE).stdout.decode().split("\n")
have={l.split()[0] for l in log if l}
out=[]
for k,(p,w) in fx.items():
    assert k in have,k
    out.append({"id":"F-"+k,"status":"fixed","property":p,"commit":k,"what":w,"text":"fixed: property=%s %s %s"%(p,k,w)})
json.dump(out,open("/verif/known_findings.json","w"),indent=1)
