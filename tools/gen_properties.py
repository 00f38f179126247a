#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
D = "python/lsst/skymap/"
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": [D + f for f in files],
         "mechanism": [{"name": n, "where": D + w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "Patch inner boxes exactly tile the tract",
  "For every tract, whatever its size and patch layout, the tract bounding box starts at pixel (0,0), its size is exactly the number of patches times the patch inner size, all patch inner boxes have that same configured size, no two of them share a pixel, and every pixel of the tract lies in one of them. "
  "With the cell-based layout the patch inner size is the number of cells per patch times the cell size.",
  ["inputs", "configurations"],
  "all minimum tract boxes (any position and size, negative included), all positive patch or cell sizes, all borders, all patch indices and pixels",
  "tests sample a few sky maps with default 4000-pixel or 20x150 layouts; rounding up and centring arithmetic fails only for particular size/remainder combinations",
  ["tractBuilder.py", "tractInfo.py"],
  [("setupPatches rounds the box up to whole patches", "tractBuilder.py"),
   ("getPatchInfo places the inner boxes", "tractBuilder.py"),
   ("_finalOrientation moves the box to the origin", "tractInfo.py")])

p("C02", "Tract box encloses its required region with less than a patch of excess",
  "Every tract's pixel box encloses the pixel positions of the whole boundary it is required to cover: each vertex, or each of 24 directions at half the tract overlap around each vertex when there is an overlap, or for tracts given by a radius the four points at radius plus overlap around the centre. "
  "In each dimension it exceeds the smallest such box by less than one patch, shared between the two sides to within one pixel. "
  "Moving the pixel origin to the corner of the box changes no sky position: the tract's final coordinate system maps the box to the same sky as the initial one did.",
  ["inputs", "configurations"],
  "all vertex lists, centres, radii, overlaps (zero included), all coordinate systems (the projection is arbitrary), all patch sizes",
  "tests look at vertex containment for a handful of maps; the quantifier ranges over all projections, remainders and shifts",
  ["tractInfo.py", "tractBuilder.py"],
  [("_minimumBoundingBox collects the required points", "tractInfo.py"),
   ("setupPatches grows and centres the box", "tractBuilder.py"),
   ("_finalOrientation shifts the coordinate system with the box", "tractInfo.py")])

p("C03", "Patch outer box is the inner box plus border, clipped as its layout says",
  "In the legacy layout a patch's outer box is its inner box grown by the configured border and clipped to the tract, so it always contains the inner box and never leaves the tract. "
  "In the cell-based layout it is the inner box grown, without clipping, by the border cells times the cell size plus the cell border. "
  "The border reported by the tract is the border applied.",
  ["inputs", "configurations"],
  "all tract sizes, patch sizes, non-negative borders (larger than a patch included), all patch indices",
  "tests check a few patches of small maps; edge and corner patches with borders wider than a patch are not sampled",
  ["tractBuilder.py", "tractInfo.py", "patchInfo.py"],
  [("getPatchInfo of both builders", "tractBuilder.py"), ("_patchBorder", "tractBuilder.py")])

p("C04", "Sequential patch index is a bijection and every index form agrees",
  "Sequential patch numbers and (x, y) patch indices convert into each other without loss, numbering the patches row by row from 0 to the number of patches minus one. "
  "Looking a patch up by its sequential number, by an index pair or by any two-element sequence gives the same patch, whose own index and number are the ones asked for, and any index outside the grid raises IndexError. "
  "Iterating over a tract gives every patch exactly once in sequential order, as many as its length says.",
  ["inputs", "configurations"],
  "all grid sizes, all index pairs and sequential numbers, in and out of range (negative included)",
  "tests iterate over particular grids, mostly square; a transposed or off-by-one formula shows only for non-square grids or boundary indices",
  ["tractBuilder.py", "tractInfo.py"],
  [("getSequentialPatchIndexFromPair / getPatchIndexPair", "tractBuilder.py"),
   ("getPatchInfo index normalisation and range check", "tractBuilder.py"),
   ("__iter__, __len__, __getitem__", "tractInfo.py")])

p("C05", "Cells of a patch tile the patch inner box and its border of cells",
  "In the cell-based layout the inner boxes of the cells of a patch have the configured cell size, are pairwise disjoint and exactly cover the patch inner box extended on every side by the configured number of border cells. "
  "Each cell's outer box is its inner box grown by the cell border and lies within the outer box of the patch; the outermost cells reach its edges. "
  "The number of cells in each dimension is the cells per patch plus twice the border cells.",
  ["inputs", "configurations"],
  "all cell sizes, cell borders, numbers of cells and border cells, all patches and all cell indices",
  "tests build one or two cell layouts and look at selected cells",
  ["patchInfo.py", "cellInfo.py", "tractBuilder.py"],
  [("getCellInfo", "patchInfo.py"), ("_numCells", "patchInfo.py"), ("CellTractBuilder", "tractBuilder.py")])

p("C06", "Sequential cell index is a bijection; patches without cells say so",
  "Sequential cell numbers and (x, y) cell indices convert into each other without loss, row by row; looking a cell up by number, pair or sequence gives the same cell, and an index outside the grid raises IndexError. "
  "Iterating over a patch gives every cell once in sequential order, as many as its length says. "
  "A patch without cells has length zero, iterates over nothing, and raises IndexError for every cell lookup.",
  ["inputs", "configurations"],
  "all numbers of cells and border cells, all index pairs and sequential numbers in and out of range",
  "tests use one 22x22 layout",
  ["patchInfo.py"],
  [("getCellIndexPair / getSequentialCellIndexFromPair", "patchInfo.py"), ("getCellInfo", "patchInfo.py"),
   ("__iter__, __len__", "patchInfo.py")])

p("C07", "Finding the patch of a sky position is exact, and agrees with containment",
  "Finding the patch for a sky coordinate returns the one patch whose inner box contains the nearest integer pixel, for every coordinate that falls in the tract's pixel box. "
  "It raises LookupError for every other coordinate, including those whose pixel position cannot be computed. "
  "The tract says it contains a coordinate exactly when finding its patch succeeds.",
  ["inputs", "configurations"],
  "all coordinates, all coordinate systems (finite results, NaN results and projection failures), all tract and patch sizes, pixel positions on every patch boundary",
  "tests sample patch centres and corners of a few tracts; half-pixel boundaries and failing projections are not covered",
  ["tractInfo.py", "tractBuilder.py"],
  [("findPatch", "tractInfo.py"), ("contains", "tractInfo.py")])

p("C08", "Patch search over a region misses no patch and repeats none",
  "Searching a tract with a list of coordinates returns, each exactly once, the patches whose inner box meets the pixel bounding box of the coordinates grown by the patch border and clipped to the tract; every patch with an outer box reaching into the bounding box (within the tract) is among them. "
  "Coordinates whose pixel position cannot be computed are ignored, and the result is empty when nothing overlaps or no position can be computed.",
  ["inputs", "configurations"],
  "all coordinate lists of any length, all coordinate systems including failing ones, all grids and borders",
  "tests search a few boxes around patches; the guarantee quantifies over all boxes relative to the grid",
  ["tractInfo.py"],
  [("findPatchList", "tractInfo.py")])

p("C09", "What a tract answers never depends on history or on other tracts",
  "A sky map always refers to the same tracts and patches: the patches, boxes, indices and search results of a tract are determined by the map's configuration and the tract number alone. "
  "They do not change when other tracts of the map (of other sizes) are generated or queried before or after, in any order, or when the same query is repeated, and callers cannot change them through the boxes a tract hands out.",
  ["histories", "configurations"],
  "all sequences of tract generation and queries on one map, all tract sizes",
  "tests query tracts of equal size in index order; interference needs tracts of different sizes and a particular access order",
  ["tractInfo.py", "tractBuilder.py", "cachingSkyMap.py", "baseSkyMap.py"],
  [("each tract owns its builder", "tractInfo.py"), ("setupPatches stores per-tract geometry", "tractBuilder.py"),
   ("getBBox returns a copy", "tractInfo.py"), ("generateTract and the tract cache", "cachingSkyMap.py")])

p("C10", "Rings numbering: every tract number is one ring position, rings tile the sky",
  "In a rings map of the current version, tract 0 is the southern cap and the last tract the northern cap; the numbers between run ring by ring from south to north and eastwards within each ring from the starting RA, so that tract numbers and (ring, position) pairs correspond one to one. "
  "The declination ranges of caps and rings abut from pole to pole and the RA ranges within a ring abut around the full circle, centred on the tract centres. "
  "Numbers outside the map raise IndexError.",
  ["inputs", "configurations"],
  "all numbers of rings, all starting RAs, all tract numbers",
  "tests use maps with a few ring counts and one version; cumulative-sum off-by-ones show at particular ring boundaries",
  ["ringsSkyMap.py"],
  [("getRingIndices", "ringsSkyMap.py"), ("getRaDecRange", "ringsSkyMap.py"), ("generateTract", "ringsSkyMap.py")])

p("C11", "Rings lookup returns the tract whose inner RA/Dec range holds the position",
  "In a rings map of the current version, looking up the tract of a sky position returns the tract whose published inner RA and declination range contains the position, for every position: at the poles, on either side of RA zero and of the starting RA, in every ring. "
  "Only positions on a boundary between ranges may go to either neighbour.",
  ["inputs", "configurations"],
  "all sky positions, all numbers of rings, all starting RAs",
  "tests sample random positions of one map; seams (starting RA, RA zero, first and last ring, caps) are measure-zero for sampling",
  ["ringsSkyMap.py"],
  [("findTract, _decToRingNum, _raToTractNum", "ringsSkyMap.py"), ("getRaDecRange", "ringsSkyMap.py")])

p("C12", "Array lookup of tract numbers agrees with one-by-one lookup",
  "Looking up tract numbers for arrays of positions gives, element by element, the tract that the scalar lookup gives for the same position, in radians or in degrees, for every kind of sky map and, for rings maps, every version. "
  "The result has one entry per position, unaffected by the other entries.",
  ["inputs", "configurations"],
  "all arrays of positions (any length), both units, all numbers of rings, starting RAs and versions",
  "tests compare random samples of one rings map; masks and off-by-one handling differ only at seams and for version 0",
  ["ringsSkyMap.py", "baseSkyMap.py"],
  [("findTractIdArray", "ringsSkyMap.py"), ("findTractIdArray", "baseSkyMap.py")])

p("C13", "Rings are divided finely enough for tracts to overlap",
  "In a rings map each ring is divided in RA into enough tracts that the angular width of a tract's inner range is nowhere larger than the height of a ring, so that a tract of that size centred on the range covers it. "
  "The declination used is the one in the ring nearest the equator, the number of tracts in a ring is at least three, and tract centres, radii and overlaps follow the configured division.",
  ["configurations"],
  "all numbers of rings, all rings of a map",
  "tests construct maps with three or four ring counts; rounding the count down loses coverage for particular counts only",
  ["ringsSkyMap.py"],
  [("ring division in __init__", "ringsSkyMap.py"), ("generateTract", "ringsSkyMap.py")])

p("C14", "Default tract lookup returns the tract with the nearest centre",
  "For sky maps without a special lookup (discrete and equatorial), finding the tract of a position returns a tract of the map whose centre is at the smallest angular distance from the position, for any number and arrangement of tracts. "
  "When several are equally near it returns one of them without failing.",
  ["inputs", "configurations"],
  "all tract lists (any length, coinciding centres included) and all positions",
  "tests look up tract centres; ties and long lists are not exercised",
  ["baseSkyMap.py"],
  [("findTract sorts by separation then index", "baseSkyMap.py")])

p("C15", "Region search over a map pairs every overlapping tract with its patches",
  "Searching a map with a list of coordinates returns each tract whose own patch search is non-empty, paired with exactly the patches that search gives, and no tract twice; rings maps may restrict this to the tracts that contain one of the coordinates, but miss none of those they find to contain one. "
  "The closest-tract variant returns exactly the tracts found for the individual coordinates that have overlapping patches, each once, paired with their patches for the whole list.",
  ["inputs", "configurations"],
  "all maps, all coordinate lists (empty, repeated coordinates, many tracts)",
  "tests search around single tracts; de-duplication and pairing over long lists are sampled at best",
  ["baseSkyMap.py", "ringsSkyMap.py"],
  [("findTractPatchList, findClosestTractPatchList", "baseSkyMap.py"),
   ("findTractPatchList", "ringsSkyMap.py")])

p("C16", "Listing all tracts at a position is sound, complete among neighbours, unrepeated",
  "In a rings map of the current version, listing the tracts that include a position returns only tracts whose pixel box contains it, and none twice. "
  "It includes every such tract among the tract whose inner range holds the position, its neighbours to east and west, the nearest tracts in the rings to the north and south with their neighbours, and both polar caps, also across the starting RA.",
  ["inputs", "configurations"],
  "all positions, all numbers of rings, all starting RAs, all tract coordinate systems (which tract contains what is arbitrary)",
  "tests compare a few positions of one map; wrap-around at the starting RA and at the first and last ring is not sampled",
  ["ringsSkyMap.py"],
  [("findAllTracts", "ringsSkyMap.py"), ("_raToTractNum", "ringsSkyMap.py")])

p("C17", "Map identity: equal exactly when kind and geometry configuration are equal",
  "Two sky maps (of the same tract numbering version) compare equal, and have equal hashes and digests, exactly when they are of the same kind and agree in every configuration value that determines tracts and patches: patch or cell layout and border, overlap, pixel scale, projection, rotation, and the kind's own parameters. "
  "Changing any one of them changes the digest; building the same map again does not. "
  "Comparing with something that is not a sky map is simply unequal.",
  ["configurations"],
  "all pairs of configurations of all kinds of map and both patch layouts",
  "tests change a few attributes of one map; a value left out of the digest or a collision between layouts goes unnoticed",
  ["baseSkyMap.py", "tractBuilder.py", "ringsSkyMap.py", "discreteSkyMap.py", "dodecaSkyMap.py",
   "equatSkyMap.py", "healpixSkyMap.py"],
  [("getSha1, __eq__, __hash__", "baseSkyMap.py"), ("getPackedConfig", "tractBuilder.py"),
   ("updateSha1 of each kind", "ringsSkyMap.py")])

p("C18", "Serialising a map and reading it back gives the same map",
  "A sky map that is pickled and unpickled is of the same kind, compares equal to the original, has the same configuration, version and number of tracts, and its tracts have the same centres, boxes, patches and numbering, whatever queries were made before. "
  "State written by a newer major version (dodecahedron and equatorial maps record one) is refused.",
  ["configurations", "histories"],
  "all kinds of map, all configurations, all versions, all query histories before pickling",
  "tests pickle one freshly made map of each kind",
  ["cachingSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py"],
  [("__reduce__", "cachingSkyMap.py"), ("__getstate__/__setstate__", "dodecaSkyMap.py"),
   ("__getstate__/__setstate__", "equatSkyMap.py")])

p("C19", "Packed data IDs unpack to what was packed, and never collide",
  "Packing the tract, patch and (when included) band of a data ID and unpacking the integer gives back the same data ID, for every data ID that packs without error, whatever integers the configured bands map to (as long as they are distinct). "
  "Two different data IDs accepted by one packer never get the same integer.",
  ["inputs", "configurations"],
  "all tract, patch and band combinations, all numbers of tracts, patches and bands, all band mappings with distinct integers, in any order",
  "tests pack one or two data IDs with bands enumerated in order",
  ["packers.py"],
  [("_pack", "packers.py"), ("unpack", "packers.py")])

p("C20", "Packed integers fit the advertised bits; out-of-range IDs are refused",
  "Every packed integer is non-negative and fits in the number of bits the packer advertises, and that number is the smallest that holds all data IDs the packer has room for. "
  "A patch, tract or band outside the room reserved for it is refused with ValueError, and everything inside is accepted; by default the room is that of the registered sky map, and the bands are included exactly when room for them is asked for.",
  ["inputs", "configurations"],
  "all data IDs and all explicit or default numbers of tracts, patches and bands",
  "tests check two configurations and one rejection",
  ["packers.py"],
  [("maxBits", "packers.py"), ("_pack range checks", "packers.py"), ("constructor defaults", "packers.py")])

p("C21", "Registration writes exactly the tracts and patches of the map",
  "Registering a map (of at least one tract) writes one map record with its digest, its number of tracts and the largest patch counts in x and y over its tracts, then exactly one record per tract and one per patch of every tract, with the tract number, sequential patch number, patch x and y, and the sky region of the tract or patch outer box, and stores the map itself, all in one transaction. "
  "All patch numbers and tract numbers written are below the limits in the map record. "
  "When the same map is already registered nothing more is written, and a conflicting one raises the registry's conflict error.",
  ["inputs", "configurations"],
  "all maps (any number of tracts, tracts of different sizes), registry outcomes: inserted, already present, conflicting",
  "tests that register need a full data repository and use one map; tracts of different sizes never occur",
  ["baseSkyMap.py"],
  [("register", "baseSkyMap.py")])

p("C22", "A map is a consistent sequence of tracts numbered by position",
  "A sky map has as many tracts as its length says; the tract at position i has number i, iteration gives positions 0 to length minus one in order, and asking again gives the same tract object. "
  "Positions at or beyond the length raise IndexError, and in maps that generate tracts on demand so do negative ones; each tract is generated once.",
  ["inputs", "configurations", "histories"],
  "all kinds of map and numbers of tracts, all positions in and out of range, all access orders",
  "tests index a few tracts of each map",
  ["cachingSkyMap.py", "baseSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "discreteSkyMap.py"],
  [("__getitem__, __iter__, __len__", "cachingSkyMap.py"), ("__getitem__, __iter__, __len__", "baseSkyMap.py")])

p("C23", "Dodecahedron faces partition the sky and lookup picks the right face",
  "The twelve faces have unit-vector centres arranged as a regular dodecahedron (a face or a vertex on the poles, as configured), numbered from north to south and by increasing longitude. "
  "Looking up any direction returns a face whose five-vertex polygon contains it (to rounding), irrespective of the vector's length, and each face's vertices are its five nearest, in order around the face. "
  "A sky position is found in the tract of that face.",
  ["inputs", "configurations"],
  "all directions on the sphere, both orientations",
  "tests look up the twelve centres and some vertices",
  ["detail/dodecahedron.py", "dodecaSkyMap.py"],
  [("getFaceInd", "detail/dodecahedron.py"), ("getVertices", "detail/dodecahedron.py"),
   ("findTract", "dodecaSkyMap.py")])

p("C24", "Equatorial tracts evenly tile the configured declination band",
  "An equatorial map has the configured number of tracts, all spanning the configured declination range, whose RA intervals have equal width, start at RA zero, abut in order and close the circle. "
  "Each tract's centre is the middle of its interval and range, and every position in the band is found in a tract whose RA interval holds it.",
  ["inputs", "configurations"],
  "all numbers of tracts, all declination ranges, all positions in the band",
  "tests use the default four tracts",
  ["equatSkyMap.py", "baseSkyMap.py"],
  [("constructor loop", "equatSkyMap.py"), ("findTract", "baseSkyMap.py")])

p("C25", "Sky regions are those of the corresponding pixel box or inner range",
  "The outer sky region of a tract, and the inner and outer sky regions of a patch or cell, are the polygons through the sky positions of the four corners of the corresponding pixel box (its outer pixel edges), in the coordinate system of the tract or the one given. "
  "A tract's inner region is the RA/Dec box of its inner range in a rings map, full-circle for the caps, and otherwise the convex hull of its vertices.",
  ["inputs", "configurations"],
  "all boxes, all coordinate systems, all rings tracts, all vertex lists",
  "tests compare one or two polygons",
  ["detail/utils.py", "tractInfo.py", "patchInfo.py", "cellInfo.py", "ringsSkyMap.py"],
  [("makeSkyPolygonFromBBox", "detail/utils.py"), ("getInnerSkyRegion, getOuterSkyPolygon", "tractInfo.py"),
   ("getInnerSkyPolygon, getOuterSkyPolygon", "patchInfo.py"), ("getInnerSkyPolygon, getOuterSkyPolygon", "cellInfo.py")])

p("C26", "Vector to sky coordinate conversion is right everywhere, poles included",
  "Converting a non-zero cartesian vector to a sky coordinate gives the direction of the vector, whatever its length (whose square has to be a normal number). "
  "At a pole (x and y smaller than any normal number) it gives declination +90 or -90 degrees according to the sign of z, with the given default RA, and fails if no default was given; away from the poles the default is ignored.",
  ["inputs"],
  "all vectors with and without a default RA",
  "tests reach it only through the dodecahedron's twelve faces and twenty vertices",
  ["detail/utils.py"],
  [("coordFromVec", "detail/utils.py")])

p("C27", "HEALPix maps use one consistent correspondence of angles, pixels and tracts",
  "In a HEALPix map the conversions between sky coordinates and the library's angles are inverse to each other, declination increasing with the polar angle used. "
  "Every position is found in the tract numbered by the pixel the library assigns to it for the configured resolution and ordering, each tract's centre and vertices are those of its pixel, a tract's centre is found in that tract, and the number of tracts is the number of pixels.",
  ["inputs", "configurations"],
  "all positions, all resolutions, both orderings, all pixels (the pixel library is trusted)",
  "tests use resolution zero with one ordering",
  ["healpixSkyMap.py"],
  [("angToCoord, coordToAng", "healpixSkyMap.py"), ("findTract, generateTract", "healpixSkyMap.py"),
   ("HealpixTractInfo", "healpixSkyMap.py")])

p("C28", "Every tract's coordinate system follows the configuration",
  "Each tract of every kind of map has a coordinate system with the configured projection, pixel scale and rotation, whose reference position is the tract's published centre (in an equatorial map: the centre's RA at declination zero), placed at the pixel of the tract that shows it. "
  "Discrete maps put a tract of the configured radius at each configured position, in order. "
  "A projection code that does not have three letters is refused.",
  ["configurations", "inputs"],
  "all kinds of map, all scales, rotations, projections, all tracts",
  "tests check a few numbers of default maps",
  ["baseSkyMap.py", "detail/wcsFactory.py", "discreteSkyMap.py", "equatSkyMap.py", "ringsSkyMap.py", "dodecaSkyMap.py",
   "healpixSkyMap.py", "tractInfo.py"],
  [("WcsFactory", "detail/wcsFactory.py"), ("BaseSkyMap.__init__", "baseSkyMap.py"),
   ("generateTract of each kind", "discreteSkyMap.py")])

p("C29", "Configurations are validated, and old patch settings reach the legacy layout",
  "A discrete map's configuration is rejected exactly when its RA, declination and radius lists differ in length; a cell layout is rejected exactly when its cell dimensions are not two equal values; a rings map's when it has no ring or a starting RA outside [0, 360). "
  "Reading or setting the patch size or border directly on a map configuration reads or sets the value of the legacy layout, and tracts built with that layout use it.",
  ["configurations"],
  "all list lengths, dimensions, ring counts, starting RAs, patch sizes and borders",
  "tests try one invalid configuration at most",
  ["discreteSkyMap.py", "tractBuilder.py", "ringsSkyMap.py", "baseSkyMap.py"],
  [("DiscreteSkyMapConfig.validate", "discreteSkyMap.py"), ("CellTractBuilderConfig.validate", "tractBuilder.py"),
   ("field checks", "ringsSkyMap.py"), ("patchInnerDimensions, patchBorder", "baseSkyMap.py")])

p("C30", "Patch and cell descriptions compare by value and refuse impossible boxes",
  "Two patch descriptions are equal exactly when their index, inner box, outer box, number of cells and cell border are all equal, and two cell descriptions exactly when index, inner box and outer box are; inequality is always the negation. "
  "A description whose outer box does not contain its inner box is refused, as are cell dimensions that are not two values; otherwise each accessor returns what was given.",
  ["inputs"],
  "all boxes, indices, cell counts and borders",
  "tests compare a patch with itself and with one other",
  ["patchInfo.py", "cellInfo.py"],
  [("__eq__, __ne__, __init__", "patchInfo.py"), ("__eq__, __ne__, __init__", "cellInfo.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
