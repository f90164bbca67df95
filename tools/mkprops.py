#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept as code so that it stays reviewable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}),
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

LOG = "the existing tests only print results for one or two fixed inputs"

prop("C01", "R-tree intersection search returns exactly the matching objects",
 "After any sequence of building (one by one or in bulk), inserting, deleting and upserting, a box search on the spatial index returns exactly the stored objects whose bounding box shares at least one point with the query box (edges and corners count), each stored object once, and a filtered search returns exactly those of them that pass the filter. The answer depends only on what is stored, never on insertion order, tree shape or node capacities.",
 ["histories", "inputs"], "every operation history, object coordinates, query box and valid node capacity (1 <= min <= max/2, max >= 2)",
 "two fixed five-point trees are built and printed; nothing is asserted, and tree shape depends on coordinates and history",
 ["rtree.go", "box.go"],
 [("Insert/chooseNode/split/adjustTree", "rtree.go"), ("bulkLoad/omt", "rtree.go"), ("searchIntersectWithCond", "rtree.go"), ("Box.Intersect/Union", "box.go")],
 ["SearchIntersect", "SearchIntersectWithCond"],
 [("node entries and boxes", "every node's box covers everything below it", "rtree.go")])

prop("C02", "R-tree deletion and bookkeeping follow the stored set",
 "Deleting an object removes exactly one stored object equal to it and reports true, or reports false and changes nothing if there is none; deleting by ID removes every object with that ID and no other; upserting leaves exactly one object with that ID, the new one. Size always equals the number of stored objects, a lookup by ID returns exactly the objects with that ID, and no operation of the index panics, whatever geometry kind is stored, including on a tree that has been emptied.",
 ["histories", "inputs"], "every history of build/insert/delete/delete-by-ID/upsert, any 2D geometry kind, any coordinates",
 "one test deletes one object from one fixed tree that never splits and prints the size",
 ["rtree.go"],
 [("DeleteWithComparator/findLeaf/condenseTree", "rtree.go"), ("DeleteBySpatialID/UpsertBySpatialID", "rtree.go")],
 ["Size", "SearchBySpatialID", "return values of Delete*"])

prop("C03", "R-tree nearest-neighbour query returns the k closest in order",
 "For every k >= 0, a nearest-neighbour query returns min(k, Size) distinct stored objects ordered by non-decreasing distance from the query point to the objects' bounding boxes, and no object left out is strictly closer than one returned. It never panics, whatever history produced the tree.",
 ["histories", "inputs"], "every history, query point and k",
 "no test calls the nearest-neighbour query at all",
 ["rtree.go"],
 [("nearestNeighbors/insertNearest/pruneEntriesMinDist", "rtree.go"), ("minDist", "rtree.go")], ["NearestNeighbors"])

prop("C04", "Box predicates and union agree with point-set semantics",
 "For well-formed boxes with finite coordinates: two boxes intersect exactly when they share a point (touching edges count) and the test is symmetric; one box contains another exactly when every point of the second is in the first; the union is the smallest box containing both, in either order; a point is in a box exactly when it lies between the bounds, borders included. The union of a list of boxes is their smallest common cover, and converting a box to a geometry yields a point, a line or a polygon with exactly the box's corners.",
 ["inputs"], "every pair (triple) of boxes over all finite float64 coordinates",
 "boxes are only exercised with one point query in a printing test",
 ["box.go"], [("Intersect/Union/Contain/BoxUnion/IsPointInBox/BoxToGeo", "box.go")], ["exported Box functions"])

prop("C05", "The bounding box of a geometry is the tightest cover of its points",
 "For every non-empty point, multipoint, line, multiline, polygon and multipolygon with finite coordinates, however large, the bounding box contains every vertex (of a polygon: of its outer ring) and each of its four sides is attained by some vertex.",
 ["inputs"], "every geometry of the six 2D kinds and all finite float64 coordinates",
 "one bounding box of one triangle is printed",
 ["box.go"], [("BoundingBox/calBox", "box.go")], ["BoundingBox"])

prop("C06", "WKT encode then decode returns the same geometry",
 "For every non-empty 2D or Z point, multipoint, line, multiline, polygon (closed rings, any number of holes) and multipolygon with finite coordinates, decoding the encoded WKT text gives a geometry of the same kind with the same structure and bit-identical coordinates. Encoding is deterministic and starts with the upper-case WKT type keyword.",
 ["inputs"], "every geometry of the twelve kinds, any nesting sizes and coordinate values",
 "one MULTIPOLYGON is decoded and the result discarded",
 ["wkt/encode.go", "wkt/decode.go"], [("Encode", "wkt/encode.go"), ("Decode and the per-type parsers", "wkt/decode.go")], ["wkt.Encode", "wkt.Decode"])

prop("C07", "WKT decoding is total: a geometry or an error, never a panic",
 "For every input text, decoding returns either a geometry or an error and never panics; a text with no geometry keyword or with a coordinate that is not a number is an error. Optional blanks after the keyword, inside brackets next to a coordinate list, and after commas do not change the decoded geometry.",
 ["inputs"], "every byte string",
 "no malformed text is ever decoded by the tests",
 ["wkt/decode.go"], [("Decode and the per-type parsers", "wkt/decode.go")], ["wkt.Decode"])

prop("C08", "GeoJSON geometry encode then decode returns the same geometry",
 "For every non-empty 2D or Z point, line and polygon (any number of rings) with finite coordinates, encoding to GeoJSON and decoding returns the same kind of geometry, the same structure and bit-identical coordinates. Every one of the twelve geometry kinds encodes without error to an object with the RFC 7946 type name and coordinates nested as the RFC prescribes, in x, y(, z) order.",
 ["inputs"], "every geometry of the twelve kinds",
 "only a 2D and a Z point are decoded, from fixed text",
 ["geojson/geojson.go"], [("MarshalGeo/Convert*", "geojson/geojson.go"), ("UnmarshalGeo/inter2*", "geojson/geojson.go")], ["geojson.MarshalGeo", "geojson.UnmarshalGeo"])

prop("C09", "GeoJSON geometry decoding is total: a geometry or an error",
 "For every JSON value in the coordinates member (missing, wrong nesting, wrong element type, too few numbers, mixed dimensions), decoding a GeoJSON geometry of a supported type returns a geometry or an error and never panics. When it returns a geometry, every coordinate in it comes from the corresponding position of the input, with nothing dropped or invented.",
 ["inputs"], "every decoded JSON value used as coordinates",
 "tests only decode well-formed points",
 ["geojson/geojson.go"], [("UnmarshalGeo/inter2*/isInter*Z", "geojson/geojson.go")], ["geojson.UnmarshalGeo"])

prop("C10", "GeoJSON features keep geometry, ID, bounding box and properties",
 "Marshalling a feature or feature collection and unmarshalling it preserves the geometry, ID, bounding box, CRS and properties of every feature, in order; type is always written as Feature or FeatureCollection and features is never null. Setting the bounding box of a feature stores the bounding box of its geometry in that feature, and typed property accessors return the stored value when it has the requested type and an error or the caller's default otherwise.",
 ["inputs", "histories"], "every feature and property value",
 "fixed single features; bounding-box setting is never tested",
 ["geojson/feature.go", "geojson/feature_collection.go", "geojson/properties.go"],
 [("Feature.MarshalJSON/NewFeature/SetBoundingBox", "geojson/feature.go"), ("FeatureCollection.MarshalJSON", "geojson/feature_collection.go"), ("Property*", "geojson/properties.go")], ["geojson package API"])

prop("C11", "Editing a line behaves like editing a list of points",
 "Appending, setting, inserting, deleting, reversing, splitting and reading points of a line have exactly the effect of the same edit on a plain list: inserting at position i (0..n) adds one point there, setting replaces one point (or appends at n), deleting removes one, reversing twice is the identity, and an out-of-range position is reported as an error (or nil) and changes nothing. Two lines are equal exactly when they have the same number of points and corresponding points are equal, and comparing never panics.",
 ["histories", "inputs"], "every sequence of edits, every position and coordinates",
 "no test edits a line",
 ["lineString.go", "lineStringZ.go"], [("Append/SetPoint/InsertPoint/DelPoint/Reverse/SplitByIndex/Equal/GetPoint", "lineString.go")], ["LineString methods"])

prop("C12", "Read-only operations never modify the caller's geometry",
 "Simplifying, building a ring or polygon from a line, computing a hull, bounding rectangle, area, centroid, relation, encoding or cell covering leaves every point the caller can see unchanged, including points in slices that share storage with the argument. Constructors copy their argument list: changing the arguments afterwards does not change the constructed geometry.",
 ["inputs", "histories"], "every argument geometry, including slices with spare capacity and shared storage",
 "tests never look at an argument after the call",
 ["simplify.go", "linearRing.go", "linearRingZ.go", "convexhull.go", "mbr.go", "googleS2.go", "lineString.go"],
 [("DouglasPeuckerSimplify", "simplify.go"), ("NewRingFromLine", "linearRing.go"), ("ConvexHull", "convexhull.go"), ("Mbr", "mbr.go"), ("S2RegionCoverer", "googleS2.go")], ["argument geometries after the call"])

prop("C13", "Rings and polygons are closed and keep their vertices",
 "Building a ring or polygon from two or more points yields the given points in order, closed: if first and last already coincide (within the 1e-6 tolerance) nothing is added, otherwise exactly the first point is appended. Rings and polygons report point counts, outer and inner rings and points consistently with what was put in, and a 2D or Z point equals another exactly when every coordinate differs by less than 1e-6.",
 ["inputs"], "every point list and ring list",
 LOG, ["linearRing.go", "linearRingZ.go", "polygon.go", "polygonZ.go", "point.go", "pointZ.go"],
 [("NewRingFromLine/NewLinearRing", "linearRing.go"), ("NewPolygon/SetExteriorRing/AddInteriorRing", "polygon.go"), ("Point.Equal", "point.go")], ["ring and polygon accessors"])

prop("C14", "Polygon area is the shoelace area of the outer ring",
 "The area of a polygon is the absolute shoelace area of its outer ring: never negative, unchanged by reversing the ring, starting it at another vertex or translating it, scaled by s squared under scaling by s, and the area of a rectangle is width times height. The area of a multipolygon is the sum over its polygons, anything that is not an area has area 0, and the orientation test reports counter-clockwise exactly for positive signed area.",
 ["inputs"], "every ring",
 LOG, ["calcaulation.go", "polygon.go"], [("GetArea/relativeArea/MultiPolyArea", "calcaulation.go"), ("IsCCW", "polygon.go")], ["GetArea", "IsCCW"])

prop("C15", "Centroids are the arithmetic or area-weighted mean",
 "The centroid of a point is itself, of a multipoint the arithmetic mean of its points, and of a polygon of non-zero area the area centroid of its outer ring (of a triangle: the mean of the three corners; of a rectangle: its centre). The polygon centroid does not depend on ring orientation or start vertex, moves with a translation, and lies inside the bounding box of a convex polygon; a polygon of zero area has no centroid (NaN).",
 ["inputs"], "every point set and ring",
 LOG, ["calcaulation.go"], [("Centroid/pointsCenteriod/polyCentroid", "calcaulation.go")], ["Centroid", "LinearCentroid"])

prop("C16", "Distances are metrics",
 "Planar distance in two and three dimensions is symmetric, never negative, zero exactly for identical coordinates, equals the Euclidean length of the difference, and the functions offering it agree; line length is the sum of its segment lengths and does not change when the line is reversed. Geographic distance is the length of the great circle on a sphere with a radius of 6371 km; it is symmetric, zero for identical points and never more than half the circumference, and the distance function uses the geographic formula exactly for the WGS84 reference system.",
 ["inputs"], "every pair or triple of points",
 LOG, ["point.go", "pointZ.go", "calcaulation.go", "lineString.go"], [("EuclideanDistance/PointDistance", "calcaulation.go"), ("EuclideanDis/CoordDistance", "point.go"), ("EuclideanDisZ", "pointZ.go")], ["distance functions"])

prop("C17", "Nearest point on a segment, line or polygon is really nearest",
 "For planar coordinates the point reported on a segment lies on it, the reported distance is the distance to that point, and no other point of the segment is closer (up to rounding), including when the segment has length zero. Snapping a point to a line reports the segment index, point and distance of a nearest segment, the distance of a point to a polygon is 0 when it is inside or on the border and otherwise the smallest distance to any edge, and projecting on the infinite line gives the perpendicular foot with its parameter.",
 ["inputs"], "every point, segment, line and polygon",
 LOG, ["calcaulation.go"], [("PointToSegmentDistance/PointToLineDistance/PointHitLineString/PointPolygonDistance", "calcaulation.go")], ["those functions"])

prop("C18", "Point-in-polygon classification is exact",
 "For a simple polygon without holes and a point, both on a coarse coordinate grid, the classification is TOUCH exactly when the point lies on an edge or vertex, CONTAIN exactly when it is strictly inside and DISJOINT otherwise. It does not depend on ring orientation or start vertex, and the on-segment and on-line tests report exactly the points lying on the segment or path.",
 ["inputs"], "every simple polygon and point with grid coordinates",
 "a handful of fixed points, most only printed",
 ["contain.go", "relation.go"], [("IsPointInPolygon", "contain.go"), ("IsPointOnSegment/IsPointOnLine", "relation.go")], ["IsPointInPolygon", "IsPointOnSegment", "IsPointOnLine"])

prop("C19", "Segment relation and self-intersection are exact",
 "For two segments on a coarse coordinate grid the relation is INTERSECT exactly when they cross at a single point interior to both, TOUCH exactly when they share a point in any other way (an endpoint, a T-junction, an overlap) and DISJOINT exactly when they share none, whichever is given first and whatever their direction. Two lines intersect exactly when some of their segments share a point, and a polygon is self-intersecting exactly when two of its outer edges cross properly, wherever the ring starts.",
 ["inputs"], "every pair of segments, lines and every ring with grid coordinates",
 "no test calls these",
 ["relation.go", "polygon.go", "vector.go"], [("SegmentRelation/LineRelation", "relation.go"), ("SelfIntersect", "polygon.go")], ["SegmentRelation", "LineRelation", "SelfIntersect"])

prop("C20", "Segment, line and polygon relations to a polygon are sound",
 "For a simple polygon on a coarse grid, a segment or line is reported as intersecting when one of its segments properly crosses any of the polygon's edges, and as disjoint only if no vertex of it is in or on the polygon and no edge is crossed. A segment strictly inside a convex polygon is reported as contained, one with both ends inside or on it that touches an edge as covered, and a polygon (ring) compared with another is judged on all its edges, including the closing one. The relation of a segment depends neither on its direction nor on the direction or first vertex of the ring.",
 ["inputs"], "every segment, line and pair of polygons with grid coordinates",
 "no test calls these",
 ["relation.go"], [("SegPolyRelation/LinePolyRelation/LinearPolyRelation/PolyRelation", "relation.go")], ["SegPolyRelation", "LinePolyRelation", "PolyRelation"])

prop("C21", "The convex hull is convex, contains all points and uses only them",
 "For three or more points on a coarse grid that are not all on one line, the hull is a closed counter-clockwise convex ring whose vertices are input points and which contains every input point inside or on it. The result as a region does not depend on the order of the input points and duplicates do not change it, and when no area is spanned it is nil or has zero area; no input makes it panic.",
 ["inputs"], "every list of grid points, in any order, with duplicates",
 "one hull of five fixed points is printed",
 ["convexhull.go"], [("ConvexHull and its sort order", "convexhull.go")], ["ConvexHull"])

prop("C22", "Simplification keeps the ends and stays within the threshold",
 "Simplifying a line keeps its first and last point, returns a subsequence of its points in order, and leaves every removed point within the threshold of the segment that replaces it, also for closed lines whose ends coincide. At threshold 0 only points lying exactly on the replaced segment are removed, with a negative threshold none; simplifying again with the same threshold changes nothing, and a larger threshold keeps no point that a smaller one removes. Lines of fewer than three points are returned unchanged, and every call ends without a panic.",
 ["inputs"], "every line and threshold >= 0",
 "one collinear line is simplified and printed",
 ["simplify.go", "calcaulation.go"], [("DouglasPeuckerSimplify/dpWorker", "simplify.go")], ["DouglasPeuckerSimplify"])

prop("C23", "Discrete Hausdorff distance matches its definition",
 "For two lines of positive length, the Hausdorff distance is the largest distance from a vertex of either line to the nearest vertex of the other: symmetric in its arguments, zero exactly when both have the same set of vertices, and at least the distance of each vertex to the other line's nearest vertex.",
 ["inputs"], "every pair of lines",
 LOG, ["calcaulation.go"], [("HausdorffDistance", "calcaulation.go")], ["HausdorffDistance"])

prop("C24", "UTM zone and hemisphere data are always valid and consistent",
 "For every latitude in [-80, 84] and longitude in [-180, 180] conversion to UTM succeeds with a zone number in 1..60 whose central meridian is at most 6 degrees away (3 degrees outside the Norway and Svalbard exceptions) and, with the band-letter option, the MGRS band letter of that latitude (C to X without I and O), whose hemisphere is the latitude's; anything outside that range, or NaN, is an error. Conversion from UTM accepts exactly eastings in [100000, 1000000), northings in [0, 10000000], zones 1..60 and a valid letter or hemisphere flag but not both, accepts every zone and letter conversion to UTM returns, and otherwise returns an error without panicking.",
 ["inputs"], "every float64 latitude/longitude/easting/northing, zone number and letter",
 "one latitude/longitude pair is converted and printed",
 ["utm.go"], [("latLonToZoneNumber/latitudeToZoneLetter/ValidateLatLone", "utm.go"), ("ToLatLon input checks", "utm.go")], ["FromLatLon", "ToLatLon"])

prop("C25", "UTM projection is symmetric about equator and central meridian",
 "Mirroring a point in the equator keeps its easting and maps its northing n to 10000000 - n, mirroring it in its zone's central meridian maps its easting e to 1000000 - e and keeps its northing, and a point on the central meridian has easting exactly 500000. The inverse conversion has the same mirror symmetries, and gives the same coordinates whether the hemisphere is given by letter or by flag.",
 ["inputs"], "every latitude/longitude and every easting/northing in range",
 "one point is converted and printed",
 ["utm.go"], [("FromLatLon/ToLatLon series", "utm.go")], ["FromLatLon", "ToLatLon"])

prop("C26", "Datum conversions are the identity outside China and compose",
 "Outside the rectangle 73.66 < lon < 135.05, 3.86 < lat < 53.55 the conversions between WGS84 and GCJ02 return their input unchanged in both directions; inside it the result differs from the input by less than 0.02 degrees in each coordinate. Conversion from WGS84 to BD09 (and back) is exactly the composition of the two steps through GCJ02, and converting from GCJ02 to WGS84 subtracts exactly the offset that converting to GCJ02 adds at the same coordinates.",
 ["inputs"], "every longitude and latitude",
 "no test calls the conversions",
 ["lonlat.go"], [("WGS84toGCJ02/GCJ02toWGS84/delta/isOutOFChina", "lonlat.go"), ("BD09 conversions", "lonlat.go")], ["exported conversion functions"])

prop("C27", "Angles and bearings are normalised",
 "An azimuth is in [0, 360) for every pair of points in the WGS84 system and 0 in any other, the angle at a vertex is in [0, 2*pi) and is an error exactly when one arm has zero length, and the longitude of a destination point is in [-180, 180]. The convexity class of a vertex is decided by the sign of the sine of its angle, and a quadrant angle is the angle from the positive x axis.",
 ["inputs"], "every pair or triple of points",
 "one azimuth is printed",
 ["angle.go", "calcaulation.go", "point.go"], [("GetAzimuth", "angle.go"), ("CacAngle/CacConvex/CacQuadrantAngle", "calcaulation.go"), ("DestinationPoint", "point.go")], ["those functions"])

prop("C28", "Vector algebra obeys its defining identities",
 "Adding, subtracting, scaling, dot and cross product of vectors act component-wise as defined: cross is antisymmetric and zero for parallel vectors, dot is symmetric, subtracting undoes adding on grid values, squared length is the dot with itself, length is its root. Normalising a non-zero vector gives length 1 up to rounding in the same direction, dividing by zero panics, and cloning or the functional forms leave their operands unchanged.",
 ["inputs"], "every pair of vectors and scalar",
 "no test touches vectors",
 ["vector.go"], [("Vector2 methods", "vector.go")], ["Vector2 methods"])

prop("C29", "A point buffer is a closed regular polygon of the given radius",
 "Buffering a point by r >= 0 gives a closed ring of 24 distinct directions whose every vertex lies at distance r from the point (up to rounding) in counter-clockwise order with equal angles, so that the point is inside for r > 0; a negative width gives no polygon. Buffers move with the point and scale with r.",
 ["inputs"], "every centre and radius",
 "the buffer test file does not compile",
 ["buffer.go", "point.go"], [("pointBuffer/getBufferCoordsByRadian", "buffer.go")], ["Point.Buffer"])

prop("C30", "Rotation is rigid, about the centre, and invertible",
 "Rotating a point by any angle keeps its distance to the centre up to the documented four-decimal truncation, the centre stays where it is, rotating clockwise and then counter-clockwise by the same angle returns to the start up to truncation, and clockwise by a quarter turn maps east of the centre to south of it. A polygon is rotated vertex by vertex, keeping the vertex count and order of its outer ring.",
 ["inputs"], "every point, centre and angle",
 LOG, ["calcaulation.go"], [("RotateCW/RotateCCW", "calcaulation.go")], ["RotateCW", "RotateCCW"])

prop("C31", "Geohash cells contain the encoded point",
 "For a longitude in [-180, 180), a latitude in [-90, 90) and a precision of 1 to 12 characters, the cell boundary of the encoded hash contains the point (x is longitude, y is latitude), the hash has the requested length, the reported centre is the middle of the boundary, and all neighbours are returned in the order N, NE, E, SE, S, SW, W, NW.",
 ["inputs"], "every coordinate and precision",
 LOG, ["geohash.go"], [("GeohashEncode/GeohashGetBoundary/GeohashGetCenter/GeohashGetAllNeighbors", "geohash.go")], ["those functions"])

prop("C32", "S2 cells contain the encoded point at the requested level",
 "For every longitude, latitude and level 0..30, the S2 cell of a point is a valid cell of exactly that level that contains the point; the centre and the four corners reported for a cell are those of that cell, longitude first; its neighbours are all its neighbours at its own level. The region covering of a convex polygon of either direction is that of the region inside, at the requested level. For reference systems other than WGS84 the cell, the centre, the boundary and the neighbours are the empty result.",
 ["inputs"], "every coordinate, level, cell and polygon",
 LOG, ["googleS2.go"], [("S2GetCellID/S2GetCenter/S2GetBoundary/S2GetAllNeighbors/S2RegionCoverer", "googleS2.go")], ["those functions"])

prop("C33", "UTM conversion there and back returns the point",
 "Converting a latitude and longitude to UTM and back returns the original coordinates within 1e-5 degrees anywhere in a zone, and the projected easting and northing agree with the transverse Mercator projection within a metre.",
 ["inputs"], "every latitude and longitude in range",
 LOG, ["utm.go"], [("FromLatLon/ToLatLon series", "utm.go")], ["FromLatLon", "ToLatLon"])

prop("C34", "Polygon validity check accepts exactly valid outer rings",
 "Verifying a polygon reports an error when its outer ring has fewer than three distinct positions, when a vertex is outside longitude [-180, 180] (x) or latitude [-90, 90] (y), when its area is zero or when two outer edges cross properly, and no error for a simple ring with positive area within these ranges. A line is verified as valid exactly when it has at least two points.",
 ["inputs"], "every ring and line",
 "no test calls the validity checks",
 ["polygon.go", "lineString.go"], [("Polygon.Verify/SelfIntersect", "polygon.go"), ("LineString.Verify", "lineString.go")], ["Polygon.Verify", "LineString.Verify"])

prop("C35", "Setting a spatial reference or adding to collections never fails",
 "Assigning a spatial reference ID to any geometry that offers it succeeds for every value without panicking and leaves the geometry unchanged, every geometry reports its own type, and adding a point, ring or polygon to a collection appends exactly it at the end.",
 ["inputs", "histories"], "every geometry kind and reference ID",
 "no test calls these",
 ["srid.go", "polygon.go", "multipoint.go", "multipolygon.go", "multilinestring.go", "multiLineStringZ.go", "type.go"],
 [("SetSrid", "polygon.go"), ("SridMap", "srid.go"), ("Append/AddPolygon/AddInteriorRing", "multipoint.go")], ["SetSrid", "Type", "Append"])

prop("C36", "Degenerate geometries never make a function panic",
 "No measure, relation, constructor or encoding panics on a geometry that is empty, has one point, or has points that coincide or are closer together than the tolerance: area, centroid, length, bounding box, hull, simplification, WKT and GeoJSON encoding, ring and polygon constructors and point relations all return a value or an error.",
 ["inputs"], "every geometry kind with zero, one or a few points in any position",
 "tests only use well-formed geometries",
 ["calcaulation.go", "calcaulation.go", "mbr.go", "linearRing.go", "polygon.go", "lineString.go"],
 [("Centroid", "calcaulation.go"), ("Mbr", "mbr.go"), ("NewLinearRing/NewPolygonFromPois", "linearRing.go")], ["exported functions taking a geometry"])

prop("C37", "UTM coordinates follow the transverse Mercator series of WGS84",
 "For every position in a zone, easting and northing equal those of the published transverse Mercator series (Snyder, 8-9 to 8-15) on the WGS84 ellipsoid with scale 0.9996, false easting 500000 m and, in the south, false northing 10000000 m, to within a micrometre; converting coordinates back gives the latitude and longitude of the published inverse series to within 1e-9 degrees.",
 ["inputs"], "every position within 3 degrees of a central meridian up to 80 degrees of latitude, on both hemispheres",
 "tests compare a few cities to six digits; an error in one term of the series shows only at some latitudes and far from the meridian",
 ["utm.go"], [("FromLatLon series", "utm.go"), ("ToLatLon series", "utm.go")], ["FromLatLon", "ToLatLon"])

prop("C38", "The minimum rectangle encloses its points and is the least along a hull edge",
 "Mbr returns a closed rectangle (one ring of four corners with right angles) that encloses every point of the geometry up to rounding, and whose area is the least among the enclosing rectangles with a side along an edge of the convex hull; it does not depend on the kind of the geometry, on the order of its points or on where they lie. A point and points on one line have no rectangle.",
 ["inputs"], "every place and order of the points, and every kind of geometry over them",
 "the only test compares one rectangle in four decimals",
 ["mbr.go"], [("Mbr", "mbr.go"), ("ConvexHull", "convexhull.go")], ["Mbr"])

prop("C39", "The R-tree stays balanced and its boxes are tight",
 "After any history of building, inserting and deleting, every box reported by GetAllBoundingBoxes is the least box around the stored objects inside it, every stored object lies in a box of every level, Depth counts the levels, no node holds more than its capacity or, while nothing is deleted from a tree built by insertion, less than its least filling, and the tree is no deeper than its least filling (insertion) or its capacity (bulk loading) allows; an empty tree has depth one and no boxes.",
 ["inputs", "histories"], "every position of an object among others, every capacity, and long histories of insertion and deletion",
 "the structure shows in results only as lost objects or slow queries, much later and for other objects than those a test touched",
 ["rtree.go"], [("adjustTree/condenseTree/split", "rtree.go"), ("bulkLoad/omt", "rtree.go")], ["GetAllBoundingBoxes", "Depth", "Size"])

prop("C40", "Constructed geometries hold exactly the given parts",
 "Every constructor (points, lines, multi-points, multi-lines, polygons and multi-polygons, in two and three dimensions) yields a geometry with exactly the given parts in the given order, any number of them including none; the geometry does not follow later changes of the list it was built from, accessors report its parts, setting one coordinate leaves the others, and adding a point appends it without touching the original list.",
 ["inputs"], "every number of parts and every coordinate",
 "tests build a few geometries and never look at the lists they came from; the 3D constructors are not tested at all",
 ["lineString.go", "lineStringZ.go", "multipoint.go", "multipointZ.go", "multilinestring.go", "multiLineStringZ.go", "polygon.go", "polygonZ.go", "multipolygon.go", "multipolygonZ.go", "point.go", "pointZ.go"],
 [("NewLineString/NewMultiPoint", "lineString.go"), ("NewMultiLineStringZ", "multiLineStringZ.go"), ("NewPointZ/SetZ", "pointZ.go")], ["New*", "Set*", "GetPointSet", "Append"])

prop("C41", "Queries leave the R-tree as it is and answer the same again",
 "A box query, filtered query, nearest-neighbour query, lookup by ID or refused deletion changes nothing that can be seen of the index (size, depth, boxes, objects), the same query gives the same answer again, the results belong to the caller (overwriting or extending them reaches neither the index nor other results), the query box is left as it was, and a filter may itself query the index.",
 ["inputs", "histories"], "every query point or box, and every way the tree was built",
 "no test asks an index twice; shared buffers and in-place work show only in the second answer",
 ["rtree.go"], [("SearchIntersectWithCond", "rtree.go"), ("NearestNeighbors", "rtree.go"), ("Delete*", "rtree.go")], ["SearchIntersect", "NearestNeighbors", "SearchBySpatialID", "Delete"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
