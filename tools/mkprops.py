"""Writes /verif/properties.jsonl (kept as code so that the anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

TR = "glmtools/io/traversal.py"; GL = "glmtools/io/glm.py"; LE = "glmtools/io/lightning_ellipse.py"
CL = "glmtools/grid/clipping.py"; SP = "glmtools/grid/split_events.py"; AC = "glmtools/grid/accumulate.py"
MG = "glmtools/grid/make_grids.py"; ML = "glmtools/io/mimic_lma.py"; IM = "glmtools/io/imagery.py"
CC = "glmtools/io/ccd.py"; CV = "glmtools/io/convert_lcfa.py"

prop("T01", "Child counts per parent are exact and ordered like the parents",
 "For a table hierarchy (for example flashes, groups, events) the per-parent child counts have one entry per parent row, in parent row order, equal to the number of child rows that name that parent. Counts across two levels equal the number of grandchildren, parents without children count zero, and the counts over existing parents sum to the number of child rows whose parent exists.",
 ["inputs", "configurations"], "Any number of rows at each level, any ids in any row order, any assignment of children to parents including childless parents, hierarchies of two to four levels.",
 "The counts are aligned to rows through a group-by keyed by id; a test uses one tidy file, while misalignment needs unsorted ids, gaps or childless parents.",
 [TR], [("OneToManyTraversal.count_children", TR)], observe="return value of count_children")
prop("T02", "Each child row gets the id of its own ancestor",
 "Looking up any ancestor level for the rows of the lowest level returns, for each lowest-level row in row order, the id obtained by following that row's parent links upward. A missing link is never silently replaced by another row's ancestor.",
 ["inputs", "configurations"], "Any row counts, any id values, any row order, any forest of parent links with every link resolving; two to four levels.",
 "A wrong ancestor only shows when ids are unsorted or do not coincide with positions, which sample files rarely exercise.",
 [TR], [("OneToManyTraversal.replicate_parent_ids", TR)], observe="return value of replicate_parent_ids")
prop("T03", "Reducing to chosen entities keeps exactly their ancestors and descendants",
 "Reducing a hierarchy to a chosen set of distinct ids at one level keeps at that level exactly the rows with those ids, below it exactly the rows that descend from them, and above it exactly the rows that are their ancestors, each once. Kept rows keep all their values, rows at the chosen level come in the order the ids were asked for, and the input is left unchanged.",
 ["inputs", "configurations"], "Any hierarchy whose parent links resolve, any subset of ids at any level including the empty set, ids that do not exist, and ids given in any order; two to four levels.",
 "The traversal goes through every level with index arithmetic; a test checks one selection from one file.",
 [TR], [("OneToManyTraversal.reduce_to_entities", TR)], observe="dataset returned by reduce_to_entities")
prop("T04", "Opening a file repairs a broken tree to a closed one",
 "Checking a tree reports the parents without children and the children without parents that exist, and only those. After opening a file with the tree check on, every event names an existing group and every group names an existing flash, no flash is without groups, and every flash that had groups is kept with all of its groups and events.",
 ["inputs", "fault_sequences"], "Any combination of orphaned events, orphaned groups and childless flashes, including none.",
 "Only one hand-picked broken sample exists; combinations of orphans at several levels are not tried.",
 [TR, GL], [("OneToManyTraversal.check_parent_child", TR), ("GLMDataset.__init__ parent/child repair", GL)], observe="GLMDataset.dataset after construction")
prop("T05", "Flash subsetting returns exactly the flashes inside every requested bound",
 "Subsetting by longitude, latitude, fixed grid position and minimum event and group counts returns exactly the flashes meeting every requested criterion (positions strictly inside the bounds, counts at least the minimum), complete with all their groups and events. Unless switched off, a flash must also have at least one event strictly inside the fixed grid bounds narrowed to the instrument's field of view. Criteria that are not requested do not filter.",
 ["inputs", "configurations"], "Any hierarchy, any bounds including empty and all-inclusive ones, every combination of optional criteria and of the event-position switch.",
 "There are over a hundred combinations of optional criteria, each needing boundary positions, against a handful of fixed calls in the tests.",
 [GL], [("GLMDataset.subset_flashes", GL), ("GLMDataset._check_event_xy", GL), ("GLMDataset.get_flashes", GL)], observe="dataset returned by subset_flashes and get_flashes")
prop("N01", "Lightning positions map to the fixed grid angles of their line of sight",
 "The fixed grid angles computed for a longitude and latitude are those of the straight line from the satellite to the point on the lightning ellipsoid at that longitude and at the geocentric latitude belonging to that geodetic latitude on the reference ellipsoid. The result depends on longitude only through its difference from the satellite longitude, whole turns included, and inputs are not altered.",
 ["inputs", "configurations"], "All longitudes within one turn of the satellite, all latitudes short of the poles, both ellipsoid revisions, any earth radii and satellite height that put the satellite outside the ellipsoid.",
 "A continuum of positions and parameters; the tests compare a few points.",
 [LE], [("ltg_ellps_lon_lat_to_fixed_grid", LE)], observe="returned x and y angles")
prop("N02", "The lightning ellipsoid in force is chosen by the product date",
 "The ellipsoid revision returned for a date is the last one whose start date is not after it, with a date exactly at a change taking the newer one. The equatorial and polar radii used for a date are those of that revision, and a dataset opened without an explicit revision uses the one in force at its product time.",
 ["inputs"], "All dates on both sides of each change instant.",
 "Off-by-one behaviour at the change instant and the default path are not exercised by the tests.",
 [LE, GL], [("ltg_ellpse_rev", LE), ("ltg_ellps_radii", LE), ("GLMDataset.__init_fixed_grid_data", GL)], observe="returned revision, radii")
prop("L01", "Distinct pixel locations never share a location id",
 "Discretising two-dimensional positions gives two positions the same id exactly when they fall in the same cell of the discretisation grid. This holds over the full coordinate range including its edges, and also between separate calls with the same settings.",
 ["inputs", "configurations"], "All coordinates within the declared ranges, all cell sizes and ranges, arrays of any length.",
 "A collision needs two particular positions, one at the edge of the range.",
 [GL], [("discretize_2d_location", GL)], observe="returned ids")
prop("L02", "The event lookup table summarises every event at each location once",
 "Collapsing events by location gives exactly one record per distinct location cell, holding the number of its events, of the distinct groups and of the distinct flashes they belong to, the summed event energy, the mean event position, the total area of those flashes and of those groups, and the smallest of those flash areas. Energy and event count summed over records equal the totals over the input events, and the input is not altered.",
 ["inputs"], "Any events, groups and flashes in any order, any repetition of locations across groups and flashes.",
 "Distinct-count and sum bookkeeping goes wrong only for locations repeated across groups or flashes in particular orders.",
 [GL], [("get_lutevents", GL), ("event_lut_iter", GL)], observe="dataset returned by get_lutevents")
prop("U01", "Opening converts units once and changes only unusable values",
 "After opening, energies are in nanojoules and flash and group areas in square kilometres, equal to the stored physical values converted exactly once whatever area units the file declares. Event energies below the smallest positive storable value become half of it and areas stored as missing become the largest storable area; no other energy or area changes.",
 ["inputs", "configurations"], "All stored values, scale factors and offsets, area units in square metres or square kilometres, any pattern of missing and zero values, each conversion switched on or off.",
 "The conversions branch on attributes and values that the sample files fix to one case each.",
 [GL], [("GLMDataset._change_energy_units", GL), ("GLMDataset._eliminate_zero_energy", GL), ("GLMDataset._check_area_units", GL), ("GLMDataset._check_area_overflow", GL)], observe="GLMDataset.dataset after construction")
prop("U02", "Unsigned packed values decode to scale times the unsigned count plus offset",
 "A value stored as a signed two-byte integer but flagged unsigned decodes to scale times its unsigned reading plus offset, whether it is read raw or after an automatic signed decoding. This holds for every one of the 65536 codes and any scale and offset.",
 ["inputs"], "All 65536 stored codes, all nonzero scales and offsets, arrays of any length.",
 "The errors appear for a few percent of codes at particular scales.",
 [GL], [("fix_unsigned", GL), ("fix_event_locations", GL)], observe="decoded arrays")
prop("F01", "Standard file names carry their times through reading and writing",
 "Parsing a standard product file name returns the environment, product, platform and start, end and creation times that the name encodes, to a tenth of a second. The name generated for an image carries its scene, platform, start and end, so parsing it back returns those, and the metadata times agree with the name.",
 ["inputs"], "All valid times including year ends and leap days, all tenths of seconds, all platforms and scenes.",
 "Day-of-year and tenth-of-second handling fails only on particular dates.",
 [GL, IM], [("parse_glm_filename", GL), ("parse_glm_filename_time", GL), ("get_glm_global_attrs", IM)], observe="returned times, names and attributes")
prop("F02", "Converting text flash listings keeps every record, value and link",
 "Converting a text listing of flashes, groups and events gives tables with exactly one row per listed record of that kind, in listed order, with every listed value and parent id in its own column. Merging the tables gives a dataset holding the same columns with ids, times, positions and parent links as coordinates.",
 ["inputs"], "Any listing with any number of flashes, groups and events, in any line order.",
 "Fields are picked by position from three line formats; a test has one listing.",
 [CV], [("parse_LCFA_ASCII", CV), ("gen_flash_data", CV), ("gen_group_data", CV), ("gen_event_data", CV), ("merge_dataframes_to_xarray", CV)], observe="tables and merged dataset")
prop("C01", "Event footprints are the pixel's own corner offsets placed at the event",
 "The footprint returned for each event has its corners at the event position plus the corner offsets tabulated for that position (scaled by the inflation factor), in the tabulated corner order, with the table shifted to the satellite's longitude. Positions outside the table use the nearest tabulated entry, row order is kept, and a pixel lookup built from a grid returns indices that address that same grid.",
 ["inputs", "configurations"], "Any table, any number of events inside and outside the table, any satellite longitude and inflation factor.",
 "Axis order and corner order mistakes are invisible on symmetric sample tables.",
 [CC], [("quads_from_corner_lookup", CC), ("create_pixel_lookup", CC), ("read_official_corner_lut", CC)], observe="returned quads and lookup indices")
prop("C02", "Mesh cell selection never misses a cell the footprint touches",
 "The cells returned for a bounding box include every mesh cell that overlaps the box, each cell once, and each returned polygon is that of the mesh cell its index pair names. Boxes partly or wholly outside the mesh are handled as the part inside, and cell polygons have their corners at the mesh edges of that cell in ring order with the cell's positive area.",
 ["inputs", "configurations"], "Any rectilinear mesh spacing and extent in either axis layout, any box position relative to it including on cell edges, and meshes of a single cell.",
 "Missed cells need a box on particular edges of the mesh.",
 [CL], [("QuadMeshSubset._quads_in_bbox_fast", CL), ("QuadMeshSubset.quads_in_bbox", CL), ("QuadMeshSubset.quads_nearest", CL), ("polys_from_quadmesh", CL)], observe="returned polygons and indices")
prop("C03", "Slicing a footprint conserves its area and labels each piece with its cell",
 "Slicing polygons by mesh cells gives, for each polygon in order, its nonempty intersections with the cells considered, each labelled with the index of its own cell and with the fraction of the polygon's area it holds, and reports each polygon's own area. For a polygon inside the cells considered the fractions sum to one, and the fraction of a mesh cell covered by a piece is the piece's area over that cell's area.",
 ["inputs", "configurations"], "Any number of polygons of any simple shape and orientation, any mesh, zero to many pieces per cell, every way of choosing the cells.",
 "Fractions and labels depend on the geometry of every pairing; tests check one polygon.",
 [CL], [("QuadMeshPolySlicer.slice", CL), ("make_sub_polys", CL), ("clip_polys_by_one_poly", CL), ("poly_area", CL), ("vectorized_poly_area", CL), ("QuadMeshPolySlicer.quad_frac_from_poly_frac_area", CL)], observe="returned sub-polygons, fractions, indices and areas")
prop("C04", "Split records carry their parent's id and their own piece's numbers",
 "Splitting sliced footprints yields exactly one record per piece, parents in order and pieces in order within each, carrying its parent's id and that piece's centre, share of the parent's area, share of its mesh cell and mesh index pair. The tables built from the records for events, groups and flashes put each of those fields in its own column, row for row.",
 ["inputs"], "Any number of parents, any number of pieces per parent including zero, any ids.",
 "Nested zipping of ragged lists misaligns only when piece counts differ between parents.",
 [SP], [("gen_split_events", SP), ("split_event_data", SP), ("gen_sq_mean", SP), ("split_event_dataset_from_props", SP), ("split_group_dataset_from_props", SP), ("split_flash_dataset_from_props", SP)], observe="returned record arrays and datasets")
prop("W01", "Split pieces get their own parent's values, weighted only as asked",
 "After replication every split piece carries the values of the parent it names, with energy weighted by the piece's share of the parent's area, and counts and area totals of the pre-aggregated kind weighted by its share of the mesh cell; nothing else is weighted. Pieces of a parent whose shares sum to one therefore have energies summing to the parent's energy, and the parent data are not altered.",
 ["inputs"], "Any number of parents and pieces, any parent ids in any order, any piece order, parents with no pieces.",
 "A wrong pairing needs parents in unsorted order or with differing piece counts.",
 [SP, ML], [("replicate_and_weight_split_child_dataset", SP), ("replicate_and_weight_split_child_dataset_new", ML)], observe="returned dataset")
prop("A01", "Split pieces merge into exactly one record per mesh cell",
 "Merging split pieces gives exactly one record for each mesh cell that has pieces, at that cell's index pair, whose energy, coverage, event, group and flash counts and area totals are the sums over its pieces, whose minimum flash area is the smallest of theirs and whose position is their mean. Pieces of different cells are never merged, so totals over records equal totals over pieces.",
 ["inputs"], "Any pieces in any order, any mesh index pairs, any number of pieces per cell.",
 "The merge key combines two indices into one number; a collision or a wrong reducer needs specific index pairs.",
 [ML], [("_fake_lma_events_from_split_glm_lutevents", ML), ("mimic_lma_dataset_lut", ML)], observe="returned record arrays")
prop("A02", "Grid accumulators add every record at its own cell and nowhere else",
 "After any sequence of batches in which a cell appears at most once per batch, a summing grid holds at each cell its starting value plus all values addressed to that cell, and a minimum grid starting from zeros holds the smallest positive value addressed to it; other cells are unchanged. A record addresses the grid's first dimension with its y index and the second with its x index, and selection passes on exactly the nonempty events or flashes it was set up for.",
 ["histories", "inputs"], "Any sequence of batches of any length, any cell indices within the grid, any positive values, cells revisited in later batches.",
 "Accumulation keeps state across batches; a test would send one batch.",
 [AC], [("accumulate_var_on_grid_direct_idx", AC), ("accumulate_minvar_on_grid_direct_idx", AC), ("select_dataset", AC)], state="the target grid array", observe="grid array after each send")
prop("R01", "Chunked reading delivers every selected flash once with all its children",
 "Reading a dataset in chunks delivers every flash that passes the requested bounds exactly once, together with all of its groups and events, whatever the chunk size. The records delivered carry each entity's own id, position, energy, area and times in seconds from the requested base date, row for row.",
 ["inputs", "configurations"], "Any number of flashes, any chunk size including one and larger than the file, any bounds.",
 "Chunk boundaries interact with row counts; the tests use one default chunk size.",
 [ML], [("read_flashes", ML), ("mimic_lma_dataset", ML), ("_fake_lma_from_glm_flashes", ML), ("_fake_lma_from_glm_groups", ML), ("_fake_lma_from_glm_events", ML), ("_fake_lma_from_glm_lutflashes", ML), ("_fake_lma_from_glm_lutgroups", ML), ("sec_since_basedate", ML)], observe="chunks delivered to the target")
prop("G01", "Each named gridded product is filled by its own quantity",
 "Every gridded product holds, per time frame, the quantity its name says: extent densities sum the cell-weighted flash or group counts, centroid densities count flashes or groups at their centroid, average areas are the summed flash or group area over the matching extent density, total energy sums the energy, and minimum area is the smallest flash area. Names, descriptions and units stay aligned with their grids.",
 ["inputs", "histories"], "Any records, any grid, any number of frames and batches.",
 "Parallel lists must agree in order; swapping two is invisible unless both products are checked by value.",
 [MG], [("GLMlutGridder.flash_pipeline_setup", MG), ("GLMlutGridder.group_pipeline_setup", MG), ("GLMlutGridder.event_pipeline_setup", MG), ("GLMGridder.pipeline_setup", MG), ("GLMlutGridder.output_setup", MG), ("GLMGridder.output_setup", MG)], observe="out grids, names, units and division map after sending records")
prop("G02", "Tiling covers the grid exactly once and every tile honours the options",
 "Dividing a grid into tiles gives tiles that abut exactly, cover the whole extent and each span a whole number of cells; each tile is padded by the same whole number of cells on every side for processing and exactly that padding is trimmed from what is written. Every tile is written with the output options that were asked for, and the caller's options are not altered.",
 ["configurations", "inputs"], "Any grid extent that is a whole number of cells, any cell size, any number of subdivisions up to the number of cells, any padding.",
 "Floating-point edges and shared option dictionaries only matter for more than one tile.",
 [MG], [("subdivide_bnd", MG), ("subdivided_fixed_grid", MG), ("GridOutputPreprocess", MG), ("GLMlutGridder.write_grids", MG), ("proc_each_grid", MG)], observe="tile bounds, trimmed slices and options at the writer")
prop("I01", "Written images show each grid at the right place, time and name",
 "For every time frame one image file is written whose rows run north to south and columns west to east, holding for each product the accumulated value of the cell at those coordinates, or for averages the total divided by its count where both are nonzero and zero elsewhere. Coordinates are cell centres after trimming the padding, times are the frame's own, and writing does not alter the accumulated grids, so writing again gives the same images.",
 ["inputs", "configurations"], "Any grid size and contents, any number of frames, any padding, packed or floating point output, repeated writing.",
 "Flips and in-place edits cancel in symmetric or single-frame tests.",
 [IM], [("write_goes_imagery", IM), ("glm_image_to_var", IM), ("new_goes_imagery_dataset", IM), ("pairwise", IM)], observe="datasets handed to the file writer and the grids afterwards")
prop("I02", "Packed images never turn lightning into no lightning",
 "With the packing chosen for each product, a positive value up to the largest storable one decodes to within half a step of itself, or to one step if it was smaller than a step, so it never decodes as empty; zero stays empty. Values are only changed where packing requires it, and the input array is not altered.",
 ["inputs"], "All non-negative grid values up to each product's largest storable value, every product's packing.",
 "Loss happens only for values near zero or at the top of the range.",
 [IM], [("glm_scaling", IM), ("glm_image_to_var", IM)], observe="variable values and encoding")
prop("I03", "Time aggregation puts every frame in one interval and sums it",
 "Aggregating frames over time puts each frame starting within the aggregated span in exactly the one interval that contains its start time, a frame starting on an interval edge belonging to the interval it opens. Counts and energy are sums over the frames of the interval, minimum area the smallest, and average areas the summed flash (group) area, each frame's average times its count, over the summed flash (group) count.",
 ["inputs", "configurations"], "Any number of frames, any interval length, explicit or default span, frames on interval edges, missing data in any cells.",
 "Boundary frames are dropped silently; a test with one interval does not see the others.",
 [IM], [("aggregate", IM)], observe="dataset returned by aggregate")
out = "".join(json.dumps(p) + "\n" for p in P)
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write(out)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
