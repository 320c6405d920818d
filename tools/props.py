"""Source of properties.jsonl and MANIFEST.json:  /opt/venv/bin/python tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MG = "meshiphi/mesh_generation/"
DL = "meshiphi/dataloaders/"
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe=(), technique="", note=""):
    P.append(dict(
        rec=dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                 why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                              observe_at=list(observe), hook_needed=None)),
        technique=technique, note=note))


BUILD = "MeshBuilder(config).build_environmental_mesh().to_json()"

prop("C01", "The mesh tiles the configured region exactly",
     "Whatever the data and splitting conditions, the cells of a built mesh cover the configured region without gaps "
     "or overlaps, each cell being an initial cell halved in both directions the same number of times, never more "
     "often than the configured split depth. Ids are unique, and each cell's stated centre and half sizes describe "
     "its geometry. This holds for ordinary regions, regions across the antimeridian and global meshes, and "
     "however often the builder is asked to split or build.",
     ["inputs", "configurations"],
     "every valid region (grid shape, position, antimeridian, global), every data set and splitting condition",
     "The regression tests compare a dozen fixed configurations, mostly one region, with stored meshes; none sweeps "
     "region shape, position or data.",
     [MG + "mesh_builder.py", MG + "cellbox.py", MG + "boundary.py", MG + "aggregated_cellbox.py"],
     [("initial grid", MG + "mesh_builder.py:initialize_cellboxes"),
      ("four-way split", MG + "cellbox.py:create_splitted_cell_boxes"),
      ("depth limit", MG + "mesh_builder.py:split_to_depth"),
      ("cell record", MG + "aggregated_cellbox.py:to_json")],
     [BUILD],
     "property-based testing: generated configurations and data files, tiling invariant as oracle",
     "Random exploration of configurations built end to end; exact-arithmetic tiling oracle independent of the code.")

prop("C02", "The neighbour graph is exactly the cells' geometric adjacency",
     "In every built mesh the neighbour graph has one node per cell and lists for each cell and each of the eight "
     "directions exactly the cells that touch it there - sharing part of an edge, or just the corner - each once. "
     "The relation is therefore symmetric, refers to no cell that does not exist, and wraps around the antimeridian "
     "in global meshes and in regions that cross it.",
     ["inputs", "configurations"],
     "every region, every pattern of splits reachable through data and splitting conditions",
     "Unit tests look at a handful of hand-written splits; adjacency after arbitrary sequences of splits, at the "
     "antimeridian and in global meshes is not sampled.",
     [MG + "neighbour_graph.py", MG + "mesh_builder.py"],
     [("initial graph", MG + "neighbour_graph.py:initialise_map"),
      ("global wrap", MG + "mesh_builder.py:check_global_mesh"),
      ("relinking on split", MG + "mesh_builder.py:split_and_replace"),
      ("touching test", MG + "neighbour_graph.py:get_neighbour_case")],
     [BUILD + "['neighbour_graph']"],
     "property-based testing: generated meshes, differential against brute-force adjacency",
     "Every ordered pair of cells of every generated mesh is judged by an independent geometric definition.")

prop("C03", "Cells are subdivided exactly when the splitting rules say so",
     "Data sources are applied in configuration order; a cell below the maximum depth is split if, among the "
     "conditions of the sources applied so far, none reports a locked homogeneous cell and at least one reports a "
     "fraction of data above its threshold strictly between its lower and upper bound. A source with fewer data in "
     "the cell than the configured minimum never causes a split, and missing values do not count in the fraction.",
     ["inputs", "configurations"],
     "every data set (tabular or gridded), number and order of sources, thresholds, bounds, locks, minimum datapoints",
     "Tests check single homogeneity calls on fixed data; the interplay of several sources, locks and depth on "
     "arbitrary data is only covered by a few stored meshes.",
     [MG + "mesh_builder.py", MG + "cellbox.py", DL + "scalar/abstract_scalar.py"],
     [("staged splitting", MG + "mesh_builder.py:split_to_depth"),
      ("decision", MG + "cellbox.py:should_split"),
      ("homogeneity", DL + "scalar/abstract_scalar.py:get_hom_condition")],
     [BUILD + "['cellboxes'][i]['geometry']"],
     "property-based testing: differential against a reference model of the splitting rules",
     "The set of final cells must equal the one a small independent model derives from the same files and config.")

prop("C04", "A cell's value is the configured aggregate of exactly the data inside it",
     "For every cell that has data of a scalar source, the cell's value is the configured aggregate (MIN, MAX, MEAN, "
     "MEDIAN, STD or COUNT) of precisely the data inside the cell and the configured dates: a datum on a cell's upper "
     "latitude or longitude edge belongs to it, one on the lower edges does not, and missing values are ignored. "
     "This holds for tabular and gridded data, and at the antimeridian.",
     ["inputs", "configurations"],
     "every data set, aggregation type, region and pattern of splits",
     "Unit tests aggregate one small fixed data set per loader; edges, gaps, dates, splits and the antimeridian are "
     "not combined.",
     [MG + "cellbox.py", DL + "scalar/abstract_scalar.py", DL + "scalar/scalar_csv.py", DL + "scalar/gebco.py"],
     [("subset per cell", DL + "scalar/abstract_scalar.py:trim_datapoints"),
      ("aggregation", DL + "scalar/abstract_scalar.py:get_value"),
      ("per-cell collection", MG + "cellbox.py:aggregate")],
     [BUILD + "['cellboxes'][i][name]"],
     "property-based testing: differential against recomputed aggregates",
     "Each value is recomputed from the raw generated data by an independent half-open-box selection; 1e-9 tolerance.")

prop("C05", "Cells without data get the configured fill, and later sources fill only gaps",
     "A cell without data of a source takes the configured fill: the number given, NaN, or (by default) the aggregate "
     "of its nearest enclosing ancestor cell that has data, and NaN if none has. When several sources supply the same "
     "name, the first one's value stands and later ones only replace a missing value. For vector sources each "
     "component is filled.",
     ["inputs", "configurations"],
     "every data set, fill type, sharing of names between sources, and pattern of splits",
     "The tests contain no mesh with numeric or NaN fill and none where two sources share a name.",
     [MG + "cellbox.py", MG + "mesh_builder.py"],
     [("fill and overwrite", MG + "cellbox.py:aggregate"), ("vector fill", MG + "cellbox.py:check_vector_data"),
      ("fill type", MG + "mesh_builder.py:check_value_fill_type")],
     [BUILD + "['cellboxes'][i][name]"],
     "property-based testing: differential against a reference model",
     "Expected fill derived from the model's ancestor chain for every cell of every generated mesh.")

prop("C06", "A saved mesh is complete: it loads back unchanged and rebuilds itself",
     "Writing a mesh as JSON (to_json, or save to a file) and loading it again with load_from_json loses and alters "
     "nothing: ids, geometry, every cell entry including missing values, neighbour graph, configuration and bounds "
     "come out identical (coordinates of a mesh written elsewhere to 1e-12 degrees). The JSON carries the configuration the mesh was built from, and building that configuration "
     "again - as often as one likes - yields an identical mesh.",
     ["inputs", "configurations", "histories"],
     "every mesh the builder can produce, including cells updated afterwards by other packages",
     "One test loads one stored mesh and counts its cells; content, antimeridian cells, NaN and rebuilds are not "
     "compared.",
     [MG + "environment_mesh.py", MG + "aggregated_cellbox.py", MG + "neighbour_graph.py", MG + "mesh_builder.py"],
     [("writing", MG + "environment_mesh.py:to_json"), ("loading", MG + "environment_mesh.py:load_from_json"),
      ("cells", MG + "aggregated_cellbox.py:from_json"), ("graph", MG + "neighbour_graph.py:from_json")],
     ["EnvironmentMesh.load_from_json(mesh.to_json()).to_json()", "EnvironmentMesh.save"],
     "property-based testing: round-trip and rebuild relations on generated meshes",
     "JSON compared value by value (NaN equal to NaN) after load, save and rebuild.")

prop("C07", "Refining a loaded mesh keeps it a tiling with exact adjacency",
     "Splitting cells of a mesh loaded from JSON (split_and_replace) or around points (split_points), in any order "
     "and interleaved with saving and loading, replaces exactly the cells concerned by their four quarters, which "
     "inherit all their values; ids stay unique, all other cells stay as they were, and the neighbour graph remains "
     "exactly the cells' geometric adjacency. split_points refines the cell strictly containing each point until it "
     "has the configured maximum depth or the point lies on an edge between cells, and ignores points outside. The "
     "JSON object that the mesh was loaded from, and other meshes loaded from it, do not change.",
     ["inputs", "histories"],
     "every loaded mesh (plain, across the antimeridian, global), every sequence of splits",
     "No test splits a loaded mesh more than trivially; adjacency after sequences of splits is not sampled.",
     [MG + "environment_mesh.py", MG + "neighbour_graph.py", MG + "boundary.py"],
     [("split", MG + "environment_mesh.py:split_and_replace"), ("points", MG + "environment_mesh.py:split_points"),
      ("quarters", MG + "boundary.py:split"), ("touching test", MG + "neighbour_graph.py:get_neighbour_case_bounds")],
     ["EnvironmentMesh.split_and_replace(id)", "EnvironmentMesh.split_points(points)", "EnvironmentMesh.to_json()"],
     "stateful property-based testing: operation histories against a reference quadtree model",
     "Random quadtree meshes, operation sequences; the full state is compared with the model after every operation.")

prop("C08", "Merging replaces exactly the merged mesh's area and ties the graphs together",
     "merge_mesh with a mesh that covers whole initial cells of this one removes exactly the cells in its area, puts "
     "the merged mesh's cells with their values there under new unique ids, keeps every other cell, and leaves a "
     "neighbour graph that is the exact geometric adjacency of the result; the merged configurations are recorded in "
     "order; the mesh passed in is not modified, nor does this one change with it later. A mesh whose extent is not a whole number of cells, or is off "
     "the cell grid, is refused with an AssertionError and changes nothing.",
     ["inputs", "histories"],
     "every pair (or sequence) of meshes, wherever they are split, at edges, corners and the antimeridian",
     "The one merge test checks a single pair of stored meshes for cell counts.",
     [MG + "environment_mesh.py", MG + "neighbour_graph.py"],
     [("merge", MG + "environment_mesh.py:merge_mesh"),
      ("compatibility", MG + "environment_mesh.py:validate_merge_compatibility"),
      ("seams", MG + "environment_mesh.py:tie_northern_cellbox_ng")],
     ["EnvironmentMesh.merge_mesh(mesh2)", "EnvironmentMesh.to_json()"],
     "property-based testing: merge sequences against a reference model, brute-force adjacency",
     "Random pairs and sequences of quadtree meshes, plus meshes that do not fit the grid.")


prop("C09", "Vector data split cells on curl or spread and aggregate as whole vectors",
     "For vector data (tabular or gridded, with gaps) a cell is split on the fraction of values above the threshold of "
     "either the curl (dv/dx - du/dy by finite differences over the lattice of the cell's coordinates, west to east "
     "also across the antimeridian) or dmag (each vector's distance from the mean vector). MIN and MAX report the whole "
     "vector of smallest or largest magnitude, MEAN, STD and COUNT work per component ignoring gaps, MEDIAN is refused "
     "with a ValueError. Several CSV files equal one file with all rows, aggregation names may be in lower case, fills "
     "apply per component, and a later source fills only the components an earlier one left missing.",
     ["inputs", "configurations"],
     "every set of vectors (positions, gaps, tabular or gridded, axis order), region, condition and aggregation",
     "Tests call the vector loader on one fixed field; gaps, axis order, several files, antimeridian, thresholds and "
     "fills are not varied.",
     [DL + "vector/abstract_vector.py", DL + "vector/vector_csv.py", DL + "vector/vector_grf.py", MG + "cellbox.py"],
     [("curl", DL + "vector/abstract_vector.py:calc_curl"), ("spread", DL + "vector/abstract_vector.py:calc_dmag"),
      ("homogeneity", DL + "vector/abstract_vector.py:get_hom_condition"),
      ("aggregates", DL + "vector/abstract_vector.py:get_value"), ("per-name merge", MG + "cellbox.py:aggregate")],
     [BUILD, "VectorDataLoader.get_value / calc_curl / calc_dmag / get_hom_condition"],
     "property-based testing: generated vector fields built into meshes and queried directly, reference model as oracle",
     "Finite differences, spreads and aggregates are recomputed from the generated vectors without numpy.")

prop("C10", "A boundary's extent, centre, polygon, text form and quarters agree everywhere on the globe",
     "For every latitude/longitude box, also one that crosses, starts or ends at the antimeridian, width, height, "
     "centre, half sizes, corners, size in metres and polygon describe the same area; its text form reads back as the "
     "same box; its quarters tile it and keep its time range. Reversed latitudes or dates, longitudes outside "
     "-180:180, single values and unreadable dates are refused with ValueError; TODAY, TODAY+n and TODAY-n denote "
     "those days; and the lists a caller passes are left unmodified.",
     ["inputs"], "every box, time range and date text",
     "Unit tests use four hand-picked boxes.",
     [MG + "boundary.py", "meshiphi/utils.py"],
     [("construction", MG + "boundary.py:load"), ("refusals", MG + "boundary.py:validate_bounds"),
      ("quarters", MG + "boundary.py:split"), ("text", MG + "boundary.py:from_poly_string"),
      ("dates", MG + "boundary.py:parse_datetime")],
     ["Boundary(lat, long, time)"],
     "property-based testing: generated boxes, geometric invariants and round trips",
     "Coordinates are multiples of 1/64 degree so that every comparison is exact.")

prop("C11", "Malformed configurations are refused and dates decide which data count",
     "A configuration (dict or path) with a missing, unknown or ill-typed entry is refused with jsonschema's "
     "ValidationError, an unreadable or reversed date range, out-of-range region or unknown loader with ValueError, "
     "and a cell size that does not divide the region or a source without files with AssertionError; valid ones are "
     "accepted unmodified. Dates relative to TODAY are resolved in the configuration saved with the mesh, and exactly "
     "the dated data from start to end date, both included and at any time of day, count. Vessel and route configurations "
     "are judged likewise, and waypoint tables lacking a column, a number, a source or a destination are refused with "
     "AssertionError.",
     ["inputs", "configurations"], "every configuration with at most one fault, every date range and set of dated data",
     "Unit tests try a few hand-written faults; dates relative to today are never built into a mesh.",
     ["meshiphi/config_validation/config_validator.py", "meshiphi/config_validation/mesh_schema.py",
      MG + "mesh_builder.py", DL + "factory.py"],
     [("schema", "meshiphi/config_validation/mesh_schema.py:mesh_schema"),
      ("validation", "meshiphi/config_validation/config_validator.py:validate_mesh_config"),
      ("waypoints", "meshiphi/config_validation/config_validator.py:validate_waypoints"),
      ("loaders", DL + "factory.py:get_dataloader")],
     ["validate_mesh_config(config)", "MeshBuilder(config)", "validate_waypoints(table)"],
     "property-based testing: single-fault mutations of valid configurations, dated data counted against a model",
     "One fault of 16 kinds at a time; the date model is the calendar.")

prop("C12", "Mesh queries return the cells that geometry says",
     "On every built mesh, asking for a point returns the cell that contains it, and points outside the mesh are "
     "reported as absent; looking up an id returns that cell and an unknown index raises ValueError when updating. "
     "The cells within given bounds, on the northern, southern, eastern and western edge, and the neighbours of a "
     "cell (or of a free-standing boundary) in each direction are those that geometry defines, in ordinary, "
     "antimeridian and global meshes and however the mesh has been refined.",
     ["inputs", "configurations", "histories"],
     "every mesh, every point, bounding box and pair of cells",
     "Unit tests query one small fixture mesh at hand-picked places.",
     [MG + "environment_mesh.py", MG + "mesh_builder.py", MG + "neighbour_graph.py", MG + "boundary.py",
      MG + "cellbox.py"],
     [("cell records", MG + "environment_mesh.py:get_cellbox"),
      ("edge getters", MG + "mesh_builder.py:get_cellboxes / neighbour_graph.py"),
      ("touching test", MG + "neighbour_graph.py:get_neighbour_case"),
      ("point location", MG + "cellbox.py:contains_point")],
     ["MeshBuilder / EnvironmentMesh / NeighbourGraph query methods"],
     "property-based testing: generated meshes, queries compared with brute-force geometry",
     "Every query is answered independently from the cells' exact coordinates.")

prop("C13", "Exports and command-line tools give the mesh that was built",
     "A GeoJSON export holds one feature per cell with the cell's id, outline and values: cx, cy, dcx and dcy are "
     "left out, numbers that are not finite become null, lists their mean, and asking for one data layer keeps that "
     "layer. A GeoTIFF has the asked size, lies on the mesh's region and shows in each pixel the value of the cell "
     "at the pixel's centre; in another map projection it shows the same values at their projected places. Format names are case-insensitive, older files are replaced and no stray files remain. The create, rebuild, "
     "export and merge commands write exactly what the library calls produce.",
     ["inputs", "configurations"],
     "every mesh, value type, image size, format and command line",
     "The exports are tested on one stored mesh without looking at cell values; commands are not run at all.",
     [MG + "environment_mesh.py", "meshiphi/cli.py", "meshiphi/utils.py"],
     [("GeoJSON", MG + "environment_mesh.py:to_geojson"), ("GeoTIFF", MG + "environment_mesh.py:to_tif"),
      ("dispatch", MG + "environment_mesh.py:save"), ("commands", "meshiphi/cli.py")],
     ["EnvironmentMesh.to_geojson / to_tif / save", "meshiphi.cli commands"],
     "property-based testing: generated meshes and values exported, read back and compared; commands run against "
     "library calls",
     "Pixels whose centre lies on a cell edge are not judged.")

prop("C14", "Data products are read at their true positions, dates and units",
     "For each supported gridded product (GEBCO, AMSR, MODIS, ERA5 and ECMWF wind and waves, ocean currents, "
     "bathymetry, ice concentration, density and forecasts) every value in the files within the asked region and "
     "dates, and no other, reaches the mesh at the latitude, longitude and date that the file states: whatever the "
     "direction of latitudes, longitudes counted 0 to 360, grids in polar projection, dates in file names, one file "
     "or several, a folder or a file. Stated unit conversions (unknown units are refused), derived wind magnitude and direction, wave vectors "
     "and cloud masks hold, and forecasts come from the latest issue before the start date and are refused if they do not "
     "cover the dates; the whole end date counts. Loader names are "
     "case-insensitive and data names configurable.",
     ["inputs", "configurations"],
     "every content, layout and number of files of each product; every region and date range",
     "Only loaders with stored data files are run by the tests, each on one region and date range.",
     [DL + "scalar/", DL + "vector/", DL + "factory.py"],
     [("choice of loader and files", DL + "factory.py:get_dataloader"),
      ("import", DL + "scalar/*.py, vector/*.py:import_data"),
      ("reprojection", DL + "scalar/abstract_scalar.py:reproject"),
      ("trimming", DL + "scalar/abstract_scalar.py:trim_datapoints")],
     ["get_dataloader(name, bounds, params).get_value(bounds, ...)"],
     "property-based testing: generated files of every product, differential against a plain reader",
     "Files are written by the check in the product's layout; expected values are computed from the generated numbers.")


prop("C15", "Look-up tables give every cell the values of the areas that cover it",
     "Tables of areas and dates (CSV, GeoJSON, shapefile, protected areas) give each cell the area-weighted mean and "
     "standard deviation, or the median, minimum or maximum, of the values of the areas and dates that apply to it; a cell "
     "outside all areas gets no value (for true/false tables, the opposite value). Cells are split exactly where an "
     "area's edge passes, when so configured. Tables with anything but areas are refused. Default and configured data names, single files and folders work. The "
     "density and thickness climatologies give each day and place the value of its season, hemisphere and sector.",
     ["inputs", "configurations"],
     "every set of areas (overlapping, holed, in several parts), dates, values, cell and aggregation",
     "Tests have no look-up table data; the loaders run on one stored configuration at most.",
     [DL + "lut/"],
     [("aggregation", DL + "lut/abstract_lut.py:get_value"), ("trim", DL + "lut/abstract_lut.py:trim_datapoints"),
      ("edges", DL + "lut/abstract_lut.py:get_hom_condition"), ("climatology", DL + "lut/thickness.py:import_data")],
     ["get_dataloader(lut...).get_value / get_hom_condition", BUILD],
     "property-based testing: generated area tables, rectangle-area reference model",
     "Areas are unions of boxes, so that exact areas are computed without the geometry library of the code.")

prop("C16", "A scalar loader's answers depend only on the data inside, not on how they are stored",
     "Value, count and splitting verdict for a box are functions of the data with latitude and longitude in the "
     "half-open box and date in the closed range alone: the same for a table and a grid, for any order of rows or axes, for "
     "aggregation names in upper or lower case, with gaps skipped or propagated as configured. Counts of the quarters "
     "of a box add up to its count. Downsampling aggregates whole bins. A loader made by the user and added with "
     "add_dataloader gives the mesh that the configuration file would. Projected tables are read at their true positions.",
     ["inputs", "configurations"],
     "every set of data, box, date range, aggregation, condition and downsampling factor",
     "Tests call each method on one table and one grid with hand-computed numbers.",
     [DL + "scalar/abstract_scalar.py", DL + "scalar/scalar_csv.py", MG + "mesh_builder.py"],
     [("trim", DL + "scalar/abstract_scalar.py:trim_datapoints"),
      ("aggregates", DL + "scalar/abstract_scalar.py:get_value"),
      ("verdict", DL + "scalar/abstract_scalar.py:get_hom_condition"),
      ("bins", DL + "scalar/abstract_scalar.py:downsample"),
      ("projection", DL + "scalar/abstract_scalar.py:reproject"),
      ("own loaders", MG + "mesh_builder.py:add_dataloader")],
     ["ScalarDataLoader.get_value / get_hom_condition / downsample", "MeshBuilder.add_dataloader"],
     "property-based testing: generated data stored twice (table and grid), differential and reference model",
     "Sums are recomputed in plain Python from the generated numbers.")

prop("C17", "Synthetic data have exactly the values their parameters describe",
     "Circles, rectangles, gradients and checkerboards, as scalars or vectors, have at every grid point of the region the "
     "value that the parameters (or their documented defaults) define, on both sides of the antimeridian and wherever "
     "they are centred. Random fields cover the region on the asked grid, are the same for the same seed, stay "
     "within the asked minimum and maximum and attain both, scale affinely with them, and as binary fields lose "
     "ones when the threshold rises.",
     ["inputs", "configurations"],
     "every region, shape, parameter set, grid density and seed",
     "Tests build one mesh per shape with fixed parameters and compare with a stored mesh.",
     [DL + "scalar/shape.py", DL + "vector/vector_shape.py", DL + "scalar/scalar_grf.py",
      DL + "vector/vector_grf.py", "meshiphi/utils.py"],
     [("shapes", DL + "scalar/shape.py:import_data"), ("random field", DL + "scalar/scalar_grf.py:import_data"),
      ("defaults", DL + "scalar/shape.py:add_default_params")],
     ["get_dataloader('circle' | 'rectangle' | 'gradient' | 'checkerboard' | 'scalar_grf' | ...).data"],
     "property-based testing: generated parameters, point-by-point reference model and metamorphic relations",
     "Rectangle width and height are taken as half extents, as the stored meshes of the tests have them.")

prop("C18", "Comparing and validating meshes reports exactly the differences there are",
     "Comparing two meshes lists exactly the cells whose boundary, values (at four significant figures), attributes or "
     "neighbours differ, as a table or as ids, and nothing for equal meshes; the meshes are not modified. Validating "
     "a mesh against its data gives the mean and root-mean-square error of every datum against the one cell that "
     "holds it (upper edges included), for scalars and vectors, across the antimeridian too, and refuses data without "
     "positions with ValueError; sampled validation compares each datum in the sampled squares with its cell. The "
     "helpers for longitudes, rounding, dates, durations, divergence and curl compute what they document.",
     ["inputs", "configurations"],
     "every pair of meshes and every data set",
     "No stable test covers mesh comparison or validation; the helpers have a handful of examples.",
     ["meshiphi/mesh_validation/mesh_comparator.py", "meshiphi/mesh_validation/mesh_validator.py",
      "meshiphi/mesh_validation/full_mesh_validator.py", "meshiphi/mesh_validation/sampler.py", "meshiphi/utils.py"],
     [("comparison", "meshiphi/mesh_validation/mesh_comparator.py"),
      ("validation", "meshiphi/mesh_validation/mesh_validator.py:validate_mesh"), ("helpers", "meshiphi/utils.py")],
     ["MeshComparator.compare_*", "FullMeshValidator", "MeshValidator.validate_mesh", "meshiphi.utils"],
     "property-based testing: generated mesh pairs with planted differences, data sets with a reference model of errors",
     "Numbers are near four-digit numbers, so that the rounding of the comparison is not in doubt.")

prop("C19", "A plotted mesh shows every cell at its place in the colour of its value",
     "A picture of a mesh, made with MeshPlotter or by saving it in PNG format, has the region's proportions and its "
     "corners, across the antimeridian and around the globe too. Every cell is filled, at its place, with the colour "
     "that the colour map has for its value between the least and the greatest of the layer (any one colour of the map "
     "if all are the same), or with the given colour where a true/false layer is true; a later layer is drawn over the "
     "earlier ones, cells where it is false keep what they show. Colour maps of an export are drawn before its "
     "true/false layers, whatever the case of the format's name. The mesh is not modified, no other file is written, and other pictures begun meanwhile do not matter.",
     ["inputs", "configurations"],
     "every mesh, layer, colour map and size",
     "No test looks at a picture.",
     ["meshiphi/mesh_plotting/mesh_plotter.py", "meshiphi/mesh_generation/environment_mesh.py"],
     [("plotter", "meshiphi/mesh_plotting/mesh_plotter.py"),
      ("export", "meshiphi/mesh_generation/environment_mesh.py:to_png")],
     ["MeshPlotter.plot_cmap", "MeshPlotter.plot_bool", "MeshPlotter.save", "EnvironmentMesh.save"],
     "property-based testing: generated meshes and layers are plotted and the picture is read back at five points of "
     "every cell",
     "Regions at most six times as wide as high (or high as wide); missing values are not judged.")


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"]) + "\n")
    checks = [dict(property=p["rec"]["id"], quick_cmd=f"/opt/venv/bin/python run.py {p['rec']['id']}",
                   thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python run.py {p['rec']['id']}",
                   evidence_file=f"evidence/{p['rec']['id']}.json", technique=p["technique"], level="exploration",
                   level_note=p["note"]) for p in P]
    man = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup_check.py", checks=checks, not_applicable=[],
               notes="All checks run through run.py, which imports meshiphi from /repo's working tree; no hooks.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
