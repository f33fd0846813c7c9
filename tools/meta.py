"""Source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/py_eddy_tracker/"
P = []


def prop(id, title, statement, over, quant, tests, files, mech, note="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, note=note, observe=observe))


I = ["inputs"]

prop("C01", "Grouping index gives exactly the members of each group",
     "For any sorted list of group numbers, the index built from it gives, for every value between the smallest and the largest, a slice holding exactly the positions of that value (empty when the value is absent). Iterating over an observation field in groups visits each observation once, with its own value, and in increasing group order.",
     I, "every sorted group list (with gaps, repeats, negative numbers) and every unsorted field to iterate on",
     "tests exercise one list of five numbers; every per-track and per-segment loop relies on it for any history of track lengths and gaps",
     ["generic.py", "observations/groups.py", "observations/observation.py"], [("index of step changes", "generic.build_index"), ("group iteration", "observation.EddiesObservations.iter_on")])

prop("C02", "Time window lookup returns exactly the values inside the window",
     "For any unsorted series, sorted window centres and half width, the lookup returns an ordering of the series and one interval per centre. Each interval holds exactly the values strictly above the lower bound and at most equal to the upper bound, and never leaves the series, even when centres lie outside the range of the data.",
     I, "every series, centre list and half window, including ties, empty windows and centres beyond the data",
     "no test calls it with more than one configuration; it used to write out of bounds for centres past the data",
     ["generic.py"], [("two running bounds over the sorted series", "generic.window_index")])

prop("C03", "Longitude wrapping keeps the place on the globe and the line continuous",
     "Wrapping a line around a reference puts every longitude in the 360 degree range starting at the reference, changes it by whole turns only and keeps latitudes. When cutting is requested, the line is split exactly where it crosses the bounds: the pieces are separated by a gap and each one is continued by the neighbouring point so that it stays continuous.",
     I, "every line, reference and number of turns", "tests cover two polylines; a wrong branch only shows for a crossing in the other direction or several turns away",
     ["generic.py"], [("modulo and crossing insertion", "generic.wrap_longitude")])

prop("C04", "Grid interpolation: right neighbours, masked and out of grid values never used",
     "Bilinear interpolation returns the weighted mean of the four nodes around the position and nearest interpolation the value of the closest node. A position out of the grid, or whose needed node is masked, gives no value, and a valid position always gives one. On a global grid the result is the same whatever the turn of the longitude, including in the cell that joins the last and the first column.",
     I, "every mask, node values and position, inside, at the edge of and around the grid, bounded and circular",
     "tests interpolate one unmasked grid inside its bounds", ["dataset/grid.py"],
     [("bilinear interpolation", "dataset.grid.interp2d_bilinear"), ("nearest interpolation", "dataset.grid.interp2d_nearest"), ("dispatch", "dataset.grid.interp2d_geo")])

prop("C05", "Particles move with the interpolated current and stop at missing data",
     "Advecting particles on one grid moves each valid particle at every step by the bilinear value of the current (Euler) or by the fourth order combination of the currents met on the way. A particle that reaches a cell touching masked data or leaves the grid is dropped and stays lost, and it never disturbs other particles. On a global grid crossing the joining meridian changes nothing.",
     ["inputs", "histories"], "every mask, current, starting position and number of steps within the bounds",
     "tests advect in a single uniform field without mask", ["dataset/grid.py"],
     [("Euler and fourth order steps", "dataset.grid.advect, advect_rk4"), ("current at a position", "dataset.grid.compute_uv-like bilinear lookup")])

prop("C06", "A position is inside a contour exactly when the contour winds around it",
     "The point in contour test returns the winding number of the contour around the position, for convex, concave and self crossing contours, in both orientations and whether or not the first vertex is repeated. A contour is contained in another exactly when all its vertices are inside, even when both are described on opposite sides of the dateline.",
     I, "every position that is not on the contour; every triangle and reference contours", "tests check three points against one square",
     ["poly.py"], [("winding number", "poly.winding_number_poly"), ("containment", "poly.poly_contain_poly")])

prop("C07", "Pixels of a contour: exactly the grid nodes inside it",
     "The list of pixels of a contour holds each grid node inside the contour exactly once and no other, on regional and global grids. This stays true when the contour crosses the joining meridian of a global grid or touches the first or last rows of the grid.",
     I, "every placement of the contour on the grid and every window margin", "tests use one contour in the middle of the grid",
     ["poly.py", "generic.py"], [("index window of a contour", "generic.bbox_indice_regular"), ("winding number on the window", "poly.get_pixel_in_regular")])

prop("C08", "Positions are matched to the first contour that holds them",
     "Looking up positions in a set of contours returns, for each position, the number of the first contour that holds it and -1 when none does; the boolean form is true exactly for positions held by a contour. The answer does not depend on the longitude convention of positions or contours, nor on positions being spread over several search boxes.",
     I, "every position off the contours, contours near the Greenwich meridian and in any convention", "tests check a handful of points away from any boundary",
     ["poly.py", "generic.py"], [("search boxes", "poly.group_obs, poly.box_index"), ("contour lookup", "poly.poly_indexs, poly.insidepoly")])

prop("C09", "Area, convexity and convex hull of contours are right",
     "The area of a closed contour equals its exact polygon area whatever its orientation. A simple contour is reported convex exactly when it turns always on the same side, and the convex hull of an anti-clockwise simple contour is a closed polygon made of its vertices that leaves no vertex outside.",
     I, "every closed contour of a few vertices, families of concave contours with a free vertex", "tests use one or two fixed shapes",
     ["poly.py"], [("shoelace sum", "poly.poly_area"), ("turn sign", "poly.convex"), ("hull march", "poly.get_convex_hull")])

prop("C10", "Contour simplification removes the least significant vertices first",
     "Reducing a contour to a fixed number of vertices returns a closed contour of exactly that size. It keeps, in order, the vertices that remain when the vertex of the smallest triangle is removed again and again, with triangles recomputed after each removal. Dropping the padding of a stored contour removes only trailing repetitions of the first position.",
     I, "every small contour without ties, concave and star families with a free vertex", "tests check one contour",
     ["poly.py"], [("Visvalingam heap", "poly.visvalingam"), ("padding removal", "poly.reduce_size")])

prop("C11", "Overlap candidates and scores of contours are exact across the dateline",
     "The preselection of contour pairs returns exactly the pairs whose bounding boxes meet on the globe, whatever the longitude conventions. The overlap score of a pair is the shared area divided by the reference area of the chosen convention (union, smallest, second contour); it is zero without overlap and when it is under the requested threshold, except for included contours in the hybrid convention.",
     I, "every pair of boxes and longitude convention; rectangles at any offset, any threshold", "tests compare two convex contours without wrapping",
     ["poly.py"], [("bounding box selection", "poly.bbox_intersection"), ("score", "poly.vertice_overlap"), ("common reference", "poly.get_wrap_vertice")])

prop("C12", "Line tools for plots keep every point and gap",
     "Flattening a list of contours keeps every value in order with one gap between two contours and nothing written past the end. Splitting and simplifying lines keeps all valid points that are not requested to be dropped, keeps gaps between pieces, and never joins or loses pieces.",
     I, "every small line with gaps anywhere, every matrix size and requested step", "tests use a single line",
     ["generic.py"], [("flatten", "generic.flatten_line_matrix"), ("simplify", "generic.simplify"), ("split", "generic.split_line")])

prop("C29", "Grid gradients use only valid nodes and the widest valid stencil",
     "The gradient of a field at a node uses a centred finite difference of the requested width, narrowed to the widest width whose nodes are all valid, and a one sided difference when a single neighbour is valid. It is masked exactly where the node itself or both neighbours are missing, values out of the grid or masked never enter the result, and global grids wrap in longitude.",
     I, "every mask and field on a row, every width, bounded and circular, both directions", "tests use unmasked grids",
     ["dataset/grid.py"], [("finite difference stencil", "dataset.grid.compute_stencil")])

prop("C30", "The pixel path between two positions is a connected shortest path",
     "For segments on a global grid the list of crossed pixels starts at the pixel of the first position, ends at the pixel of the second, and consecutive pixels always touch. It takes the short way around the globe with as many steps as the longest side, whatever the turn of the longitudes, and the paths of several segments follow each other without extra pixels.",
     I, "every pair of pixels, positions within pixels, turns and several segments", "tests check two segments", ["dataset/grid.py"],
     [("pixel path", "dataset.grid.RegularGridDataset.compute_pixel_path, compute_pixel_path")])

prop("C33", "A series of grids is interpolated linearly in time between its two neighbours",
     "Values and particle moves taken from a dated series of grids use the two grids around the current time with linear weights, forward and backward, and switch to the next pair exactly at grid times. A particle next to data masked in either grid is lost and stays lost; a value is given only where both grids are valid.",
     ["inputs", "histories"], "every current, mask, start time and time step within the bounds", "tests advect in constant fields so that a wrong weight or a late switch is invisible",
     ["dataset/grid.py"], [("next pair of grids", "dataset.grid.GridCollection.get_next_time_step, get_previous_time_step"), ("time weights", "dataset.grid.advect_t, advect_t_rk4, GridCollection.interp")])

prop("C13", "Associations between two dates are one to one and never worse than needed",
     "An observation of one date is linked to at most one observation of the next date, only allowed pairs are linked, and no pair left unlinked would suit both of its members better than what they got. Candidate filters used by the other trackers (cheapest first, largest amplitude, ratio of at most 2.5) keep exactly the links they announce.",
     I, "every set of allowed pairs and every cost between a few observations", "tests link two fixed datasets",
     ["observations/observation.py", "observations/tracking.py", "tracking.py"], [("link solver", "observations.observation.EddiesObservations.solve_conflict, solve_first, solve_simultaneous, post_process_link"), ("association", "observations.observation.EddiesObservations.tracking")])

prop("C14", "Tracks are exactly the chains of links between dates",
     "After tracking, every observation linked to another date is in exactly one track, at its date, with its own fields, and two observations are in the same track exactly when a chain of links joins them, lost dates within the allowed number included. Tracks are numbered without gap, stored one after the other, and lost tracks are proposed for association at a constant speed position for the allowed number of dates only.",
     "history", "every history of one to one links between a few dates, with and without prolongation of lost tracks", "tests run one short tracking",
     ["tracking.py", "observations/observation.py"], [("identifiers", "tracking.Correspondances.store_correspondance, recense_dead_id_to_extend"), ("prolongation", "observations.observation.EddiesObservations.propagate"), ("final table", "tracking.Correspondances.prepare_merging, merge")])

prop("C15", "Selection by length splits the tracks, untracked observations are complete",
     "Selecting tracks at least as long as a threshold and those shorter gives two tables which share nothing and together hold every track unchanged, renumbered without gap, even when one of them is empty. The observations left untracked are exactly those which belong to no track, once each.",
     "history", "every history of one to one links between a few dates and every threshold", "no test selects tracks",
     ["tracking.py"], [("selection", "tracking.Correspondances.longer_than, shorter_than, _copy"), ("untracked", "tracking.Correspondances.get_unused_data")])

prop("C16", "A tracking saved, resumed or joined gives the tracks of a single run",
     "A tracking stopped after any date, saved, and resumed over the longer list of datasets gives the same tracks as an uninterrupted one, with prolonged tracks carried over. A saved table read back has the same links, identifiers and datasets, and two tables which share two datasets can be joined into the table of the whole period.",
     "history", "every history of one to one links between a few dates, every interruption date", "no test saves a tracking",
     ["tracking.py", "observations/observation.py"], [("saved state", "tracking.Correspondances.to_netcdf, from_netcdf, load_state"), ("join", "tracking.Correspondances.merge_correspondance")])

prop("C17", "Missing observations are counted, inserted and interpolated in place",
     "The rows reported as missing are as many as whole time steps skipped between two observations of one track or segment, and none before a track starts. Inserting them keeps every real observation, its track and its links, and flags exactly the inserted rows as virtual. Interpolating gives values linear in time between the observed neighbours of the same track only.",
     "inputs", "every sorted table of a few observations, any steps and any place of the missing dates", "tests fill one gap of one track",
     ["observations/groups.py", "observations/network.py", "generic.py"], [("detection", "observations.groups.get_missing_indices"), ("insertion", "observations.groups.GroupEddiesObservations.insert_virtual, fix_next_previous_obs"), ("interpolation", "observations.groups.GroupEddiesObservations.interpolate"), ("links", "observations.network.NetworkObservations.fix_next_previous_obs")])

prop("C22", "Selecting tracks gives whole wanted tracks and leaves others untouched",
     "Each selection of tracks (by mask, numbers, length, period, dates, direction or box, first or last observations) returns exactly the rows of the tracks that satisfy it, in order, with their fields; numbers are kept or renumbered consistently. Per track counts, slices, lifetimes and distances to the next observation use the rows of that track alone, whatever the numbers in use.",
     "inputs", "every sorted table of a few tracks with any numbers, missing numbers included, and any selection mask", "tests select in one file with few criteria",
     ["observations/tracking.py"], [("selection", "observations.tracking.TrackEddiesObservations.extract_with_mask"), ("track index", "observations.tracking.TrackEddiesObservations.index_from_track, nb_obs_by_track"), ("distances", "observations.tracking.TrackEddiesObservations.distance_to_next"), ("longitudes", "observations.tracking.TrackEddiesObservations.normalize_longitude")])

prop("C24", "Splitting a group in segments follows the best overlaps",
     "In a group of observations, each observation is continued by the best overlapping one of the first later date, within the window, where an overlap is found. Each segment is a chain with one observation by date, the best of those that lead to an observation keeps the segment, others merge, and a segment which starts after another observation overlapping it splits from it. The network table keeps every observation with these links.",
     "inputs", "every table of overlaps between the observations of a few dates", "tests build one network from a few files",
     ["observations/tracking.py", "observations/network.py"], [("forward and backward association", "observations.tracking.TrackEddiesObservations.follow_obs, get_next_obs, get_previous_obs"), ("network table", "observations.network.NetworkObservations.from_split_network")])

prop("C25", "Networks group exactly the observations connected by overlaps",
     "Two observations get the same group number exactly when a chain of overlaps between observations of dates within the window connects them, and observations without overlap get no group. Observations of the files are then gathered by group, whole and in the order of files, and each (network, segment) pair has its own number.",
     "inputs", "every set of overlaps between the observations of a few dates", "tests build one network from a few files",
     ["observations/network.py"], [("group labels", "observations.network.Network.get_group_array, group_translator"), ("reordering", "observations.network.Network.build_dataset, get_next_index"), ("unique segments", "observations.network.build_unique_array")])

prop("C26", "Selecting, sorting and renumbering networks keeps links right",
     "Selecting observations of networks by mask, number, segment, duration or period gives exactly the wanted rows, where links between kept rows point to the same observations and links to removed ones are cut. Sorting rows, renumbering networks or segments and separating unconnected parts keep every observation and every link, and later look-ups use the new numbers.",
     "inputs", "every small network with any links between segments and any selection", "tests check numbering on one short array and one file",
     ["observations/network.py"], [("selection", "observations.network.NetworkObservations.extract_with_mask, extract_light_with_mask"), ("sort", "observations.network.NetworkObservations.sort"), ("separation", "observations.network.NetworkObservations.dissociate_network, tag_segment"), ("numbering", "observations.network.NetworkObservations.numbering_network, numbering_segment")])

prop("C27", "Relatives of observations and segments follow the links exactly",
     "Searching what an observation becomes or comes from gives exactly the observations that can be reached through segments and events following time, for one or several observations and both ways. Relatives at an order are exactly the segments separated by at most this number of events, and the relative order is this number for each segment.",
     "inputs", "every small network with any links between segments, any start and any order", "tests look at one network",
     ["observations/network.py"], [("time search", "observations.network.NetworkObservations.find_link"), ("relatives", "observations.network.NetworkObservations.relatives, find_segments_relative"), ("order", "observations.network.NetworkObservations.segment_relative_order, connexions")])

prop("C28", "Events of networks are all found and corrections keep the links",
     "Merging, splitting, birth and death events are exactly those given by the links at the ends of segments, each once, with the observations on both sides. Close events corrections, swaps of a short branch with a long one and removal of short dead ends keep every observation, keep segments as chains in time, change only what their thresholds ask and leave no link to a removed segment.",
     "inputs", "every small network with any links between segments, any dates and thresholds", "tests count events of one network",
     ["observations/network.py"], [("events", "observations.network.NetworkObservations.merging_event, splitting_event, birth_event, death_event"), ("delay around events", "observations.network.mask_follow_obs"), ("corrections", "observations.network.NetworkObservations.correct_close_events, swap_track, remove_dead_end, analysis_coherence")])

prop("C18", "Tables of observations are cut, joined and extended without mixing rows",
     "Selecting rows by mask, area, date or position, inserting or appending tables, concatenating, merging, copying and adding or removing fields give exactly the expected rows, with every field of each row kept together and the original tables untouched. Tracks of joined tables stay apart, and tables whose fields differ are never mixed silently. What is computed per track and the time coverage follow the rows after an insertion.",
     "inputs", "every cut, insertion position, list of tables (empty ones included) and set of fields within the bounds", "tests concatenate or merge two files once and never insert, mix different tables or use empty ones",
     ["observations/observation.py", "observations/tracking.py"], [("row operations", "observations.observation.EddiesObservations.insert_observations, concatenate, merge, index, extract_with_mask, extract_with_area"), ("fields", "observations.observation.EddiesObservations.add_fields, remove_fields, coherence"), ("track numbers", "observations.tracking.TrackEddiesObservations.concatenate")])

prop("C19", "Combined filters select exactly the rows selected by every filter",
     "Combining slices, masks, positions and functions selects exactly the rows selected by all of them, and positions keep their order. Counts and means in bins use exactly the selected rows.",
     "inputs", "every combination of two and three filters of any kind", "tests combine one mask with one index array",
     ["observations/observation.py"], [("combination", "observations.observation.EddiesObservations.merge_filters, __merge_filters__"), ("counts and means", "observations.observation.EddiesObservations.bins_stat")])

prop("C20", "Grid statistics use exactly the observations of each box",
     "Counts, pixel statistics and box percentiles of a gridded map are those of exactly the selected observations whose position (or contour) lies in each pixel, in any longitude convention and across the seam of a global grid. Interpolating a grid at observations uses exactly the pixels of each contour, and pixels without data are masked, never filled with something else.",
     "inputs", "every position, value, mask and selection of a few observations on small regional and global grids", "tests sum one map",
     ["observations/observation.py"], [("counts", "observations.observation.EddiesObservations.grid_count, grid_count_pixel_in"), ("statistics in pixels", "observations.observation.grid_stat, grid_box_stat"), ("values of a grid in contours", "observations.observation.EddiesObservations.interp_grid, dataset.grid.mean_on_regular_contour, max_on_regular_contour, min_on_regular_contour")])

prop("C21", "Files give back the observations written in them",
     "A table of observations, tracks or networks written in netCDF or zarr and read again gives the same rows, fields, sign and values within the precision of the storage, whatever the table size, raw or decoded. Reading a slice, some variables or another unit gives exactly the rows, variables and values asked for, and reading then writing again changes nothing.",
     "inputs", "every value the storage can hold for every field, any slice, list of variables and unit, for both formats", "tests write and read two files",
     ["observations/observation.py", "observations/network.py", "__init__.py"], [("write", "observations.observation.EddiesObservations.write_file, to_netcdf, to_zarr"), ("read", "observations.observation.EddiesObservations.load_file, load_from_netcdf, load_from_zarr, copy_data_to_zarr")])

prop("C23", "Smoothing along tracks uses only the neighbours in the same track",
     "Loess and median filters, position filters and cumulative sums along tracks give for each observation the value computed from exactly the observations of its own track within the window, the first and last tracks of a dataset included, and leave everything else unchanged.",
     "inputs", "every small set of tracks with any values, dates and windows", "tests filter no track",
     ["observations/tracking.py", "generic.py"], [("filters", "observations.tracking.TrackEddiesObservations.position_filter, track_loess_filter, track_median_filter"), ("sums", "generic.cumsum_by_track, count_consecutive")])

prop("C31", "Extrema and amplitude of a contour are those of its pixels",
     "Extrema found in a contour are exactly its pixels which nothing exceeds around, one per group of equal neighbours when there are too many, never a pixel out of the contour. A contour is kept exactly when no pixel is masked or on the wrong side and it has no more marked extrema than allowed, its amplitude is the height of its highest (lowest) pixel above (below) the contour, and its centre is this pixel.",
     "inputs", "every height of every pixel in and around small contours of several shapes, with masks, also across the edge of a global grid", "tests identify eddies in one grid without equal neighbours",
     ["eddy_feature.py"], [("extrema", "eddy_feature.detect_local_minima_"), ("amplitude and rejection", "eddy_feature.Amplitude")])

prop("C32", "Isolines are closed over the edge of the grid and found again",
     "Pieces of isolines cut by the edge of a global grid are joined in one closed contour whatever their number and order, closed and almost closed lines are kept and no line is lost. The contour of a level given for a position is the nearest one among those whose box holds this position, in any longitude convention, and contours holding several eddies are those of the level just outside of them.",
     "inputs", "isolines at any latitude, cut in several pieces in any order, contours and positions anywhere", "tests identify eddies in one grid",
     ["eddy_feature.py"], [("joining at the edge", "eddy_feature.Contours.find_wrapcut_path_and_join"), ("lookup", "eddy_feature.Contours.get_index_nearest_path_bbox_contain_pt"), ("labels", "eddy_feature.Contours.label_contour_unused_which_contain_eddies")])

prop("C36", "Identification keeps exactly the outermost contours which satisfy the criteria",
     "Identification gives one eddy for every isoline that satisfies the shape, mask, height, pixel count, amplitude and extrema criteria and is not part of an eddy found before, outermost first, and no other eddy; no pixel belongs to two eddies. Heights, amplitude, speed contour, speed profile, position, date, units and contours of each eddy are those of its isolines, and the grid is not changed.",
     "inputs", "heights, masks, shape errors, speeds, limits and units over nested isolines of both signs, regional and global grids", "tests identify eddies in one grid with one set of parameters",
     ["dataset/grid.py", "eddy_feature.py"], [("selection of contours", "dataset.grid.GridDataset.eddy_identification"), ("speed contour", "dataset.grid.GridDataset.get_uavg")])

prop("C34", "Particles of contours are counted towards the right targets at every date",
     "Particles are created on exactly the mesh nodes inside each contour. The first and second targets are the contours that receive most of them, in this order, with the percentage of all particles released, lost ones included. Every date of the dataset whose advection ends in the dataset is examined once, with the grids of exactly the dates needed.",
     "inputs", "every destination of a few particles, any dates and duration of advection", "tests advect no particle of a contour",
     ["observations/groups.py", "observations/network.py", "poly.py"], [("targets", "observations.groups.get_targets, get_matrix, GroupEddiesObservations.merge_particle_result"), ("dates", "observations.groups.GroupEddiesObservations.particle_candidate_atlas, network.NetworkObservations.segment_coherence_forward, segment_coherence_backward"), ("creation", "poly.create_meshed_particles, groups.particle_candidate_step, groups.particle_candidate, groups.advect")])

prop("C37", "Comparing two datasets pairs exactly what is identical or close",
     "Networks or segments of two datasets are paired exactly when they hold the same observations, each used at most once. Close tracks and networks are the whole tracks of the other dataset with enough close observations on the same dates; matches give exactly the couples over the limit, with rows in their dataset, across the dateline and in any longitude convention. Positions in contours, particles of contours and costs of common areas agree with the geometry; undefined or missing positions are in no contour.",
     "inputs", "small datasets with any dates, places and numbers", "tests compare no dataset",
     ["observations/network.py", "observations/observation.py", "observations/tracking.py", "poly.py"], [("identical", "observations.network.NetworkObservations.identify_in, same_position"), ("close", "observations.tracking.TrackEddiesObservations.close_tracks, network.NetworkObservations.close_network, observation.EddiesObservations.align_on, match"), ("geometry", "poly.close_center, polygon_overlap, create_meshed_particles, observations.observation.EddiesObservations.contains, inside, mask_from_polygons, cost_function_common_area")])

prop("C38", "Grids give their nodes, bounds and variables as in the file",
     "Whatever the order of dimensions, the dates or the part requested, a grid read from a file gives each value at its longitude and latitude, masked exactly where it is missing, and copying, writing and reading again changes nothing else. Bounds, centers and steps follow the coordinates described by centers or corners, a grid is global exactly when its pixels cover 360 degrees even with rounded coordinates, and a position is found in the pixel which holds it in any turn. Interpolating another grid or preparing speeds for advection uses each value at its node, and gives nothing where something is missing.",
     I, "every value, missing node, origin, rounding of coordinates, order of dimensions and part of small grids", "tests read two files in one order of dimensions",
     ["dataset/grid.py", "generic.py"], [("coordinates", "dataset.grid.GridDataset.setup_coordinates, RegularGridDataset.is_circular, nearest_grd_indice"), ("reading and writing", "dataset.grid.GridDataset.grid, grid_tiles, copy, write, load"), ("regrid and speeds", "dataset.grid.RegularGridDataset.regrid, uv_for_advection")])

prop("C39", "Candidates for tracking are those in the search area, with the right cost",
     "Observations proposed for a link are exactly those in the search area around the previous position (ellipse shifted to the west, fixed ellipse or circles), in any longitude convention and across the dateline, with amplitude and radius within the ratio and no land on the way. Costs and distances are those of the documented formulas, and far couples get none. Lost observations are moved by their last displacement, keeping their fields and track.",
     I, "every position, amplitude, radius, land pixel and turn for a few observations", "tests track one pair of files with the default tracker",
     ["observations/observation.py", "featured_tracking/old_tracker_reference.py", "featured_tracking/area_tracker.py", "generic.py"],
     [("search areas", "observations.observation.shifted_ellipsoid_degrees_mask2, EddiesObservations.fixed_ellipsoid_mask, basic_formula_ellipse_major_axis"), ("tracker", "featured_tracking.old_tracker_reference.CheltonTracker.mask_function, across_ground, check_ratio"), ("distances and costs", "generic.distance_grid; observations.observation.EddiesObservations.cost_function"), ("prediction", "observations.observation.EddiesObservations.propagate; featured_tracking.area_tracker.AreaTracker.propagate")])

prop("C35", "Filters of grids average exactly the valid nodes under the kernel",
     "Filtering a grid gives at each node the mean of the valid nodes under the kernel weighted by this kernel, around the globe and over the poles where the grid is global. High pass and low pass add up to the field, the band pass is what lies between both, and missing nodes stay missing unless an extension is asked. Bessel, Lanczos and Loess kernels hold the documented weights of the distance at each latitude.",
     I, "every value and mask of small grids for any kernel, on regional and global grids", "tests filter no grid and compare no value",
     ["dataset/grid.py"], [("convolution", "dataset.grid.RegularGridDataset.convolve_filter_with_dynamic_kernel, _low_filter, finalize_kernel"), ("kernels", "dataset.grid.RegularGridDataset.kernel_bessel, kernel_lanczos, kernel_loess")])

prop("C40", "Currents derived from heights use the right neighbours and skip missing nodes",
     "Currents computed from heights are the geostrophic ones of the differences between neighbouring valid nodes at the asked width, around the globe and at the edges, and are missing exactly where nothing can be computed. Near the equator the second derivative formula replaces them continuously. The speed of a contour is the mean of the interpolated speeds along it, over valid positions.",
     I, "every height and mask of small regional and global grids across the equator", "tests compute no current from heights",
     ["dataset/grid.py"], [("differences", "dataset.grid.RegularGridDataset.compute_finite_difference, compute_stencil, add_uv"), ("equator", "dataset.grid.RegularGridDataset.add_uv_lagerloef"), ("speed", "dataset.grid.RegularGridDataset.speed_coef_mean, init_speed_coef")])

prop("C41", "Paths and filaments of particles keep every position at its date",
     "The path of particles in a series of grids gives for each particle its position at each asked date, the first one included, forward and backward, and nothing once it is lost. A filament gives the last positions of each particle, the oldest dropped first, and the positions given by the caller are not changed. A series read from files or from a cube holds each date once, in order, with the values of this date.",
     ["inputs", "histories"], "every current, mask, direction, number of steps and length of filament within the bounds", "tests follow no path, no filament and read no series of files",
     ["dataset/grid.py"], [("paths", "dataset.grid.GridCollection.path, advect"), ("filaments", "dataset.grid.GridCollection.filament, RegularGridDataset.filament"), ("series of files", "dataset.grid.GridCollection.from_netcdf_list, from_netcdf_cube, shift_files")])

prop("C42", "Values by segment or network come from exactly their observations",
     "A function applied by segment or by network receives the observations of one of them, all of them and in order, and its result goes to them only, whatever the numbers used in several networks. Means, median and weighted filters of positions never mix two segments and change only the asked field. Percentages of particles around an event are those of the observations followed from it, inside the delay and its segment, towards the asked target.",
     I, "every value, number, date and target in small networks with repeated numbers, gaps and untracked observations", "tests apply no function by segment or network",
     ["observations/network.py", "observations/tracking.py"], [("by segment, by network", "observations.network.NetworkObservations.map_segment, map_network, mean_by_segment"), ("filters", "observations.network.NetworkObservations.median_filter, loess_filter, position_filter"), ("percentages", "observations.network.get_percentile_on_following_obs, get_percentile_around_event")])

prop("C43", "Command line tools do what their options ask",
     "Each option of the subset of networks keeps exactly the observations which fit it, with their networks, links and dates, and identification with options filters, reads and writes as asked. Associations are sorted by score and by number of partners in classes which hold exactly their eddies, and the comparison of two atlases counts the networks and segments which hold the same observations, whatever they share. Circle contours lie at the radius of each observation, around its position.",
     I, "every small network, date, association, score, pair of groupings and combination of options", "command line tools are run by no test, except the loading of sample files",
     ["appli/network.py", "appli/eddies.py", "appli/grid.py", "observations/network.py", "observations/observation.py"], [("tools", "appli.network.subset_network, run_compare, appli.grid.eddy_id, identification, appli.eddies.get_group, eddies_add_circle"), ("selection", "observations.network.NetworkObservations.networks, longer_than, remove_dead_end, identify_in"), ("circles", "observations.observation.EddiesObservations.circle_contour")])

prop("C44", "Grids with two dimensional coordinates use the right nodes",
     "A grid described by two dimensional coordinates gives the nodes, values and limits of its file, also when only a part of it is read. The node next to a position is the closest one, the nodes of a contour are exactly those inside it and always belong to the grid, and the speed along a contour is the mean of the nodes next to its positions. Filters go through a regular grid which averages the valid nodes of each box and give back a value only where all boxes around the node hold one",
     I, "every value and mask, position and contour over, inside and at the limits of a curved grid", "no test loads a grid of this kind; it could not be loaded at all and nodes were read after the last row of the arrays",
     ["dataset/grid.py", "appli/grid.py"], [("loading, window, nodes", "dataset.grid.UnRegularGridDataset.load, bbox_indice, get_pixels_in, nearest_grd_indice"), ("speed", "dataset.grid.UnRegularGridDataset.speed_coef_mean, uniform_resample_stack"), ("filter", "dataset.grid.UnRegularGridDataset._low_filter, GridDataset.high_filter, low_filter")])

prop("C45", "The circle of a contour is the best fit and its shape error is right",
     "The circle of a contour is the one of least squares on its vertices, each counted once, wherever the contour is and whatever vertex it starts at, on the plane in meters around its mean position when it is on the globe. The shape error is the area out of the circle plus the area of the circle out of the contour, in percent of the circle. The circle of same area has the mean position and this area, a contour reduced to one position has no circle, and the center keeps the turn of the longitudes of the contour",
     I, "every translation and turn of contours of several shapes and sizes, every distance of vertices and radius for the shape error", "tests fit one or two contours; radius, center and shape error decide which contours are eddies and where they are",
     ["poly.py", "dataset/grid.py", "generic.py"], [("fit", "poly.fit_circle, dataset.grid._fit_circle_path"), ("error", "poly.shape_error, poly.poly_area"), ("equal area", "dataset.grid._circle_from_equal_area, fit_circle_path"), ("plane", "generic.coordinates_to_local, local_to_coordinates")])

prop("C46", "Maps and timelines show each value at its place",
     "The map of a grid shows every node once, at its longitude and latitude and with its value, missing nodes and the part of the globe which is not in the grid being blank, wherever the reference cuts it. Points, contours, tracks, segments and events are drawn at their positions or dates, in the turn asked, with the value, color, style and label of their own observation, segment or class, and with the marks of their own merging or splitting events",
     I, "every value, mask, position, date, link and state of small grids, tables and networks", "images of tests are never compared; a shifted row or a color of another observation looks right",
     ["dataset/grid.py", "observations/observation.py", "observations/tracking.py", "observations/network.py", "eddy_feature.py"],
     [("grids", "RegularGridDataset.display, RegularGridDataset.contour"), ("eddies", "EddiesObservations.scatter, display, filled, display_color, TrackEddiesObservations.plot"), ("networks", "NetworkObservations.plot, scatter, event_map, display_timeline, scatter_timeline, event_timeline"), ("isolines", "Contours.display")])
prop("C47", "Spectra of a grid use its valid series only and its land is removed",
     "The spectrum along meridians (parallels) of an area is the mean of those of the columns (rows) of the area with no missing value, whatever is stored under the mask, at wavelengths in km which follow the latitude of rows, on the range common to all of them. With a reference, spectra are divided by those of the reference with the same field or the one asked and with the same options, and cleaning land makes missing the nodes over land only, whatever their turn",
     I, "every value and mask of small grids, several areas, options and references; every land mask of 4 cells", "no test computes a spectrum; a fill value under the mask or another scaling of the reference gives plausible curves",
     ["dataset/grid.py"], [("spectra", "RegularGridDataset.spectrum_lonlat"), ("land", "RegularGridDataset.clean_land")])
prop("C48", "Ages, directions, periods and statistics of events describe the right track",
     "The age of an observation is the part of the life of its track which is over, from 0 to 100, the azimuth of a track is the direction from its first to its last observation, positive poleward if asked, in both hemispheres and any turn. The days of a table go from its first to its last date, its convex contours are the ones asked and its shapes join the contours of each track, and the statistic around an event is the quantile of all percentages of the target segment along the observations followed during the window, on the same segment",
     I, "every track, date, percentage and origin of small tables", "no test computes them; a shift of one observation or a hemisphere changes numbers only slightly",
     ["observations/tracking.py", "observations/observation.py", "observations/network.py", "poly.py"], [("tracks", "TrackEddiesObservations.age, get_azimuth, shape_polygon, poly.merge"), ("tables", "EddiesObservations.nb_days, period, empty_dataset, is_convex"), ("events", "network.get_percentile_around_event, get_percentile_on_following_obs")])
prop("C49", "Files are tracked in the order of their dates",
     "Files given or found are sorted by the date of their name, with or without folder, then those of the period and subsampling asked are kept, with any bound missing, date or datetime. Each file keeps its own date, and a series whose time step changes or a file without date is refused",
     I, "every date of 3 files, several ways to name them, every period", "tests never browse files; a wrong order or a wrong date gives tracks which look right",
     ["appli/eddies.py"], [("files", "appli.eddies.browse_dataset_in"), ("dates", "identify_time")])
# ---- next ----

NA = []


def na(id, title, statement, over, quant, tests, files, mech, reason):
    prop(id, title, statement, over, quant, tests, files, mech)
    P[-1]["na"] = reason


TECH = "symbolic execution of the repository's Python source with z3 (bounded), counterexamples replayed on the numba build"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                why_tests_cant=p["tests"],
                anchors=dict(files=[SRC + x for x in p["files"]], mechanism=[dict(name=a, where="py_eddy_tracker." + b) for a, b in p["mech"]]),
            )) + "\n")
    checks = []
    for p in sorted(P, key=lambda p: p["id"]):
        if p.get("na"):
            continue
        import importlib
        import sys

        sys.path.insert(0, HERE)
        m = importlib.import_module("props." + p["id"])
        b = m.BOUNDS("quick") if callable(m.BOUNDS) else m.BOUNDS
        note = "Holds for every input within the bounds (quick: %s). Outside: %s. Trusts z3, the numpy/numba shim in vp/ (validated at each run by replaying path models on the real build) and exact arithmetic in place of floating point." % (b, m.OUTSIDE)
        checks.append(dict(
            property=p["id"], quick_cmd="python3-vt -m vp.run %s --tier quick" % p["id"],
            thorough_cmd="python3-vt -m vp.run %s --tier thorough" % p["id"], technique=TECH, level="model_checking", level_note=note))
    man = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy' && /opt/venv/bin/python -c 'import numba'", checks=checks,
               not_applicable=[dict(property=p["id"], reason=p["na"]) for p in sorted(P, key=lambda p: p["id"]) if p.get("na")],
               notes="No hooks in /repo: the engine loads the source files themselves.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
