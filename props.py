PBT = "property-based testing (Hypothesis): "
REAL = "Generated cases run the tools built from /repo's working tree; "
TESTS = "The repository's tests run the tool on one or a few fixed files"


def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=PBT + technique, note=REAL + note)


PROPS = [
 P("C01", "mppnccombine rebuilds the global dataset from its pieces",
   "For every domain-decomposed set of files mppnccombine exits 0 and writes a file with the variables, dimensions, types, attributes and values of the global data set that was decomposed, each decomposed point taken from the piece that owns it and everything not decomposed taken from the pieces unchanged. "
   "The result does not depend on how the set is named (automatic numbering from -n, a -e range, a list in any order, or in two steps with -a), on the record blocking (-k), header padding, memory printing or verbosity, nor on the output format, compression or shuffling asked for. "
   "Areas of pieces that are absent (-f) hold the variable's missing_value with -m (when it has one) and zero otherwise.",
   ["inputs", "configurations"], "every partition of a 1-D/2-D domain into pieces, every variable of rank 0-4 and every classic type, every option combination in the documented domain",
   TESTS + ": a few layouts, mostly one format, values compared for one dataset.",
   ["src/mpp-nccombine/mppnccombine.c"],
   [("process_file / process_vars / flush_decomp", "src/mpp-nccombine/mppnccombine.c"), ("option parsing and numbering in main", "src/mpp-nccombine/mppnccombine.c")],
   "global data set -> pieces -> tool -> exact comparison with the model", "oracle is the generated global data set."),
 P("C02", "mppnccombine never destroys data, whatever goes wrong",
   "mppnccombine does not touch an existing output file unless appending (-a), which keeps what the file holds, exits nonzero when inputs are missing (without -f), unreadable or inconsistent or when a write fails, and never changes an input. "
   "With -r it removes exactly the input files of the set, and only after a combination it reports as successful; without -r every input is left. "
   "It touches no file other than its output (and, with -r, its inputs).",
   ["inputs", "fault_sequences", "crash_points"], "every set and option combination, with every one of the generated situations and a write failure or stop at any output size",
   TESTS + "; no test injects write failures or looks at other files of the directory.",
   ["src/mpp-nccombine/mppnccombine.c"],
   [("output creation with NC_NOCLOBBER, removal of inputs", "main, src/mpp-nccombine/mppnccombine.c")],
   "fault injection with generated write limits; rule-based oracle over exit status and directory snapshot", "write faults are produced with RLIMIT_FSIZE."),
 P("C03", "mppncscatter tiles partition the file and combine back to it",
   "For every layout and io-layout mppncscatter writes exactly the numbered files asked for (prefix, first number, width), each holding every variable: variables with an x or y dimension cut to the contiguous piece of the domain decomposition, with a domain_decomposition attribute that says which piece, and all other variables and attributes unchanged. "
   "An x or y dimension is one whose variable has longitude/latitude units or cartesian_axis X/Y, or which is named with -X/-Y. "
   "The input is unchanged, -n writes nothing, and mppnccombine of the pieces gives back every variable of the input with its values.",
   ["inputs", "configurations"], "every data set of rank <= 4 variables, every layout and io-layout that fits, every prefix/start/width",
   TESTS + " and compares a few headers.",
   ["src/mpp-ncscatter/mppncscatter.c", "src/mpp-ncscatter/scatterdims.c", "src/mpp-ncscatter/xmalloc.c"],
   [("mppncscatter, hyperslabcopy", "src/mpp-ncscatter/mppncscatter.c"), ("dimension classification", "src/mpp-ncscatter/mppncscatter.c, scatterdims.c")],
   "exact comparison with an independent decomposition plus scatter/combine round trip", "oracle is an independent implementation of the decomposition rule."),
 P("C04", "combine-ncc keeps every compressed point once, in index order",
   "combine-ncc of any set of compressed-by-gathering files writes, for every compressed dimension, all points with a nonnegative index of all the files exactly once in increasing index order, with the values of every variable on that dimension moved along, for every position of the compressed dimension, type and record. "
   "Variables without a compressed dimension, dimensions, attributes and the file format are those of the inputs (which agree on them). "
   "It does not change its inputs.",
   ["inputs"], "every compressed set with unique indices: empty, unsorted and negative-index files, several compressed dimensions, all formats",
   TESTS + " and compares it with one stored result.",
   ["src/land_utils/combine-ncc.F90", "lib/libnfu"],
   [("rank/reshuffle of the compressed index", "src/land_utils/combine-ncc.F90"), ("nfu compressed-dimension access", "lib/libnfu")],
   "exact comparison with a sorted-concatenation model", "oracle is a few lines of numpy."),
 P("C05", "decompress-ncc puts every point at its grid cell, the rest missing",
   "decompress-ncc writes every variable on a compressed dimension onto the uncompressed grid with each nonnegative-index point of every input file at the cell its index names and the variable's missing or fill value (or ocean_fillvalue) everywhere else; the rest of the file is as in the inputs (which agree on it). "
   "Decompressing the pieces gives the same result as decompressing their combination.",
   ["inputs"], "every compressed set with unique indices, any index order, several compressed dimensions, all types and formats",
   TESTS + " and compares it with one stored result.",
   ["src/land_utils/decompress-ncc.F90"],
   [("nfu_get_compressed_var / expansion", "src/land_utils/decompress-ncc.F90, lib/libnfu")],
   "exact comparison with a scatter model, and the combine/decompress metamorphic relation", "oracle is a few lines of numpy."),
 P("C06", "scatter-ncc gives each point to its io domain; combine-ncc inverts it",
   "scatter-ncc writes one file per io domain, and each holds exactly the nonnegative-index points whose grid cell lies in that domain, in index order with all their values, and the uncompressed variables and attributes of the input. "
   "combine-ncc of the files gives back the input's points sorted by index, and the input is unchanged.",
   ["inputs", "configurations"], "every compressed restart and every io layout that divides the grid",
   TESTS + " and compares it with one stored result.",
   ["src/land_utils/scatter-ncc.F90"],
   [("distribution of the tile index over domains", "src/land_utils/scatter-ncc.F90")],
   "exact comparison with a partition model and the scatter/combine round trip", "oracle is a few lines of numpy."),
 P("C07", "The file query tools answer truthfully and change nothing",
   "For every netCDF file: ncexists says whether the named variable, variable attribute or global attribute exists; is-compressed exits 0 exactly when a dimension's variable has a compress attribute, and 255 (-1) otherwise; list_ncvars prints exactly the static or time-dependent variables with a requested number of dimensions, one line each in file order, leaving out character variables and the time-average bookkeeping variables (names ending in _T1, _T2, _DT, _NITEMS). "
   "None of them changes the file.",
   ["inputs", "configurations"], "every file and query, including near-miss and short names, shadowing between variables and global attributes, empty records",
   TESTS + " with a few names.",
   ["src/nc-exists/ncexists.c", "src/land_utils/is-compressed.c", "src/list-ncvars/list_ncvars.f90", "src/list-ncvars/list_ncvars.sh.in"],
   [("query loops", "ncexists.c, is-compressed.c"), ("skip rules", "src/list-ncvars/list_ncvars.f90, list_ncvars.sh.in")],
   "comparison of every answer with the generated model", "the answers are compared with the generated file description."),
 P("C08", "iceberg_comb.sh combines all bergs of a complete set or nothing",
   "For a complete set of iceberg restart files iceberg_comb.sh exits 0 and writes a file with the bergs of all files, in file order, with every variable and value once, and the set-size attribute dropped or updated. "
   "For an incomplete, inconsistent or foreign set, or an output that already exists, it exits nonzero, writes no output and leaves everything as it was.",
   ["inputs", "fault_sequences"], "every set of files with 0 or more bergs each, and every one of the generated defects",
   TESTS + ".",
   ["src/iceberg-comb/iceberg_comb.sh.in"],
   [("set checks and concatenation", "iceberg_comb.sh.in")],
   "exact comparison with concatenation, generated defects against a reject rule", "NCO and ncdump are trusted."),
 P("C09", "combine_restarts combines each set by its own rule, touching nothing else",
   "In a directory with any mix of domain-decomposed, land-compressed and iceberg restart sets combine_restarts writes for each set the same combined file that the tool for its kind writes from exactly that set's files, replacing an older combined file of a decomposed or land-compressed set. "
   "Inputs are removed only when that was asked for and their set was combined; with -n nothing at all changes; files that are not of a set are never touched. "
   "A set that cannot be combined makes the exit status nonzero and keeps its inputs.",
   ["inputs", "configurations", "fault_sequences"], "every directory with similarly named sets, previous results, bystanders and broken sets, every option combination",
   TESTS + " with one set of each kind.",
   ["src/combine-restarts/combine_restarts.in"],
   [("set discovery and dispatch", "combine_restarts.in")],
   "directory-state model, each result compared with the model of its kind", "NCO and ncdump are trusted."),
 P("C10", "timavg writes one weighted time mean per input file",
   "For every set of files timavg writes one record per input file: each averaged variable is the mean over that file's records weighted by the length of their time intervals (bounds when there are any, equal weights otherwise), over the non-missing values only, missing where no (or with -w fewer than the asked fraction of) weight is valid. "
   "The time of the record and its bounds (kept, or added with -b, or climatological) cover the averaged interval, at its end or with -m its middle; static variables, types, dimensions and attributes are unchanged.",
   ["inputs", "configurations"], "every file with 1 or more records, any bounds, type, rank, missing value and option combination in the documented domain",
   TESTS + " and checks only that it runs.",
   ["src/timeavg/time_average.f90", "src/timeavg/timavg.sh.in"],
   [("accumulation and averaging", "src/timeavg/time_average.f90")],
   "comparison with a numpy weighted mean", "values to rounding error."),
 P("C11", "plevel interpolates level fields to the asked pressures",
   "plevel.sh writes exactly the asked fields and records, with level fields interpolated linearly in log pressure between the model levels given by pk, bk and the surface pressure, missing (or with -x extrapolated) below the lowest level above ground; sea level pressure and geopotential height follow the documented formulas; 2-D and static fields, axes and time bounds are unchanged. "
   "The exit status is nonzero when the interpolation failed, and a failed run has no effect on later ones.",
   ["inputs", "configurations"], "every hybrid coordinate with at least 2 levels, every surface pressure, list of levels, field type, packing, missing value and option combination",
   TESTS + " and compares a few fields with a stored result.",
   ["src/plevel/run_pressure_interp.F90", "src/plevel/pressure_interp.F90", "src/plevel/pinterp_utilities.F90", "src/plevel/plevel.sh.in"],
   [("pres_interp_init and the below-ground mask", "src/plevel/pressure_interp.F90"), ("slp, hght, field selection", "src/plevel/run_pressure_interp.F90")],
   "comparison of every value with a numpy model of the interpolation", "values to rounding error."),
 P("C12", "make_hgrid writes the grid that was asked for, with consistent metrics",
   "For every longitude-latitude, tripolar, f/beta-plane, cartesian, spectral or user-given grid specification make_hgrid writes a supergrid whose vertices are where the specification puts them (bounds hit exactly, asked number of cells, smooth monotone spacing, bipolar cap joined at the asked latitude), and whose dx, dy, area and angles are those of the cells between these vertices; "
   "total area equals that of the covered region, periodic and folded edges coincide.",
   ["inputs", "configurations"], "every number of regions, bounds, resolution, centring, join latitude and input file layout",
   TESTS + " with a few grids and does not look at the values.",
   ["src/make-hgrid/make_hgrid.c", "src/make-hgrid/create_lonlat_grid.c", "lib/libfrencutils/mosaic_util.c", "lib/libfrencutils/create_xgrid.c"],
   [("bounds, tripolar and cell metrics", "src/make-hgrid/create_lonlat_grid.c"), ("dispatch and output", "src/make-hgrid/make_hgrid.c")],
   "comparison of every vertex and metric with numpy formulas", "values to rounding error."),
 P("C13", "make_hgrid writes true cubed-sphere tiles, stretched, nested or refined",
   "For every gnomonic or conformal cubed-sphere specification make_hgrid writes six tiles (and one per nest) whose vertices are those of the asked cubed sphere: shifted, Schmidt- or cube-transformed with the asked target and stretching, each nest lying on the lines of its parent at the asked refinement and place, halo rows equal to the neighbour's rows. "
   "dx, dy and area are the great-circle lengths and areas between these vertices, shared edges agree between neighbours, and the six areas sum to the sphere's.",
   ["inputs", "configurations"], "every resolution, transformation, target, stretching, set of nests and nest parent, global refinement and halo",
   TESTS + " with a few grids and does not look at the values.",
   ["src/make-hgrid/create_gnomonic_cubic_grid.c", "src/make-hgrid/create_conformal_cubic_grid.c", "src/make-hgrid/make_hgrid.c"],
   [("tiles, transformations, nests", "src/make-hgrid/create_gnomonic_cubic_grid.c"), ("halos, output", "src/make-hgrid/make_hgrid.c")],
   "comparison of every vertex, length and area with the analytic cubed sphere", "angles of cubed-sphere tiles are not claimed."),
 P("C14", "make_solo_mosaic lists every contact between tiles, exactly",
   "For tiles that touch along aligned boundaries, around a period, across the tripolar fold, along cube edges or as a nest in its parent, the mosaic file lists every contact exactly once with the pair of tiles, the boundary index ranges of each in matching order and orientation, and no contact that does not exist; grid locations, file names and tile names are those given.",
   ["inputs", "configurations"], "every number, size, refinement and arrangement of tiles, periodicity, nest and order of the tile files",
   TESTS + " on a few fixed grids.",
   ["src/make-solo-mosaic/make_solo_mosaic.c", "src/make-solo-mosaic/get_contact.c"],
   [("contact detection", "src/make-solo-mosaic/get_contact.c"), ("output", "src/make-solo-mosaic/make_solo_mosaic.c")],
   "comparison of the contact set with the one known from the construction", "contact sets compared exactly."),
 P("C15", "make_vgrid writes the vertical grid that was asked for",
   "make_vgrid writes a monotone zeta with the asked number of points, through every given bound: a monotone cubic through the bounds when numbers of points are given, or cells whose thickness varies smoothly between the nominal resolutions at the bounds (and grows by the stretch factor past the last one), centred as asked. "
   "Specifications that do not fit together are refused.",
   ["inputs", "configurations"], "every number of regions, bounds, resolutions, stretching and centring",
   TESTS + " with two grids and does not look at the values.",
   ["src/make-vgrid/make_vgrid.c", "src/make-vgrid/create_vgrid.c", "lib/libfrencutils/tool_util.c", "lib/libfrencutils/interp.c"],
   [("cubic spline and centring", "src/make-vgrid/create_vgrid.c"), ("get_boundaries", "lib/libfrencutils/tool_util.c")],
   "comparison of every point with numpy formulas", "values to rounding error."),
 P("C16", "fregrid order-1 remapping is exact on lon-lat grids, for every field and option",
   "For every pair of longitude-latitude mosaics (any tiling) fregrid writes for each asked scalar field, level and record the overlap-area-weighted mean of the valid source cells (their share of the sum for cell_methods sum; weighted by --weight_field or by the field's cell_measures; normalised by the target cell with --target_grid), missing exactly where no valid source cell overlaps. "
   "Packing, type, missing value, attributes, axes, time bounds, level and record ranges, non-gridded fields, output format and deflation are as in the input or as asked.",
   ["inputs", "configurations"], "every pair of lon-lat grids with cells up to 60 degrees, tiling, field type, packing, missing pattern, axes, weight and option combination",
   TESTS + " on a few stored grids and compares with a stored result or not at all.",
   ["src/fre-grid/fregrid.c", "src/fre-grid/fregrid_util.c", "src/fre-grid/conserve_interp.c", "lib/libfrencutils/create_xgrid.c", "lib/libfrencutils/mpp_io.c"],
   [("weights and application", "src/fre-grid/conserve_interp.c"), ("fields, packing, axes, output", "src/fre-grid/fregrid_util.c"), ("overlap areas", "lib/libfrencutils/create_xgrid.c")],
   "comparison of every value with exact overlap areas computed in numpy", "values to rounding error."),
 P("C17", "fregrid conserves and interpolates between cubed spheres and lon-lat grids",
   "For every cubed sphere and longitude-latitude grid, in either direction, fregrid conserve_order1 writes overlap-area means, conserve_order2 adds the source cell's gradient times the distance between the centroids of overlap and source cell, and conserve_order2_monotonic keeps every value within the range of the source cells around; where all source is valid and the target is global the area integral is that of the source. "
   "This holds for default and great circle clipping (cells of up to 18 degrees radius), shifted, stretched or rotated cubes, missing values, sums, weights, --target_grid, several levels and records, and the method chosen by option or by the field's interp_method.",
   ["inputs", "configurations"], "every cube size, shift, stretching and rotation, target grid, field pattern, method and option",
   TESTS + " on a few stored grids and compares with a stored result or not at all.",
   ["src/fre-grid/conserve_interp.c", "src/fre-grid/fregrid_util.c", "src/fre-grid/fregrid.c", "lib/libfrencutils/create_xgrid.c", "lib/libfrencutils/gradient_c2l.c", "lib/libfrencutils/mosaic_util.c"],
   [("weights, gradients and limiter", "src/fre-grid/conserve_interp.c"), ("clipping", "lib/libfrencutils/create_xgrid.c"), ("gradient", "lib/libfrencutils/gradient_c2l.c"), ("halos", "src/fre-grid/fregrid_util.c")],
   "comparison of every value with exact polygon overlaps and a numpy gradient, and with conservation and bounds", "values to 1e-9 of the range (1e-4 where slivers may be dropped)."),
 P("C18", "Reusing fregrid remap files or running in parallel changes no result",
   "Whatever the history - weights saved beforehand or on the way, remap files of all, some or none of the output tiles present, fewer fields asked, --check_conserve given, fregrid or fregrid_parallel on any number of processes - each run that ends writes the same files, fields, values and attributes as one plain serial run without remap file, and every writer leaves the same weights.",
   ["histories", "configurations", "inputs"], "every sequence of saving, reusing and losing remap files, number of processes, grid pair, field and option",
   TESTS + " with one remap file and process count and does not compare with a run without.",
   ["src/fre-grid/fregrid.c", "src/fre-grid/fregrid_util.c", "src/fre-grid/conserve_interp.c", "lib/libfrencutils/read_mosaic.c", "lib/libfrencutils/mpp.c", "lib/libfrencutils/mpp_domain.c"],
   [("reading and writing weights", "src/fre-grid/conserve_interp.c"), ("which files exist", "src/fre-grid/fregrid_util.c"), ("gathering", "lib/libfrencutils/mpp_domain.c")],
   "model-based histories compared with a plain serial run", "values to 1e-9 of the range."),
 P("C19", "fregrid bilinear takes the source points around, for scalars and winds",
   "For every cubed sphere and target size and region, --interp_method bilinear gives at each target point the distance-weighted mean of the source cell centres around it (three at a cube corner), winds as vectors on the sphere, per level and record; a point next to a missing value is missing, or takes the nearest of them with --fill_missing. "
   "--finer_step averages values of the finer points, --center_y and the region place the points, a remap file changes nothing.",
   ["inputs", "configurations"], "every cube size, shift, stretching and rotation, target size and region, field pattern, missing pattern, level/record axes and option",
   TESTS + " once, without looking at the values.",
   ["src/fre-grid/bilinear_interp.c", "src/fre-grid/fregrid.c", "src/fre-grid/fregrid_util.c", "lib/libfrencutils/mosaic_util.c"],
   [("search, weights, averaging", "src/fre-grid/bilinear_interp.c"), ("vector loop", "src/fre-grid/fregrid.c"), ("target points and halos", "src/fre-grid/fregrid_util.c")],
   "comparison of every value with the quadrangle of source centres found in numpy", "values to 1e-6 of the range."),
 P("C20", "make_coupler_mosaic exchange grids hold every overlap once, with its mask",
   "For every atmosphere, land, ocean (and wave) mosaic make_coupler_mosaic writes exchange grids whose cells are the overlaps of the parents' cells: each overlap above the area threshold once, with its parent cells and tiles, area and (order 2) centroid distances; atmosphere x ocean and land x ocean only over wet cells, atmosphere x land only over the land part, so that the exchange areas of an atmosphere cell add up to its area. "
   "The land and ocean masks hold the land and wet fraction of each cell, the mosaic file names every input and exchange grid, and neither parallel runs nor --check change the result.",
   ["inputs", "configurations"], "every combination of lon-lat and cubed-sphere mosaics with cells up to 90 degrees (18 degrees radius for great circles), tiling, topography and sea level, southward extension, wave grid and option",
   TESTS + " on stored grids, and does not look at the values.",
   ["src/make-coupler-mosaic/make_coupler_mosaic.c", "lib/libfrencutils/create_xgrid.c", "lib/libfrencutils/mosaic_util.c"],
   [("overlap loops, masks and output", "src/make-coupler-mosaic/make_coupler_mosaic.c"), ("clipping", "lib/libfrencutils/create_xgrid.c")],
   "comparison of every exchange cell and mask with exact polygon overlaps", "areas to 1e-8 of the cell."),
 P("C21", "make_topog depths and levels follow topography type, source and vertical grid",
   "For every mosaic make_topog writes one depth field per tile that is the documented function of topog_type and its options; realistic topography is the area-weighted mean of the source's ocean points over each cell (the source itself with --on_grid, 0 where there is none), filtered and cleared as asked. "
   "With a vertical grid depths and num_levels fit together: no depth below the grid, no too thin or isolated bottom cell, no ocean with fewer levels than kmt_min, land exactly where num_levels is 0, all as the options define. "
   "The number of processes, verbosity and length of names change nothing, and contradictory options are refused.",
   ["inputs", "configurations"], "every mosaic of lon-lat tiles with cells up to 40 degrees, boundary type, source grid and type, missing and land pattern, vertical grid and option combination",
   TESTS + " with one realistic topography, without looking at the values.",
   ["src/make-topog/make_topog.c", "src/make-topog/topog.c", "lib/libfrencutils/interp.c", "lib/libfrencutils/tool_util.c", "lib/libfrencutils/create_xgrid.c"],
   [("topography types, filter, adjustment", "src/make-topog/topog.c"), ("tiles, output, parallel", "src/make-topog/make_topog.c"), ("remapping", "conserve_interp, lib/libfrencutils/interp.c")],
   "comparison of every depth and level with a numpy model", "values to 1e-8 (2e-6 for great circles)."),
 P("C22", "runoff_regrid conserves runoff and puts it on ocean cells only",
   "For every runoff field, ocean grid and topography runoff_regrid writes, for every record, a field that is zero on land and whose area integral is that of the runoff falling on the grid (extended to the south pole): each ocean cell gets the runoff overlapping it plus that of the land cells to which it is the nearest ocean cell. "
   "Time axis, attributes and nominal coordinates are carried over, and the number of processes changes nothing.",
   ["inputs", "configurations"], "every lon-lat runoff grid, one-tile ocean grid, topography, sea level, missing pattern, number of records and processes",
   TESTS + " on one grid and does not look at the values.",
   ["src/runoff-regrid/runoff_regrid.c", "lib/libfrencutils/create_xgrid.c"],
   [("setup_remap, process_data, nearest", "src/runoff-regrid/runoff_regrid.c"), ("create_xgrid_1dx2d_order1", "lib/libfrencutils/create_xgrid.c")],
   "comparison of every value with exact overlaps and nearest ocean cells, and of the totals", "values to 1e-9 of the total."),
 P("C23", "check_mask masks exactly the processors without active points",
   "For every ocean mask (wet field, or depth below the given sea level) and edge type (closed, cyclic, doubly cyclic, tripolar) and for every processor count in the range or the given layout that fits the grid, check_mask writes a mask table iff some domain of the FMS decomposition holds no ocean point in its compute domain plus halo; the table lists exactly those domains, numbered from one, with their count and the layout. "
   "With --model land the same holds per cubed-sphere tile for land area in the exchange grids, with a halo of one cell across the tile edges.",
   ["inputs", "configurations"], "every mask, sea level, edge type, halo, processor range or layout; every land distribution over a cubed sphere and its exchange grid files",
   TESTS + " on one grid and do not compare the tables with a model.",
   ["src/check-mask/check_mask.c", "lib/libfrencutils/mpp_domain.c", "lib/libfrencutils/tool_util.c"],
   [("check_ocean_mask, check_land_mask, update_cubic_halo, get_land_area", "src/check-mask/check_mask.c"), ("mpp_define_layout, mpp_compute_extent", "lib/libfrencutils/mpp_domain.c"), ("get_boundary_type", "lib/libfrencutils/tool_util.c")],
   "comparison of the set of tables and of every line with a model of layouts, decomposition and halo", "none; exact."),
 P("C24", "remap_land gives every tile the data of the nearest source tile of its kind",
   "For every source and destination mosaic and every set of land restart and cold restart files remap_land writes, per destination face, exactly the tiles the cold restart calls for: a cell with soil gets all soil tiles of the nearest source cell that has soil, a cell with glacier (lake) the glacier (lake) tile of the nearest cell that has one, numbered without gaps in this order, with their data unchanged at every level, cohort, species and time. "
   "Soil fractions are scaled to the soil fraction of the cold restart, glacier and lake fractions are those of the cold restart; cohorts follow their tile and cohort_index is sorted; axes and attributes are carried over; a remap file or the number of processes changes nothing.",
   ["inputs", "configurations"], "every tile distribution, file type, set of levels, cohorts and times, grids of one or six faces, with and without remap file, any number of processes",
   TESTS + " for one distribution and look at the exit code only.",
   ["src/remap-land/remap_land.c"],
   [("get_land_tile_info, full_search_nearest, compress_int_data, compress_double_data, compute_dst_coho_idx", "src/remap-land/remap_land.c")],
   "comparison of every variable of every output file with a model", "fractions to 1e-12, everything else exact."),
 P("C25", "river_regrid makes one consistent drainage network that follows the source",
   "For every source network, target grid and land fraction river_regrid gives every cell with land a direction, travel, basin, drainage area, cell area and length, and every sea cell the missing value. Full land cells flow to the neighbour with the greatest source drainage area above their own (to the sea or a partly wet cell first, unless the cell drains more than the cutoff), across cyclic and cubed-sphere edges; partly wet cells are outlets. "
   "Following the directions, every river reaches an outlet; travel counts the steps, all cells of a river and no others share its basin, basins are numbered 1..N by falling drainage area of the outlet, and the drainage area of a cell is the land area of all cells upstream with its own. Land fractions are the exchange areas (or the mask file) with both thresholds applied.",
   ["inputs", "configurations"], "every source field with gaps and ties, closed, cyclic, doubly cyclic and cubed-sphere targets, exchange grids split over files and mask files, thresholds",
   TESTS + " for one grid and look only at the existence of the files.",
   ["src/river-regrid/river_regrid.c"],
   [("calc_max_subA, calc_tocell, calc_river_data, sort_basin, get_mosaic_grid, update_halo_double", "src/river-regrid/river_regrid.c")],
   "comparison of every output cell with a model, and invariants of the network", "areas to 1e-6; ties between neighbours are left open; cells whose greatest source value hangs on a sliver are not judged for their direction."),
 P("C26", "make_quick_mosaic splits every cell into exactly its land and its sea",
   "For every solo mosaic with topography, ocean fractions or land fractions, and every coupler mosaic, make_quick_mosaic writes per tile a land and an ocean mask that add up to one and match the input (dry where the depth is not below the sea level), exchange grids between atmosphere, land and ocean that list every cell with land, with sea or both exactly once per pair, each with the area of that part of the cell and its own indices, and a coupler mosaic that names the mosaics, directories, topography and exchange files it wrote; grid files of the input are carried over unchanged.",
   ["inputs", "configurations"], "every mosaic of one or more tiles, field of depths or fractions, sea level, input mode",
   TESTS + " on one grid and do not look at the values.",
   ["src/make-quick-mosaic/make_quick_mosaic.c"],
   [("main, get_global_grid", "src/make-quick-mosaic/make_quick_mosaic.c")],
   "comparison of every output file with a model", "areas and masks to 1e-6."),
 P("C27", "make_land_domain lists every land point once with its tiles, face by face",
   "For every coupler mosaic and set of land restarts make_land_domain writes, per face, the number of land points, the index of every cell with land area in the exchange grids of that face in rising order, and the number of tiles of each as the restart holds them; a restart whose tiles are not exactly on the land of the exchange grid is refused and nothing is silently dropped or counted twice.",
   ["inputs", "configurations"], "every distribution of land over one to twelve faces, split of the exchange grid over files and their names, restart with any tiles per cell; inconsistent restarts",
   "No test runs make_land_domain with its input.",
   ["src/make-land-domain/make_land_domain.c"],
   [("main", "src/make-land-domain/make_land_domain.c")],
   "comparison of every variable with a model; refusal of inconsistent input", "none; exact."),
 P("C28", "make_regional_mosaic gives a regional file its part of the global grid",
   "For every global mosaic and every regional file over a block of one tile make_regional_mosaic writes a grid file equal to that block of the tile's supergrid and a mosaic that names it, so that fregrid regrids the regional field as if it were that part of the global field; axes that do not count consecutive cells are refused.",
   ["inputs", "configurations"], "every block of every tile of longitude-latitude and cubed-sphere mosaics, with and without contacts and directories",
   TESTS + " for one region and do not look at the values.",
   ["src/make-regional-mosaic/make_regional_mosaic.c", "src/fre-grid/fregrid.c"],
   [("main", "src/make-regional-mosaic/make_regional_mosaic.c")],
   "comparison with the block of the global grid; regridding against exact overlaps", "grid values exact; regridded values to 1e-9."),
 P("C29", "transfer_to_mosaic_grid turns an old grid file into a mosaic of the same grid",
   "For every previous-version grid file cyclic in x transfer_to_mosaic_grid writes an ocean supergrid whose points, edge lengths and angles are those of the old file at the place they belong to (either name of a variable, optional ones present or not), whose areas are those of its cells, a vertical grid and topography with the old values, and a mosaic whose contacts join the cyclic side and the folded north of this grid. "
   "A coupled file also yields the atmosphere and land grids from their axes and the exchange grids with areas in m2, parent cells and distances unchanged, and a coupler mosaic that names the files written.",
   ["inputs", "configurations"], "every ocean grid, set of optional variables, boundary types, ocean-only or coupled files of first or second order",
   "No test runs transfer_to_mosaic_grid.",
   ["src/transfer-mosaic-grid/transfer_to_mosaic.c"],
   [("main", "src/transfer-mosaic-grid/transfer_to_mosaic.c")],
   "comparison of every output file with the supergrid the old file was made from", "areas to 1e-6; polar areas with --rotate_poly are not judged; distances from the second parent are not in the old file."),
 P("C30", "fregrid --extrapolate fills masked points; --dst_vgrid interpolates the levels",
   "For every longitude-latitude source fregrid --extrapolate leaves valid points as they are and gives every masked point, level by level and record by record, the smooth (harmonic) continuation of the valid ones - around the globe where the mosaic is cyclic, without flux through closed edges - to the accuracy of --stop_crit, before it remaps conservatively; cells outside the source are missing and any other source grid is refused. "
   "--dst_vgrid (which implies --extrapolate) interpolates every field with levels linearly to the target levels, constant above and below the source levels, for every output tile and number of processes, and writes the target levels and their edges.",
   ["inputs", "configurations"], "every mask by level and record, field type and packing, cyclic, closed or regional source, target, target vertical grid, level range, number of processes",
   "No test uses --extrapolate or --dst_vgrid.",
   ["src/fre-grid/fregrid_util.c", "src/fre-grid/fregrid.c"],
   [("do_extrapolate, fill_boundaries", "src/fre-grid/fregrid_util.c"), ("setup_vertical_interp, do_vertical_interp", "src/fre-grid/fregrid_util.c")],
   "comparison with a direct solution of the discrete Laplace equation, exact overlaps and linear interpolation", "levels with no valid point at all are left out."),
 P("C31", "make_remap_file writes the exact weights between a grid and its refinement",
   "For every grid and its refinement by an integer, in either direction, make_remap_file writes per tile every pair of overlapping cells exactly once, with the area of the finer cell and, for second order, the distance of its centroid from that of the source cell, so that fregrid with these files gives the area-weighted result and conserves totals as it does with its own weights; grids that are not refinements of each other (tile counts, sizes, ratios or corners that differ) are refused.",
   ["inputs", "configurations"], "every cubed sphere and longitude-latitude tile, ratio, direction, order; mismatched grids",
   "No test runs make_remap_file.",
   ["src/cubic_utils/make_remap_file.c", "src/fre-grid/conserve_interp.c"],
   [("main", "src/cubic_utils/make_remap_file.c")],
   "comparison of every weight with exact polygons; fregrid with the file against exact means", "areas 1e-8, centroids 1e-7."),
 P("C32", "split_ncvars.pl gives every variable its own complete file",
   "For every series of input files in chronological order split_ncvars.pl writes one file NAME[.tileN].nc for every time-dependent variable (or the variables of -v, or with -s the static ones): it holds the variable with the records of all files in order, bit for bit, its dimensions, bounds and edges, the variables that its coordinates, time average and formula terms name, geolon/geolat and the time bounds, and no other field. "
   "Attributes are kept, except those it is there to edit: filename, external_variables (cell measures and time-dependent terms), and with --cmip (or --auto for fields with a standard_name) the CF clean-up of the axes and the renamed heights and levels; --ps adds ps, pk and bk to fields on model levels; the axis scalar_axis is removed. The inputs are not changed, nothing else is left behind, and output that exists survives a concatenation that fails, which is reported.",
   ["inputs", "configurations", "fault_sequences"], "every series of history files, naming of variables and attributes, and choice of options, in one run or several",
   TESTS + " with one input file each.",
   ["src/split_ncvars/split_ncvars.pl.in", "src/list-ncvars/list_ncvars.f90"],
   [("loop over variables", "src/split_ncvars/split_ncvars.pl.in"), ("get_variable_bounds, get_formula_terms, cleanup_dim_atts", "src/split_ncvars/split_ncvars.pl.in")],
   "comparison of every output variable and attribute with the concatenated inputs", "the expected files are derived from the generated description of the inputs."),
 P("C33", "Every tool reports a missing input or a failed write by its exit status",
   "For every valid run of a tool of the package: when an input file named on its command line is missing, empty or not a netCDF file the tool exits nonzero, and when an output can not be written completely (no space, a file size limit) it exits nonzero. It never exits 0 with an output that differs from the one of the run without the fault. "
   "The failing run leaves the files alone that the successful run leaves alone.",
   ["inputs", "fault_sequences"], "every tool and every command line of the other properties' generators, with every input fault and a write failing at any size",
   "The tests hold a few negative cases for missing options; none of them makes a write fail or damages an input.",
   ["lib/libfrencutils/mpp_io.c", "lib/libfrencutils/mpp.c", "src/check-mask/check_mask.c", "src/split_ncvars/split_ncvars.pl.in", "src/timeavg/time_average.f90", "src/mpp-ncscatter/mppncscatter.c", "lib/libnfu"],
   [("netcdf_error, mpp_open, mpp_close, mpp_put_var_value", "lib/libfrencutils/mpp_io.c"), ("mpp_error", "lib/libfrencutils/mpp.c"), ("__NF_ASRT__ / cdfe", "src/land_utils")],
   "generated valid runs repeated with one injected fault; oracle over exit status and directory contents", "write faults are produced with RLIMIT_FSIZE."),
 P("C34", "simple_hydrog derives rivers and lakes from the network and never loses a cell",
   "For every acyclic drainage network, on one longitude-latitude tile or the six tiles of a cubed sphere, cp_river_vars writes for every cell of the network the number of cells and the length to its outlet, the length to the next cell, the drained area (times land fraction where the areas are those of whole cells), its basin (one per outlet, numbered by decreasing area) and whether it drains inland; it closes rivers that end in a cell without network, reports crossing rivers when there are any, and passes the grid, areas and land fractions on. "
   "rmv_parallel_rivers keeps the outlets and the cells of the network, leaves no cycle, drains the same total area, and settles every river on its neighbour of the largest drained area within the basin. cr_lake_files gives every land cell the water bodies and wetlands of the map at its centre (none on coastal cells, near the coast, in the Arctic, Antarctic and Greenland). Each of them reports missing inputs, missing variables and failed writes by its exit status.",
   ["inputs", "configurations", "fault_sequences"], "every network, grid size, tile edge, area and land fraction, storage type, fill value and map orientation",
   "No test runs these tools.",
   ["tools/simple_hydrog/postp/cp_river_vars.F90", "tools/simple_hydrog/rmvpr/rmv_parallel_rivers.F90", "tools/simple_hydrog/lakes/cr_lake_files.F90", "tools/simple_hydrog/lakes/horiz_interp.F90"],
   [("main, create_halo", "tools/simple_hydrog/postp/cp_river_vars.F90"), ("main, create_halo, find_crossing_rivers", "tools/simple_hydrog/rmvpr/rmv_parallel_rivers.F90"), ("horiz_interp_base_2d", "tools/simple_hydrog/lakes/horiz_interp.F90")],
   "comparison with a walk over the generated network on an independently derived cube topology; bilinear interpolation of the generated map", "lengths 1e-9, lake fractions 1e-6; the script make_simple_hydrog.csh is not run (its data sets are not part of the repository)."),
]
NOT_APPLICABLE = []
