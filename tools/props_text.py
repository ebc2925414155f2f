prop('W01', 'Tiles partition the DEM grid; buffers cover the upwind fetch',
     '''The tiles of a run partition the DEM: every cell lies in exactly one
     tile, tiles are at most about one degree a side (and none a single cell
     wide), have distinct names taken from their corner, and their extents
     are those of their cell limits. The buffered extent of a tile extends
     its own by the upwind length in whole cells on all four sides, clipped
     to the DEM.''',
     ['inputs', 'configurations'],
     'every raster size, cell size, offset and upwind length',
     '''Tests tile one raster; the partition fails only at particular ratios
     of raster, cell and tile size.''',
     [AM],
     [('tiling', AM + ': TileGrid, get_tiles, get_gridlimit, '
       'get_gridlimit_buffer, get_tile_extent')],
     ['TileGrid', 'get_tiles'],
     'runtime monitoring: partition monitor over the tilings of generated '
     'grids',
     '''Thousands of grids; where a ratio is within rounding of a whole
     number both roundings are accepted.''')

prop('W02', 'Every tile is computed exactly once, whatever the schedule',
     '''With any number of processes and tiles and any timing, each tile is
     cut from the DEM once and computed exactly once, with its own DEM; all
     processes come to an end, none is left waiting and no message stays
     unread. No process passes the barrier after the distribution before all
     tiles are computed, and if there are enough tiles every worker gets
     some. A progress callback is told of each tile once.''',
     ['schedules', 'configurations'],
     'every number of ranks and tiles, every order in which results arrive',
     '''The tests run on one process only; the protocol has a different
     history for every order of completion.''',
     [AM, 'utilities/parallel.py'],
     [('master and worker protocol', AM + ': parallelise_on_tiles'),
      ('stand-in for MPI', 'utilities/parallel.py')],
     ['MPI messages', 'multipliers_calculate calls'],
     'runtime monitoring: online exactly-once and deadlock monitor over '
     'enumerated and random schedules of a simulated communicator',
     '''All arrival orders for small numbers of ranks and tiles, random ones
     up to 24 ranks and 60 tiles, with buffered and synchronous sends.''',
     state=[('work queue', 'tiles not handed out yet',
             AM + ': parallelise_on_tiles')])

prop('W03', 'Conversion converts each tile once over any number of ranks',
     '''The conversion to M3 and M3_max handles each tile exactly once,
     whatever the numbers of ranks and tiles (more ranks than tiles, no tile
     at all), and every rank finishes. The two mosaics list each tile once,
     and the converted files have the values of their own tile.''',
     ['schedules', 'configurations'],
     'every number of ranks and tiles and interleaving',
     'Tests convert on one process, or check the arithmetic of one split.',
     ['utilities/mpi_runner.py', 'utilities/convert.py'],
     [('scatter and gather', 'utilities/mpi_runner.py: '
       'parallelise_convert_on_tiles')],
     ['M3/*.tif', 'M3_max/*.tif', '*/wind-multipliers.vrt'],
     'runtime monitoring: exactly-once and deadlock monitor over random '
     'schedules of a simulated communicator',
     '''1 to 16 ranks and 0 to 12 tiles; the interleavings are those of
     communication calls.''')

prop('W04', 'Parallel runs give the same results as a serial run',
     '''A run on several processes gives the same files with the same values
     as a serial run, whatever the timing and order of start of the
     processes and whatever an earlier run left in the output folder, and
     all processes exit with status 0, each with a log of its own.''',
     ['schedules', 'histories'],
     'every number of processes, timing and content of the output folder',
     '''No test starts more than one process; races on the output folder and
     on the shared files show only with real processes.''',
     [AM, 'utilities/parallel.py', 'utilities/mpi_runner.py'],
     [('order of the phases', AM + ': run'),
      ('MPI start', 'utilities/parallel.py: attempt_parallel')],
     ['all output files', 'exit statuses'],
     'runtime monitoring: differential monitor of real processes under '
     'random message delays',
     '''2 to 7 real processes through a message router with random delays; a
     stand-in replaces mpi4py, which is not installed.''')

prop('W05', 'A finished run is complete, whatever happened before',
     '''After a run that exits with status 0 the output folder holds, for each
     tile whose DEM has a non-zero elevation, 8 shielding, 8 topographic and
     (if its land cover has mapped cells) 8 terrain files, its M3 and M3_max
     files, the two mosaics of them all, and nothing else. This also holds
     when an earlier run was killed or left other files there, and converting
     again gives the same result. The inputs and everything outside the
     output and log folders stay unchanged.''',
     ['crash_points', 'histories', 'inputs'],
     'every input, every point at which an earlier run was killed',
     'No test runs the whole program, much less twice.',
     [AM, 'utilities/mpi_runner.py'],
     [('output folder', AM + ': run'),
      ('tile steps', AM + ': multipliers_calculate')],
     ['output folder', 'inputs', 'exit status'],
     'runtime monitoring: completeness monitor over runs with injected '
     'kills and stale output',
     '''Kill points are the log events of the program, which surround every
     step that writes files.''')

prop('W06', 'Each tile is computed from the DEM and land cover at its place',
     '''The DEM of a buffered tile has exactly the values of the input DEM in
     that window, missing elevations as 0. The land cover matched to a tile
     has, at each cell, the class of the land cover cell that holds the
     cell's centre, whatever the cell size, offset and coordinate system of
     the land cover, and 0 (unmapped) outside of it. The inputs may be of
     any numeric type.''',
     ['inputs'],
     'every pair of DEM and land cover grids, data type and missing value',
     '''Tests clip one DEM; wrong cells show only where grids are not
     aligned.''',
     [AM],
     [('cutting', AM + ': cut_dem, clip_dataset helper'),
      ('matching', AM + ': reproject_dataset')],
     ['cut_dem and reproject_dataset files', 'terrain/*_mz_*.nc'],
     'runtime monitoring: reference-model monitor over generated grids and '
     'whole runs',
     '''Cells whose centre lies on a border of land cover cells are not
     compared.''')

prop('W21', 'Multipliers do not depend on where tiles are cut',
     '''The terrain and shielding multipliers that a run writes for a cell are
     those computed from the whole, uncut land cover and DEM with the cell
     size of its tile, provided the upwind length covers the averaging
     distances, also right at the seams between tiles. The topographic
     multiplier is that of the buffered tile.''',
     ['inputs', 'configurations'],
     'every raster, tile layout and cell size',
     '''Tests never run more than one tile; errors at the seams need buffers,
     averages and cutting together.''',
     [AM, 'terrain/terrain_mult.py', 'shielding/shield_mult.py',
      'topographic/topo_mult.py', 'utilities/nctools.py'],
     [('buffer', AM + ': TileGrid'),
      ('cut back to the tile', 'utilities/nctools.py: clip_array')],
     ['terrain, shielding and topographic files'],
     'runtime monitoring: reference model of the whole raster against tiled '
     'runs',
     '''Rasters of 1 to 3 tiles along one direction with cells of 100 to 700
     m; cells at rounding edges are not compared.''')

prop('W07', 'Roughness lengths map to terrain multipliers as documented',
     '''Wherever the land cover is uniform, the terrain multiplier of all 8
     directions is 1.0762 - 0.2827 ln(0.4554 ln(z0) + 3.734) for the
     roughness length z0 that the configured terrain table gives to that
     category. Cells whose category is not in the table are missing in the
     output. Row order, column order, comment lines and unused categories of
     the table do not matter.''',
     ['inputs', 'configurations'],
     'every terrain table, every category value and data type of the land '
     'cover, every tile shape',
     '''The tests look up one fixed table and one map; the relation must hold
     for every roughness, category and table layout.''',
     ['terrain/terrain_mult.py'],
     [('reclassification by category', 'terrain/terrain_mult.py: '
       'terrain_class2mz_orig, get_terrain_table')],
     ['terrain/*_mz_*.nc', 'terrain_class2mz_orig return value'],
     REF,
     '''Compares every cell of thousands of generated tiles and arrays with
     the documented formula. Trusts GDAL and netCDF4 to read the files.''')

prop('W08', 'Terrain multiplier is the upwind average of the roughness zone',
     '''The terrain multiplier of a cell for wind from a direction is the mean
     of the initial multipliers (unmapped cells counting as 1) of the cells
     directly upwind that lie beyond the lag distance of 200 m and within
     the averaging distance of 500 m after it, both rounded to whole cells of
     the mean cell size of the tile (diagonals: cells of 1.414 times that
     size, rounded down). Cells beyond the tile are left out of the mean,
     and a cell with no cell to average keeps its own initial multiplier.''',
     ['inputs'],
     'every land cover, tile shape, cell size, latitude and direction',
     '''Existing tests convolve two small fixed arrays; the neighbourhood
     depends on direction, cell size, lag and distance to the tile edge.''',
     ['terrain/terrain_mult.py', 'utilities/value_lookup.py'],
     [('convolution', 'terrain/terrain_mult.py: convo'),
      ('neighbour tables', 'utilities/value_lookup.py')],
     ['terrain/*_mz_*.nc'], REF,
     '''Every cell of the 8 files of generated tiles is compared with an
     independently written model; cell sizes at rounding edges of the
     distances are excluded.''')

prop('W09', 'Shielding multiplier from upwind buildings, slope, conservatism',
     '''The shielding multiplier of a cell for a direction is built from the
     mean of the table's shielding factors (1 for unlisted categories and
     beyond the tile) over the documented upwind fetch of 100 m, or from the
     cell's own factor where cells exceed 100 m. On slopes that face the
     wind it rises linearly to 1 between 3.27 and 12.30 degrees (cells of or
     beside missing elevations counting as level). Values
     below 0.9 are then multiplied by 0.9 and the others squared, so that
     results lie in (0, 1], independently in each direction.''',
     ['inputs'],
     'every land cover, DEM, terrain table, tile shape and cell size',
     '''Tests check the kernels and one small combination; the result depends
     on land cover, slope, facing and cell size together.''',
     ['shielding/shield_mult.py', 'utilities/value_lookup.py'],
     [('upwind kernels', 'shielding/shield_mult.py: kern_*, blur_image'),
      ('slope and conservatism', 'shielding/shield_mult.py: combine')],
     ['shielding/*_ms_*.nc'], REF,
     '''Every cell of the 8 files of generated tiles is compared with a
     reference model except those within 0.001 degrees of an aspect sector
     border.''')

prop('W10', 'Slope and facing use ground distances and compass bearings',
     '''The slope of a cell is the angle of the Sobel (3 x 3) gradient of the
     elevation over ground distances in metres at that cell's latitude, edge
     cells being repeated outward. Its facing is the compass direction,
     among 8 sectors of 45 degrees centred on north, that points
     downslope. Cells of or beside missing elevations have no slope.''',
     ['inputs'],
     'every DEM (integer or float), cell size and latitude',
     '''Tests compare one fixed DEM; signs and axes depend on bearing and
     latitude.''',
     ['shielding/shield_mult.py'],
     [('gradient', 'shielding/shield_mult.py: get_slope_aspect'),
      ('sectors', 'shielding/shield_mult.py: reclassify_aspect')],
     ['get_slope_aspect return values'], REF,
     '''Reference model on generated DEMs and analytic planes of all
     bearings; cells within 0.02 degrees of a sector border are not
     compared.''')

prop('W11', 'Hill-shape multiplier of every terrain profile is as documented',
     '''Along a profile of elevations (whole metres) each strictly rising run
     that gains at least 10 m over at least two cells at a mean slope of
     0.05 or more raises the multiplier of the cells around its crest by the
     hill-shape formula, upwind and, scaled by the escarpment factor,
     downwind; all other cells are 1 and overlapping hills give the larger
     value. All values lie within [1, 1.71] and do not depend on the level
     of the whole profile.''',
     ['inputs'],
     'every profile of any length, shape and spacing',
     '''There are no tests of the profile computation with expected values;
     the formula branches on relief, slope, symmetry and distance to the
     ends.''',
     ['topographic/mh.py', 'topographic/multiplier_calc.py',
      'topographic/findpeaks.py'],
     [('ridges and valleys', 'topographic/findpeaks.py'),
      ('hill shape', 'topographic/mh.py: mh_calc, escarpment_factor')],
     ['multiplier_calc return value'],
     'runtime monitoring: reference-model and metamorphic monitors over '
     'generated and enumerated profiles',
     '''Tens of thousands of profiles, including all short ones over a small
     alphabet, against a reference model; points decided by a slope within
     1e-9 of a threshold are skipped.''')

prop('W12', 'Topographic multiplier of a tile follows from its profiles',
     '''The topographic multiplier of a tile for a direction is the hill-shape
     multiplier along every line of cells in that direction (diagonal
     spacing larger by the square root of 2, missing elevations as 0), with
     the conservatism removed, in Tasmania raised by 0.00015 per metre above
     500 m, then averaged over 3 x 3 cells with edge cells repeated outward.
     Cells of missing elevation are missing; all others are at least 1.''',
     ['inputs'],
     'every DEM tile, shape, cell size and location',
     'No test computes the topographic multiplier of a whole tile.',
     ['topographic/topo_mult.py', 'topographic/make_path.py'],
     [('paths', 'topographic/make_path.py'),
      ('adjustments', 'topographic/topo_mult.py: remove_conservatism, '
       'tasmania')],
     ['topographic/*_mt_*.nc'], REF,
     '''Every cell of the 8 files of generated tiles is compared with a
     reference model, apart from those near a slope threshold.''')

prop('W13', 'Turning or mirroring the input turns or mirrors the multipliers',
     '''No direction is special: turning the terrain, land cover and elevation
     of a tile by a quarter turn, or mirroring it, on ground where cells keep
     their size, gives the same multipliers turned or mirrored, with the
     eight directions exchanged accordingly.''',
     ['inputs'],
     'every tile and each of the eight symmetries of a square',
     '''Tests compare single directions with stored numbers; that all eight
     agree with each other holds for every input only.''',
     ['terrain/terrain_mult.py', 'shielding/shield_mult.py',
      'topographic/topo_mult.py', 'topographic/make_path.py'],
     [('directions', 'terrain/terrain_mult.py: terrain'),
      ('kernels', 'shielding/shield_mult.py: kern_*'),
      ('paths', 'topographic/make_path.py')],
     ['*/*_n.nc ... *_nw.nc'],
     'runtime monitoring: metamorphic monitor over turned and mirrored tiles',
     '''Needs no model of the multipliers; shielding slopes take part only in
     those symmetries that keep ground distances.''')

prop('W14', 'Multiplier files hold their values at their place, labelled',
     '''A written multiplier file has the cells, the coordinates (centres of
     cells), the missing value and the attributes it was given, under the
     name of its tile and direction, for any extent, and says where it comes
     from (version, sources, date) with or without git. It replaces an older
     file. Descriptions of netCDF variables that are incomplete are refused,
     as are files that cannot be written, and all given variables are
     written, to the number of digits asked for.''',
     ['inputs', 'configurations'],
     'every extent, array, name, configuration and old content',
     '''Tests write one grid in one place; half-cell shifts, flips and lost
     variables depend on the extent and the options.''',
     ['utilities/nctools.py', 'utilities/meta.py'],
     [('multiplier files', 'utilities/nctools.py: save_multiplier'),
      ('general files', 'utilities/nctools.py: nc_save_grid, '
       'nc_create_dim'),
      ('coordinates', 'utilities/nctools.py: get_lat_lon, clip_array')],
     ['*.nc'],
     'runtime monitoring: written files read back with two independent '
     'readers and compared with what was passed in',
     '''Hundreds of random windows and descriptions; windows have at least
     two rows and columns.''')

prop('W15', 'Combined multiplier M3 is Mz x Ms x Mt, missing kept missing',
     '''Each band of an M3 file is, for its direction, the product of the
     terrain, shielding and topographic multipliers of the same cell, placed
     where the tile is. A cell without one of the factors is missing (-9999),
     never a number; a factor without any file is taken as 1. The eight bands
     are in the documented order.''',
     ['inputs', 'histories'],
     'every set of multiplier files, missing cells and absent files',
     '''Tests multiply one set of full files; missing cells and absent files
     meet in many ways.''',
     ['utilities/convert.py'],
     [('product', 'utilities/convert.py: Converter.process_tile')],
     ['M3/*.tif'],
     'runtime monitoring: offline checker of converted files against the '
     'multiplier files they come from',
     '''Random multiplier files and those of whole runs; the shielding file of
     the north is always present.''')

prop('W16', 'M3_max is the largest product; mosaics show the tiles',
     '''Each cell of M3_max is the largest of the products of the directions
     that are present, missing only where all are. Each cell of the mosaics
     of M3 and M3_max shows the values of the tile that lies there (missing
     where none does), in all bands, at the place of the tile.''',
     ['inputs', 'configurations'],
     'every set of tiles, holes and missing cells',
     '''Tests take one maximum of full tiles and no mosaic with holes.''',
     ['utilities/convert.py', 'utilities/mpi_runner.py'],
     [('maximum', 'utilities/convert.py: Converter.process_max_tile'),
      ('mosaics', 'utilities/mpi_runner.py: run')],
     ['M3_max/*.tif', 'M3/wind-multipliers.vrt',
      'M3_max/wind-multipliers.vrt'],
     'runtime monitoring: offline checker of maxima and mosaics cell by cell',
     '''Grids of 1 to 9 tiles with random holes on 1 to 4 simulated ranks.''')

prop('W17', 'Cell sizes in metres are those of the ellipsoid at each row',
     '''The width and height in metres of a pixel are its geodesic extents on
     the ellipsoid. The size grids of a raster have its shape, rows for
     latitudes and columns for longitudes, and each cell the size of a pixel
     there (up to interpolation). The recursive bisection that spreads values
     over a grid keeps
     the values it asks for, asks for none outside the grid and reproduces
     bilinear functions.''',
     ['inputs'],
     'every raster shape, place, cell size, and every function spread',
     '''Tests compare one grid; latitude, shape and sign matter together.''',
     ['utilities/get_pixel_size_grid.py', 'utilities/blrb.py'],
     [('pixel size', 'utilities/get_pixel_size_grid.py: get_pixel_size'),
      ('grids', 'utilities/get_pixel_size_grid.py: get_pixel_size_grids'),
      ('bisection', 'utilities/blrb.py: interpolate_grid, '
       'interpolate_block')],
     ['get_pixel_size_grids return values', 'interpolate_grid result'],
     'runtime monitoring: reference monitor (GeographicLib) over random '
     'grids and recorded calls',
     '''Rasters in geographic coordinates of at least two cells a side.''')

prop('W18', 'Geodesic distances, azimuths and end points are right',
     '''The distance and azimuths between two points, the end point for a
     distance and azimuth, and the points along a great circle are those of
     the ellipsoid (or sphere) to millimetres, anywhere on the globe: on the
     equator, meridians, across the date line and poles, for equal points
     and for any common ellipsoid. Distances are symmetric, and direct and
     inverse agree; a distance of zero stays at the point, and no way is given
     between antipodes of a sphere.''',
     ['inputs'],
     'every pair of points up to 170 degrees apart, every ellipsoid',
     '''Tests hold four pairs; the formulas branch on quadrants and special
     lines.''',
     ['utilities/vincenty.py', 'utilities/get_pixel_size_grid.py'],
     [('inverse and direct', 'utilities/vincenty.py: vinc_dist, vinc_pt'),
      ('great circle', 'utilities/vincenty.py: GreatCircle')],
     ['return values'],
     'runtime monitoring: differential monitor against GeographicLib (of '
     'libproj)',
     '''Thousands of lines a run; tolerance of distances 5 mm and 4e-9 of the
     length, of azimuths and points 1 mm and 3e-10; at most 170 degrees (Vincenty does not converge at antipodes).''')

prop('W19', 'Preprocessing gives land use its settlement type and category',
     '''Each land use feature that has a shape comes out once with its
     attributes and shape (cut to the bounding box of the crop mask, if any;
     left out beyond it) and with the settlement type that covers most of
     it, or none (touching is not covering). Its terrain category is 100 times the number of the
     settlement type plus the number of the land use, 0 standing for unknown
     ones. The input layers stay as they are.''',
     ['inputs'],
     'every pair of layers, overlap and mask',
     '''Tests join one pair of layers; overlaps of several settlements come in
     endless arrangements.''',
     ['utilities/shapefiles.py', 'pre_process.py'],
     [('spatial join', 'utilities/shapefiles.py: spatial_join'),
      ('categories', 'pre_process.py: pre_process')],
     ['output layer'],
     'runtime monitoring: brute-force reference join over generated layers',
     '''Hundreds of layers; ties between settlement types are not
     compared.''')

prop('W20', 'Rasterised land use shows the polygon at each cell centre',
     '''The terrain class raster has the grid, shape and projection of the
     elevation raster and in each cell the category (CAT, or the
     attribute asked for) of the polygon at its centre (the later one where
     they overlap), or 0 where there is none, whatever the coordinate system
     of the layer. This holds for the function, rasterize.py and pre_process.py alike; with
     a crop mask rasterize.py gives the part within the mask, 0
     elsewhere.''',
     ['inputs', 'configurations'],
     'every layer, raster, mask and way of calling',
     'The tests burn one layer onto one raster.',
     ['rasterize.py', 'pre_process.py'],
     [('burning', 'rasterize.py'), ('program', 'pre_process.py')],
     ['output raster'],
     'runtime monitoring: point-in-polygon monitor over rasterised layers',
     '''Every cell whose centre is not within 1e-6 cells of a border.''')

prop('W22', 'Runs use the configuration and paths they are given',
     '''Every option that the configuration file set last gives has the value
     given there. A
     run uses the inputs, table, upwind length and output folder that its
     configuration names, wherever it is started, with relative or absolute
     paths, unusual characters in them, through links, and whether or not
     the log folder is there; it writes to no other place.''',
     ['configurations', 'histories'],
     'every folder, way of naming paths, and sequence of configurations',
     '''Tests use one configuration in one folder.''',
     ['utilities/config.py', AM, 'utilities/files.py'],
     [('configuration', 'utilities/config.py: set_config_file, configparser'),
      ('start', AM + ': run')],
     ['output_dir', 'config values'],
     'runtime monitoring: differential monitor over command runs from '
     'varied folders, and a reference of the option values',
     '''Dozens of command runs; options left out of the file are not
     judged.''')

prop('W23', 'Unusable input ends in a failure, never in apparent success',
     '''If an input (DEM, land cover, terrain table, configuration, output
     folder, a multiplier file to convert, a layer to preprocess) is absent
     or unusable, the program ends with a non-zero status, does not report
     success, leaves no mosaic and leaves the inputs as they were.''',
     ['inputs', 'configurations', 'fault_sequences'],
     'every input and way in which it is unusable',
     '''Tests only run with good input.''',
     [AM, 'utilities/config.py', 'utilities/value_lookup.py',
      'pre_process.py', 'rasterize.py', 'utilities/mpi_runner.py'],
     [('start', AM + ': run'), ('conversion', 'utilities/mpi_runner.py'),
      ('preprocessing', 'pre_process.py')],
     ['exit status', 'log', 'output_dir'],
     'runtime monitoring: fault injection into the inputs of command runs',
     '''One fault at a time, some 38 kinds.''')

prop('W24', 'Logs hold every message of their level; file facts are true',
     '''A log file is where it was asked for (in the current folder if its own
     cannot be made), holds every message of its level and above, whole, in
     order and dated, from any number of threads, and none below; an older
     log is replaced or continued as asked. Reported size, digest, name and
     date of a file are those of the file, absent files are refused, and
     saved tables load with the same values, comments left out and empty
     fields as missing values. Programs and modules are
     given their own path, name, version and configuration file name. A
     fatal error is logged and ends the program as failed.''',
     ['inputs', 'configurations', 'schedules'],
     'every level, place, old content, message, file content and table',
     'Tests start a log without a file and look at none.',
     ['utilities/files.py', AM],
     [('logs', 'utilities/files.py: fl_start_log, fl_log_fatal_error'),
      ('facts', 'utilities/files.py: fl_get_stat, fl_size, fl_mod_date'),
      ('names', 'utilities/files.py: fl_module_path, fl_module_name, '
       'fl_program_version, fl_config_file'),
      ('tables', 'utilities/files.py: fl_save_file, fl_load_file')],
     ['log file', 'return values'],
     'runtime monitoring: offline checker of log files against the messages '
     'sent, and of reported facts against the files',
     '''Each log is made in a fresh process; one call of fl_start_log in
     each.''')

prop('W25', 'Wrappers and shared objects keep what they wrap',
     '''Logging and timing decorators leave results, arguments, exceptions,
     number of calls, name and documentation of any function as they are
     and log each call, and success only of those that succeed. A singleton
     class has one instance, constructed once, whatever threads ask for it
     at once, even if its first constructions fail, it is false or it makes
     instances of other such classes.
     Functions disabled on workers run on rank 0 and nowhere else; the
     stand-in without MPI is one process that gets what it sends.''',
     ['schedules', 'inputs'],
     'every function, call, timing of threads, number of ranks',
     '''Tests do not touch the decorators and cannot choose thread
     timings.''',
     ['utilities/meta.py', 'utilities/parallel.py', AM],
     [('decorators', 'utilities/meta.py: print_call'),
      ('timing', AM + ': timer'),
      ('singletons', 'utilities/meta.py: Singleton'),
      ('ranks', 'utilities/parallel.py: disable_on_workers')],
     ['results, exceptions, log messages', 'instances'],
     'runtime monitoring: differential monitor of wrapped against bare '
     'functions; exactly-once monitor under thread stress',
     '''Thousands of calls of generated functions; up to 24 threads with
     injected delays and a switch interval of 1 microsecond.''')

prop('W26', 'A program that cannot write its results does not succeed',
     '''Whenever writing to a file fails - the disk is full, a file may not
     grow - at any point of a run, a conversion (also by several processes of
     which one is hit), preprocessing or rasterising, the program ends with a
     status other than 0, unless its results are complete and right all the
     same: status 0 means that the files that the program is asked for are
     there with the values of a run that has room. The functions that save a
     file (multipliers, grids, tables, shapefiles) raise when they could not
     write it. What a failed program leaves does no harm: a later run with room
     gives the results of a clean one.''',
     ['fault_sequences', 'inputs'],
     'every point at which writing begins to fail, every limit, every input',
     '''Tests write small files to a disk that has room.''',
     [AM, 'utilities/mpi_runner.py', 'utilities/convert.py',
      'utilities/nctools.py', 'utilities/shapefiles.py',
      'utilities/files.py', 'pre_process.py', 'rasterize.py'],
     [('temporary tiles', AM + ': clip_dataset, reproject_dataset'),
      ('multipliers', 'utilities/nctools.py: save_multiplier, nc_save_grid'),
      ('GeoTIFFs', 'utilities/convert.py: process_tile'),
      ('mosaics', 'utilities/mpi_runner.py: parallelise_convert_on_tiles'),
      ('layers', 'pre_process.py: rasterize; utilities/shapefiles.py: save')],
     ['exit status', 'files of the results'],
     'runtime monitoring: fault injection (limits on file sizes at random '
     'events, full file systems) with a monitor of status and results',
     '''Limits take effect at random log events and sizes near those of the
     results and of temporary files; disks with a random number of pages
     where a user namespace may mount one.''')
