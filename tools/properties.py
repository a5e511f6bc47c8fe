"""Writes /verif/properties.jsonl (the single source of the list of properties)."""
import json
import os

T = "src/glimpse/track/"
S = "src/glimpse/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        },
    })


prop("C01", "A track is the filtered history of exactly its own observations",
     "For every set of observers and schedule of times (forward or backward), a track has estimates exactly from the first through the last time at which an unmasked observer has a matching image, and is undefined (NaN) elsewhere; it starts from the initial particles, evolves them over exactly the elapsed (signed) time between steps, and takes each observer's reference template at that observer's first matching time, around the mean of the particles at that time. "
     "At each later time the particles are weighted by the sum of the penalties of exactly the unmasked observers with a matching image there and of the motion model, then resampled, so that a particle survives only if it was consistent with the images. "
     "The reported means, standard deviations, covariances, particles and weights all describe that same set of weighted particles at that time.",
     ["histories", "configurations", "inputs"],
     "every set of observers with overlapping, disjoint or missing images, observer mask, monotonic (increasing or decreasing) times, maximum time difference, motion model and resampling method",
     "No test in the repository runs the tracker at all, and a handful of schedules could not cover the combinations of missing images, masks and time directions that decide which image is used when.",
     [T + "tracker.py", T + "motion.py", T + "observer.py", T + "tracks.py"],
     [("Tracker.track", T + "tracker.py"), ("Tracker.update_weights", T + "tracker.py"),
      ("Tracker.initialize_template", T + "tracker.py"), ("Tracks", T + "tracks.py")])

prop("C02", "Tracks run together are independent, ordered and reported one by one",
     "Tracking many points together, serially or in parallel, gives for each point, in the order given, what tracking that point alone with its own row of the observer mask would give. "
     "An error while tracking one point is reported for that point only (with the estimates made before it kept and the rest undefined), warnings are reported for the point that raised them (even if it also failed), and neither disturbs any other point; a single point instead raises its error. "
     "Covariances, particles, weights or reduced results are returned per point exactly as requested, and images of observers that cache are read before tracking many points.",
     ["histories", "schedules", "configurations", "fault_sequences"],
     "every sequence of points some of which fail or warn at any step, with any observer mask, number of processes, and combination of requested outputs",
     "No test tracks any point; failure at a given step of a given point among others, in one of several processes, is not reachable by sampling a few runs.",
     [T + "tracker.py", T + "tracks.py", S + "config.py"],
     [("Tracker.track", T + "tracker.py"), ("Tracker.reset", T + "tracker.py"), ("Tracks.success", T + "tracks.py")])

prop("C03", "Times select exactly the nearest images within tolerance",
     "Times requested for tracking are kept exactly when they are not repeated and lie within the (inclusive) tolerance of some image, in their original order, else dropped with a warning or, if not monotonic or fewer than two remain, rejected; each time is matched per observer to the nearest image within the tolerance (ties to the earlier image) or to none. "
     "Selecting times by start, end (both inclusive), interval, origin and tolerance selects exactly the times that are within the bounds and nearest to (and within tolerance of) some multiple of the interval from the origin, whichever of these are given. "
     "Observers reject fewer than two, undated or non-increasing images; finding, subsetting and splitting them (with any overlap) keeps images in order, loses none, and duplicates only the requested overlap.",
     ["inputs", "configurations"],
     "every strictly increasing sequence of image times and every request (times, tolerance, start, end, interval, origin, number or times of breaks, overlap)",
     "Doctests show five times on one grid; boundary, tie, reversed, duplicate and out-of-range requests are combinatorial.",
     [T + "tracker.py", T + "observer.py", S + "helpers.py"],
     [("Tracker.parse_datetimes", T + "tracker.py"), ("Tracker.match_datetimes", T + "tracker.py"),
      ("Observer.split", T + "observer.py"), ("select_datetimes", S + "helpers.py")])

prop("C04", "Resampling redraws particles in proportion to their weights",
     "Resampling by any method returns as many particles as before, each an exact copy of an earlier particle paired with that particle's own weight; a particle of zero weight is never drawn, and the expected number of copies of each particle is proportional to its weight whatever the scale of the weights. "
     "Systematic resampling draws each particle the rounded-down or rounded-up expected number of times, stratified resampling draws exactly one particle from each of the equal slices of total weight, and residual resampling draws each at least the rounded-down expected number of times. "
     "The reported mean, standard deviation and (biased) covariance of particles are their weighted moments.",
     ["inputs", "configurations"],
     "every number of particles, weights (equal, tied, zero, tiny, huge, unnormalized) and random draw",
     "Resampling is random: no test calls it, and sampled outcomes with one weight vector cannot show what is possible or proportional for all.",
     [T + "tracker.py"],
     [("Tracker.resample_particles", T + "tracker.py"), ("Tracker.particle_mean", T + "tracker.py"),
      ("Tracker.compute_particle_sigma", T + "tracker.py")])

prop("C05", "Particles move by the stated motion model, over any time step and unit",
     "Particles are initialized at the stated mean position, elevation of the surface there, and mean velocity, plus independent deviations of the stated sizes (exactly the mean where a deviation is zero). "
     "Over a signed time step measured in the model's time unit, positions change by velocity times step plus half the acceleration times the step squared and velocities by acceleration times step, where cylindrical models state acceleration as change of speed and turning (counterclockwise) relative to the direction of motion, and tangent models keep each particle's height above the surface (apart from the stated slope) and never change vertical velocity. "
     "Models with an uncertain surface penalize a particle by half the squared number of standard deviations between its height and the surface (none where certain or not given), and no call changes the model or its inputs.",
     ["inputs", "histories", "configurations"],
     "every motion model and parameters, time unit, and sequence of forward and backward steps, over flat and sloping surfaces",
     "There are no tests of motion models; signs, units and composition of steps are laws over all inputs.",
     [T + "motion.py"],
     [("CartesianMotion.evolve_particles", T + "motion.py"), ("CylindricalMotion.evolve_particles", T + "motion.py"),
      ("TangentCartesianMotion.evolve_particles", T + "motion.py"), ("TangentCylindricalMotion.evolve_particles", T + "motion.py")])

prop("C06", "Image evidence favours the particle that moved with the image",
     "An observer's penalty for each particle is the mean squared difference between its reference template and the image in the template-sized window that is as far from the particle's projected position as the template was from the mean (interpolated between whole pixels), divided by twice the square of the observer's pixel deviation; both are compared in shades of gray (mean of bands), with the distribution of the searched region matched to that of the template, and less their local median (as configured), so that brightness and contrast have no effect. "
     "It is thus zero for the particle displaced by as much as the imagery where the two are otherwise alike; the image region read contains the window of every particle, an image where that region leaves the image bounds is skipped with a warning, and a skipped image leaves the weights to the rest of the evidence. "
     "Templates are read as whole-pixel boxes of the requested size centered within half a pixel of the projected mean, and rejected where they would leave the image.",
     ["inputs", "configurations"],
     "every integer displacement of the imagery, particle spread (including none), template size (odd, even, non-square), position relative to the image edge, and pixel deviation",
     "No test computes a template or likelihood; offsets by a pixel or half a pixel and swapped axes only appear for particular sizes and positions.",
     [T + "tracker.py", T + "observer.py", S + "raster.py"],
     [("Tracker.compute_observer_log_likelihoods", T + "tracker.py"), ("Tracker.initialize_template", T + "tracker.py"),
      ("Observer.tile_box", T + "observer.py"), ("Observer.sample_tile", T + "observer.py")])

prop("C07", "Reading images is independent of what was read or cached before",
     "Reading any pixel box (or all) of an image or raster, at the size given by its camera or grid, returns the corresponding pixels of the file, whichever reads (cached or not, full or partial) came before and whether via an observer or not. "
     "Reading with caching keeps the full image for later reads, reading without caching never changes what is kept, and clearing releases it. "
     "Pixels returned earlier are not changed by later operations of the library, and shifting or sampling tiles does not change the cached image.",
     ["histories", "inputs", "configurations"],
     "every sequence of reads (any box, cached or not), caching and clearing, resizing of the camera or grid, single- and multi-band files and data types",
     "Tests read one image once or twice; staleness needs specific sequences of reads, sizes and cache settings.",
     [S + "image.py", S + "raster.py", T + "observer.py"],
     [("Image.read", S + "image.py"), ("Raster.read", S + "raster.py"),
      ("Observer.extract_tile", T + "observer.py"), ("Observer.cache_images", T + "observer.py")])

prop("C08", "Raster queries reflect the current values and grid after any edits",
     "After any sequence of assignments of values or limits, resizing, shifting, cropping (by limits, values or data), filling and subsetting by rows and columns, every query of a raster (cell coordinates, bounds, value limits, linear and nearest samples at points or on grids, gradients, hillshade, data extent, resampling to another grid) answers for its current values and grid, as a newly built raster with the same values and grid would. "
     "A copy or grid derived from a raster shares no mutable state with it, and edits change only what they state: cropping keeps exactly the cells overlapping the limits, subsetting exactly the stated cells, filling assigns exactly the cells of the circle, and resizing keeps the limits. "
     "Rasters with descending x or ascending y coordinates behave as their mirror images do.",
     ["histories", "inputs", "configurations"],
     "every sequence of public edits and queries on rasters of either direction of x and y, numeric type, with and without missing values",
     "Unit tests query fresh rasters; stale caches appear only after particular sequences of edits and queries.",
     [S + "raster.py"],
     [("Raster.sample", S + "raster.py"), ("Raster.crop", S + "raster.py"), ("Raster.resize", S + "raster.py"),
      ("Grid.shift", S + "raster.py"), ("Raster.fill_circle", S + "raster.py")])

prop("C09", "Grid cells, coordinates, boxes and tiles agree with each other",
     "For every grid, in either direction of either axis, conversions between coordinates, row-column indices and flat indices are mutually inverse on cells, a point is in bounds exactly when it is inside the (inclusive) limits, and snapping returns the nearest cell center or edge (ties by the stated rule). "
     "A box within the grid is snapped to whole cells and one leaving the grid is rejected; cropping limits select exactly the cells overlapping them, and grids are equal exactly when their sizes and limits are. "
     "Splitting a grid into tiles, with any overlap, covers every cell, without repetition if there is no overlap, each extended by the overlap within the grid.",
     ["inputs", "configurations"],
     "every grid size, axis direction and limits, and every point, index, box, tile size and overlap",
     "Doctests show one or two grids; edges, ties, reversed axes and remainders are combinatorial.",
     [S + "raster.py"],
     [("Grid.xy_to_rowcol", S + "raster.py"), ("Grid.snap_xy", S + "raster.py"), ("Grid.snap_box", S + "raster.py"),
      ("Grid.tile_indices", S + "raster.py"), ("Grid.crop_extent", S + "raster.py")])

prop("C10", "What is written to disk is what is read back",
     "Writing a raster (or array with bands) to a file that can hold it and opening it returns the same values, data type, limits (in either axis direction) and coordinate system (given as EPSG code, Proj4 or WKT), where missing values of floating-point rasters are stored as the requested nodata value, and the nodata value of the opened band (of floating-point bands) or the value stated on opening (of any, then read as floating point) is read as missing, and nothing else. "
     "Opening (or reading only the grid of) a part by limits in either order, or at another cell size, returns exactly the cells overlapping the limits, in number rounded up to the cell size, each with the value of a file cell it overlaps. "
     "Images written to file, cameras written as JSON (any of their parameters, with parameters overridden on reading), data encoded as JSON (in any layout; arrays of scalars on one line each if asked) and pickled data (compressed or not, including image keypoints) read back equal what was written, creating folders as needed, and unsupported formats, data types and coordinate systems are rejected.",
     ["inputs", "configurations", "histories"],
     "every raster shape, band count, data type, axis direction, limits, nodata value, coordinate system and extent of partial read, and every JSON-encodable structure of arrays and scalars",
     "Tests round-trip one small file; data types, nodata values and directions multiply.",
     [S + "raster.py", S + "helpers.py", S + "camera.py", S + "image.py"],
     [("Raster.write", S + "raster.py"), ("Raster.open", S + "raster.py"), ("write_raster", S + "helpers.py"),
      ("write_json", S + "helpers.py"), ("Camera.to_json", S + "camera.py")])

prop("C11", "Interpolating between rasters honours time, limits and uncertainty",
     "Interpolating a sequence of rasters (in any order of their times or coordinates, given as rasters, files or numbers standing for rasters without limits) at a time returns the linear mixture, in proportion to time, of the nearest raster before and the nearest after it (that raster itself at its own time), or with extrapolation enabled of the two nearest, over the cells of their common extent and the requested limits, after applying the requested value limits and function; times outside the sequence (without extrapolation) and rasters that do not overlap are rejected. "
     "The variance returned with it is that of the earlier raster plus the squared fraction of time times the sum of both variances, plus the square of a third of the change weighed by the (relative) distance to the nearer raster, cell by cell. "
     "Neither interpolation nor reading of the rasters from file, nor changing the results, changes the result of later interpolations or the rasters given.",
     ["histories", "inputs", "configurations"],
     "every sequence of rasters or paths, times or numbers, query order, and option of extrapolation, cropping and uncertainty",
     "No unit test exercises interpolation at and beyond knots, in different orders, with in-memory and file rasters.",
     [S + "raster.py"],
     [("RasterInterpolant.__call__", S + "raster.py"), ("RasterInterpolant.read_mean", S + "raster.py")])

prop("C12", "A camera's derived quantities always follow its current parameters",
     "After any sequence of assignments to a camera's parameters (whole or by element, position, angles, image size, focal length, principal point, distortion, sensor size, also in millimetres), and of resizing, idealizing, resetting, copying and saving and loading as JSON, each changes exactly the parameters it names, and every derived quantity (focal length and principal point in millimetres, rotation and its derivative, pixel grid, frame and view box, projection and inverse projection, parameter vector) is the one of a new camera with the same current parameters. "
     "Resizing by a factor of (or to a size of the same aspect as) the original image size scales image size (rounded half up), focal length and principal point offset together, so that the same scene is seen however the camera was resized before; other sizes are rejected unless forced. "
     "Resetting returns to the original parameters (those of the source camera when copied), copies are independent, and neither inputs nor returned vectors are tied to the camera.",
     ["histories", "inputs"],
     "every sequence of assignments, resizes, resets and copies",
     "Tests build cameras and project; stale or compounding state needs sequences of edits.",
     [S + "camera.py"],
     [("Camera.resize", S + "camera.py"), ("Camera.reset", S + "camera.py"), ("Camera.R", S + "camera.py"),
      ("Camera.copy", S + "camera.py")])

prop("C13", "Projection and inverse projection agree, and only see what is in front",
     "A camera projects a world point (or direction) by rotating it about the camera position (yaw clockwise from north, pitch up, roll about the optical axis), lowering it first by its elevation correction where the camera has one (not for directions), dividing by depth, applying radial (rational) and tangential distortion, and scaling to pixels about the principal point; points at or behind the camera have no projection and are not in front, and depths are those along the optical axis, whatever the shape, type or number of points. "
     "Inverse projection at given depths (as directions or absolute) returns the world points that project to the given pixels, with distortion removed wherever k1 alone is below its maximum or distortion is weak, and a camera is reversible exactly when coordinates never decrease along the middle row and column of pixels. "
     "A point is in frame exactly when its pixel coordinates are within the (inclusive) image bounds, edges are listed clockwise at the requested steps, the view box and polygon are those of the (undistorted) edges at the requested depth and the camera, and spherical coordinates agree with world coordinates both ways.",
     ["inputs", "configurations"],
     "every camera position, angles in all quadrants, focal lengths, principal point and distortion, and every point or pixel, singly or in arrays",
     "Tests sample a few random points with tolerance; special angles, exact axes, single distortion terms and points behind the camera are not covered.",
     [S + "camera.py"],
     [("Camera.xyz_to_uv", S + "camera.py"), ("Camera.uv_to_xyz", S + "camera.py"),
      ("Camera.inframe", S + "camera.py"), ("Camera.viewbox", S + "camera.py")])

prop("C14", "Rasterizing and projecting put each value in the cell it belongs to",
     "Rasterizing points to an image, raster or array gives each cell that contains points (in or on the frame, limits included) exactly the mean of their values per band, ignores points outside, and leaves other cells unset (NaN) or as they were, for any point order, number of bands and data type; polygons fill exactly the cells whose centers they cover, with holes excluded, on grids in either direction. "
     "Projecting a surface through a camera gives each pixel the mean value and depth of the unmasked surface cells in front of the camera that fall in it (one of them or between, where tiles share a pixel), whatever the tiles or parallelism, and tiles cover the grid with exactly the requested overlap. "
     "Projecting one image into another camera at the same position (others are rejected) gives each pixel the nearest or interpolated value of the first image in the same direction, or none where not seen.",
     ["inputs", "configurations", "schedules"],
     "every set of points or polygons (inside, outside and on edges), values, bands and grid; every tile size and number of processes",
     "Tests compare one projected scene at low precision.",
     [S + "helpers.py", S + "camera.py", S + "image.py", S + "raster.py"],
     [("rasterize_points", S + "helpers.py"), ("polygons_to_mask", S + "helpers.py"),
      ("Camera.project_dem", S + "camera.py"), ("Image.project", S + "image.py")])

prop("C15", "Camera optimization edits exactly the requested parameters, or none",
     "Optimizing cameras against control presents each parameter exactly where requested (per camera, or together for a group of cameras), within the stated bounds (else the defaults, the tightest of a group) and with a scale each, with initial values those of the cameras (or their group mean), so that applying a parameter vector sets exactly those camera parameters and nothing else (a camera's own over its group's), and contradictory requests are rejected. "
     "Residuals are the predicted minus observed image positions of every control in use, times the normalized weights, in the order of the controls, for any selection of points and any parameters. "
     "Predicting, fitting (in one or several iterations, for a selection of points, or failing at any point) and orienting the cameras of an observer (whose anchors stay) leave every camera as it was before unless asked to apply the result, and the result is the best of the requested parameters within their bounds.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every set of cameras, groupings, requested parameters (all, none, bounds, per-camera indices), controls and weights, and failures during prediction",
     "One test fits one camera; mapping of parameters and restoration after failure is over all configurations.",
     [S + "optimize.py"],
     [("Cameras.set_cameras", S + "optimize.py"), ("Cameras.parse_params", S + "optimize.py"),
      ("Cameras.residuals", S + "optimize.py"), ("Cameras.fit", S + "optimize.py")])

prop("C16", "Controls keep their point pairs aligned and scaled with their cameras",
     "Points, lines and matches report observed and predicted image positions of the same features in the same order and number for any selection of indices (predictions following the current cameras, and refused once an assumption of the control no longer holds), with one weight each where matches are weighted. "
     "Resizing a control, or having it follow cameras that were resized, scales observed positions with the size of each image, including repeatedly and by different factors per axis. "
     "Filtering matches keeps exactly the pairs (and their weights) within all stated limits, in order, and conversion between kinds or discarding image positions of normalized matches preserves them, neither changing the arrays given nor other controls.",
     ["histories", "inputs", "configurations"],
     "every control, selection, sequence of resizes, filters and conversions, with and without weights",
     "No unit test covers controls.",
     [S + "optimize.py"],
     [("Points", S + "optimize.py"), ("Lines", S + "optimize.py"), ("Matches", S + "optimize.py"),
      ("RotationMatches", S + "optimize.py")])

prop("C17", "Keypoint matches connect exactly the requested pairs of images",
     "Building keypoints gives each image the keypoints within its mask, in memory and on file, detected anew only when asked or when there are none yet; building matches gives, in order, exactly the pairs of images within the requested time, neighbors or selection, each with the keypoints of its own two images and cameras, whether computed, read from file (replaced only when asked), in any order of calls, serially or in parallel. "
     "Matches of two images are the pairs of keypoints that are nearest neighbors (mutually, where asked) within the mask and the limits on ratio and distance, each with its own weight. "
     "Dropping images removes them and those left without matches and keeps all else consistent, conversion keeps points, filtering keeps exactly the pairs within the limits, and counts and breaks (images matched to fewer later images than the minimum, or than all that follow) agree with the matches.",
     ["histories", "inputs", "configurations", "schedules"],
     "every number of images, selection of pairs, sequence of building, clearing, dropping, filtering and file caching",
     "No unit test covers keypoint matching.",
     [S + "optimize.py"],
     [("KeypointMatcher.build_matches", S + "optimize.py"), ("KeypointMatcher.build_keypoints", S + "optimize.py"),
      ("KeypointMatcher.drop_images", S + "optimize.py"), ("match_keypoints", S + "optimize.py")])

prop("C18", "Random sample consensus returns the best supported model it saw",
     "Random sample consensus fits samples of the requested number of distinct points, never the same sample twice, as many as requested (all possible samples if fewer), and any sample can be drawn. "
     "Of the models that have more than the minimum number of points, beyond the sample, within the maximum error, it returns the one with the least mean error once refit to its sample and those points, together with exactly the points within the maximum error of the returned model, passing on arguments of fits and skipping samples that cannot be fit. "
     "It raises an error exactly when no sample has enough support or the sample size is not less than the number of points, and does not otherwise change the model and its data.",
     ["inputs", "configurations", "schedules"],
     "every number of points, sample size, number of iterations, maximum error and minimum support, for any model",
     "Tests do not cover degenerate sample spaces (all samples, no valid model) or the choice among candidates.",
     [S + "optimize.py"],
     [("ransac", S + "optimize.py"), ("_ransac_samples", S + "optimize.py")])

prop("C19", "SVG drawings are read as the polylines and points they draw",
     "Reading an SVG document returns, for every element by its name (the requested attribute, else its tag) and nested as its groups, the vertices that its shape draws (absolute and relative path commands, implicitly repeated ones, closed subpaths, polylines, closed polygons, lines, rectangles, circle centers), moved by the transform of each element and group, innermost first, with values of the same name as a list in document order. "
     "If there is an image, coordinates are relative to the corner of the last one and scaled to its own or the requested size. "
     "Separators, whitespace and number formats do not change the result, and points written as an element, alone or in a document written with any indent, are read back exactly; unsupported elements, transforms and documents are refused.",
     ["inputs", "programs"],
     "every sequence of supported path commands in any accepted spelling, and every nesting of groups and transforms",
     "Tests parse a handful of fixed documents and commands.",
     [S + "svg.py"],
     [("parse_path", S + "svg.py"), ("parse_svg", S + "svg.py"), ("transform_points", S + "svg.py")])

prop("C20", "Foreign camera models are converted losslessly where representable",
     "Cameras of Agisoft, Matlab, OpenCV and PhotoModeler project points as documented for that software, and files (or arrays) of each are read as the camera they describe, with zero or the image center where parameters are not given, standard deviations where requested, and an error if unsupported. "
     "Converting to a camera or back keeps every parameter that both models share exactly, so that the projection is the same wherever the other model can represent it, and leaves the original as it was. "
     "Where it cannot, or on request, exactly the documented or requested parameters are changed, so that misfit over the given image points (an evenly spaced grid if only their number is given) is least, which finds back parameters that can be recovered.",
     ["inputs", "configurations"],
     "every parameter setting of each supported model",
     "Tests convert a few parameter sets.",
     [S + "convert/converter.py"],
     [("Converter", S + "convert/converter.py")])

prop("C21", "Box, line and clipping geometry is exact",
     "A point is in a box when within its inclusive limits, boxes meet in their common part (an error if it has no extent), a ray enters and leaves a box at the first and last multiple ahead at which it is in it, and clipping a line keeps its vertices in the box in order, with those edges that leave or enter it cut at its side (and their measures interpolated). "
     "Lines of cells start and end as requested and advance one cell at a time within half a cell of the straight line, circles of cells are closed, connected, symmetric and within half a cell of the circle, and grids in a box are all its points aligned as requested. "
     "Points along a line lie at exactly the requested or evenly spaced distances, increasing or decreasing, with an error or the requested values beyond its ends, nearest neighbours are nearest, distances are Euclidean, and splitting by a mask returns the requested groups whole and in order, also around a loop.",
     ["inputs"],
     "every box in two or three dimensions, polyline, ray, line and circle on a small grid, in every direction",
     "Doctests show one example of each; octants, touching and degenerate cases are combinatorial.",
     [S + "helpers.py"],
     [("clip_polyline_box", S + "helpers.py"), ("intersect_rays_box", S + "helpers.py"), ("bresenham_line", S + "helpers.py"),
      ("interpolate_line", S + "helpers.py")])

prop("C22", "Visibility follows lines of sight over the terrain",
     "Around a viewpoint on the raster, taking cells in rings one cell wide by their distance to it, a cell of the first ring is visible, and one farther away exactly when it rises (relative to its distance, and corrected for curvature and refraction if requested) above the highest slope of the nearer rings, interpolated linearly between their headings; the cell of the viewpoint is visible, and missing cells are neither visible nor hide others. "
     "The horizon in each direction is the highest rise along the line of cells from the viewpoint (or from where the direction enters the raster) to the far side, at the center and elevation of its cell, unless it is the last known one or there are none, joined to segments over consecutive directions, also around the full circle. "
     "Both depend on neither the order of the axes, cell size, position, integer or decimal type of the raster nor the datum of elevations, and leave the raster unchanged.",
     ["inputs", "configurations"],
     "every terrain (with missing values) and viewpoint inside or outside the grid, in every axis direction",
     "Tests do not compute a viewshed with known answer beyond a flat scene.",
     [S + "raster.py"],
     [("Raster.viewshed", S + "raster.py"), ("Raster.horizon", S + "raster.py")])

prop("C23", "Image metadata determines the camera in a fixed order of precedence",
     "The size, focal length and sensor size of an image's camera are each those given, else those of the metadata (never a second focal length beside one in pixels), and if they do not determine a camera it is refused; the capture time is the one given, else that of the metadata, which is read only if something is missing, and from metadata passed in rather than the file, without changing any argument. "
     "Metadata of a file in either byte order says the exact time with subseconds of any number of digits to the microsecond, exact ratios, the first of several speeds, text up to its terminator, and the sensor size of known cameras; what is absent, blank, zero or without denominator is unknown rather than an error. "
     "Tags are edited in memory only until inserted into a file, whose pixels and other tags are unchanged and whose metadata then says what memory does (with the thumbnail only if it was kept), leaving memory unchanged; unknown groups and tags are refused.",
     ["inputs", "configurations"],
     "every combination of present, absent and malformed metadata fields and of explicit parameters",
     "Tests read two files.",
     [S + "exif.py", S + "image.py"],
     [("Exif", S + "exif.py"), ("Image.__init__", S + "image.py")])

prop("C24", "Summaries and views of tracks show exactly the estimates and images selected",
     "For any set of tracks, positions, velocities and their deviations are the corresponding parts of the estimates (deviations from the diagonal of covariances where only these are kept), success is reported for exactly the tracks without an error, and the endpoints of selected tracks are the first and last times with estimates of exactly those that have any. "
     "Plots draw exactly the selected tracks and dimensions, in order, with the parts requested and nothing where estimates are undefined: their paths, first points, deviations, velocity arrows, and velocities over time. "
     "Animations step through the requested times with an estimate and an image, except the last (or, of observers, the requested images in the requested order), and at each show the path so far in map and image coordinates of its own image, particles and velocities scaled to the next step, the pixels of its image around the point (or, for a fixed target, where the image shows it), at their place, and windows of the requested size around it.",
     ["inputs", "configurations"],
     "every number of tracks and times, pattern of undefined estimates and errors, and selection of tracks",
     "No test covers tracks.",
     [T + "tracks.py", T + "observer.py"],
     [("Tracks.endpoints", T + "tracks.py"), ("Tracks.xyz_sigma", T + "tracks.py"), ("Tracks.plot_xy", T + "tracks.py"),
      ("Tracks.animate", T + "tracks.py"), ("Observer.animate", T + "observer.py"), ("Observer.track", T + "observer.py"), ("Observer.plot_tile", T + "observer.py")])

prop("C25", "Plots show each selected error once, where it is, and change nothing",
     "Plots of points, lines and matches draw one arrow from the observed to the predicted image coordinates, in the requested camera, of each selected point in the order selected and of each other point once, to scale, with observed and predicted lines, in the style given for all or for a part (which prevails), except the parts that are hidden or empty; of several controls, one result for each that references the camera, with the requested parameters. "
     "Nothing else is drawn, what was drawn before stays, limits are set to the image only if there was no figure yet, and points and cameras are unchanged afterwards (even if the plot is refused). "
     "Plots of polynomials show the selected and other points and the curve fitted to those selected or given, weights those of the selected points relative to their mean, and rasters, images and boxes every cell at its own coordinates and limits.",
     ["inputs", "configurations", "histories"],
     "every set of controls, selection of points, parts that are hidden, styles, and sequence of plots in a figure",
     "Tests check two plots.",
     [S + "optimize.py", S + "raster.py", S + "image.py", T + "observer.py"],
     [("Points.plot", S + "optimize.py"), ("Lines.plot", S + "optimize.py"), ("Matches.plot", S + "optimize.py"), ("Polynomial.plot", S + "optimize.py"),
      ("Cameras.plot", S + "optimize.py"), ("Cameras.plot_weights", S + "optimize.py"), ("Raster.plot", S + "raster.py"), ("Image.plot", S + "image.py"),
      ("Observer.plot_box", T + "observer.py")])

prop("C26", "Filters and matching of values use exactly the cells included",
     "A maximum or gaussian filter of some cells replaces each of them by the maximum or weighted mean of the included cells in its window alone, whatever the datatype and the values of excluded cells (even missing), which are kept, or if requested filled from the included cells in reach; filling crevasses is the second applied to the first. "
     "Values matched to a distribution are the values of the same rank in it (interpolated between its ranks), distributions are the unique values with the fraction of values up to each, and normalized values have mean 0 and variance 1 in proportion to the original. "
     "Gradients and shades of a raster are those of the surface in world coordinates, in whatever direction its axes run, lists are formatted to a length and names stripped of extensions as requested, and the arrays and lists given are unchanged.",
     ["inputs", "configurations"],
     "every grid, mask, missing value, window, datatype, distribution and direction of axes",
     "Tests check one filter of four cells and one distribution.",
     [S + "helpers.py", S + "raster.py"],
     [("maximum_filter", S + "helpers.py"), ("gaussian_filter", S + "helpers.py"), ("compute_cdf", S + "helpers.py"), ("match_cdf", S + "helpers.py"),
      ("normalize", S + "helpers.py"), ("Raster.fill_crevasses", S + "raster.py"), ("Raster.gradient", S + "raster.py"), ("Raster.hillshade", S + "raster.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fp.write(json.dumps(p) + "\n")
print(len(P))
