"""The properties: one entry each; mkmeta.py turns this into properties.jsonl and MANIFEST.json"""
NOTES = "Run from /verif. Every check rebuilds the extensions from /repo's working tree and re-reads the Python sources. Exit 0 held, 1 violated, other: error of the check."
def Q(text, over=("inputs",)): return dict(over=list(over), text=text)
def A(files, mech, observe=None):
    d = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: d["observe_at"] = observe
    return d
PROPS = []; NA = []
def prop(**k): PROPS.append(k)

prop(id="C01", title="Slicing a map keeps every pixel's value and sky position",
 statement="Taking any rectangular slice of a map (any start/stop/step, negative or out-of-range indices included, with or without leading axes, ellipsis, or repeated slicing) returns exactly the elements ordinary array slicing would, and the returned geometry has the same shape as the data and places every returned pixel where it was on the sky. With a stride each output pixel stands for the block of input pixels beginning at the sampled one, in the direction of the step. Slicing a bare geometry gives the geometry of the sliced map, and neither the source map nor its geometry is altered.",
 quantifier=Q("all map shapes, all slice starts/stops/steps including defaults and out-of-range values, all projections and pixel scales, all chains of slices", ("inputs","histories")),
 why="The tests slice two fixed maps; the rule must hold for every combination of sign, stride, clipping and axis.",
 anchors=A(["pixell/enmap.py","pixell/utils.py"], [("slice expansion","utils.expand_slice"),("index splitting","utils.split_slice"),("wcs update","enmap.slice_geometry"),("map indexing","enmap.ndmap.__getitem__, enmap.Geometry.__getitem__")], ["shape, values and pix2sky of the result"]),
 note="expand_slice, slice_geometry (both axes, wrapped and unwrapped), Geometry and map indexing proved for all integers and all geometries over wcslib's contract; index splitting with ellipsis/new axes is exhaustive up to 4 entries (bounded).")

prop(id="C02", title="Cutting out and pasting back map regions is pixel-exact, also across the RA wrap",
 statement="extract, extract_pixbox, submap, padslice and stamps return for every pixel of the requested box the value of the map pixel at that place (modulo one turn in longitude for cylindrical maps; no wrapping when wrap=0 and for padslice/stamps), the fill value exactly where the map has no such pixel, and a geometry that puts each output pixel at its true sky position, for any box offset (far outside or several turns away too), either direction of the box and any rounding mode. insert and insert_at do the reverse: exactly the covered pixels of the target change, to op(old, inserted), whatever the offset. pixbox_of finds the pixel box of a compatible geometry also if its reference pixel differs; incompatible geometries are refused. Source maps, boxes and geometries passed in are not modified; map_union, overlap and tile_maps place their parts the same way; touching sky boxes give touching cut-outs.",
 quantifier=Q("all map sizes, box offsets and sizes (the proofs take boxes up to one turn), any number of pixels around the sky, fill values, and reference pixels"),
 why="The wrap-around splits boxes into several pieces depending on offset, width and map extent; the tests exercise a few.",
 anchors=A(["pixell/enmap.py","pixell/utils.py","pixell/wcsutils.py"], [("cut-out","enmap.extract_pixbox, enmap.extract, enmap.padslice, enmap.stamps"),("paste","enmap.insert, enmap.insert_at"),("sky boxes","enmap.submap, enmap.subinds, enmap.skybox2pixbox"),("wrapping","utils.sbox_wrap, enmap.get_wrap"),("compatibility","wcsutils.is_compatible, enmap.pixbox_of")], ["values, shape and pix2sky of results"]),
 note="extract/insert/padslice are proved over symbolic map shapes and offsets (boxes up to one turn); sky-coordinate boxes, unions, wider boxes and is_compatible are bounded.")

prop(id="C03", title="Strided pixel boxes behave as the index sets they denote",
 statement="The strided-box routines agree with the index sequence range(start,stop,step) a box denotes: sbox_size counts it, sbox_fix normalises the end without changing it or its argument, sbox_flip reverses it, sbox2slice selects exactly it (also when a descending box ends at element 0), sbox_mul composes (arr[mul(a,b)] equals arr[a][b]), sbox_div inverts that (also for boxes reaching outside the divisor), sbox_intersect gives the common elements each once, and sbox_wrap splits a box into pieces that read every available element exactly once from its position modulo the wrap and skip exactly the unavailable ones. Plain boxes: box_slice, box_overlap, box_area, bounding_box, pad_box, widen_box act as the corresponding set operations.",
 quantifier=Q("all integer boxes, both step signs, any wrap period and array length; sbox_wrap proofs take strides up to 3 and one turn"),
 why="Every cut-out, tiled read and partial file read is built on these; errors show only at particular offsets, strides and lengths.",
 anchors=A(["pixell/utils.py"], [("box algebra","utils.sbox_fix, sbox_size, sbox_flip, sbox_mul, sbox_div, sbox_intersect, sbox2slice"),("wrapping","utils.sbox_wrap"),("plain boxes","utils.box_slice, box_overlap, bounding_box, pad_box, widen_box")], ["returned boxes"]),
 note="size/fix/flip/slice/mul/div proved for all integers; sbox_wrap for strides 1..3 both signs and up to one turn; intersection and multi-turn wraps bounded.")

prop(id="C04", title="Sky and pixel coordinates invert each other and mean the same everywhere",
 statement="pix2sky gives the sky position (dec,ra in radians) that the map's WCS assigns to a pixel, sky2pix inverts it: pix to sky to pix returns the starting pixel for positions within half a turn of the map, adding whole turns to a longitude does not change the pixel (safe modes), and corner=True shifts by exactly half a pixel, for scalars and arrays of any shape. posmap, posaxes and pixmap hold for each pixel that same position, however they are computed (separable or not, any block size). Safe longitudes are continuous along a line of pixels, corners and box span the true width of the map, contains is true exactly for positions whose pixel coordinates are inside the map, and sky boxes and pixel boxes convert into one another with their direction kept. Map and Geometry methods agree with the functions and no argument is modified. unwind moves values by whole periods only, leaves no jump of more than half a period and keeps the reference element within half a period of ref.",
 quantifier=Q("all plain and CAR geometries, map shapes, pixel scales of either sign, positions on and off the map, corner and safe modes (other projections: bounded)"),
 why="The 360-degree ambiguity, the pixel offset conventions and the separable shortcut interact; a test looks at a few positions.",
 anchors=A(["pixell/enmap.py","pixell/utils.py"], [("conversion","enmap.pix2sky, enmap.sky2pix"),("position maps","enmap.posmap, enmap.posaxes, enmap.pixmap"),("unwrapping","utils.unwind, utils.rewind"),("extent","enmap.corners, enmap.box, enmap.contains"),("boxes","enmap.skybox2pixbox, enmap.pixbox2skybox")], ["returned coordinates"]),
 note="Round trip, contains, corners, boxes, position maps and unwind are proved for all plain/CAR geometries over wcslib's linear contract (lines of up to 5 points); other projections are bounded against wcslib itself.")

prop(id="C05", title="Padding, shifting, rescaling and recentring keep data and geometry in step",
 statement="pad surrounds the map with the fill value (or the periodically continued map with wrap=True) for any combination of paddings including none on a side, and the slice it returns gives back the original. downgrade applies op to each factor-sized block starting at the offset (incomplete blocks only with inclusive=True) and its pixel centres are the block centres; upgrade repeats pixels and undoes the geometry of downgrade; downgrade_geometry, Geometry.downgrade, scale_geometry and wcsutils.scale agree with that and keep pixel edges and leading axes in place. shift rolls cyclically and moves the geometry with the pixels (unless keepwcs). autocrop removes only blank borders and returns the smallest allowed size, keeping every remaining pixel at its place; padcrop repeats it. union_geometry is the smallest geometry holding all inputs, crop_geometry gives the geometry of the requested region whichever way the box runs, recentring (recenter_cyl_x, recenter_cyl_ra, fix_wcs, fix_cdelt) changes no pixel's position. apod multiplies by the documented profile. Arguments are not modified unless inplace is asked for.",
 quantifier=Q("all map sizes, paddings, factors, offsets, geometries, leading axes"),
 why="Each operation updates data and WCS separately; an inconsistency shows only for particular offsets, zero paddings or leftover pixels.",
 anchors=A(["pixell/enmap.py","pixell/utils.py","pixell/wcsutils.py"], [("padding","enmap.pad, enmap.autocrop"),("blocks","enmap.downgrade, enmap.upgrade, utils.block_reduce, utils.block_expand"),("geometry","enmap.scale_geometry, enmap.downgrade_geometry, enmap.crop_geometry, enmap.union_geometry, wcsutils.scale"),("recentring","wcsutils.recenter_cyl_x, wcsutils.fix_wcs")], ["values, shape and pix2sky of results"]),
 note="pad for symbolic shapes, and scale, downgrade_geometry, crop_geometry, recentring for all geometries are proved; block_reduce/expand for all values at listed sizes; downgrade/upgrade/autocrop/union composite behaviour bounded.")

prop(id="C06", title="Geometry constructors put pixels where they promise",
 statement="fullsky_geometry and geometry2 without a position cover the whole sky exactly once with the number of pixels asked for or the resolution asked for, rows following the variant (cc: pixel centres at the poles; fejer1: pixel edges at the poles; safe: edges everywhere, so a downgraded map is again a safe geometry), columns 360/nx degrees apart; dims/pre are prepended. band_geometry and band_geometry2 are made of exactly the full-sky rows within the declination range (a single cut is symmetric, a range may reach a pole) and all columns. geometry and geometry2 for a box start at the first corner and end at the second, also across RA 180, to within half a pixel of the requested size (exactly at the requested corners with force=True in cylindrical and plain systems), keep the requested resolution, follow the direction of the box, keep the requested shape, and (geometry, cylindrical, not forced) have the reference point on a pixel centre; given a point they are centred on it. thumbnail_geometry is odd-sized with the origin in the central pixel and has the resolution, radius and shape asked for. wcsutils.pixelize_1d splits an interval (periodic or not) into pixels with the offsets of the rule at both ends.",
 quantifier=Q("all shapes, resolutions, boxes and variants (plain and CAR proved; other projections bounded)"),
 why="Rounding, periodicity, axis order and sign conventions interact; tests use a couple of round resolutions.",
 anchors=A(["pixell/enmap.py","pixell/wcsutils.py"], [("full sky","enmap.fullsky_geometry, enmap.band_geometry, wcsutils.pixelization, wcsutils.pixelize_1d"),("patches","enmap.geometry, enmap.geometry2, wcsutils.build, wcsutils.finalize"),("thumbnails","enmap.thumbnail_geometry")], ["shape and WCS of the result"]),
 note="fullsky_geometry, pixelize_1d, pixelization, geometry (plain, CAR) and thumbnail_geometry (plain) are proved; the other projections, bands and geometry2 boxes are bounded.")

prop(id="C07", title="Pixel areas, pixel shapes and map extents are those of the sky covered",
 statement="pixsizemap gives each pixel's solid angle (cylindrical maps: |dRA|*|sin(dec2)-sin(dec1)| between its edges, rows cut off at the poles; plain maps: the product of the pixel scales), whatever the block size or method; area is their sum (4 pi for every full-sky geometry), pixsize the average, and pixsizemap of a slice is the slice of pixsizemap. pixshapemap/pixshapes_cyl give height and width whose product is the pixel area, with the sign of the pixel step if signed=True; pixshapebounds is their per-axis minimum and maximum, as [{min,max},{y,x}]. extent is [height,width] with product equal to the area, signed like the pixel scale if asked, pixshape is extent per pixel. center is the position of the middle of the map, modrmap the distance of every pixel from a point. Methods of maps agree with the functions.",
 quantifier=Q("all plain and CAR geometries and map sizes (row-by-row proofs: up to 3 rows); other projections and full-sky maps bounded against spherical polygons"),
 why="Pole clipping, reversed axes, degree/radian units and the several methods must agree for every geometry; tests look at one or two maps to a few digits.",
 anchors=A(["pixell/enmap.py"], [("areas","enmap.area, area_cyl, area_contour, pixsizemap, pixsizemap_contour"),("shapes","enmap.pixshapemap, pixshapes_cyl, pixshapebounds"),("extent","enmap.extent, extent_cyl, extent_subgrid, extent_intermediate"),("distances","enmap.modrmap, enmap.center")], ["returned values"]),
 note="Cylindrical and plain areas, shapes and extents are proved with sin as an uninterpreted increasing function; non-cylindrical projections are bounded against spherical polygons.")

prop(id="C08", title="Fourier transforms, wavenumbers and Fourier resampling follow one convention",
 statement="fft.fft/ifft/rfft/irfft compute the defining sums along the given axes with every engine and leave their input alone; dct/idct, redft00 and chebt/ichebt are inverse to each other with the documented factors, along the documented axis. enmap.fft/ifft (and dct/idct) invert each other for every normalize mode, normalize=True is unitary, normalize='phys' has power in units of the flat-sky spectrum, and the _adjoint versions are the exact adjoints. laxes, lmap, modlmap, lrmap, pix2l, l2pix give mode k of an axis of n pixels the wavenumber 2*pi*k/extent with k in [-n/2,n/2) in FFT order and the sign of the pixel axis. map2harm rotates Q,U (spin-s pairs given by spin) to E,B by s times the angle of the wavevector (opposite for iau=True), harm2map inverts it; rotate_pol rotates exactly the two components. fft.shift, smooth_gauss, apply_window/unapply_window multiply each mode by the documented factor (integer shifts are rolls). fft.resample, enmap.resample, resample.resample_fft reproduce every signal that is band-limited at both sizes, odd or even, on any axes, with the geometry following; wcsutils.scale keeps the stated point in place.",
 quantifier=Q("all sizes, normalisations, geometries, wavevectors and angles; array-level behaviour bounded to sizes 1..14"),
 why="Sign, normalisation and Nyquist/odd-length conventions only show for particular sizes and axes; tests cover square even maps.",
 anchors=A(["pixell/fft.py","pixell/enmap.py","pixell/resample.py","pixell/wcsutils.py"], [("transforms","fft.fft, ifft, rfft, irfft, dct, idct, chebt"),("map transforms","enmap.fft, enmap.ifft, enmap.dct, enmap.map2harm, enmap.harm2map, enmap.queb_rotmat, enmap.rotate_pol"),("wavenumbers","enmap.laxes, enmap.lmap, enmap.pix2l, enmap.l2pix, fft.ind2freq, fft.freq2ind"),("resampling","fft.resample_fft, enmap.resample_fft, resample.resample_fft, fft.shift")], ["returned arrays"]),
 note="Frequency/index conversion, wavenumber axes, the normalisation algebra over the FFT engine's contract, and the polarisation rotations are proved; transforms themselves and resampling are bounded against defining sums.")

prop(id="C09", title="Harmonic coefficient layouts and per-(l,m) operations address the right element",
 statement="alm_info gives every (l,m) with m<=mmax and m<=l<=lmax its own place inside 0..nelem-1 for the triangular and rectangular layouts (and any user-supplied mstart with non-overlapping rows), lm2ind, get_map and nelem/nl2lmax agree with it and with the layout's definition. On any such layout, for both precisions, any leading axes, and filters shorter or longer than lmax: lmul/almxfl multiply each a_lm by f_l (or by the matrix f_l), treating multipoles past the end of the filter as zero, and touch nothing else, in place or into out; alm2cl returns for every l the sum over m (m>0 twice) of the real products divided by 2l+1, auto or cross; transfer_alm copies or combines exactly the coefficients that both layouts have, transpose_alm reorders without loss; no operation reads or writes outside the arrays or changes an input. rand_alm draws coefficients with the requested covariance, real for m=0, the same for the same seed, with (for a single spectrum) large scales that do not depend on lmax; pad_spectrum and prepare_ps accept the documented forms of spectra.",
 quantifier=Q("all lmax, mmax, l, m for the layouts; random layouts up to lmax 7 for the C kernels"),
 why="A wrong stride or limit only shows for particular (l,m), layouts or array lengths, and may silently corrupt memory.",
 anchors=A(["pixell/curvedsky.py","cython/cmisc.pyx","cython/cmisc_core.c"], [("layout","curvedsky.alm_info"),("kernels","cmisc_core.c lmul_*, lmatmul_*, transfer_alm_*, transpose_alm_*, alm2cl_*"),("operations","curvedsky.almxfl, alm2cl, transfer_alm, rand_alm, prepare_ps")], ["returned coefficients and spectra", "memory around the arrays"]),
 note="The layouts are proved for all lmax, mmax, l, m; the C kernels and random realisations are bounded against element-wise definitions.")

prop(id="C10", title="Spherical harmonic transforms evaluate harmonics at each pixel's true position",
 statement="alm2map gives every pixel the sum of a_lm times the (spin-weighted) spherical harmonic at the position the map's WCS assigns to that pixel, for full skies of every ring grid, bands, patches, flipped axes, grids that match no ring grid and other projections, with every applicable method ('2d','cyl','general'), any alm layout, spin list, leading axes and precision; deriv=True gives the derivatives by dec and by RA divided by cos dec; alm2map_pos does it for arbitrary positions, including right ascensions more than one turn away. alm2map_adjoint is the exact adjoint of alm2map, map2alm_adjoint of map2alm. map2alm inverts alm2map for band-limited maps wherever the ring grid has exact quadrature, whichever way the rows run, quad_weights are those of the rows of the map, and niter applies the Jacobi iteration for every method. get_ducc_geo names a ring grid only if the rows of the map are rings of that grid at the stated offset.",
 quantifier=Q("all CAR geometries and sizes for the recognition of ring grids; maps up to 14 rows and lmax 6 for the transforms"),
 why="Half-pixel offsets, row order, partial rows and the choice of method combine; a test runs a few standard full-sky maps.",
 anchors=A(["pixell/curvedsky.py"], [("synthesis","curvedsky.alm2map, alm2map_2d, alm2map_cyl, alm2map_general, alm2map_pos"),("analysis","curvedsky.map2alm, map2alm_2d, map2alm_cyl, map2alm_general, quad_weights"),("recognition","curvedsky.get_ducc_geo, analyse_geometry, get_ring_info, calc_locinfo")], ["maps and coefficients"]),
 note="Recognition of the ring grids (get_ducc_geo, get_ducc_maxlmax, hasoff, nint) is proved for all CAR geometries; the transforms are bounded against ducc0's general synthesis at wcslib positions.")

prop(id="C11", title="Spectra, covariance matrices and random fields keep their defining identities",
 statement="sym_compress lists the independent elements of symmetric matrices in the documented order of each scheme (stable under truncation for 'stable') along any axes and sym_expand undoes it, also with combined=True. eigpow and multi_pow raise every symmetric matrix of a stack, along any pair of axes, to the given power (so the square root squares to it and the inverse inverts it), judging vanishing eigenvalues matrix by matrix, dropping negative ones where the power is undefined, and not modifying the argument; utils.solve solves each linear system of a stack with vector or matrix right sides (masked systems give zero); build_conditional gives the Gaussian conditional mean and covariance; map_mul is the per-pixel matrix product. spec2flat gives each Fourier pixel the spectrum at its multipole in pixel units, also oversampled; smooth_spectrum is the weighted kernel average; calc_ps2d is the (cross) power of two sets of modes; rand_map and rand_gauss_iso_harm colour white noise by the square root of the spectrum, reproducibly for a given seed, with the requested power. spec2corr is the Legendre sum; read_spectrum reads what write_spectrum wrote and, like the CAMB readers, applies the l(l+1)/2pi scaling exactly once.",
 quantifier=Q("all matrix values for the proofs (2x2 powers and conditionals, up to 3x3 for products, compression up to 4x4); random stacks, spectra and maps otherwise"),
 why="Index order, axes, normalisation and degenerate matrices combine; tests check one or two fixed spectra.",
 anchors=A(["pixell/powspec.py","pixell/utils.py","pixell/enmap.py"], [("symmetric packing","powspec.sym_compress, sym_expand, compressed_order"),("matrix functions","utils.eigpow, utils.solve, utils.build_conditional, enmap.multi_pow, enmap.map_mul"),("flat-sky spectra","enmap.spec2flat, smooth_spectrum, calc_ps2d, rand_map"),("files","powspec.read_spectrum, write_spectrum, read_camb_full_lens, read_camb_scalar")], ["returned arrays and maps"]),
 note="Packing orders, matrix products, powers and conditionals are proved over the contract of LAPACK's eigh/inv; spectra on maps, random fields and files are bounded.")

prop(id="C12", title="Angles, rotations and coordinate systems preserve directions",
 statement="rewind moves angles by whole periods to within half a period of the reference (or of the median), unwind likewise without leaving jumps, pole_wrap and unwrap_range give the same direction or range in standard form, between_angles tests membership modulo the period, to_sexa/from_sexa invert each other. ang2rect and rect2ang convert between angles and unit vectors (any axis, both latitude conventions), angdist and vec_angdist give the angle between directions, accurate for tiny distances and parallel vectors; rotmatrix rotates about its axis by its angle, euler_mat composes three of them and euler_rot applies them to positions. recenter moves the centre to its target keeping all distances and the meridian, decenter undoes it. transform between equatorial, galactic, ecliptic, telescope and boresight systems and their recentred versions moves directions as astropy or the corresponding rigid rotation does, inverts when run backwards, and rotates the polarisation angle and magnification with the local basis. Calendar conversions (ctime, mjd, jd, djd, dates) are in UTC whatever the time zone and invert each other. No argument is modified.",
 quantifier=Q("all angles, periods, references and vectors for the proofs; random arrays and systems otherwise"),
 why="Branch cuts, poles and the sign conventions of rotations only show for particular angles; tests compare a few positions.",
 anchors=A(["pixell/utils.py","pixell/coordinates.py"], [("angles","utils.rewind, unwind, pole_wrap, unwrap_range, between_angles, to_sexa, from_sexa"),("vectors","utils.ang2rect, rect2ang, angdist, vec_angdist, rotmatrix"),("rotations","coordinates.euler_mat, euler_rot, recenter, decenter"),("systems","coordinates.transform, transform_meta, transform_euler, getsys_full"),("time","utils.ctime2mjd, mjd2ctime, date2ctime, ctime2date")], ["returned angles"]),
 note="Angle reductions, vectors, rotation matrices and the angular distance are proved with sin/cos characterised by their algebraic identities; systems of coordinates are bounded against astropy.")
prop(id="C13", title="Distance maps, distance transforms and grown masks give true sky distances",
 statement="distance_from gives for every pixel of any geometry the great-circle distance from the pixel's centre to the nearest of the points: exactly with method 'simple'; with 'cellgrid' and 'bubble' (and 'bubble'/'heap' on healpix) never less than the true distance, always equal to the distance to the point named in the domain map, exact for a single point, and within about a pixel of the true minimum away from the poles, whether points share a pixel, lie off pixel centres, outside the map or beyond RA +-180. With rmax nothing beyond it is named and its distance is rmax. distance_transform gives each true pixel the distance to the closest false pixel and 0 to false ones; labeled_distance_transform the distance to, and the label of, the closest labelled pixel; grow_mask and shrink_mask move the mask's edge by the given distance and never the other way. The result does not depend on the cell size or the order of the points, and masks are not modified.",
 quantifier=Q("all numbers of pixels and points for the exact kernels; maps up to 16x12 and nside 8 for the others"),
 why="The fast kernels spread distances from seeds through cells and across edges; which seeds share pixels or cells decides whether a wrong distance appears.",
 anchors=A(["pixell/enmap.py","cython/distances.pyx","cython/distances_core.c"], [("maps of distances","enmap.distance_from, distance_from_healpix"),("transforms","enmap.distance_transform, labeled_distance_transform, grow_mask, shrink_mask and healpix versions"),("kernels","distances_core.c: distance_from_points_*, find_edges*")], ["distance and domain maps"]),
 note="Narrow domains less than a pixel wide may be missed by the fast methods, as their comments state; the tolerance allows for it.")
prop(id="C14", title="Map files return what was written, and partial reads are slices of the whole",
 statement="read_map returns the pixels, data type (in native byte order), leading axes and sky positions that write_map stored, for fits, compressed fits and hdf files, any hdu or hdf address, for all projections and data types, and extra header entries survive. Reading with sel, pixbox, box or geometry, with a slice in the file name, or by slicing a delayed map, gives the same pixels at the same sky positions as reading everything and then selecting, whichever of the two read paths the size threshold picks, and again when repeated. The sign of the Stokes component that follows the IAU convention is flipped exactly once wherever the Stokes axis starts and whatever is selected. read_map_geometry and read_map_dtype report the shape, position and type read_map would return. TileMaps and multimaps read back as written.",
 quantifier=Q("all map sizes and all ranges for partial reads; files up to 9x9 pixels for the round trips"),
 why="Byte order, lazily loaded data, header precision and two read paths only show together with particular selections.",
 anchors=A(["pixell/enmap.py","pixell/tilemap.py","pixell/multimap.py"], [("writing","enmap.write_map, write_fits, write_hdf, write_map_geometry"),("reading","enmap.read_map, read_fits, read_hdf, read_helper, ndmap_proxy_fits, ndmap_proxy_hdf, get_stokes_flips"),("metadata","enmap.read_map_geometry, read_map_dtype")], ["files and the maps read from them"]),
 note="The slicing of files on both read paths and the Stokes sign are proved for all sizes and ranges; the round trips run on real files and are bounded.")
prop(id="C15", title="Tiled maps, multimaps and distributed maps hold the same map, pixel for pixel",
 statement="A tile geometry partitions the map: each pixel is in exactly one tile, at the sky position it has in the whole map, and partial tiles at the far edges have the remaining size. TileMaps built from tiles give those tiles back by index, by active index and by iteration, to_enmap puts each where it belongs with zeros elsewhere, and sums, differences, scalars, functions, component slices and map_mul act on the tiles as they would on the whole map, whatever the sets and orders of active tiles; with_tiles keeps the data, operands are not modified, in-place operations never drop tiles silently, and maps with different tiling or coordinates are not combined. redistribute and reduce give each task exactly the tiles asked for (or each tile exactly once), with the sum over all tasks that held it, for any number of tasks, ownership and tile order; utils.redistribute, allgatherv, allgather and allreduce do the same for array pieces, also with the single-task communicator. Multimaps give back each map with its own geometry, and their constructors, coordinate maps, reductions, transforms and arithmetic equal the enmap operation on each member.",
 quantifier=Q("all map and tile sizes for the tiling; up to 4 tasks and maps up to 9x9 for the rest"),
 why="Errors need particular sets and orders of active tiles on several tasks, which a unit test without MPI never runs.",
 anchors=A(["pixell/tilemap.py","pixell/multimap.py","pixell/utils.py","pixell/mpiutils.py"], [("tiling","tilemap.geometry, TileGeometry, TileMap, TileView, make_binop"),("distribution","tilemap.redistribute, reduce; utils.redistribute, allgatherv"),("multimaps","multimap.multimap, ndmaps, full, fft")], ["tiles, maps and messages"]),
 note="Not claimed: operators other than + and - (and comparisons) where only one operand has a tile, and negative tile indices.")
prop(id="C16", title="Ranges, lookup, grouping, binning and solvers give what they are defined to",
 statement="range_sub gives exactly the points of the first set of ranges that are in none of the second, range_union the points in any of them as separate ranges in order, range_cut, range_normalize and mask2range likewise keep the set of points, and their mappings name the range each part comes from; empty ranges and empty sets are allowed. find, find_any, contains, common_inds, nearest_ind, search and crossmatch return exactly the elements or pairs defined by equality or distance; find_equal_groups, label_multi, label_unique and sum_by_id put two elements together exactly when their values agree; equal_split, greedy_split, uncat and the string splitters partition their argument. linbin and expbin give consecutive bins from 0 to n within the size limits; bin_data, bin_expand, block_reduce, block_expand, bin_multi, bincount, cumsum, weighted_quantile, maskmed and resize_array equal their element-wise definitions along any axis. partial_flatten, flatview, addaxes, nditer, broadcast_arrays and the like keep each element at its index; point_in_polygon and poly_edge_dist agree with the polygon's winding and edges. Each CG step moves to the minimum of the energy along the search direction and keeps its residual that of its solution, with conjugate directions, and Minres never increases the residual; saved solvers go on as before. Arguments are not modified.",
 quantifier=Q("all ranges (up to 3 in a set), offsets, array sizes and 2x2 systems for the proofs; random arguments up to about 40 elements otherwise"),
 why="Off-by-one errors at ends, empty sets, coinciding edges and ties only show for particular arguments.",
 anchors=A(["pixell/utils.py"], [("ranges","utils.range_sub, range_union, range_cut, range_normalize, mask2range"),("lookup and matching","utils.find, find_any, contains, common_inds, nearest_ind, crossmatch"),("grouping","utils.find_equal_groups, label_multi, label_unique, equal_split, greedy_split"),("binning","utils.linbin, expbin, bin_data, block_reduce, block_expand, bin_multi, bincount"),("solvers","utils.CG, utils.Minres")], ["returned arrays"]),
 note="Range arithmetic (also set differences and unions of ranges), tolerances, transposed indices and conjugate gradient steps are proved; the rest is bounded against brute-force definitions.")
prop(id="C17", title="Interpolation and reprojection read the same field at the asked positions",
 statement="Interpolation returns the sample itself at sample points and the value of the interpolating function between them: utils.interpol (nn, linear, cubic, fourier; by name or order) along the last axes of any array, with the documented border and cval outside, interpolator prepared once giving the same as interpol, and integer arrays read as their values; interpol.map_coordinates with its transpose and derivative the exact adjoint and derivative; interpol.build within its tolerance over the whole box for functions with any number of outputs; the linear and gradient tables linear between grid points. enmap.at reads the map at sky or pixel positions, and project gives each pixel of the target the value of the source map at that pixel's sky position, whatever the shapes, projections, block size or order, and cval outside the source. healpix2map and map2healpix give the same sky (T exactly, Q and U turned with the local basis) at the target's positions under the requested rotation, for harmonic and spline methods, extensive or not; thumbnails give the sky around each position, on a small grid centred there, with polarisation in the local basis; restrict_nside gives an allowed nside in the asked direction of rounding. Inputs are not modified.",
 quantifier=Q("all values of small grids and all positions inside for the proofs; arrays up to 3 dimensions and maps up to 40x40, nside 8 to 64 otherwise"),
 why="Borders, block edges, the position of the target relative to the source, and the rotation of polarisation only show for particular combinations.",
 anchors=A(["pixell/utils.py","pixell/interpol.py","pixell/enmap.py","pixell/reproject.py","fortran/interpol.f90"], [("interpolation","utils.interpol, SplineInterpolator, FourierInterpolator; interpol.map_coordinates, build, ip_linear, ip_grad"),("maps","enmap.at, enmap.project"),("reprojection","reproject.healpix2map, map2healpix, thumbnails, thumbnails_ivar, restrict_nside")], ["returned values and maps"]),
 note="Linear and nearest interpolation and the table lookup are proved for all values on small grids over the contract of scipy's map_coordinates; the rest is bounded against direct synthesis of band-limited skies and scipy.")
prop(id="C18", title="Painted objects are the sum of their profiles; catalogues keep their sources",
 statement="pointsrcs.sim_objects paints each object as its amplitude times its radial profile at each pixel's true angular distance from it - linear between the samples, the first value below them, zero beyond the last - and combines objects and the given map by addition, maximum or minimum, for any geometry, axis direction, position (also across the end of RA, near the poles, off the map or whole turns away), number of objects, components and profiles (equidistant or not, monotonic or not, whatever their peak), leaving out only what is below vmin or beyond rmax; sim_srcs (both methods) and sim_srcs_dist_transform give that for source lists with tabulated or Gaussian beams, smul, the asked pixel window and omap. radial_sum is the sum over the pixels whose distance lies in each bin, for every bin, and radial_bin the (weighted) mean there. Cells cover their map exactly once and list every source within reach. crossmatch pairs each source with the closest one within the tolerance and nothing else. Catalogues written are read back with the same sources in radians and the documented units. Arguments are not modified.",
 quantifier=Q("all profiles, positions, boxes and maps for the proofs about the C kernels; maps up to 24x40 pixels in five projections, up to 40 objects otherwise"),
 why="Which pixels an object reaches depends on its place relative to cells, map edges, the RA cut and the poles, and on shortcuts taken only for many objects or equidistant profiles.",
 anchors=A(["pixell/pointsrcs.py","cython/srcsim.pyx","cython/srcsim_core.c"], [("painting","pointsrcs.sim_objects, sim_srcs, sim_srcs_python, eval_srcs_loop, sim_srcs_dist_transform, expand_beam, is_equi; srcsim_core.c: paint_object, evaluate_profile, binary_search, equi_search, calc_dist, merge_cell, measure_rmax, assign_cells, pix2cell, wrap_box, estimate_bounding_box"),("reading","pointsrcs.radial_sum, radial_bin"),("catalogues","pointsrcs.crossmatch, cellify, uncellify, build_src_cells, read, read_sauron, write_sauron, read_simple, read_dory_txt")], ["the maps, profiles and catalogues returned"]),
 note="The C kernels that evaluate profiles and distances, paint an object into a cell, merge it and wrap boxes and cells are proved; which cells an object reaches, and the Python layer, are bounded against direct evaluation on the sphere.")
prop(id="C19", title="Lensing and boosting move the sky along great circles and can be undone",
 statement="lensing.offset_by_grad gives the end of the great circle that starts at each position along the displacement (declination and true angle east), with the change of bearing along it, for positions of any shape and any length of displacement; the fast version moves in coordinates and comes back across the poles. lens_map_curved returns for each letter of output, in that order, the unlensed sky, the lensing potential, convergence and deflection of the given harmonic coefficients, and a lensed sky that in each pixel is the unlensed sky at the displaced position with polarization transported along, however the map is split into strips; rand_alm and rand_map draw real skies with the asked spectra, seed and phi_seed each deciding its own part. lens_map and displace_map read the map at the displaced pixel with periodic borders, trans their exact transpose, delens_map and delens_grad their inverse. aberration: the observed cosine and Doppler factor obey the relativistic law, and boosting by -beta undoes them; aberrate_map reads the sky at the aberrated position with polarization rotated along, modulate_map turns temperatures into boosted (linearized black-body or temperature) values, boost_map is the one after the other, each undone by its inverse, for temperature and polarization, with or without the dipole, in every modulation mode, for any T0, frequency and unit, leaving its argument unchanged where promised.",
 quantifier=Q("all positions, displacements, speeds below c, directions, temperatures and frequencies for the proofs; band-limited skies up to lmax 12 on coarse CAR maps otherwise"),
 why="Errors appear only close to the poles, for large displacements, for polarization, or for non-default reference temperatures, strips and outputs.",
 anchors=A(["pixell/lensing.py","pixell/aberration.py"], [("displacement","lensing.offset_by_grad, offset_by_grad_helper, pole_wrap"),("lensing","lensing.lens_map_curved, rand_alm, rand_map, lens_map, delens_map, delens_grad, displace_map, lens_map_flat, phi_to_kappa, kappa_to_phi"),("boosts","aberration.boost_map, deboost_map, aberrate_map, deaberrate_map, modulate_map, demodulate_map, Aberrator, Modulator, calc_boost_1d, apply_modulation, rotate_pol, fast_rewind, sky2pix")], ["returned positions, angles and maps"]),
 note="Two known findings (F2: paths over a pole; F3: rotation angle doubled) are fixed by the repository's own test data and cannot be repaired with the tests unedited.")
prop(id="C20", title="Wavelet and unified harmonic transforms give the map back",
 statement="Each wavelet basis is a partition of unity: the squares of its level filters (Butterworth, ButterTrim, DigitalButterTrim, CosineNeedlet, ...) add to one at every multipole it covers, trimmed filters are 0 or 1 beyond their trim and monotonic between, and each level lies within the multipoles it states. WaveletTransform.wave2map(map2wave(m)) is m for flat and curved skies, any leading axes and data type, each level is its own band of the map at its own resolution, the norms and typical multipoles are those of its filter, and skipped scales hold fill_value; the Haar transform is invertible and its levels are the block means and differences they are defined to be. UHT.harm2map and map2harm are inverse, their adjoints are adjoints in the inner product of the mode, quad_weights turn one into the other, profiles in l, in r and per mode convert consistently, and hmul multiplies each mode by its profile or matrix.",
 quantifier=Q("all multipoles, steps and values for the proofs; maps up to 50x50 flat and 5 to 10 degree full-sky otherwise"),
 why="Level boundaries, trims, empty levels, leading axes and spins combine in ways a handful of tests do not reach.",
 anchors=A(["pixell/wavelets.py","pixell/uharm.py","pixell/curvedsky.py"], [("bases","wavelets.Butterworth, ButterTrim, DigitalButterTrim, CosineNeedlet, trim_kernel"),("transforms","wavelets.WaveletTransform, HaarTransform"),("unified harmonics","uharm.UHT")], ["filters, levels and maps"]),
 note="Partition of unity, trimming, cosine needlets and Haar steps are proved; transforms are bounded against direct filtering.")
