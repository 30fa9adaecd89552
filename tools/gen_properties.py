#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["micropolarray/" + f for f in files],
                               mechanism=[dict(name=n, where="micropolarray/" + w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Theoretical Stokes vector and derived polarization parameters",
  "For every micropolarizer image, I is half the sum of the four pixels of each superpixel, Q is the 0-degree pixel minus the 90-degree one and U the 45-degree pixel minus the -45-degree one, each at half the image resolution. pB is sqrt(Q^2+U^2), DoLP is pB/I and exactly 0 where I is 0, and AoLP is half the full-quadrant angle of (Q,U), always within [-90,90] degrees. This holds for every even, possibly non-square shape, every numeric pixel type and any sign of the pixel values.",
  ["inputs", "configurations"], "all even shapes, pixel values, native dtypes and orientation maps",
  "tests use one constant 2x2 pattern (1,2,3,4) on a 16x16 square and two orientation maps; every pixel is alike, so a misplaced pixel is invisible",
  ["micropol_image.py", "polarization_functions.py", "processing/demosaic.py"],
  [("_get_theo_Stokes_vec_components", "micropol_image.py"), ("AoLP/DoLP/pB", "polarization_functions.py")],
  ["MicropolImage.Stokes_vec, .I .Q .U .pB .AoLP .DoLP"])
p("C02", "Orientation map decides which pixel feeds which angle",
  "The orientation map given to an image (or, if none is given, the default in force when it is created) says which pixel of the superpixel has which polarizer angle: the per-angle views, Q and U follow it. An image keeps its map for life: every image derived from it by copying, arithmetic, rebinning, shifting, reshaping, rotating, cleaning or demodulating carries the same map, and changing the default afterwards affects only images created later without an explicit map.",
  ["histories", "configurations"], "all 24 assignments of the four angles to the four pixels, any interleaving of default changes, creations and derivations",
  "tests exercise two maps on freshly built images; no test changes the default between creations or follows the map through derived images",
  ["micropol_image.py"], [("set_default_angles / DEFAULT_ANGLES_DIC", "micropol_image.py"), ("angle_dic propagation", "micropol_image.py")],
  ["MicropolImage.angle_dic, .pol0 .pol45 .pol_45 .pol90, .Q, .U"])
p("C03", "Splitting and merging polarizations is lossless",
  "Splitting an even-sized array yields four half-size arrays, the k-th holding the pixel at row k div 2, column k mod 2 of every superpixel in place; merging four such arrays puts every value back, so each operation is the inverse of the other and neither alters its input. Arrays with an odd side are refused with an error and never silently truncated.",
  ["inputs"], "all shapes (even, odd, non-square) and values",
  "only one constant 4-value pattern is split; non-square, odd and position-dependent arrays are not tested",
  ["processing/demosaic.py"], [("split_polarizations / merge_polarizations", "processing/demosaic.py")],
  ["split_polarizations(), merge_polarizations(), MicropolImage.single_pol_subimages"])
p("C04", "Superpixel-aware binning sums same-orientation pixels only",
  "Binning a micropolarizer image by n returns a new image in which each pixel is the sum of the n x n pixels of the same polarizer orientation in the corresponding block of 2n x 2n pixels: every pixel of the kept area contributes to exactly one output pixel and orientations are never mixed. Rows and columns that do not fill a whole block are dropped from the end only (bottom and right), the Stokes vector is that of the binned pixels, and non-positive binning is refused.",
  ["inputs", "configurations"], "all even shapes (square or not, multiples of the block or not), binnings and values",
  "tests bin a constant 16x16 square by 2 and 4 only: no trimming, no odd factor, no non-square image, no position-dependent data",
  ["processing/rebin.py", "micropol_image.py"], [("micropolarray_rebin, trim_to_match_2xbinning", "processing/rebin.py"), ("MicropolImage.rebin", "micropol_image.py")],
  ["MicropolImage.rebin()"])
p("C05", "Plain binning sums whole blocks",
  "Binning a plain image by n returns a new image in which each pixel is the sum of the corresponding n x n block, for any shape. Rows and columns that do not fill a whole block are dropped from the end only, the reported trimmed size is the largest multiple of n not above the original one, and non-positive binning is refused.",
  ["inputs", "configurations"], "all shapes, binnings and values",
  "tests bin a constant 16x16 square by 2 and 4 only",
  ["processing/rebin.py", "image.py"], [("standard_rebin, trim_to_match_binning", "processing/rebin.py"), ("Image.rebin", "image.py")],
  ["Image.rebin(), trim_to_match_binning()"])
p("C06", "Demosaicing interpolates each orientation by itself",
  "Demosaicing turns the image into four full-resolution images, one per superpixel position, each computed only from the pixels of that position. In 'adjacent' mode the first pixel of every superpixel gets the value itself, the other three the mean of it and the next values right, below and diagonal, the last row and column of superpixels being repeated at the edge; in 'mean' mode all four get a quarter of the value. The image is modified in place and its Stokes vector becomes the theoretical one of the four demosaiced images at full resolution; unknown modes are refused.",
  ["inputs", "configurations"], "all even shapes, values, modes and orientation maps",
  "tests demosaic a constant pattern, for which every interpolation gives the same result",
  ["processing/demosaic.py", "micropol_image.py"], [("demosaicadjacent / demosaicmean / demosaic", "processing/demosaic.py"), ("MicropolImage.demosaic", "micropol_image.py")],
  ["MicropolImage.demosaic(), .demosaiced_images, .Stokes_vec, demosaic()"])
p("C07", "Shifting moves pixels without wrapping or mixing",
  "Shifting by (y,x) returns a new image in which every pixel that stays inside has moved by exactly y rows (downwards if positive) and x columns, and every other position holds the fill value, for shifts of either sign and of any size, even beyond the image. For micropolarizer images the shift counts superpixels, so orientations stay in place, and the Stokes vector is that of the shifted pixels.",
  ["inputs"], "all shapes, shift vectors (positive, negative, zero, larger than the image), fill values",
  "tests do one shift by (1,0) and one by (0,-1) with the default fill on 4x4 images",
  ["processing/shift.py", "image.py", "micropol_image.py"], [("shift / shift_micropol", "processing/shift.py")],
  ["Image.shift(), MicropolImage.shift()"])
p("C08", "Image arithmetic is pixelwise and deterministic",
  "Adding, subtracting, multiplying or dividing two images of the same kind and shape, or an image and a number, gives a new image whose pixels are the pixelwise results; dividing by a zero pixel (or by zero) gives exactly 0 there and never leftover memory. For micropolarizer images the result's Stokes vector is that of the resulting pixels and its header content is that of the left image.",
  ["inputs"], "all pixel values and shapes, image-image and image-number operands, floating point and signed integer data",
  "tests add, subtract, multiply and divide two constant images without zeros and look at the pixels only",
  ["image.py", "micropol_image.py"], [("__add__/__sub__/__mul__/__truediv__", "image.py"), ("__add__/__sub__/__mul__/__truediv__", "micropol_image.py")],
  ["image + - * / image or number"])
p("C09", "Images are independent values",
  "An operation that returns a new image (copying, arithmetic, binning, shifting, reshaping, rotating, cleaning, demodulating) leaves its operands unchanged, and an in-place operation (demosaicing, dark, flat and field-of-view correction, occulter masking) changes only the image it is called on: pixels, Stokes vector, demosaiced images, header and size of every other living image stay as they were. Copies and results share no changeable pixels, Stokes components or header with the image they come from, nor images with the array they were built from.",
  ["histories"], "all sequences of operations over any number of images, including later in-place edits of any of them through their public arrays and headers",
  "tests run single operations and never look at the operands afterwards; aliasing shows only after a second, in-place step on one of the two images",
  ["micropol_image.py", "image.py"], [("_import_image_parameters", "micropol_image.py"), ("_init_image_from_image / _init_image_from_data", "image.py")],
  ["all public attributes of all living images after every step"])
p("C10", "Size, header, Stokes vector and demosaiced images describe current pixels",
  "After any sequence of operations an image's height, width and the size cards of its header equal the shape of its pixel array. Whenever an operation other than masking, reshaping, rotating or demodulating changes the pixels, the Stokes vector afterwards is the theoretical one of the current pixels (half resolution) or, if the image had been demosaiced, of its current pixels demosaiced again in the same mode (full resolution).",
  ["histories"], "all sequences of pixel-changing operations on plain and demosaiced images",
  "tests apply one operation to a fresh image; staleness needs a demosaicing (or another operation) before the change",
  ["micropol_image.py", "image.py"], [("_update_data_and_Stokes", "micropol_image.py"), ("data setter", "image.py")],
  ["height, width, header NAXIS1/2, Stokes_vec, demosaiced_images after every step"])
p("C11", "Dark and flat correction",
  "Dark subtraction replaces each pixel by pixel minus dark, and by 0 where that is negative, for any pixel type. Flat correction divides each pixel by the flat divided by its mean over the whole flat, leaving a pixel unchanged where the flat is 0. Both work in place on the corrected image only, recompute its Stokes vector, and when both are given at creation the dark is applied before the flat.",
  ["inputs"], "all image, dark and flat values (including negative results, zeros in the flat, unsigned pixels) and shapes",
  "tests subtract an image from itself and use a constant flat, so clamping, zeros, normalisation and order are never exercised",
  ["micropol_image.py"], [("subtract_dark, correct_flat", "micropol_image.py")],
  ["MicropolImage(dark=, flat=), .subtract_dark(), .correct_flat()"])
p("C12", "Loading a stack of files averages or sums them all",
  "An image created from a list of FITS files holds the pixelwise mean of all of them (or the sum if averaging is off), whatever their order, number or pixel type; a one-element list or a single name gives that file unchanged. The header is that of the first file plus the number of files combined and, for files that carry an observation time in either supported format, the earliest and latest of those times; an empty list is refused and the files are not modified.",
  ["inputs", "configurations"], "all list lengths, orders, mixes of pixel types and of present/absent/date-only/two-card observation times",
  "tests only read back a single file; stacks, their headers and time formats are not tested at all",
  ["image.py"], [("_init_image_from_file", "image.py")],
  ["Image([...]), MicropolImage([...]): data, header SUMOF, STRT-OBS, END-OBS, filename"])
p("C13", "Saving and reloading an image preserves it",
  "Saving an image as FITS and loading it back gives the same pixel values for every supported pixel type (8/16/32-bit integers, signed or not, and floats) and the same user header cards, whether the name is absolute or relative and whether or not its folder exists or the file is already there. With a fixed range every pixel below the minimum is saved as the minimum and every pixel above the maximum as the maximum, also when a bound is 0; names not ending in .fits are refused. Saving never changes the image itself.",
  ["inputs", "histories"], "all pixel types, values, shapes, names, ranges and repeated saves over an existing file",
  "tests save one float image at two absolute names, without range, relative name or overwritten different content",
  ["image.py", "utils.py"], [("save_as_fits", "image.py"), ("fix_data", "utils.py")],
  ["Image.save_as_fits(), Image(filename)"])
p("C14", "Every saved product holds the quantity its name says",
  "Saving polarization parameters of an image as NAME.fits writes NAME_I, NAME_Q, NAME_U, NAME_pB, NAME_AoLP and NAME_DoLP.fits holding exactly those quantities, with the image's header plus the parameter's title and unit; saving single polarizations or demosaiced images writes NAME_POL0, NAME_POL45, NAME_POL-45 and NAME_POL90.fits, each holding the pixels of that angle according to the image's orientation map. A requested range clips what is written, no other files are touched, and saving demosaiced images before demosaicing is refused.",
  ["inputs", "configurations"], "all orientation maps, images, states (plain, demosaiced, demodulated), names (absolute or relative) and ranges",
  "tests call some of the savers but never read the files back",
  ["micropol_image.py", "utils.py"], [("save_single_pol_images, save_param_as_fits, save_all_pol_params_as_fits, save_demosaiced_images_as_fits", "micropol_image.py")],
  ["files written by the four savers"])
p("C15", "Raw 16-bit files convert to FITS without loss",
  "Converting a raw file of little-endian unsigned 16-bit pixels writes a FITS file of the same name holding exactly those pixels row by row, for any height and width; merging a list of raw files writes their exact sum, or their mean when averaging, independent of order. An image saved as raw and converted back has the same integer pixels. The raw file is removed only when that was requested and only after the FITS file was written; otherwise no input is modified, and wrong extensions or too short files are refused without removing anything.",
  ["inputs", "fault_sequences"], "all 16-bit contents (including values above 32767), shapes, names with several dots, lists, modes and failing conversions",
  "no test touches raw files",
  ["processing/convert.py", "image.py"], [("convert_rawfile_to_fits, merge_rawfiles_to_fits, average_rawfiles_to_fits", "processing/convert.py"), ("save_as_raw", "image.py")],
  ["files on disk before and after each call"])
p("C16", "Packed 12-bit camera files decode exactly",
  "In a packed camera file every three bytes b0,b1,b2 hold two consecutive pixels: 16*b0 + the high four bits of b1, and 16*b2 + the low four bits of b1; converting files of a full 1952 x 1952 frame gives exactly these pixel values at consecutive row-major positions for every byte content, including frames with long runs of zero bytes, and the mean over the files when several are given. Files whose length does not fit are refused.",
  ["inputs"], "all byte triples at all positions, any number of files",
  "no test touches packed files; the decoding is split over 32 worker processes and depends on byte content (trailing zero bytes)",
  ["processing/convert.py"], [("nparr_from_binary, three_bytes_to_two_ints, convert_set", "processing/convert.py")],
  ["convert_set() output file"])
p("C17", "Polar selection and occulter masking act on whole superpixels",
  "Selecting a polar region keeps exactly the pixels (by default whole superpixels, judged by superpixel coordinates with halved centre and radii) whose distance from the centre is above the inner and not above the outer radius and whose angle is in the half-open angular range, and sets all others to the fill value; the boolean form marks the same pixels. Masking the occulter on an image that is not demosaiced fills exactly the superpixels within the (enlarged) radius, in the pixels and in all Stokes components alike, and leaves all others untouched; on a demosaiced image the demosaiced images are masked too.",
  ["inputs"], "all even shapes, centres inside or outside, radii, angular ranges, fill values",
  "no test calls these functions",
  ["processing/nrgf.py", "micropol_image.py", "cameras.py"], [("roi_from_polar, map_polar_coordinates", "processing/nrgf.py"), ("mask_occulter", "micropol_image.py"), ("Camera.occulter_mask, occulter_roi", "cameras.py")],
  ["roi_from_polar(), MicropolImage.mask_occulter(), PolarCam().occulter_mask/occulter_roi"])
p("C18", "Demodulation applies each superpixel's own matrix",
  "Demodulating an image gives a new image with the same pixels whose Stokes vector is, superpixel by superpixel, the 3x4 matrix of that superpixel times its four pixel values in superpixel order; where the calibration has flags and the flag is not set, it is the theoretical Stokes vector instead. With demosaicing requested, each of the four full-resolution positions of a superpixel uses that superpixel's matrix and flag on the demosaiced values, with or without flags available. A calibration of a different shape is refused with an error.",
  ["inputs", "configurations"], "all matrices, flag patterns, images, shapes and both demosaicing settings",
  "tests use the same matrix in every superpixel, flags all set or absent, and constant images",
  ["micropol_image.py"], [("demodulate, _get_Stokes_from_demodulator", "micropol_image.py")],
  ["MicropolImage.demodulate()"])
p("C19", "A calibration folder is read element by element and completely",
  "Loading a calibration folder puts each file whose name carries the two digits ij into element ij of the tensor (and covariance tensor), whatever the directory order and whatever other files are there; a folder lacking any of the twelve elements, or missing altogether, is refused. Rotating or flipping a loaded calibration moves matrices and fit flags together, and the angle map it reports assigns 0, 45, -45 and 90 degrees to the four pixels by nearest mean fitted phase, with -90 meaning 90.",
  ["inputs", "configurations"], "all folder contents and listing orders, matrices, flags, phases",
  "tests load two complete folders of constant matrices",
  ["processing/demodulation.py"], [("Demodulator._get_demodulation_tensor, Cij, angle_dic, rot90, flip", "processing/demodulation.py")],
  ["Demodulator: mij, fit_found_flags, Cij, tk, eff, phi, angle_dic"])
p("C20", "Calibration results do not depend on how the work is split",
  "Computing the demodulation tensor from exact polarizer measurements recovers every pixel's own throughput, efficiency and angle, writes for each superpixel the pseudo-inverse of its modulation matrix with the fit flag set, and stores every output at that pixel's position. The saved results are the same for every processor grid and for every order in which the measurements are listed, binning, dark and flat act on all measurements before the fit, and grids that do not divide the image into even chunks are refused.",
  ["schedules", "inputs", "configurations"], "all processor grids, chunk completion orders, measurement orders, image shapes (square or not), binnings",
  "the test uses one 2x2 grid on a 20x20 square with the same parameters in every pixel, so swapped or transposed chunks are invisible",
  ["processing/demodulation.py"], [("calculate_demodulation_tensor split/merge, compute_demodulation_by_chunk", "processing/demodulation.py")],
  ["files written by calculate_demodulation_tensor()"])
p("C21", "Superpixels without a fit fall back to the theoretical matrix",
  "In the calibration computation, every superpixel touched by the occulter and every superpixel with a dead pixel (zero in all measurements) gets the theoretical matrix of the expected angles, fit flag 0, and the initial guesses as fitted parameters, and no other superpixel does. A fallback in one superpixel never affects the results of any other one.",
  ["inputs", "configurations"], "all occulter positions and radii, binnings, sets of dead pixels, grids",
  "tests use no occulter and no dead pixel",
  ["processing/demodulation.py"], [("occulter_flag, compute_demodulation_by_chunk", "processing/demodulation.py")],
  ["files written by calculate_demodulation_tensor()"])
p("C22", "Reshaping resamples each orientation separately",
  "Reshaping a micropolarizer image to a new even size (odd sizes are first reduced by one) resamples each of the four orientation images separately by linear interpolation between end points that are kept exactly, and each Stokes component likewise; orientations never mix and constant images stay constant. The general resampling routine does the same for any two-dimensional array and size of at least 2.",
  ["inputs"], "all source and target sizes (up and down, non-square), values",
  "the test reshapes a constant image",
  ["processing/congrid.py", "micropol_image.py"], [("congrid", "processing/congrid.py"), ("MicropolImage.congrid", "micropol_image.py")],
  ["MicropolImage.congrid(), congrid()"])
p("C23", "Rotation moves superpixels as a whole",
  "Rotating an image counter-clockwise by a multiple of 90 degrees (180 for non-square images) permutes superpixels exactly, applying the same rotation to each orientation and to each Stokes component. For any angle every resulting superpixel is either one source superpixel or zero, the same for all four orientations, and for an image that is not demosaiced or demodulated the Stokes vector stays the theoretical one of the rotated pixels.",
  ["inputs"], "all angles, even shapes, values representable in single precision",
  "no test rotates",
  ["micropol_image.py"], [("rotate", "micropol_image.py")], ["MicropolImage.rotate()"])
p("C24", "Line sampling follows the line",
  "Sampling an array along a line returns coordinates and the array's values at exactly those coordinates: it starts at the start point, advances exactly one pixel per sample along the longer axis until the end point's coordinate on that axis, and stays within one pixel of the straight line; nothing outside start and end is read. Sampling from a centre along an angle of 0, 90, 180 or 270 degrees walks right, up, left or down from the centre (or from the inner radius) and stays inside the array.",
  ["inputs"], "all start/end pairs in all octants, array shapes, centres and radii",
  "no test samples lines",
  ["processing/linear_roi.py"], [("linear_roi, linear_roi_from_polar, DDA", "processing/linear_roi.py")],
  ["linear_roi(), linear_roi_from_polar()"])
p("C25", "Radial filter normalises every ring by itself",
  "The radial (NRGF) filter replaces each pixel of every ring of the given step beyond the starting radius by its deviation from the ring's mean in units of the ring's standard deviation, both taken over the chosen angular range, and by 0 where that deviation is zero; pixels outside the output angular range, inside the starting radius or beyond the last ring are 0. The input is not modified.",
  ["inputs"], "all arrays, centres, starting radii, steps, angular ranges",
  "no test calls the filter",
  ["processing/nrgf.py"], [("nrgf, map_polar_coordinates", "processing/nrgf.py")], ["nrgf()"])
p("C26", "Angle normalisation",
  "Normalising angles returns, for every input angle, the one angle in (-90,90] degrees (radians (-pi/2,pi/2] for arrays) that differs from it by a whole number of half turns, in the same order, and leaves the caller's list or array unchanged.",
  ["inputs"], "all finite angles, lists, scalars and arrays",
  "only indirectly used with a handful of angles",
  ["utils.py", "polarization_functions.py"], [("normalize2pi, normalize2piarray", "utils.py"), ("normalize2pi", "polarization_functions.py")],
  ["normalize2pi(), normalize2piarray()"])
p("C27", "Neighbourhood corrections stay within orientation and flagged pixels",
  "Field-of-view correction replaces each pixel by the mean of the four same-orientation pixels of its superpixel and the superpixels above, left and above-left, the first row and column of superpixels becoming 0. Cleaning hot pixels returns a new image in which exactly the flagged pixels are replaced by the median filter of their own orientation, all others kept; hot pixel maps flag exactly the pixels whose contrast against that filter exceeds the threshold.",
  ["inputs"], "all even shapes, values, flag maps, thresholds",
  "no test calls these",
  ["micropol_image.py", "processing/chen_wan_liang_calibration.py", "processing/image_cleaning.py"], [("correct_ifov, clean_hot_pixels", "micropol_image.py"), ("_ifov_jitcorrect", "processing/chen_wan_liang_calibration.py"), ("get_hot_pixels", "processing/image_cleaning.py")],
  ["MicropolImage.correct_ifov(), .clean_hot_pixels(), get_hot_pixels()"])
p("C28", "Error propagation through demodulation",
  "The propagated error of each Stokes component is, superpixel by superpixel, the square root of the sum of squared matrix elements times squared pixel errors; the errors of pB, DoLP and AoLP are the first-order propagation of those through their formulas, each superpixel by itself. Inputs are not modified.",
  ["inputs"], "all pixel errors, matrices, Stokes vectors with nonzero I and Q",
  "no test calls these",
  ["processing/demodulation_errors.py"], [("get_error_on_Stokes, get_error_on_pB, get_error_on_DoLP, get_error_on_AoLP", "processing/demodulation_errors.py")],
  ["MicropolImageError: sigma_S, sigma_pB, sigma_DoLP, sigma_AoLP"])
p("C29", "Chen-Wang-Liang calibration",
  "Applying a stored Chen-Wang-Liang calibration subtracts the stored offsets from the image, multiplies the four pixels of each superpixel by that superpixel's own 4x4 matrix and then applies the field-of-view correction; the input array and the calibration files are not modified.",
  ["inputs"], "all matrices, offsets, images, even shapes",
  "no test calls it",
  ["processing/chen_wan_liang_calibration.py"], [("chen_wan_liang_calibration, _ifov_jitcorrect", "processing/chen_wan_liang_calibration.py")],
  ["chen_wan_liang_calibration()"])
p("C30", "Aligning data and keywords for solar viewers",
  "Aligning an image for solar viewers flips each of the four orientation images about its anti-diagonal, so that every superpixel's pixels stay together and in place, and writes matching keywords: size cards equal to the data's, plate scale multiplied by the binning, reference pixel at the mirrored sun centre scaled to the image size, and combined date and time. The pixel array passed in is not modified.",
  ["inputs", "configurations"], "all square even sizes, centres, plate scales, binnings",
  "no test calls it",
  ["utils.py"], [("align_keywords_and_data", "utils.py")], ["align_keywords_and_data()"])
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, sch)
except ImportError:
    pass
print(len(P), "properties")
