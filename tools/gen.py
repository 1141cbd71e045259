#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (python3 tools/gen.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HM, SM, IM = "modules/core/src/c_src/hypermat.c", "modules/core/src/c_src/simplemat.c", "modules/process/src/c_src/imageprocess.c"
P = "modules/process/src/c_src/"
A = "modules/algorithm/src/"
CXX = "modules/core/src/cxx_src/hypermat.cpp"
PROPS = []
def prop(id, title, statement, over, space, why, files, mech, observe=None, state=None, tech=None, note=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": space}, why_tests_cant=why, anchors=a, _tech=tech, _note=note))

prop("C01", "Interleave conversion moves every sample to the right place, for every cube",
     "Converting a hyperspectral cube between band-sequential, band-interleaved-by-line and band-interleaved-by-pixel layouts, in place or into a new cube, keeps for every line, column and band exactly the sample bytes that were there, together with dimensions, data type and wavelengths, and reports the new layout. Converting back, or along any chain of conversions, restores the original cube byte for byte. The variants that return a new cube leave their source unchanged, share no memory with it, and return an equal copy when the layout is already the wanted one.",
     ["inputs", "histories"], "every cube shape (lines, samples, bands all independent, thin and long axes included), each of the nine data types, each pair of layouts, every chain of conversions",
     "The tests convert one image file at one shape and check nothing; an index slip shows only when two dimensions differ, for one pair of layouts, one element size, or beyond a size boundary.",
     [IM, HM], [("six converters and three in-place wrappers", IM + ": bil2bsq, bil2bip, bsq2bil, bsq2bip, bip2bsq, bip2bil, convert2bsq, convert2bil, convert2bip")],
     ["data, interleave and wavelength of the result and of the source"])
prop("C02", "Cutting, extracting, inserting and splicing moves exactly the named samples",
     "Cutting a line, column and band range out of a cube gives a cube of that size whose samples and wavelengths are those of the range, in every layout; extracting one band gives the image of that band, writing an image into a band changes that band and nothing else, and splicing one cube into another at an element offset overwrites exactly those elements. Reshaping a cube into an image and transposing the bands of a cube or an image permute samples without losing or inventing any. None of these touch their source.",
     ["inputs", "histories"], "every range inside every small cube in each layout and data type, every band, every splice offset, every sequence of band extractions and insertions up to a depth",
     "The tests cut one fixed range out of one file; the range arithmetic has nine parameters and three layouts, and an off-by-one shows only for ranges that do not start at zero, single-element ranges or the last line, column or band.",
     [IM, P + "spectralprocess.c"], [("range copy per layout", IM + ": hyper_mat_get_range"), ("band transfer", IM + ": hyper_mat_2_simple_mat, simple_mat_2_hyper_mat"), ("splice, reshape and transposition", IM + ": hyper_mat_splicing, reshape_hypermat_2_simplemat, simple_mat_transport; " + P + "spectralprocess.c: hyper_mat_transport")])
prop("C03", "Creating and copying containers gives complete, independent, equal objects",
     "A created image or cube has the requested dimensions, type, channels and layout; one created without data is all zero, one created with data holds exactly the caller's samples and wavelengths. A copy has equal metadata, samples and wavelengths, shares no memory with its source, and no change to, or deletion of, one is visible in the other. This holds over every sequence of create, copy, copy-into, modify and delete.",
     ["inputs", "histories"], "every dimension, type, channel and layout combination within bounds and every operation sequence up to a depth, with fresh memory holding arbitrary bytes",
     "The tests copy one fixed image; missing fields, short copies or sharing show only for particular types, channel counts and later operations on the other object.",
     [HM, SM, "modules/core/src/c_src/struct_2D.c"], [("creation and copying", HM + ": create_hyper_mat, create_hyper_mat_with_data, hyper_mat_copy, hyper_mat_copy_to, hyper_mat_copy_wavelength"), ("images", SM + ": create_simple_mat, create_simple_mat_with_data, simple_mat_copy"), ("kernels", "modules/core/src/c_src/struct_2D.c: create_struct_2D")])
prop("C04", "Operations stay inside their objects' memory and keep no memory or file",
     "No operation on valid arguments reads or writes outside the buffers of the objects it was given and its own allocations, frees anything twice or uses it after freeing it. After an operation returns and its results are deleted, it retains no heap memory and no open file, so any number of repetitions runs in bounded memory; deleting an object releases everything that belongs to it. This holds for every image or cube shape an operation accepts, the degenerate one-pixel, one-row and one-band ones included.",
     ["inputs", "histories"], "every public operation over small and boundary shapes and all data types it takes, each repeated",
     "A small overrun usually lands in allocator padding and a leak never fails a test; both depend on the exact shape.",
     [HM, SM, IM, P + "filter.c", P + "morphology.c", P + "gradient.c", A + "dft.c", A + "pca.c", A + "cem.c", A + "cluster.c"], [("ownership of results and temporaries", "every operation; " + HM + ": delete_hyper_mat; " + SM + ": delete_simple_mat")],
     ["AddressSanitizer reports, live blocks and open descriptors before and after"])
prop("C05", "A saved cube loads back identical, with the header it was saved with",
     "Saving a cube and loading it with the header that was written gives a cube with the same dimensions, data type, layout, sample bytes and wavelengths (to the six decimals the header keeps), whatever was at that path before. Loading with explicitly given dimensions gives the same samples. A written header states the number of samples, lines and bands, the type, the layout and one wavelength per band, in ENVI form.",
     ["inputs", "histories"], "every shape, data type and layout within bounds, wavelength values of every magnitude, sequences of saves over older, longer files, path names of every kind and length",
     "The tests write one header; mismatches depend on the number of bands, the length of a field, line lengths in the header and what the file held before.",
     [HM], [("save", HM + ": hmsave, writehdr"), ("load", HM + ": hmread_with_hdr, hmread_with_size")])
prop("C06", "Headers parse by the ENVI rules; damaged or missing input never gives a cube",
     "Loading a cube takes the samples, lines, bands, data type, interleave and wavelength fields of the header whatever the order of fields, the spacing around the equals sign, the line breaks inside the wavelength list and the other fields are; fields the library does not use (a data ignore value, say) change nothing. A missing file, an image shorter than the header says, or a header without a field that is needed gives a diagnosis and no cube: never a crash, a cube with unread samples or an endless loop. A failing load leaves no file open.",
     ["inputs", "fault_sequences"], "every ordering and spacing variant of header fields up to a bound, every truncation point of the header and of the image, every single-field omission, missing files, unrelated fields at every place",
     "The tests have one well-formed header; truncation points, field orders and spacing are a combinatorial space.",
     [HM], [("header scanner", HM + ": hmread_with_hdr and its static helpers"), ("size check", HM + ": hmread_with_hdr, hmread_with_size")])
prop("C07", "Bitmap files round-trip and follow the BMP layout",
     "Writing an 8-bit gray or RGB image to a bitmap file produces a valid 24-bit bottom-up BMP with rows padded to four bytes and zero padding, and reading it back gives the same pixels (gray as three equal channels). Reading an 8-bit palette or 24-bit bitmap, padded in any way the format allows, gives its pixels top-down in red, green, blue order; a damaged, truncated or unsupported bitmap is reported and never yields an image of unread pixels. Writing leaves the image unchanged.",
     ["inputs", "fault_sequences"], "every width and height within bounds (all padding cases), all palettes shapes, every truncation point of a file, every header field corrupted to boundary values",
     "The tests read one bitmap; padding depends on the width modulo four and damage can be at any byte.",
     [SM], [("reader and writer", SM + ": smread_bmp, smwrite_bmp")])
prop("C08", "Raw images and spectrum files are read completely and exactly, or not at all",
     "Reading a raw image gives exactly the bytes of the file in the given shape and type, and reading a spectrum file gives exactly the numbers written in it, in order. A file that is missing or holds fewer samples or numbers than asked for is reported and no object is returned; extra content at the end does not matter. No file stays open afterwards.",
     ["inputs", "fault_sequences"], "every shape, type and channel count within bounds and every file length around the needed one; every sequence of number formats and separators up to a length",
     "The tests read one existing file; the behaviour at each truncation point and for each number format is never looked at.",
     [SM, P + "spectralprocess.c"], [("raw images", SM + ": smread"), ("spectra", P + "spectralprocess.c: read_spectrum_file")])
prop("C09", "Data type conversions preserve representable values, round, and saturate",
     "Converting a cube or image to another data type gives, for every sample, the nearest representable value: exact where the value fits, rounded to nearest for floats going to integers, and clamped to the limits of the target type outside its range. Dimensions, layout and wavelengths are kept and the source is unchanged. Parsing a decimal string gives the number it denotes for every leading-blank, sign, leading-zero, fraction and exponent form, whatever text follows it.",
     ["inputs"], "every value of the 8- and 16-bit source types, floats at and around every integer and half up to the type limits and at the extremes, every shape and layout within bounds, every short numeric string",
     "The tests convert one file and assert nothing; the values that go wrong are limits, halves and negatives.",
     [P + "datatypechange.c"], [("conversions", P + "datatypechange.c: hyper_mat_*2*, simple_mat_float2uchar"), ("number parser", P + "datatypechange.c: hypercv_atof")])
prop("C10", "Thresholding treats every gray level by its rule; Otsu picks the optimal level",
     "Each threshold mode maps every pixel by its rule, comparing strictly above the threshold: binary and inverse binary to the maximum value or zero, truncation to the threshold, and the two to-zero modes keep or clear the pixel; the dispatcher selects the same mode. Otsu's method returns the lowest gray level that maximises the between-class variance of the image (of a colour image: of its luminance) and maps pixels up to it to zero and the others to 255.",
     ["inputs"], "every gray level against every threshold and every maximum value for each mode; every image up to a size over an alphabet of levels, and every two- and three-population histogram in bounds, for Otsu",
     "The tests threshold one image; the result at equality, at level 0 and 255, for empty classes and for ties needs those exact inputs.",
     [P + "threshold.c"], [("modes and dispatcher", P + "threshold.c: hypercv_threshold*"), ("Otsu", P + "threshold.c: otsuThreshold, hypercv_threshold_otsu")])
prop("C11", "Binary morphology follows the set definitions for every kernel",
     "Erosion of a binary image keeps a pixel only where every set position of the kernel centred there covers a set pixel, dilation sets a pixel where any does, for every kernel shape; pixels nearer to an edge than half the kernel keep their value. Opening is the given number of rounds of an erosion followed by a dilation, closing of a dilation followed by an erosion. The source image and the kernel are unchanged, and an image smaller than the kernel leaves the destination untouched.",
     ["inputs", "histories"], "every binary image up to a size for every kernel up to 3 by 3 and structured larger ones, even sizes included, every iteration count in bounds",
     "The tests never check a result; a mistake shows for asymmetric kernels, non-square images or repeated rounds only.",
     [P + "morphology.c", "modules/core/src/c_src/struct_2D.c"], [("erosion and dilation", P + "morphology.c: hypercv_corrosion, hypercv_expend"), ("compositions", P + "morphology.c: hypercv_open, hypercv_close")])
prop("C12", "Image borders are extended by the selected rule on every side",
     "Adding a border gives an image enlarged by the four given widths whose inside is the original and whose border follows the selected rule: a constant value, the nearest edge pixel, mirroring with or without repeating the edge, or wrapping around, on every side and in the corners, for gray and colour images. Filters that take a border rule see exactly that extension of the image.",
     ["inputs"], "every image shape, every combination of four border widths (also wider than the image) and every rule within bounds, every kernel shape for the filters",
     "The tests use one rule on one image; the four sides, widths larger than the image, and single-row or single-column images are separate index computations.",
     [P + "filter.c"], [("index mapping", P + "filter.c: borderInterpolate and hypercv_copy_make_border"), ("use in filters", P + "filter.c: hypercv_filter2D")])
prop("C13", "Filters compute their defining neighbourhood formula at every pixel",
     "Linear filtering gives at every pixel and channel the sum of kernel weights times neighbours under the border rule, the kernel being anchored at its centre; Gaussian smoothing is the separable, normalised Gaussian, the Laplacian and Sobel results follow their standard kernels (saturated, and thresholded on the larger gradient magnitude), the mean filter averages the part of its window inside the image and the median filter takes the middle value of complete windows and copies the rest. Gaussian kernels sum to one, are symmetric and follow the given or derived standard deviation. Sources are unchanged.",
     ["inputs"], "every image up to a size over a small alphabet with every small kernel shape, border rule and window size; every pixel position of larger images by impulses; gray and colour",
     "The tests only run the filters; wrong anchors, borders, channels or saturation need asymmetric kernels, impulses near each edge or extreme values.",
     [P + "filter.c", P + "gradient.c"], [("linear and Gaussian filters", P + "filter.c: hypercv_filter2D, hypercv_gaussian_blur, hypercv_gaussian_blur_with_kernel, gaussian_kernel"), ("rank and mean filters", P + "filter.c: hypercv_medianblur, hypercv_meanblur"), ("gradients", P + "gradient.c: hypercv_sobel, hypercv_laplacian")])
prop("C14", "Integral image and image statistics equal their definitions",
     "The integral image holds at every pixel the exact sum of all pixels above and to the left, inclusive. Mean, variance, contrast ratio, gray-level histogram and entropy of an image equal their definitions for every supported data type, signed and unsigned, independent of image size and shape (large images do not lose precision beyond rounding); the histogram counts sum to the number of pixels.",
     ["inputs"], "every image up to a size over a small alphabet, every gray level, boundary values of each data type, shapes up to millions of pixels",
     "The tests check the mean of one image; sign, overflow and accumulated rounding need extreme values or large images.",
     [SM, P + "filter.c"], [("statistics", SM + ": simple_mat_mean, simple_mat_variance, simple_mat_contrast_ratio, simple_mat_grayscale_statistics, simple_mat_entropy"), ("integral", P + "filter.c: hypercv_integral")])
prop("C15", "Flips, pyramids and rotation move pixels by their geometry",
     "Flipping reverses columns, rows or both according to the code, so that flipping twice restores the image. Pyramid reduction is Gaussian smoothing followed by dropping every second row and column, pyramid expansion inserts zeros and smooths so that a constant image stays constant. Rotating a cube by an angle about its centre gives the bounding-box cube in which every source sample is placed at the position the rotation maps it to and all other positions are zero; zero degrees is the identity, right angles are exact, and all bands move together.",
     ["inputs"], "every image and cube shape within bounds, every flip code, every multiple of a small angle step and the four right angles, impulses at every position",
     "The tests rotate and flip one image and look at nothing; odd and even sizes and each quadrant of angles behave differently.",
     [P + "GeometricTransformation.c"], [("flips", P + "GeometricTransformation.c: simple_mat_flip*"), ("pyramids", P + "GeometricTransformation.c: hypercv_pyramid_down, hypercv_pyramid_up"), ("rotation", P + "GeometricTransformation.c: hyper_mat_rotate")])
prop("C16", "Spectral measures and matching equal their definitions for every spectrum",
     "The spectral angle of two spectra is the arc cosine of the normalised sum of absolute products, always a number between zero and a right angle for non-zero spectra, zero for proportional ones and independent of positive scaling; the Euclidean distance is the root of summed squared differences. Matching a cube against a spectrum marks exactly the pixels whose angle reaches the threshold, and the mean over bands is the mean of each pixel's spectrum.",
     ["inputs"], "every pair of spectra up to a length over an alphabet of values of widely different magnitude, every pixel position, every threshold around each attained angle",
     "The tests run one spectrum; rounding pushes the cosine above one only for particular proportional spectra, and a mismatch of pixel and spectrum shows only in non-square cubes.",
     [P + "spectralprocess.c"], [("angle, distance, match, mean", P + "spectralprocess.c: spectral_angle_mapper, euclidean_distance, spectrum_SAM_match, hyper_mat_mean")])
prop("C17", "Radiometric correction applies the coefficient that belongs to each sample",
     "Relative correction multiplies every sample by the coefficient of its band and column, absolute correction by the coefficient of its band, giving a float cube with the same dimensions, layout and wavelengths. The input cube and the coefficients are unchanged.",
     ["inputs"], "every cube shape within bounds with coefficients that are all distinct, all values of the 16-bit sensor range, extreme coefficients",
     "There is no test of it; exchanging band and column or line shows only when the coefficients differ and the cube is not square.",
     [P + "RadiometricCalibration.c"], [("corrections", P + "RadiometricCalibration.c: relative_radiometric_correction, absolute_radiometric_correction")])
prop("C18", "Matrix routines satisfy their algebraic laws",
     "Matrix product and transposition equal the definition for every data type and shape, with the wrap-around of the type; the scaled cross product of two matrices is their product divided by the sample count. A QR factorisation of a full-rank matrix has orthonormal Q, upper-triangular R and product equal to the matrix; the inverse times the matrix is the identity whenever the matrix is well conditioned, also when rows must be exchanged. For a symmetric matrix with well separated eigenvalues the computed eigenvectors have unit length and satisfy the eigenvalue equation, and repeated factorisation leads to the eigenvalues.",
     ["inputs"], "every matrix up to a size over a small alphabet of entries (all permutations and zero-pivot patterns included), every shape triple within bounds, all data types",
     "The tests invert one matrix; zero pivots, rectangular shapes and type limits are not sampled.",
     [P + "matrixprocess.c"], [("products and transposes", P + "matrixprocess.c: MulMatrix_*, TransMatrix_*, correlation_matrix_*"), ("factorisations", P + "matrixprocess.c: matrix_QR_float, invert_matrix_float, cal_eigen_vector_float")])
prop("C19", "Colour conversions apply their formula to every pixel",
     "Converting RGB to gray takes the maximum, the weighted luminance (0.299, 0.587, 0.114) or the rounded average of the three channels of each pixel, by method; gray to RGB repeats the value in three channels, binary to RGB maps one to white and zero to black, and BGR to RGB exchanges the first and third channel and keeps the second. Dimensions are kept and sources are unchanged.",
     ["inputs"], "every value of each channel (all pairs, and all triples over a dense alphabet), every image shape within bounds, every method",
     "No test looks at the values; channel mix-ups and rounding need particular colours.",
     [P + "colortransform.c"], [("conversions", P + "colortransform.c: sm_rgb2gray, sm_gray2rgb, sm_binary2rgb, sm_bgr2rgb")])
prop("C20", "The Fourier transform equals its definition and inverts",
     "The forward transform of an 8- or 16-bit image gives at every frequency the real and imaginary part of the defining sum, for every image size, also not square and not a power of two; the inverse transform restores the image. The magnitude image is the modulus of each coefficient, the displayed spectrum is the modulus divided by the root of the number of pixels, saturated to 8 bits, with the zero frequency in the centre, and the optimal transform size is the smallest tabulated size not below the request.",
     ["inputs"], "every image up to a size over a small alphabet, an impulse at every position of larger ones, every size query within the table",
     "The tests never compare coefficients; exchanged rows and columns or a wrong sign cancel for symmetric or square inputs.",
     [A + "dft.c", "modules/algorithm/include/algorithm/dft.h"], [("transforms", A + "dft.c: hypercv_dft*, hypercv_idft*"), ("magnitude and spectrum", A + "dft.c: hypercv_magnitude, hypercv_dft_frespectrum"), ("size table", A + "dft.c: get_optimal_DFT_size")])
prop("C21", "Equalisation, stretching and normalisation map values by their formula",
     "Histogram equalisation maps each gray level to its cumulative frequency scaled to 255; it is monotone and depends on the level only. Linear stretching maps each band of a cube separately, linearly from its own minimum and maximum onto 0 to 255, where 0 is kept for samples that are exactly zero and other samples get at least 1. Normalisation scales the image so that its maximum, sum or Euclidean norm equals the request, or its range spans the two bounds, rounding and saturating for 8-bit images.",
     ["inputs"], "every image up to a size over a small alphabet, every gray-level pair, cubes with differing band ranges, negative floats, all norm kinds and bounds within the alphabet",
     "The tests run them once; per-band state, negative minima, equal bounds and saturation need particular inputs.",
     [A + "HisEqualization.c", A + "normalize.c"], [("equalisation and stretch", A + "HisEqualization.c: HisEqualization, hyper_mat_linear_tension"), ("normalisation", A + "normalize.c: hypercv_normalize*")])
prop("C22", "Clustering is Lloyd's algorithm from any starting pixels, and always ends",
     "From whatever starting pixels are drawn, clustering gray or colour image pixels assigns each pixel to the nearest centre, moves each centre to the integer mean position of its pixels and repeats until no centre moves more than the threshold; the centres it returns are that fixed point. A centre that loses all its pixels stays where it is, and the computation terminates for every image, number of clusters and threshold.",
     ["inputs", "schedules"], "every binary image up to a size, every sequence of random starting pixels, every number of clusters and threshold within bounds",
     "The result depends on a random start: a test sees one random draw, not the one that empties a cluster or cycles.",
     [A + "cluster.c"], [("iteration", A + "cluster.c: hypercv_k_means")])
prop("C23", "Target detection has response one to the target and minimal energy",
     "Constrained energy minimisation returns for every pixel the response of the filter that has response one to the given target spectrum and minimal mean energy over the cube. A pixel equal to the target scores one, equal pixels score equally, the response does not depend on the order of pixels or the layout of the cube, and the cube's samples are only rearranged.",
     ["inputs"], "every cube up to a size over a small alphabet of samples whose correlation is well conditioned, every target in the alphabet, every layout",
     "The test runs one synthetic cube; exchanged dimensions and a wrong normalisation show only in non-square, asymmetric cubes.",
     [A + "cem.c", P + "matrixprocess.c"], [("filter", A + "cem.c: hyper_mat_cem"), ("inverse correlation", P + "matrixprocess.c: invert_matrix_float, correlation_matrix_float")])
prop("C24", "The growable array behaves as a sequence over every history of operations",
     "Over every history of appending, removing the last, removing at a position, initialising, iterating and freeing, the growable array holds exactly the elements of the corresponding mathematical sequence, reports its length, never a capacity below it, and keeps element values across growth. Removing from an empty array or at a position outside it changes nothing, and freeing returns all memory.",
     ["histories"], "every sequence of operations up to a depth, from the empty array and from sizes around each capacity step, for several element sizes",
     "The test pushes a fixed list; growth, removal and reuse interact only in longer mixed histories.",
     ["modules/core/include/c_include/vector.h"], [("growth and removal", "modules/core/include/c_include/vector.h: vector_push_back, vector_pop_back, vector_erase, vector_init, vector_free")])
prop("C25", "Results depend only on the arguments, never on earlier calls or memory contents",
     "Calling an operation with equal arguments gives equal results, whatever operations ran before, whatever the destination object held before where the operation overwrites it, and whatever bytes fresh heap memory contains. In particular running any operation between two equal calls does not change the second result.",
     ["histories", "configurations"], "every ordered pair (and triple in the thorough tier) of public operations, every prior content of destinations from an alphabet, every fill pattern of fresh memory from an alphabet",
     "A test process starts with zeroed memory and calls each operation once; stale statics, uninitialised temporaries and accumulation into a destination stay invisible.",
     [IM, P + "filter.c", P + "threshold.c", P + "morphology.c", SM, HM, A + "dft.c", A + "normalize.c", A + "HisEqualization.c"], [("destinations are fully written, no hidden state", "every operation with a destination or a result")])
prop("C26", "Drawing paints exactly the requested pixels in the requested colour",
     "Drawing a line between two points paints the inclusive straight segment, including both end points, and drawing a point set paints a square reaching half the size (an odd size, or the next odd one) around every point; a line is widened horizontally by half its thickness to either side. Both paint in the given colour (red, green, blue order; the gray value for gray images); all other destination pixels equal the source. Nothing outside the image is touched, whatever the end points and sizes are.",
     ["inputs"], "every pair of end points in and around a small image, every thickness and size in bounds, every list of points up to a length, gray and colour",
     "There is no test of drawing; octants, single-pixel lines and points near the edge each need their own input.",
     ["modules/highgui/src/draw.c"], [("line and point painting", "modules/highgui/src/draw.c: draw_line, draw_POINT")])
prop("C27", "Shape descriptors ignore position; the shape match is a symmetric similarity",
     "The moment invariants of a shape do not change when the shape is moved inside the image by whole pixels or the image is padded, transposing the image only negates the last one, and they equal their defining polynomials in the normalised moments about the pixel nearest to the centroid. The shape match is one for equal or merely translated shapes, symmetric in its arguments and never above one or undefined for shapes with non-degenerate moments.",
     ["inputs"], "every binary shape up to a size at every position in a larger image, every pair of such shapes",
     "The test matches two files; a term in one of seven polynomials, or a dependence on position, needs many shapes to show.",
     [A + "shapematch.c"], [("moments and distance", A + "shapematch.c: calc_hu_moment, hypercv_match_shapes")])
prop("C28", "The C++ cube type converts, cuts and copies exactly as the C interface does",
     "A C++ cube created with dimensions, type and layout reports them and its element size; converting its layout, cutting a range, copying the cube, its data or its wavelengths yields the samples and wavelengths the index arithmetic prescribes, for every type and layout, and equals what the C interface gives. Copies are independent of their source and releasing an object frees its memory exactly once.",
     ["inputs", "histories"], "every shape, type and layout pair within bounds, every range of small cubes, every sequence of operations up to a depth",
     "The C++ class is exercised by one test with one file; it has its own index arithmetic for every layout pair.",
     [CXX, "modules/process/src/cxx_src/imageprocess.cpp", "modules/core/include/cxx_include/hypermat.hpp"], [("class operations", CXX + ": HyMat::create, convertTo, range, copy, CopyData, CopyWaveLength, release"), ("conversion functions", "modules/process/src/cxx_src/imageprocess.cpp")])
prop("C29", "C++ cubes saved to disk load back identical; bad input leaves the cube empty",
     "Saving a C++ cube writes its samples and an ENVI header next to it, and opening that image with its header, or with explicit dimensions, gives the same dimensions, type, layout, samples and wavelengths. A missing or short image or an unusable header leaves the cube empty or is diagnosed, never a cube with unread samples, and no file stays open.",
     ["inputs", "fault_sequences"], "every shape, type and layout within bounds, every truncation of the image, every omitted or damaged header field, path names with and without extension, repeated saves over older files",
     "The test opens one file if present; header handling depends on the layout, type and band count.",
     [CXX], [("input and output", CXX + ": HyMat::save, HyMat::open, readHdr")])
prop("C30", "Operations leave their inputs unchanged",
     "Every operation that delivers its result in a separate object leaves the samples, dimensions, type, layout and wavelengths of its input objects, and the caller's arrays, exactly as they were; an operation documented to rearrange its input in place changes the layout only. The same holds when an input is shared by several calls.",
     ["inputs", "histories"], "every public operation over small and boundary shapes and all data types it accepts",
     "The tests do not look at inputs after a call.",
     [IM, SM, P + "filter.c", P + "morphology.c", P + "colortransform.c", A + "dft.c", A + "normalize.c"], [("inputs are read only", "every operation with a separate result")])
prop("C31", "Principal components decorrelate the bands and keep their total variance",
     "The principal component transform of a cube of correlated bands centres each band and projects every pixel on the orthonormal eigenvectors of the band covariance, in decreasing order of variance: the resulting bands are uncorrelated, each has the variance of its eigenvalue and their sum equals the total variance of the input. The assignment of samples to pixels is kept for every cube shape.",
     ["inputs"], "every cube up to a size built from an alphabet of full-rank correlated bands with separated eigenvalues, every shape within bounds",
     "There is no test of the transform; exchanged dimensions or an unfinished iteration need non-square cubes and a variance check.",
     [A + "pca.c", P + "matrixprocess.c"], [("transform", A + "pca.c: hyper_mat_pca"), ("eigen decomposition", P + "matrixprocess.c: matrix_QR_float, cal_eigen_vector_float")])
prop("C32", "Calls whose arguments do not fit are refused before any damage",
     "A call whose arguments violate the documented requirements (wrong data type or channel count, mismatched dimensions, a range or band outside the cube, an unknown layout or type, a missing object) prints a diagnosis and ends the program with a failure status, or returns no result; it never goes on with the wrong interpretation. Up to that point it has modified none of the objects it was given and has written no memory outside its own.",
     ["inputs"], "every public operation with each of its requirements violated one at a time, over all data types, channel counts and neighbouring dimensions",
     "A test that ends the program cannot be part of the suite as it is written, so refusals are never exercised.",
     ["modules/core/include/c_include", HM, IM, P + "filter.c", P + "colortransform.c"], [("argument assertions", "hypercv_assert and its uses in every operation")])
prop("C33", "Element-wise image arithmetic and numeric helpers compute their formula",
     "Adding two images gives at every pixel both have the sum, in the data type of the images (8-bit sums wrap around), also into one of them and into a larger image whose other pixels are kept, and the logarithm image is the natural logarithm of the value at every pixel and channel. The mean of an array of any numeric type equals its sum divided by its length, sorting an array in decreasing order gives a decreasing permutation of it, and the factorial is exact for every argument whose result fits.",
     ["inputs"], "every pair of values over the 8-bit range, every pair of small image shapes, all arrays up to a length over an alphabet, all arguments 0 to 20",
     "The tests check one mean; sign, wrap-around and permutations are not sampled.",
     [IM, P + "mathprocess.c"], [("images", IM + ": simple_mat_addition_uchar, simple_mat_addition_float, simple_mat_log"), ("helpers", P + "mathprocess.c: mean_*, sort_array_down_float, hypercv_factorial")])
prop("C34", "Edge signal energy is the mean squared response of the edge kernels",
     "The edge energy of an 8-bit gray image is the mean over all pixels of the square of the summed responses of the two diagonal edge kernels (-1 -1 1, -1 4 -1, 1 -1 -1 divided by six, and its mirror image) with zero border. A constant interior contributes nothing, the result is never negative, and mirroring the image leaves it unchanged.",
     ["inputs"], "every image up to a size over a small alphabet, impulses at every position of larger shapes",
     "The test runs it on one file and asserts nothing about the value.",
     [A + "EdgeSignalEnergy.c"], [("energy", A + "EdgeSignalEnergy.c: cal_edge_signal_energy")])
prop("C35", "A save that cannot be completed is never silent",
     "Saving a cube, a header or a bitmap either leaves complete files, byte for byte those of an undisturbed save, or says that it failed: the C functions end the program with a failure status, the C++ class prints a diagnosis. This holds whatever fails: the file cannot be created, the device is full after any number of bytes of the image or of the header, a single write fails and later ones succeed, or closing the file fails; also when older files were there.",
     ["inputs", "fault_sequences"], "every number of bytes after which a file cannot grow, every single failing write or close, unwritable and full targets for each of the files, with and without older files, small and buffer-crossing sizes",
     "Tests save to a healthy disk; the result of a write, a flush or a close is never different from success there.",
     [HM, SM, "modules/core/include/cxx_include/hypermat.hpp"], [("cube and header", HM + ": hmsave, writehdr"), ("bitmap", SM + ": smwrite_bmp"), ("C++", "modules/core/include/cxx_include/hypermat.hpp: HyMat::save, writeHdr")],
     tech="fault-injecting model checking: exhaustive enumeration of write-failure points of each save on the real code, oracle: complete files or a report")
prop("C36", "Operations on objects of their own may run in different threads",
     "Two threads that call the library at the same time, each on objects and files of its own, get exactly the results each would get alone, under every interleaving of their memory accesses: no operation keeps working data in memory that another call can see. (The seeds of clustering come from the C library's rand, whose sequence is shared.)",
     ["schedules", "inputs"], "every pair of public operations; schedules switch threads at every access to memory both use and at every allocator, string and file call",
     "The tests are sequential; a buffer that two calls share gives wrong results only under particular interleavings.",
     ["modules/core/src/c_src", P[:-1], A[:-1], "modules/highgui/src"], [("working data of the operations", "locals and allocations of every operation; constant tables in " + P + "mathprocess.c and modules/algorithm/include/algorithm/dft.h")],
     tech="stateless model checking of the real code: controlled scheduler over instrumented memory accesses, schedules enumerated up to two preemptions, reduced to conflicting accesses",
     note="The library is compiled with -fsanitize=thread and run under the scheduler in mc/race.h, one thread at a time. Schedules: both orders, one preemption at every scheduling point, two preemptions where the product stays within the bound printed in DESIGN.md. Interleavings of accesses that do not conflict are equivalent and not repeated. Memory effects of C libraries that are not seams are not seen; sequential consistency is assumed.")
prop("C37", "A load gives the whole file's content or says it failed, however reads go",
     "Loading a cube (with its header or a given size, in C or C++), a raw image, a bitmap or a spectrum file gives the same object however the operating system divides the file among reads. If the system reports a read error at any byte of the image or of the header, the load either gives the same object as an undisturbed load or says that it failed and gives none (the C functions may end the program with a failure status); never an object with missing or cut-off values. A failing load leaves no file open and no memory allocated.",
     ["inputs", "fault_sequences"], "every byte at which reading each file fails, once or for good, every size of the pieces in which reads deliver it, for every loader and several shapes, types, layouts and forms of header",
     "Tests read healthy local files in which every read succeeds and delivers a full block.",
     [HM, SM, P + "spectralprocess.c", "modules/core/include/cxx_include/hypermat.hpp", CXX], [("cube and header", HM + ": hmread_with_hdr, hmread_with_size, readhdr"), ("images", SM + ": smread, smread_bmp"), ("spectrum", P + "spectralprocess.c: read_spectrum_file"), ("C++", "modules/core/include/cxx_include/hypermat.hpp: HyMat::open; " + CXX + ": readHdr")],
     tech="fault-injecting model checking: exhaustive enumeration of read-failure points and read sizes of each load on the real code, oracle: the undisturbed object or a report")
prop("C38", "Refused memory is reported before anything is done with it",
     "When the system refuses an allocation that an operation needs, whichever of its allocations that is and whether or not later ones are refused too, the operation says so and ends the program with a failure status (or gives no object), before anything is read or written through the missing memory. If it completes all the same, its results are those of an undisturbed run and nothing is leaked.",
     ["inputs", "fault_sequences"], "every operation of the C and C++ interfaces at small shapes, every one of its allocations refused alone and together with all later ones",
     "Tests never run out of memory; the failing branch of each allocation is not executed once.",
     ["modules/core/src", P[:-1], A[:-1], "modules/core/include"], [("objects", HM + ": create_hyper_mat_with_data; " + SM + ": create_simple_mat; modules/core/src/c_src/struct_2D.c; modules/core/include/cxx_include/hypermat.hpp: HyMat::create, convertTo"), ("working memory", "malloc and calloc calls in filter.c, matrixprocess.c, spectralprocess.c, cluster.c, cem.c, pca.c, shapematch.c, hypermat.c"), ("growable array", "modules/core/include/c_include/vector.h: vector_grow")],
     tech="fault-injecting model checking: exhaustive enumeration of refused allocations of every operation on the real code, oracle: a report or the undisturbed results")

NA = []
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks, na = [], list(NA)
    for p in PROPS:
        i = p["id"]
        if not os.path.exists(os.path.join(HERE, "checks", i + ".cpp")):
            na.append({"property": i, "reason": "its harness is not built yet"})
            continue
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": p["_tech"] or "explicit-state bounded model checking: exhaustive enumeration of executions of the real code against a reference model",
                       "level": "model_checking",
                       "level_note": p["_note"] or "Every execution within the bounds printed in DESIGN.md is run on the library built from /repo under AddressSanitizer and compared with a reference model; nothing is claimed outside the bounds. Trusts gcc, glibc, the reference model in checks/%s.cpp and the explorer in mc/." % i})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "run.py builds the library from /repo's working tree into a temporary directory and runs the named check. No hooks in /repo: the seams (malloc, free, exit, rand, time) are redirected in the built objects. known-findings.txt lists the repaired defects."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
