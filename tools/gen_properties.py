"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os

SI = "properimage/single_image.py"
OP = "properimage/operations.py"
UT = "properimage/utils.py"
ST = "properimage/simtools.py"
PL = "properimage/plot.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(obs), "hook_needed": None,
        },
    })


prop("C01", "Subtraction products obey the proper-subtraction equations",
     "For every pair of equally sized images and every combination of the fitting options, the returned difference image, "
     "difference PSF and corrected significance image equal the proper-subtraction expressions (cross-filtered difference over its noise power, "
     "its PSF, and the matched-filter score over the square root of its propagated source-noise variance) evaluated with the two cleaned images, "
     "their noise levels, their PSFs and the flux ratio and shift that were selected. "
     "The new image enters positively and the scaled reference negatively, the fitted PSF model is centred in the frame whatever its aspect ratio, "
     "and images of different sizes are refused with an error.",
     ["inputs", "configurations"], "all image pairs, sizes, PSFs, noise levels, zero points and option combinations",
     "the tests only check that the four returned objects are arrays, on one pair of square images",
     [OP], [("subtract: D_hat, P_hat, S_hat, V_en, V_er", OP), ("PSF rendering and centring", OP)],
     obs=["return value of subtract"])
prop("C02", "Flux ratio and shift of a subtraction are the selected ones",
     "Without flux-scale fitting the flux ratio is the ratio of the zero points of the new and the reference image, and without shift fitting the shift is exactly zero. "
     "When they are fitted they come from a minimisation started at those values and confined to ratios from 0.1 to 10 and shifts within 0.9 pixel, "
     "of the absolute residual of the very difference image the trial values would give, less the expected background offset, with the pixels masked in either image left out. "
     "A minimisation that does not succeed falls back to the zero-point ratio and no shift.",
     ["inputs", "configurations", "fault_sequences"], "all image pairs, all eight option combinations, solver success and failure",
     "tests never look at the selected values, never make the solver fail, and use one pair",
     [OP], [("cost / F objective closures, bounds, fallbacks", OP)], obs=["arguments given to the optimiser; return value of subtract"])
prop("C03", "Returned bad-pixel masks are the union of the input masks",
     "The mask returned by subtraction and by co-addition is a boolean array of the shape of the images in which a pixel is flagged exactly when it is flagged in at least one input image. "
     "This holds for any number of images and workers, and also when no pixel at all is flagged.",
     ["inputs", "configurations"], "all masks, image counts and worker counts",
     "tests check the mask's type only, on images that share one bad pixel",
     [OP], [("mask_or accumulation", OP), ("chunk results combination", OP)], obs=["last element of the results of subtract and coadd"])
prop("C04", "The coadd sums every image exactly once with its own weight",
     "For any number of images, the coadded image equals, up to one constant that depends only on the frame size, the inverse Fourier transform of the sum of the images' matched-filter transforms "
     "divided by the square root of the sum of their weighted PSF powers, the weight of an image being the square of its zero point over its noise level; every image enters exactly once, with its own current zero point. "
     "The returned PSF is the inverse transform of that square root (shifted by the stamp size) scaled to unit sum.",
     ["inputs", "configurations"], "all lists of images, zero points, noise levels and PSFs",
     "tests check types and compare two runs of the same code on four images with very wide tolerances",
     [OP, SI], [("process_chunk_joblib and coadd accumulation", OP), ("s_hat_comp, psf_hat_sqnorm", SI)], obs=["return value of coadd"])
prop("C05", "The coadd does not depend on the number of workers",
     "Co-adding the same images gives the same image, PSF and mask, up to floating-point rounding, for every number of workers, including a single worker and more workers than images.",
     ["configurations", "inputs"], "every worker count against every list length",
     "tests compare 1, 2 and 4 workers on four images with 20% and 0.5 absolute tolerance",
     [OP, UT], [("chunking, per-chunk sums and their combination", OP), ("chunk_it", UT)], obs=["return value of coadd"])
prop("C06", "Splitting a sequence loses and repeats nothing",
     "Splitting a sequence into any positive number of parts returns a list of contiguous runs of it which together hold every element exactly once, each run keeping the order of the sequence; this holds for every length, including zero and fewer elements than parts.",
     ["inputs"], "all sequences and all part counts",
     "tests try one 20-element array and one 4-element list",
     [UT], [("chunk_it slice boundaries", UT)], obs=["return value of chunk_it"])
prop("C07", "Every bad pixel of an image is masked, and only grown from bad pixels",
     "The mask of an image is a boolean array of the image's shape that contains every pixel flagged by the mask it was given (array, mask file or file extension; mask planes read from FITS flag values at or above the mask threshold when their median is zero and at or below it otherwise), "
     "every pixel below -50 or above 65000 counts and, when the mask is guessed without a mask plane from an array or a FITS image, every non-finite pixel. "
     "Beyond those, it only adds pixels by seven growth rounds, each adding exactly the pixels with more than two masked pixels in their 3x3 neighbourhood.",
     ["inputs", "configurations"], "all pixel values, masks, thresholds and input kinds",
     "tests compare masks with tolerance 3 (always true for booleans) or only for one isolated NaN",
     [SI], [("mask setter", SI), ("maskthresh", SI)], obs=["SingleImage.mask, SingleImage.data.mask"])
prop("C08", "Pixel data are the trimmed input times the gain, for every kind of input",
     "The pixel values of an image are the input values (in single precision), restricted to the requested frame and multiplied by the gain, whether the input is an array, a FITS HDU, an HDU list or a file, and whatever mask is given. "
     "The frame is the input with the zero borders cut off on request (the smallest rectangle holding all non-zero pixels) and then the four crop margins removed, any of which may be zero; the gain is the given one, else the GAIN header card, else one.",
     ["inputs", "configurations"], "all input kinds, shapes, crops, borders, gains and headers",
     "tests never use a crop, a border or a gain, and compare pixels at 15%",
     [SI], [("data, gain, header and mask setters", SI)], obs=["SingleImage.data"])
prop("C09", "Cleaning replaces flagged pixels only, and all of them",
     "In the cleaned image every pixel that is neither masked, nor NaN, nor detected as a cosmic ray keeps exactly its background-subtracted value, and every other pixel is replaced by a value interpolated from its neighbours. "
     "The cleaned image contains no NaN.",
     ["inputs"], "all images, masks and cosmic ray detections",
     "tests only check that the sum is not NaN, and no test image has a cosmic ray",
     [SI], [("interped", SI)], obs=["SingleImage.interped"])
prop("C10", "Derived products always reflect the current settings",
     "Whatever sequence of accesses and of changes of the zero point and of the information loss came before, the PSF basis, coefficient fields, normalisation image, matched-filter transform and matched-filter image of an image are the ones a fresh image with the current zero point and information loss would give.",
     ["histories"], "all histories of accesses and of zero point and information loss changes",
     "tests access each product once on a fresh image",
     [SI], [("lazy properties and their invalidation", SI)],
     state=[("cached products", "each with the settings it was computed for", SI)],
     obs=["kl_basis, kl_afields, normal_image, s_hat_comp, s_component, get_variable_psf"])
prop("C11", "The PSF basis is the shortest leading part of the expansion allowed",
     "The PSF basis consists of the leading Karhunen-Loeve components in decreasing order of eigenvalue, and of as few of them (at least one) as leave out no more than the requested fraction of the total power. "
     "Each component is the combination of the star stamps given by its eigenvector, so asking for a smaller loss only appends components.",
     ["inputs", "configurations"], "all eigenvalue spectra and information losses",
     "tests check that the basis is a non-empty list",
     [SI], [("_setup_kl_basis truncation", SI), ("_setup_kl_a_fields measures", SI)], obs=["get_variable_psf, kl_basis"])
prop("C12", "PSFs handed out for the image are normalised to unit sum",
     "When one component suffices, the PSF returned for the image sums to one; the local PSF at any position, at the edges too, sums to one and has the stamp size, and with several components it is proportional to the sum of the components weighted by their coefficient fields over the normalisation image around that position.",
     ["inputs", "configurations"], "all PSF bases, coefficient fields and positions",
     "tests probe ten random central positions of a few images to two digits",
     [SI], [("get_variable_psf", SI), ("get_psf_xy", SI)], obs=["get_variable_psf, get_psf_xy"])
prop("C13", "Sources used for the PSF pass the quality cuts",
     "The sources used for the PSF measurement are those extracted from the background-subtracted image outside the mask that are unflagged, have a size between the 20th and 80th percentile and a flux between the 15th and 85th percentile of the extracted ones, or all the extracted ones when fewer than five pass, and never more than 1800. "
     "When fewer than the minimum number are found the lower-threshold extraction is used unless it finds fewer; an image with no source or a single one is refused with a ValueError.",
     ["inputs", "fault_sequences"], "all catalogues, including failing extractions",
     "tests check that some sources come out, on images with many sources",
     [SI], [("best_sources", SI)], obs=["SingleImage.best_sources"])
prop("C14", "Star stamps, their positions and their count stay in step",
     "Measuring the star stamps leaves as many stored stamps as positions as counted sources, and the k-th stored stamp is the one cut at the k-th position. "
     "Every stored stamp is free of NaN, sums to one and has the same shape, the one the image then reports as its stamp shape.",
     ["inputs"], "all catalogues, images and stamp rejections",
     "tests compare the two counts and look at no stamp",
     [SI], [("stamps_pos", SI)], state=[("stamp database", "stamps by index", SI)], obs=["stamps_pos, n_sources, db, stamp_shape"])
prop("C15", "Relative zero points come from the stars matched in every image",
     "The zero points and mean magnitudes returned for a list of images are the minimum-norm least-squares solution of magnitude(star, image) = zero point(image) + mean magnitude(star) over exactly the master stars matched in every other image, with every measured magnitude entered for its own star and image, for any number of images. "
     "The result does not depend on matchings made before with the same images, and without a common star all zero points are one.",
     ["inputs", "histories"], "all catalogues, image counts and earlier matchings",
     "no test checks a zero point",
     [UT], [("transparency: detection flags, magnitude vector, design matrix", UT)], obs=["return value of transparency"])
prop("C16", "Catalogue matching pairs mutual nearest neighbours within the radius",
     "Matching two catalogues gives a source the identifier of a master source exactly when each is the nearest of the other's catalogue and their distance is below the radius; otherwise it is marked unmatched. "
     "No identifier is given to two sources, and the match flags tell exactly the matched sources.",
     ["inputs"], "all pairs of catalogues and radii",
     "no test calls the matching on its own",
     [UT], [("_matching", UT), ("crossmatch", UT)], obs=["_matching, crossmatch"])
prop("C17", "A stored image carries its pixels and its mask",
     "Storing an image as FITS keeps every pixel value (the real part of a complex image; masked images in single precision) and, for a masked image, adds a 0/1 bad-pixel plane that is one exactly at the masked pixels. "
     "With a path the same content is written to that file, replacing an older one; without one it is returned.",
     ["inputs"], "all images, masks and pixel types",
     "tests check the type of the returned HDU and that a file exists",
     [UT], [("store_img", UT)], obs=["return value of store_img and the file"])
prop("C18", "Temporary stamp storage is private to an image and removed with it",
     "Images alive at the same time never share their temporary stamp files, and leaving the context manager of an image, normally or by an exception, removes the files of that image and of no other, without hiding the exception.",
     ["histories", "fault_sequences"], "all sets of live images and ways of leaving",
     "one test opens a context and never looks at the files",
     [SI], [("dbname", SI), ("__exit__ and _clean", SI)], state=[("dbname", "stem of the two temporary files", SI)], obs=["files in the temporary directory"])
prop("C19", "Simulated frames hold what was asked for, reproducibly",
     "A simulated point-spread function is non-negative (unrotated) and sums to one; a point-source frame is zero except at the listed pixels, which hold their own weight (one by default); the Airy pattern is finite with its maximum at the centre. "
     "A simulated image is the source frame convolved with the PSF plus the bias plus noise of the requested kind and signal-to-noise ratio, and with a seed it depends on nothing but its arguments.",
     ["inputs", "histories"], "all sizes, widths, positions, weights and seeds, and all earlier draws",
     "tests check one size each, and no weight",
     [ST], [("Psf, astropy_Psf, airy_patron, delta_point, image, sim_varpsf", ST)], obs=["their return values"])
prop("C20", "PSF plots show every component, and only plots are dispatched",
     "Plotting the PSF components or coefficients draws every component exactly once, in order, on its own axes: the automatic layout has at least as many axes as components for every number of components, and too few given axes are refused with a ValueError. "
     "Calling the plotter by name runs the public plotting method of that name (the image by default) and refuses private, unknown or non-callable names; options given by the caller are passed on.",
     ["inputs", "configurations"], "every number of components and every name",
     "tests plot one image with a handful of components",
     [PL], [("primes, autopsf, autopsf_coef, __call__", PL)], obs=["axes returned"])
prop("C21", "Inputs are left untouched",
     "Building an image, subtracting and co-adding never change the pixel values or masks of the arrays, masks or images they are given, nor the list of images given to a co-addition.",
     ["inputs", "configurations"], "all inputs and option combinations",
     "no test compares inputs before and after",
     [SI, OP], [("data and mask setters copy", SI), ("subtract, coadd", OP)], obs=["the arguments after the call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
