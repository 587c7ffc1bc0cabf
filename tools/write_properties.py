#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as the single source of the property texts)."""
import json, os
SI = "properimage/single_image.py"
OP = "properimage/operations.py"
UT = "properimage/utils.py"
PL = "properimage/plot.py"
ST = "properimage/simtools.py"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "The bad-pixel mask is exactly the marked and invalid pixels, grown",
 "Whatever form the image takes (array, masked array, FITS path, single HDU, HDU list) and however a mask is supplied (array, mask file, mask extension, none), the mask of a constructed image is exactly the pixels the supplied mask marks bad under its threshold rule (bad at or above the mask threshold when the mask's median is zero, at or below it otherwise; any non-zero value for an array mask), plus every non-finite pixel and every pixel below -50 or above 65000, enlarged by seven passes that add each pixel having at least three masked pixels in its 3x3 neighbourhood (image edges mirrored). No pixel marked bad by any of these sources is ever left unmasked, and a clean image has an all-False mask of the image's shape.",
 ["inputs", "configurations"], "every pixel grid, every source kind x mask kind x mask threshold x guess-mask setting",
 "The suite has one NaN pixel, one 256x256 size and never a pixel beyond the limits; its mask assertion has an absolute tolerance of 3 on booleans, so it cannot fail.",
 [SI], [("mask setter: source dispatch, threshold rule, range filters, enlargement", SI + " SingleImage.mask.setter")],
 [("mask", "boolean bad-pixel map of the image", SI + " SingleImage.mask")], ["SingleImage(...).mask", "SingleImage(...).data.mask"])

prop("C02", "Pixels are ingested faithfully whatever the source form",
 "The pixel data of a constructed image is the source's pixels, with the zero-valued border removed when asked (the bounding box of the non-zero pixels), then cropped by exactly the requested number of rows and columns on each side, then multiplied by the gain (explicit gain, else the header's GAIN, else 1), identically for every source form and every way of giving a mask. The header and the origin description are those of the source, and the caller's arrays, HDUs and files are never modified.",
 ["inputs", "configurations"], "every pixel grid x source form x mask form x gain x crop x border setting",
 "The suite compares pixel data with 15% tolerance, never with a gain, a crop or a border.",
 [SI], [("data, gain and header setters", SI + " SingleImage.data.setter / gain.setter / header.setter"), ("mask setter re-derives data for some sources", SI + " SingleImage.mask.setter")],
 [], ["SingleImage(...).data", ".header", ".gain", ".attached_to"])

prop("C03", "What an image reports never depends on what was asked before",
 "Every quantity an image reports (star positions, stamps and number of stars, covariance and eigenvectors, PSF basis, coefficient fields, PSF at a position, normalisation image, matched-filter component and its transform, PSF spectrum norm, cleaned image) is a function of the image and of its current parameters (information loss, zero point, requested stamp shape) only: after any sequence of reads, parameter changes and source refreshes it equals what a fresh image put directly in those parameters reports. Asking for a stamp shape takes effect only while no star stamps have been cut yet.",
 ["histories"], "every sequence of property reads, variable-PSF requests, inf_loss / zp assignments and source refreshes",
 "Each test builds a new image and reads one quantity; a history has at most two steps, and no value is compared with that of a fresh image.",
 [SI], [("lazy caches guarded by hasattr and inf_loss comparisons", SI + " stamps_pos, cov_matrix, eigenv, _setup_kl_basis, _setup_kl_a_fields, normal_image, s_hat_comp, s_component, interped_hat")],
 [("inf_loss", "current information-loss parameter", SI), ("zp", "current zero point", SI), ("lazy caches", "memoised intermediate products", SI)],
 ["SingleImage public properties and get_variable_psf / psf_hat_sqnorm / p_sqnorm / get_psf_xy"])

prop("C04", "The PSF basis is the shortest one within the allowed information loss",
 "For every image and every allowed information loss, the PSF basis consists of the principal components of the star stamps in decreasing order of eigenvalue magnitude, as few as leave a residual fraction not above the allowed loss (at least one, at most the number of stars); the leading one is turned so that stars are positive; asking for less loss never yields fewer components. A single-component basis is normalised to unit sum and has no coefficient field; otherwise there is exactly one cubic coefficient field per component, in the same order, fitted to that component's weights at the star positions, and the PSF at a position is the normalised combination of the components with unit sum, for every position of the image.",
 ["inputs", "configurations"], "every star field, every inf_loss in [0, 1], smoothed or not, every position",
 "The suite checks only that lists come back and that ten interior positions sum to 1 at four losses.",
 [SI], [("truncation loop, basis assembly and ordering", SI + " _setup_kl_basis"), ("coefficient fits", SI + " _setup_kl_a_fields"), ("position PSF", SI + " get_psf_xy")],
 [], ["kl_basis, kl_afields, get_variable_psf, get_psf_xy, cov_matrix, eigenv"])

prop("C05", "Star stamps, positions, catalogue and counts describe the same stars",
 "The number of stars, the list of star positions and the stored stamps always agree: the i-th stored stamp is the background-subtracted, cleaned cut-out around the i-th position, normalised to unit sum, in catalogue order. Without strict picking every catalogued source is used; with strict picking and more than 20 candidates exactly the sources whose stamp is centred (brightest pixel, and the significant region if any, within a fifth of the stamp size of its centre), smooth (standard deviation at most 0.15), not dominated by one pixel (none above 0.5) and single-peaked are used; with 20 candidates or fewer strict picking is disabled. Rejected sources leave the catalogue exactly when at least 15 remain.",
 ["inputs", "configurations"], "every star field, candidate count around the 15 and 20 limits, strict or not, any stamp shape, sources at the image edge",
 "The suite only checks that the count equals the number of positions; no stamp content is ever compared, and strict picking is only run on one crowded field.",
 [SI], [("stamp extraction loop", SI + " stamps_pos"), ("stamp store", SI + " db / npdb")],
 [("stamp store", "temporary on-disk list of star stamps", SI)], ["stamps_pos, n_sources, best_sources, db.load, stamp_shape"])

prop("C06", "Source detection falls back, filters and fails in the documented way",
 "Detection runs at the default threshold; only if that raises is it retried at the high threshold (whose failure propagates), and only if fewer than the minimum number of sources (20 unless given) were found is it retried at the low threshold (smaller minimum area first, and if that raises the larger one), keeping whichever of the first and the low-threshold catalogues is longer. An image yielding no source or a single source is refused with ValueError. Otherwise the sources kept are the unflagged ones between the 20th and 80th size percentiles and the 15th and 85th flux percentiles inclusive, or all detected ones if fewer than five qualify, never more than 1800, each at most once. Unless the caller gives one, the stamp shape is square and odd, at least 5: the whole part of three times the square root of the 65th percentile of the sizes of the sources kept, raised to the next odd number.",
 ["inputs", "fault_sequences", "configurations"], "every outcome (catalogue or failure) of each detection attempt, every catalogue, every minimum source count",
 "The suite never makes an extraction fail, never reaches the 1800 limit, and accepts any non-empty catalogue.",
 [SI], [("detection ladder and quality filter", SI + " best_sources")],
 [], ["SingleImage.best_sources, sep.extract calls"])

prop("C07", "Star-stamp stores are private to one image and vanish with its context",
 "Two images that are alive at the same time never read or write each other's star stamps, in whatever order, thread or process (including forked worker processes) they are used. Leaving the image's context, normally or by an exception, propagates that exception and removes all of that image's temporary files, whichever of them exist, and no other image's; cleaning twice or before any stamp was cut is harmless.",
 ["histories", "schedules", "crash_points"], "every interleaving of create, cut stamps, read stamps, clean, exit over several images, threads and forked processes; every partial set of files present at clean-up",
 "Tests use one image at a time in one process and never look at the files.",
 [SI], [("per-image store name and clean-up", SI + " __init__ dbname, _clean, __exit__")],
 [("dbname", "path stem of the image's temporary stamp store", SI)], ["files in the module's temporary directory", "cov_matrix / stamps after interleavings"])

prop("C08", "Coaddition counts every image once, however the work is split",
 "For any number of images and any number of workers, coadding adds each image's matched-filter and PSF contribution exactly once and unites every image's mask, so that image, PSF and mask are the same for every worker count, every split into chunks and every interleaving of the workers. The chunk helper splits any sequence into consecutive-run chunks that partition it exactly, with no more chunks than requested; more workers than images is not an error.",
 ["schedules", "configurations", "inputs"], "every number of images, every worker count (also above the number of images), every interleaving of worker steps",
 "The suite compares 1, 2 and 4 workers on four images with tolerances (atol 0.5 and 1 on boolean masks) that a lost image passes, and takes whatever schedule occurs.",
 [OP, UT], [("chunking", UT + " chunk_it"), ("worker and merge loops", OP + " process_chunk_joblib, coadd")],
 [], ["coadd(...) return values", "chunk_it(...)"])

prop("C09", "Coadd equals the proper-coadd statistic of its inputs",
 "The coadd of images is the inverse transform of the sum of their matched-filter transforms divided by the square root of the summed PSF spectrum norms weighted by (zero point / noise) squared, each image's matched filter being (zero point / noise squared) times the sum over its PSF components of its weighted cleaned image correlated with that component and re-centred; the coadd PSF has unit sum and the mask is the union of the input masks with the image's shape. The result does not depend on the order of the inputs nor on what was computed on them before, and neither the caller's list nor the pixels and masks of its images are altered. The former name stack_R gives the same and a DeprecationWarning.",
 ["inputs", "histories", "configurations"], "every list of images (order, zero points, prior use), single- or multi-component PSF, every inf_loss",
 "Tests only check that ndarrays come back.",
 [OP, SI], [("accumulation and final division", OP + " coadd, process_chunk_joblib"), ("per-image statistic", SI + " s_hat_comp, psf_hat_sqnorm, normal_image")],
 [], ["coadd(...) return values; si_list after the call"])

prop("C10", "Relative zero points are the least-squares fit over the common stars",
 "For any number of images, the relative zero points computed from their source catalogues use exactly the stars of the first (or master) catalogue found in every other catalogue, and differ between two images by the difference of the mean magnitudes of those stars in the two; the star magnitudes returned are likewise the per-star means, and without any common star all zero points are 1. The result does not depend on the order of rows in a catalogue nor on earlier calls with the same images in any role, and each catalogue keeps its own rows.",
 ["inputs", "histories", "configurations"], "every set of catalogues (number of images, missing stars, extra stars, row order), with or without a separate master, repeated calls with roles exchanged",
 "No test calls it directly; through subtract and coadd its result is never compared with anything.",
 [UT], [("catalogue matching, selection of common stars, linear system", UT + " transparency, _matching")],
 [("sourceid column", "match label written into each catalogue", UT)], ["transparency(...) return values, best_sources of the images afterwards"])

prop("C11", "Cross-matching pairs mutual nearest neighbours within the radius",
 "Cross-matching two position lists returns for every point of the first the distance and index of the nearest point of the second, or infinity and the length of the second list when none lies within the radius. Star identification between two catalogues pairs two stars exactly when each is the other's nearest and they lie within the matching radius, so no star is ever identified with two others; every star is told its partner's identity, or that it has none.",
 ["inputs"], "every pair of point sets, any radius, any row order, empty neighbourhoods",
 "No test calls the matching functions.",
 [UT], [("nearest neighbour query", UT + " crossmatch"), ("mutual check", UT + " _matching")],
 [], ["crossmatch(...)", "sourceid labels after transparency(...)"])

prop("C12", "Subtraction equals the proper-subtraction statistic for every option set",
 "For every combination of the fitted-PSF, flux-scale, shift and iterative options, the difference image, its PSF and the corrected score image equal the closed-form proper-subtraction expressions evaluated at the cleaned images, their PSFs, noise levels and the flux scale and shift in force. The scale and shift come from minimising the masked residual when requested and that minimisation succeeds (scale within 0.1 to 10, shifts within 0.9 pixel), the scale alone when only it is requested, the shift alone when only it is requested, and are otherwise the zero-point ratio and zero.",
 ["configurations", "inputs", "fault_sequences"], "all option combinations x optimiser outcome (success or failure) x image pairs, square or not",
 "Tests run six option sets on one pair, assert only that arrays come back, and never make the optimiser fail.",
 [OP], [("option dispatch, optimisers, closed-form assembly", OP + " subtract"), ("Gaussian PSF fit", SI + " SingleImageGaussPSF.get_variable_psf")],
 [], ["subtract(...) return values, optimiser calls"])

prop("C13", "Subtraction treats its two inputs symmetrically and leaves them usable",
 "Exchanging reference and new image (no flux-scale or shift fit) negates the difference image and keeps its PSF and mask; subtracting an image from itself gives zero; the results are the same whichever form the inputs are given in (array, masked array, FITS path, HDU, HDU list, image object), an image object of the other PSF class counting as the image made from its pixels and mask. The returned mask is a boolean array of the image's shape that is True exactly where either input is masked (after alignment: where either is masked or no pixel maps), images of different sizes are refused with ValueError, and the call leaves the callers' images, pixels, masks and star stamps intact and usable for further calls. The former name diff gives the same results and a DeprecationWarning.",
 ["inputs", "configurations", "histories"], "every pair of images x input form x PSF mode x align, and repeated calls on the same objects in either role",
 "Tests never swap, repeat, self-subtract, align or mask; they assert types only.",
 [OP], [("input normalisation, alignment, mask union, shape check", OP + " subtract")],
 [], ["subtract(...) return values; the input objects afterwards"])

prop("C14", "Score-map detection lists each significant region exactly once",
 "For every score map whose detection level is positive and every threshold, the catalogue has exactly one entry per connected group (edge-connected pixels) of pixels exceeding the threshold in units of the clipped standard deviation above the clipped mean (clipped at three deviations, three passes), located at that group's value-weighted centre given as column then row, with the significance of the pixel at that centre's coordinates with their fractions dropped. A map with no such pixel gives an empty catalogue.",
 ["inputs"], "every map (shape, blobs touching edges or corners, diagonal contacts), every threshold",
 "Only exercised inside strict star picking on one field; its output is never asserted.",
 [UT], [("labelling and centroiding", UT + " find_S_local_maxima")],
 [], ["find_S_local_maxima(...)"])

prop("C15", "The cleaned image is finite and keeps every good pixel",
 "The cleaned image of any image with at least one good pixel has the image's shape and only finite values; every pixel that is neither masked, non-finite nor detected as a cosmic ray keeps exactly its background-subtracted value, and every masked, non-finite or cosmic-ray pixel is replaced by a value interpolated only from the good pixels around it and the sky level zero (which counts beyond the borders and where no good pixel is within reach), so it never depends on what was stored there and lies within their range. A single bright pixel on empty sky (hundreds of counts, tens of times the noise) is detected as a cosmic ray. The cleaned image's transform is its unitary Fourier transform.",
 ["inputs"], "every pattern of masked, non-finite and cosmic-ray pixels, including regions wider than the interpolation window",
 "Tests check one isolated NaN and only that the sum is not NaN.",
 [SI], [("cosmic-ray detection, mask union and repeated interpolation", SI + " interped, interped_hat")],
 [], ["interped, interped_hat, bkg_sub_img"])

prop("C16", "Plots show each PSF component or coefficient exactly once, or refuse",
 "For every number of components, the default PSF and coefficient plots create a grid with at least that many axes and draw each component (each coefficient field) exactly once, in order, on the first axes, titled with its own index and sum (root sum of squares for a coefficient field), with contours exactly when asked for and styled as asked, for the information loss and stamp shape asked for. Too few supplied axes, unknown, private or non-callable plot names raise ValueError, and a coefficient plot of a single-component PSF raises the no-data error without drawing anything. The pictures of subtractions (plot_S, plot_R) return the axes that show the image given (its real part's logarithm for plot_R), write the file asked for, leave a figure open exactly when made for a notebook and leave the image as it was.",
 ["configurations", "inputs"], "every component count, user-supplied or default axes, every plot name and option",
 "Tests compare a figure drawn by the same code with itself for one component count.",
 [PL], [("grid choice and drawing loops", PL + " Plot.autopsf, autopsf_coef, primes"), ("plot name dispatch", PL + " Plot.__call__"), ("pictures of subtractions", PL + " plot_S, plot_R")],
 [], ["axes and images created by img.plot(...)"])

prop("C17", "Simulated images are reproducible and conserve what they place",
 "With a seed, simulated images are identical on every call whatever was simulated before and never advance the shared random stream; without one successive calls differ. Simulated point fields contain exactly the requested deltas with their weights (paired in order, at their row and column, a later one replacing an earlier one at the same pixel); coordinate products hold every combination once, the last coordinate running fastest, and keep the values of mixed types; mock PSFs are non-negative, centred, of unit sum and of the requested width along each axis for every size and width, and mirror-symmetric when not rotated; sky noise has the requested level; and a variable-PSF frame is its four simulated quadrants placed once each, down the columns.",
 ["inputs", "histories"], "every sequence of seeded and unseeded simulation calls, every size and width",
 "Tests use one seed, one size and sums at one size.",
 [ST], [("random stream selection", ST + " image, sim_varpsf"), ("kernels and point fields", ST + " Psf, astropy_Psf, airy_patron, delta_point, cartesian_product")],
 [("shared random stream", "module-level generator used when no seed is given", ST)], ["simtools functions"])

prop("C18", "Stored products read back as the same pixels and mask",
 "A stored image, plain or masked, real or complex, of any pixel type and memory layout, to memory or to file, reads back with the same (real part) pixel values to single precision and, exactly if it can be masked, with a second extension that is non-zero exactly at the masked pixels, so that loading it as an image with mask threshold 1 restores at least that mask; storing again replaces the file, leaves other files alone and never alters the caller's array. Simulated exposures are written under the returned path, one file per directory and number, with their pixels, date, time, Julian date, exposure and zero point.",
 ["inputs", "histories"], "every array kind x mask pattern (none, empty, partial) x destination, repeated stores",
 "Tests only check the type returned or that a file exists.",
 [UT, ST], [("HDU assembly", UT + " store_img"), ("exposure writer", ST + " store_fits")],
 [], ["store_img(...), store_fits(...), SingleImage(path)"])

prop("C19", "Alignment maps every image onto the first without losing bad pixels",
 "Coadding or subtracting with alignment puts every image on the pixel grid of the first (reference) image, which itself is used unchanged; the aligned image has the reference's shape, its stars coincide with the reference's, and it is what is combined. Its mask covers every pixel that falls a pixel or more beyond the source and every pixel whose four surrounding source pixels include a masked or non-finite one, and otherwise only pixels the image constructor's enlargement adds; the result's mask covers the masks of all of them. The caller's images keep their own pixels and masks, the images after the first their catalogues and stamps too, and the caller's list its elements.",
 ["inputs", "configurations"], "every shift or rotation between images, masks on either image, both operations, any number of images",
 "No test uses alignment at all.",
 [UT, OP], [("registration and re-wrapping", UT + " _align_for_coadd"), ("alignment branch", OP + " subtract, coadd")],
 [], ["coadd(align=True), subtract(align=True) return values; inputs afterwards"])

prop("C20", "The Gaussian PSF of an image has the shape of its stars",
 "The PSF of an image with the Gaussian PSF model has a single component and no coefficient field: a Gaussian rendered with unit peak at the centre of an array of odd sides. Its width tensor (the symmetric matrix with the two widths along their directions) is the mean of the width tensors fitted to the image's stamps, every stamp counting once except those beyond three standard deviations of the median in some component (iterated, at most five rounds); in particular stars that all have one well-sampled shape give that shape, in whatever direction they are elongated. The fit itself recovers position, width tensor, amplitude and background of a noise-free well-sampled Gaussian on a stamp of any sides, brightness and background, of either sign. Determining the PSF changes neither the image's pixels nor its mask nor the stamps, and gives the same when asked again.",
 ["inputs", "configurations"], "every set of stars and star shapes, every elongation and direction, strays among them, every stamp shape and background",
 "The Gaussian PSF class is never tested by itself; the only test passing through it subtracts one pair of round-star images.",
 [SI, UT], [("mean Gaussian", SI + " SingleImageGaussPSF.get_variable_psf"), ("fit of one stamp", UT + " fit_gaussian2d")],
 [], ["SingleImageGaussPSF(...).get_variable_psf()", "fit_gaussian2d(...)"])

prop("C21", "Bad pixels' values reach no result; sky and noise are the good pixels'",
 "What is stored in the masked pixels of an image has no influence on anything made of it: background, noise, background-subtracted good pixels, sources, star stamps, PSF, cleaned image, zero point and score, nor on a coadd or subtraction (with or without flux-scale fit, shift fit or alignment) the image takes part in: two images that agree in their good pixels and in their mask give the same results. The background has the shape of the image, and with the noise estimates the sky level and the standard deviation of the good pixels' noise (to a fraction of the noise; stars do not count); raising the sky by a constant raises the background by it and leaves the noise, scaling the image (by its values or its gain) scales both. The background-subtracted image is the image less its background, with its mask; reading any of these does not change the image.",
 ["inputs", "configurations"], "every image and pattern of bad pixels, every value stored in them (NaN, infinities, saturated, negative, star-like), every operation and option",
 "Tests look at background and noise of one image each; no test stores different values in bad pixels and compares.",
 [SI, OP, UT], [("sky and noise", SI + " _bkg, background, bkg_sub_img, var"), ("detection and cleaning", SI + " best_sources, interped"), ("combination", OP + " coadd, subtract"), ("registration", UT + " _register")],
 [], ["every product of SingleImage, and return values of coadd and subtract, of two images differing only in masked pixels"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
