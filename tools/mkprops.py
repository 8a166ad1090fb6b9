"""writes /verif/properties.jsonl from the table below"""
import json
P = []


def add(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


M = 'metadetect/masking.py'
add('P01', 'Sheared positions map back exactly to unsheared sky positions',
    'Mapping pixel positions into a sheared frame applies exactly the metacal shear matrix of that type (plus or minus the step in the first or second component) in sky coordinates about the canonical image centre ((rows-1)/2, (cols-1)/2), and the inverse mapping applies its inverse; one after the other returns the starting positions for any invertible WCS, any shear type, any step with magnitude below one, any image shape and any number of positions. For the unsheared and PSF-sheared types both directions return their input unchanged, and any other type is refused.',
    ['inputs'], 'all row/col arrays, shear types, steps, invertible affine WCS and image shapes',
    'The tests compare a few positions of one 2-d WCS with a tolerance; the matrix, the centre and the inverse are only right if they are right for every WCS and shape (non-square images in particular).',
    ['metadetect/shearpos.py'],
    [('forward map', 'metadetect/shearpos.py: shear_positions'), ('inverse map', 'metadetect/shearpos.py: unshear_positions'), ('shear of a type', 'metadetect/shearpos.py: get_galsim_shear')])
add('P02', 'Foreground-hole bit mask marks exactly the covered pixels',
    'The mask made for circular foreground holes has the requested bits at a pixel if and only if the pixel lies strictly inside at least one hole (or, when symmetrizing, the pixel it is rotated onto by the 90 degree rotation does), and is zero elsewhere, whatever the number of holes and even when hole centres lie off the image.',
    ['inputs'], 'all lists of hole centres and non-negative radii, all image shapes, all bit values, with and without symmetrization (square images)',
    'Tests draw a couple of holes on one image size; early-outs for holes off the image and overlaps need every geometry.',
    [M], [('hole rasterisation', M + ': _do_mask_foreground'), ('off-image cut', M + ': _intersects'), ('symmetrized mask', M + ': make_foreground_bmask')])
add('P03', 'Foreground apodization mask is the product of smooth hole profiles',
    'The foreground apodization mask equals, at every pixel, the product over the holes containing the pixel of the cumulative triweight profile evaluated at the distance from the hole centre, (times the same quantity at the 90 degree rotated pixel when symmetrizing); pixels inside no hole keep the value one. The profile is between zero and one, is zero from six kernel scales inside the hole edge inwards, never decreases outwards and reaches one at the edge.',
    ['inputs'], 'all hole lists, positive kernel scales, image shapes',
    'Tests check value ranges on sampled holes; the profile bounds and monotonicity are statements about a degree seven polynomial over a continuum.',
    [M], [('profile', M + ': _ap_kern_kern'), ('hole loop', M + ': _do_apodization_mask'), ('symmetrized mask', M + ': make_foreground_apodization_mask')])
add('P04', 'Edge apodization mask tapers each edge once, for any image shape',
    'The edge apodization multiplies each pixel by the taper of its distance to each of the four edges, each factor applied exactly once and only within the taper range int(6 s + 0.5) of that edge, for any image shape including images smaller than the range and non-square ones; every factor lies in [0,1], so the result never exceeds the input mask and never leaves [0,1].',
    ['inputs'], 'all image shapes, all positive taper scales',
    'Tests build the mask for one square shape, where overlapping tapers and row/column mix-ups do not show.',
    [M], [('edge taper', M + ': _build_square_apodization_mask'), ('range', M + ': get_ap_range')])
add('P05', 'Edge apodization is applied consistently to every band and epoch',
    'Applying the edge taper changes, in every epoch of every band, exactly the pixels whose taper is below one: image and noise are multiplied by the taper, the given bits are added to the bit mask, the weight becomes zero and the masked fraction (when present) one; all other pixels and bits stay as they were.',
    ['inputs'], 'all multi-band observation sets with common image shape, all taper scales and bit values',
    'Tests use one or two bands and one epoch, so a band or epoch skipped, or one array left behind, is not seen.',
    [M], [('edge application', M + ': apply_apodization_corrections')])
add('P06', 'Foreground corrections mask every band and epoch identically',
    'With any correction method, every epoch of every band gets the hole bits OR-ed into its bit mask (for the interpolating methods at the pixels covered by the holes, given non-zero bits; for the apodizing method where the hole profile is below one), zero weight and full masked fraction there, and no change of weight or masked fraction outside; the apodizing method multiplies image and noise by the hole profile everywhere, the interpolating methods replace only masked pixels and add the interpolation bit there, and when interpolation is impossible the whole image is flagged and given zero weight instead. When an expansion radius is given, exactly the pixels of the expanded holes get the expansion bit; an unknown method is refused.',
    ['inputs', 'configurations'], 'all hole lists, methods, observation sets, expansion radii',
    'Tests exercise each method on one band set with sampled holes and do not check the fall-back or the per-epoch frame condition.',
    [M], [('interpolating correction', M + ': _apply_mask_interp'), ('apodizing correction', M + ': _apply_mask_apodize'), ('dispatch and expansion', M + ': apply_foreground_masking_corrections')])
add('P07', 'Masked-pixel interpolation touches only masked pixels',
    'Interpolation over masked pixels returns a new image in which every unmasked pixel keeps its exact value, masked pixels are filled from good pixels within the search buffer (or, when noise filling is enabled, noise of variance 1/weight for masked pixels with no good pixel within the isolation buffer), and the inputs are not modified; nothing is returned exactly when the masked fraction exceeds the allowed maximum (or every pixel is masked); an image with nothing left to interpolate comes back as a copy. The neighbour search reports every masked pixel once, and as good pixels exactly the unmasked in-bounds pixels within the buffer of some masked pixel. (The good pixels found must not all lie on one line, as the triangulation needs.)',
    ['inputs'], 'all image shapes, masks, buffers',
    'The two interpolation tests sample two masks; neighbour bookkeeping at image borders and repeated neighbours need all masks.',
    ['metadetect/interpolate.py'], [('neighbour search', 'metadetect/interpolate.py: _get_nearby_good_pixels'), ('interpolation', 'metadetect/interpolate.py: interpolate_image_at_mask')])
D = 'metadetect/detect.py'
add('P08', 'Postage stamps reproduce the image pixels and pad outside',
    'A stamp of any type has the requested box size, holds at each of its pixels the image pixel at stamp start plus offset when that pixel is inside the image, and the default padding value of its type elsewhere (bit mask padding marks the edge, weight padding is zero); the source image is not modified and an unknown type is refused.',
    ['inputs'], 'all image shapes, positions in the image, box sizes (including boxes larger than the image) and stamp types',
    'Stamps are only looked at through complete runs, with objects far from the edges.',
    [D, 'metadetect/defaults.py'], [('cutout', D + ': MEDSInterface.get_cutout'), ('clipping', D + ': MEDSInterface._get_clipped_boxes'), ('padding values', 'metadetect/defaults.py: DEFAULT_IMAGE_VALUES')])
add('P09', 'Stamp catalogue geometry is consistent for every object',
    'For every object the recorded original position is the input position, the stamp starts half a box before the integer part of that position plus one (never before the image), ends half a box after plus one (never beyond the image), and start plus in-stamp position equals the original position in both axes (positions not below -1, recorded in single precision); WCS derivatives, PSF centre, ids and numbers are filled for every object with rows and columns not exchanged.',
    ['inputs'], 'all positions, box sizes, image shapes, Jacobians; detection catalogues and given catalogues',
    'No test looks at the catalogue; a row/column exchange is invisible on square images with symmetric WCS.',
    [D], [('given catalogue', D + ': CatalogMEDSifier._set_cat_and_seg'), ('detected catalogue', D + ': MEDSifier._run_sep')])
add('P10', 'Box sizes are the smallest allowed size that is large enough',
    'For limits 1 <= min <= max, every object gets a box size that is one of the allowed sizes within the configured limits (or the configured maximum), the smallest such size not below its wanted size clipped to the limits, for both ways of computing the wanted size (isophotal radius with factor and padding; the largest of the detection extents and the flux-radius size); an unknown box type is refused and an empty catalogue gives no sizes.',
    ['inputs', 'configurations'], 'all catalogues and size configurations',
    'Tests run one size configuration; boundaries between sizes and limits that are not allowed sizes need all configurations.',
    [D, 'metadetect/defaults.py'], [('box sizes', D + ': MEDSifier._get_box_sizes'), ('flux radius size', D + ': MEDSifier._get_sigma_size')])
add('P11', 'Detection image is the inverse-variance weighted sum of the bands',
    'When every band has some positive weight, the detection image is the weighted sum of the band images with weights proportional to the median positive weight of each band and summing to one, its noise is the inverse root of the summed weights, and a pixel is excluded from detection if and only if some band has one of the no-detect bits there; input images are not modified.',
    ['inputs'], 'all numbers of bands, images, weights, bit masks and no-detect flags',
    'Tests detect on simulated images where any positive combination finds the same objects.',
    [D], [('detection image', D + ': MEDSifier._set_detim'), ('band variances', D + ': MEDSifier._get_image_vars')])
MD = 'metadetect/metadetect.py'
add('P12', 'Mask columns hold the OR of the mask near each object',
    'The mask value recorded for an object is the mask at the nearest pixel (either neighbour for half-way positions; positions outside are moved to the nearest edge pixel), or, when a region larger than one is configured, the bitwise OR over all mask pixels within that many pixels in rows and columns, clipped to the image; rows and columns are never exchanged.',
    ['inputs', 'configurations'], 'all masks, positions, region sizes, image shapes',
    'Tests place single set bits by hand; edges, non-square images and rounding need every position.',
    [MD], [('mask column', MD + ': _fill_in_mask_col'), ('rounding', MD + ': _clip_and_round')])
add('P13', 'Band combination of masks and masked fractions',
    'The combined OR-mask and bit mask are the bitwise OR over exactly the selected bands, the combined masked fraction is the mean over the bands weighted by each band\'s median positive weight (bands without positive weight or masked fraction contribute zero; all-one when no band has weight), and none of the input arrays is modified; more than one epoch per band is refused.',
    ['inputs'], 'all numbers of bands, masks, weights; presence or absence of masked fraction',
    'Tests use identical bands or one band, for which any average is right.',
    [MD], [('mask OR', MD + ': Metadetect._get_ormask_and_bmask'), ('masked fraction', MD + ': Metadetect._get_mfrac')])
add('P14', 'Original-PSF statistics are weighted means over all epochs and bands',
    'The reported original-PSF ellipticity and size are the means of the per-epoch fits over all bands and epochs weighted by each epoch\'s maximum weight with zero flags, and when the weights sum to zero or the PSF fits failed the PSF-failure flag is set (together with the given flags) and the values are NaN.',
    ['inputs'], 'all numbers of bands and epochs, weights and PSF results in either ellipticity convention',
    'End-to-end tests use one constant PSF, for which every average is the same.',
    [MD], [('PSF statistics', MD + ': _get_psf_stats')])
add('P15', 'A run yields either no result or a complete set of sheared catalogues',
    'A run returns no result exactly when nothing can be measured (no pixel with masked fraction below one, some image with all-zero weight or entirely covered by no-detect bits, or failed metacal PSF fits); otherwise the result has an entry for every requested metacal type, holding the stacked catalogues of every band combination in order, or nothing when no combination produced rows for that type.',
    ['inputs', 'configurations'], 'all observation sets, band combinations, metacal type lists, detection outcomes',
    'Tests cover a few failing configurations; combinations of failures per type and per band combination are not reached.',
    [MD], [('result protocol', MD + ': Metadetect.go'), ('per-combination run', MD + ': Metadetect._go_bands')])
add('P16', 'Per-colour data are computed once per key and never mixed up',
    'For any sequence of requests, the prepared data returned for a colour key and band combination depend only on that key\'s observations and those bands: metacal and PSF fits run once per key, masks, masked fractions and PSF statistics once per band combination, and a colour key whose observations are the main observations shares the main data.',
    ['histories', 'inputs'], 'all request sequences over keys and band combinations',
    'Tests issue one order of requests; cache keys that collide only show for particular sequences.',
    [MD], [('data cache', MD + ': Metadetect._get_mbobs_data')])
add('P17', 'Catalogue columns carry the right positions, masks and PSF values',
    'Each output row carries its own detection position, that position mapped back to the unsheared frame with the configured step, the mask and masked-fraction values looked up at both positions with the right mask and region, the PSF statistics, the mean masked fraction of the image and the sorted detection bands; the measured columns are unchanged.',
    ['inputs', 'configurations'], 'all catalogues, shear types, region configurations',
    'Tests check that columns exist and are in range.',
    [MD], [('positions and PSF', MD + ': Metadetect._add_positions_and_psf')])
add('P18', 'Colour-dependent runs measure each detection with its own colour data',
    'With colour-dependent observations each detection is measured on the observations prepared for the colour of that detection, at its own position and box size, with the masks and PSF statistics of that colour, in detection order; detections whose colour data could not be prepared are dropped, and the mode is refused without a weighted-average first fitter or with only one of the two colour inputs.',
    ['inputs', 'histories'], 'all detection lists, colour functions and colour data sets',
    'Tests use one colour rendering for all objects.',
    [MD], [('colour run', MD + ': Metadetect._go_bands_with_color')])
F = 'metadetect/fitting.py'
add('P19', 'Averaged shape uses only the shear bands, weighted by their weights',
    'The averaged moments are the weighted means over exactly the shear bands with weights equal to the median positive weight of each band (moments divided by their finite normalisation), the covariance is the correspondingly weighted squared-weight sum, PSF shape and size are averaged with weights multiplied by the object to PSF flux ratio, every band flux column holds that band\'s own flux, size regularization acts on the size moment only, and when any shear band is flagged (or no shear band has weight) no average is formed and the flags say so; the row\'s flags combine object, PSF and flux flags of all bands.',
    ['inputs'], 'all numbers of bands, shear-band subsets, fit results, flags and weights',
    'Tests sample two- and three-band results with one failing band at a time.',
    [F], [('weighted average', F + ': _sum_bands_wavg, _combine_fit_results_wavg, fit_mbobs_wavg, _fit_obs, _fit_obslist'), ('row assembly', F + ': _make_mom_res'), ('list of objects', F + ': fit_mbobs_list_wavg')])
add('P20', 'Failure flags reach the output columns and never disappear',
    'Whenever an input of a measurement (with at least one band) is unusable (zero weight, masked by the given bits at the edge, missing data, failed PSF fit, failed fit), the corresponding flag bits are set in the flags column of the row and the measured values that could not be formed are NaN; flags raised by any stage are all in the row, and a successful fit has zero flags with the measured values copied.',
    ['inputs', 'fault_sequences'], 'all combinations of failing inputs per band',
    'Each test triggers one failure in isolation.',
    [F, 'metadetect/procflags.py'], [('flags', F + ': fit_mbobs_wavg, fit_mbobs_gauss, fit_mbobs_admom, fit_mbobs_list_joint'), ('flag values', 'metadetect/procflags.py')])
add('P21', 'Coadding bands is an inverse-variance mean with OR-ed masks',
    'Coadding several bands of one object gives, at every pixel, the mean of the image, noise, PSF and masked fraction with normalised weights equal to each band\'s median positive weight, the weight 1/sum(w^2/weight) (zero where any band has zero weight), and the OR of the masks; a band without any weight or no common usable pixel is reported as zero weight, and mixed presence of optional maps, missing PSFs, out-of-range bands or differing shapes or WCS as inconsistent bands, both without a coadd; a single band is returned as it is, and the inputs are not modified.',
    ['inputs'], 'all numbers of observations, images, weights and masks',
    'Tests coadd a couple of simulated observations and look at derived shapes.',
    [F], [('coadd', F + ': make_coadd_obs')])
add('P22', 'Weight symmetrization zeroes exactly the rotated counterparts',
    'Symmetrizing the weights of an observation on a square grid with non-negative weights sets to zero every pixel that has zero weight or whose counterpart under one of the 90 degree rotations has, leaves every other weight, the image and the masks unchanged, and does not modify the input observation; a map that ends up all zero is kept as such.',
    ['inputs'], 'all square non-negative weight maps',
    'Tests sample one pattern of zeros.',
    [F], [('symmetrization', F + ': symmetrize_obs_weights')])
add('P23', 'Combining fitters keeps every column of every fitter',
    'Combining the results of several fitters keeps for each object the columns of every fitter that produced a result, with their own values and without renaming, keeps the shared shear-band column once (it must agree), ignores fitters without result, gives no result when there is none, and refuses results of different lengths; a single result is returned as it is.',
    ['inputs', 'configurations'], 'all lists of fitter results',
    'Tests combine two particular fitters.',
    [F], [('combination', F + ': combine_fit_res')])
add('P24', 'Masked fraction at a position is a weighted average over real pixels',
    'The masked fraction reported for an object is the Gaussian-weighted average of the masked-fraction image over the pixels of its stamp that lie in the image (padding pixels have no weight; a stamp that would start outside the image starts at its edge), is one when the box size is not positive or the stamp has no usable pixel, has one entry per position in order, and the observation is not modified.',
    ['inputs'], 'all positions, box sizes, masked-fraction images',
    'Tests evaluate a few positions on constant images.',
    ['metadetect/mfrac.py'], [('masked fraction', 'metadetect/mfrac.py: measure_mfrac')])
add('P25', 'Processing flags are distinct bits with distinct names',
    'All processing flags, including those inherited from the measurement library, are distinct single bits that fit a signed 32-bit column, every one has a name, and the name of a combination lists exactly the names of its bits.',
    ['inputs'], 'all flag values',
    'No test looks at the flag values together.',
    ['metadetect/procflags.py'], [('flag table', 'metadetect/procflags.py')])
add('P26', 'Survey configuration merging keeps user choices and refuses unknown keys',
    'The merged survey configuration has the default keys with the user\'s value where given and the default elsewhere, at the top level and within each sub-configuration (merged one level deep), never modifies the user\'s or the default configuration, and refuses unknown keys at the top level and in the detection and pgauss settings; metacal settings are passed through.',
    ['configurations'], 'all user configurations',
    'Tests merge a handful of configurations and reuse the defaults afterwards without checking they are intact.',
    ['metadetect/lsst/configs.py'], [('merge', 'metadetect/lsst/configs.py: get_config')])
LM = 'metadetect/lsst/masking.py'
add('P27', 'Survey edge and bright-object masking hit the same pixels in all bands',
    'For survey exposures, edge apodization and bright-object masking change exactly the pixels whose taper is below one, in the image, the noise, the masked fraction and the mask plane of every band, giving full masked fraction, infinite variance (zero weight) and the right mask bit there and leaving everything else untouched.',
    ['inputs'], 'all band sets, hole lists and taper scales',
    'The tests need the survey stack and sample one simulated field.',
    [LM], [('edge', LM + ': apply_apodized_edge_masks_mbexp'), ('bright objects', LM + ': apply_apodized_bright_masks_mbexp')])
L = 'metadetect/lsst/metadetect.py'
add('P28', 'Survey catalogues: masks and masked fractions at object positions',
    'For survey data the combined OR-mask is the bitwise OR over bands, the mask value and the Gaussian-weighted masked fraction recorded for an object are taken at the pixels around the object with rows and columns in their places and stamps clipped to the image, and missing masked-fraction images count as zero masked fraction.',
    ['inputs'], 'all band sets, positions and image shapes',
    'The tests need the survey stack and use square images with constant masked fraction.',
    [L], [('OR-mask', L + ': combine_ormasks, add_ormask'), ('masked fraction', L + ': get_mfrac_mbexp, measure_weighted_mfrac')])
add('P29', 'Survey original-PSF failures are reported, not raised',
    'The original-PSF statistics of survey data are the mean of the per-band PSF fits over the shear bands, weighted by the given band weights, with zero flags, the number of shear bands and the fits of every band, each PSF being the one at the centre of the exposure; when any band\'s fit fails they carry the PSF failure flag and the sentinel -9999 instead of raising, and the statistics are copied to every row of the catalogue.',
    ['inputs', 'fault_sequences'], 'all numbers of bands and fit outcomes',
    'No test makes a PSF fit fail.',
    [L], [('PSF statistics', L + ': fit_original_psfs_mbexp, add_original_psf; lsst/util.py: extract_shear_band_indices, extract_psf_image')])
LX = 'metadetect/lsst/metacal_exposures.py'
add('P30', 'Survey metacal images: every type and band gets its own shear and noise',
    'Every requested metacal type yields for every band, in order, an exposure whose image is the deconvolved band image sheared by exactly the step of that type (0.01 in the first or second component, with its sign; not at all for noshear) and convolved with the dilated round target PSF of that band, plus the band\'s noise image treated alike after a quarter turn and turned back, with doubled variance, the target PSF set, and mask, WCS and filter carried over; unknown types and PSF statistics of another number of bands are refused, exposures of different types share no pixels and inputs are not modified.',
    ['inputs', 'configurations'], 'all type lists and band sets',
    'The tests need the survey stack and compare one simulated field.',
    [LX], [('fixnoise', LX + ': get_metacal_mbexps_fixnoise')])
LU = 'metadetect/lsst/util.py'
add('P31', 'Survey exposure and stamp conversions preserve pixels and geometry',
    'Converting a survey exposure to an observation copies image and mask bits (into the chosen mask, the other one being empty) pixel by pixel, gives weight 1/variance where the variance is positive and zero elsewhere, the PSF image at the rounded centre of its bounding box, and Jacobians with the derivatives of the WCS there, rows and columns in their places relative to the corner of the box; converting an observation to an exposure does the reverse with infinite variance where the weight is zero. The stamp of a source covers the requested size about its peak in every band, clipped to the exposure or refused; its observation has the exposure\'s pixels and mask, the inverse median positive variance as weight (refused when no variance is positive), the PSF at the centroid and the WCS derivatives at the source (at its peak when the sky position is nan). Inputs are not modified.',
    ['inputs'], 'all exposures, sources, stamp sizes and WCS',
    'The tests need the survey stack and one tangent-plane WCS.',
    [LU], [('conversion', LU + ': exp2obs, obs2exp, extract_obs'), ('stamps', LU + ': get_bbox, get_stamp_mbobs'), ('Jacobian', LU + ': get_jacobian')])
add('P32', 'Survey coadd of bands is an inverse-variance mean with OR-ed masks',
    'The coadd of survey exposures is at every pixel the mean of the band images weighted by the inverse of each band\'s median positive variance (bands whose variance at the pixel is not positive adding nothing), with variance equal to the inverse of the summed inverse variances there (infinite where no band has positive variance), the mask the bitwise OR over bands, the PSF the mean of the band PSFs with the same weights normalised to unit sum, and inputs are unchanged; bands without any positive variance only contribute their mask and without any usable band there is no coadd; the coadd of the band observations of a stamp is the mean of their images weighted by each band\'s median positive weight, with the sum of the weights and a PSF averaged alike.',
    ['inputs'], 'all numbers of bands',
    'The tests need the survey stack.',
    [LU], [('coadd', LU + ': coadd_exposures, coadd_mbobs')])
MS = 'metadetect/lsst/model_subtractor.py'
add('P33', 'Model subtraction and restoration are exact inverses',
    'A model subtractor holds a copy of the exposures with the model of every source subtracted inside the bounding box of its footprint, in every band; within the block of a source exactly that source\'s model is added back, on leaving the block, also by an exception, it is subtracted again whatever was done inside, so that after any history the image is the data minus the models of the sources not inserted. Variances, masks and the original exposures never change, the full model is the sum of the models, stamps have the requested size about the peak clipped to the image or refused, or the footprint\'s box, and unknown sources are refused.',
    ['histories', 'inputs'], 'all sequences of additions and removals, sources, stamps and failures inside a block',
    'The tests need the survey stack and restore one source at a time.',
    [MS], [('add/remove', MS + ': ModelSubtractor')])
LE = 'metadetect/lsst/measure.py'
add('P34', 'Survey measurement yields one row per detected object with its own bits',
    'For survey data every detected object without children of its own is measured once and yields exactly one row, in the order the objects are measured, with its own fits, position (centroid, or the peak when there is no centroid, and the offset from the peak), sky position and detection-image mask value at its peak without the detection bit; objects whose stamp leaves the image or has no usable weights get a row with the corresponding stamp flag and default values instead of being dropped; unknown objects are refused; no detection and no usable data give an empty result instead of an exception, and every sheared image has an entry in the result.',
    ['inputs', 'fault_sequences'], 'all detection lists with parents and children and all failure positions',
    'The tests need the survey stack and measure a clean field.',
    [LE, 'metadetect/lsst/mbobs_extractor.py', 'metadetect/lsst/metadetect.py'], [('measurement loop', LE + ': measure'), ('row', LE + ': get_output, _get_combined_struct, get_bmask'), ('detection', LE + ': DetectAndDeblendTask.run'), ('stamps', 'metadetect/lsst/mbobs_extractor.py: MBObsExtractor')])
LS = 'metadetect/lsst/skysub.py'
add('P35', 'Configuration overrides take effect at every level',
    'Overriding the configuration of a survey task sets exactly the named options, at every nesting level and of every type, to the given values and leaves all other options alone.',
    ['configurations'], 'all nested override dictionaries',
    'No test overrides nested options.',
    [LU], [('override', LU + ': override_config')])
add('P36', 'Each configured fitter runs on every object with its own settings',
    'For every sheared image each configured fitter measures every detected object exactly once with its own model, aperture, smoothing, size regularization, symmetrization and coadd settings (defaults: wmom, symmetrized, no coadd) and the run\'s shear bands and bit-mask flags, results are combined in the configured order and rows get the positions and masks of the same run; default band combinations are all bands, "shear_bands" detection uses the shear bands, and an unknown model, missing metacal or stamp settings, or a list of fitters together with single-fitter settings are refused.',
    ['configurations', 'inputs'], 'all fitter configurations and band combinations',
    'Tests run a handful of fitter configurations; settings that leak from one fitter to the next or are ignored only show for particular combinations.',
    [MD], [('fitter set-up', MD + ': Metadetect._set_fitter'), ('measurement', MD + ': Metadetect._measure'), ('set-up', MD + ': Metadetect.__init__, _set_config')])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
