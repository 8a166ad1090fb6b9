A={
'P01':"shear_positions / unshear_positions under contract: the sky offset about the canonical centre is multiplied by exactly the matrix of that type (or its inverse), and the inverse of the Jacobian determines the position, so the composition of both contracts is the identity (proved as a session of its own through the callee contracts, for every Jacobian with non-zero determinant, |step|<1, any shape and number of positions). Unknown types are refused; the observation forms agree with the array forms.",
'P02':"The numba kernel is executed for an arbitrary hole and an arbitrary pixel; the loop over holes is a fold (OR), the loops over the clipped box are point-wise maps. `a hole covering a pixel is never cut` proves that the early-out box never loses a pixel; symmetrization by the 90 degree map.",
'P03':"The profile `_ap_kern_kern` has a contract of its own (values in [0,1], zero six scales inside, one exactly at and beyond the edge, never decreasing — non-linear real arithmetic); the mask is a product fold over the holes of that contract.",
'P04':"The four taper loops are point-wise maps over a symbolic shape; images smaller than the range are not a special case. Uses the profile contract of P03.",
'P05':"Loops over bands and epochs write into one symbolic array family; the postcondition is per (band, epoch, pixel), frames (PSF, OR-mask, presence of optional maps) included.",
'P06':"As P05 for the hole corrections, with mask, profile and interpolation by the contracts of P02, P03, P07; one session per method, optional maps and expansion; arguments handed to the callees are obligations (rows and columns are not exchanged, same for every band).",
'P07':"The image after the call is specified pixel-wise from the contract of the neighbour search and of the scipy interpolator; refusals exactly above the allowed fraction.",
'P08':"`_get_clipped_boxes` proved for every start and box; `get_cutout` for every stamp type with pixel-wise postcondition and aliasing.",
'P09':"Per-row postconditions for any number of objects in both makers of stamp catalogues, and the readers they return.",
'P10':"Sizes for any number of detections; the table of allowed sizes is built by the real code and proved increasing; `no smaller allowed size would do` quantifies over the whole table.",
'P11':"Weighted sums over any number of bands as folds with symbolic median contracts; the excluded-pixel map is an any-fold of the bits.",
'P12':"The region lookup is an OR fold over a clipped window of symbolic size, bit-vector level.",
'P13':"OR folds and weighted mean over an arbitrary list of bands; freshness of the result.",
'P14':"Double fold over bands and epochs.",
'P15':"`go` against contracts of its callees with every combination of outcomes (data unusable, failed metacal, empty catalogues); `_do_detect`, `_go_bands`, `_get_all_metacal` each under their own contract.",
'P16':"Cache invariant: the state before the request is arbitrary subject to the invariant, so histories are covered by induction.",
'P17':"Per-row postcondition for any table, mask and catalogue; the lookups by the contract of P12, geometry by P01.",
'P18':"The colour-dependent run for any number of detections, with any colour function; loop over the detections by invariant, rows in order.",
'P19':"Moment sums as folds over any number of bands and any selection of shear bands; regularization and flags per row.",
'P20':"Every path through both fits, including those ending in exceptions of the library, ends in the documented flags; values are the fitter's or NaN.",
'P21':"Pixel-wise weighted means with the bands of one object; refusals and flags are an exact case distinction; inputs unchanged.",
'P22':"Pixel-wise with symbolic square shape and the four rotations.",
'P23':"Structured arrays of symbolic length; names, types and values of every column.",
'P24':"Per-position postcondition through stamp and moment contracts.",
'P25':"The module's constants are read from the executed module, so adding or changing one changes the obligations; names for all 2^31 combinations (bit-vectors).",
'P26':"All subsets of present keys at both levels (symbolic presence), one arbitrary unknown key per level; identity of default and user dictionaries as frame.",
'P27':"As P05 and P06 for exposures: image, noise, variance, mask plane, masked fraction, OR-mask in each band.",
'P28':"Folds over bands, per-row lookups for any number of rows, stamps clipped to the exposure.",
'P29':"Averages over any list of shear bands; any outcome of each band's fit, exceptions included.",
'P30':"galsim objects are terms (uninterpreted constructors), so the drawn object is compared structurally with the required composition of deconvolution, shear and convolution per type and band; variance, mask, WCS and filter carried over; no shared pixels.",
'P31':"Pixel-wise both ways, Jacobian columns from the WCS contract, boxes by exact integer arithmetic.",
'P32':"Pixel-wise folds over any number of exposures, including exposures without usable pixels.",
'P33':"State invariant of the subtractor (image = data − Σ models not inserted) preserved by insertion, removal and the exit of the block, also by an exception; hence any history.",
'P34':"The measurement loop runs over any number of sources by invariant: row i belongs to the i-th measured source; all exits of detection, deblending and stamp making.",
'P35':"Induction over the nesting: the recursive call is by contract; options are arbitrary.",
'P36':"Set-up of the fitters for single and list settings with symbolic presence of the optional keys; the use of fitter k on every object by the contracts of P19 and P20.",
}
