from . import metacal as _m
from .metacal import get_all_metacal, _get_gauss_target_psf, _get_ellip_dilation
from . import metacal
from .defaults import DEFAULT_STEP, METACAL_TYPES, METACAL_MINIMAL_TYPES
