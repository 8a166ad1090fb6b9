"""stand-in for ngmix: the contracts of the parts metadetect calls"""
__version__ = '2.3.2'
from . import flags, gexceptions, jacobian, observation, moments, shape, gmix
from . import medsreaders, metacal, gaussmom, prepsfmom, admom, bootstrap, fitting
from . import guessers, runners, priors, joint_prior
from .observation import Observation, ObsList, MultiBandObsList
from .jacobian import Jacobian, DiagonalJacobian
from .gexceptions import GMixFatalError, GMixRangeError, BootPSFFailure
from .gmix import GMixModel
