# values of ngmix.flags (ngmix 2.3)
NO_ATTEMPT = 2**0
CEN_SHIFT = 2**1
NONPOS_FLUX = 2**2
NONPOS_SIZE = 2**3
LOW_DET = 2**4
MAXITER = 2**5
NONPOS_VAR = 2**6
GMIX_RANGE_ERROR = 2**7
NONPOS_SHAPE_VAR = 2**8
LM_SINGULAR_MATRIX = 2**9
LM_NEG_COV_EIG = 2**10
LM_NEG_COV_DIAG = 2**11
EIG_NOTFINITE = 2**12
LM_FUNC_NOTFINITE = 2**13
DIV_ZERO = 2**14
ZERO_DOF = 2**15

NAME_MAP = {
    NO_ATTEMPT: "no attempt",
    CEN_SHIFT: "center shifted too far",
    NONPOS_FLUX: "flux <= 0",
    NONPOS_SIZE: "T <= 0",
    LOW_DET: "determinant near zero",
    MAXITER: "max iterations",
    NONPOS_VAR: "non-positive (definite) variance",
    GMIX_RANGE_ERROR: "GMixRangeError raised",
    NONPOS_SHAPE_VAR: "non-positive shape variance",
    LM_SINGULAR_MATRIX: "singular matrix in LM",
    LM_NEG_COV_EIG: "negative covariance eigenvalue in LM",
    LM_NEG_COV_DIAG: "negative covariance diagonal in LM",
    EIG_NOTFINITE: "eigenvalues not finite",
    LM_FUNC_NOTFINITE: "function not finite in LM",
    DIV_ZERO: "division by zero",
    ZERO_DOF: "zero degrees of freedom",
}


def get_flags_str(val, name_map=None):
    """Get a descriptive string given a flag value."""
    if name_map is None:
        name_map = NAME_MAP

    if type(val).__module__ == 'numpy':
        val = val.astype('i8')
    nstrs = []
    for pow in range(32):
        fval = 2**pow
        if ((val & fval) != 0):
            if fval in name_map:
                nstrs.append(name_map[fval])
            else:
                nstrs.append("bit 2**%d" % pow)
    return "|".join(nstrs)
