DEFAULT_STEP = 0.01
METACAL_TYPES = ['1p', '1m', '2p', '2m', '1p_psf', '1m_psf', '2p_psf', '2m_psf',
                 'noshear']
METACAL_MINIMAL_TYPES = ['noshear', '1p', '1m', '2p', '2m']
