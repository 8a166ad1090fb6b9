import numpy as np


def get_image_info_struct(nimage, path_len, *a, **k):
    return np.zeros(nimage, dtype=[('image_path', 'U%d' % path_len)])
