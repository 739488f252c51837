import numpy as np

goesr_full = {'resolution': '1.0km', 'spanEW': 0.151872 * 2, 'spanNS': 0.151872 * 2, 'centerEW': 0.0, 'centerNS': 0.0}
goesr_conus = {'spanEW': 0.14, 'spanNS': 0.084, 'centerEW': -0.031360, 'centerNS': 0.086240}
goesr_meso = {'spanEW': 0.028, 'spanNS': 0.028}
goesr_resolutions = {'0.5km': 14e-6, '1.0km': 28e-6, '2.0km': 56e-6, '4.0km': 112e-6, '8.0km': 224e-6, '10.0km': 280e-6,
                     '100.0km': 2800e-6}


class _Geo(object):
    def __init__(self, lon0):
        self.lon0 = lon0

    def fromECEF(self, x, y, z):
        return x + self.lon0, y, z


class _Fix(object):
    def toECEF(self, x, y, z):
        return x, y, z


def get_GOESR_coordsys(sat_lon_nadir=-75.0):
    return _Fix(), _Geo(sat_lon_nadir)
