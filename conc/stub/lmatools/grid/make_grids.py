import datetime
import numpy as np
from lmatools.grid.fixed import get_GOESR_coordsys


class FlashGridder(object):
    def __init__(self, start_time, end_time, do_3d=True, frame_interval=120.0, dx=4.0e3, dy=4.0e3, dz=1.0e3,
                 base_date=None, x_bnd=(-100e3, 100e3), y_bnd=(-100e3, 100e3), z_bnd=(-20e3, 20e3),
                 ctr_lat=33.5, ctr_lon=-101.5, ctr_alt=0.0, proj_name='aeqd', proj_datum='WGS84',
                 proj_ellipse='WGS84', pixel_coords=None, flash_count_logfile=None, energy_grids=None,
                 event_grid_area_fraction_key=None, spatial_scale_factor=1.0 / 1000.0, subset=None):
        self.start_time, self.end_time = start_time, end_time
        self.frame_interval = frame_interval
        self.do_3d = do_3d
        self.dx, self.dy, self.dz = dx, dy, dz
        self.base_date = base_date
        self.x_bnd, self.y_bnd, self.z_bnd = x_bnd, y_bnd, z_bnd
        self.ctr_lat, self.ctr_lon, self.ctr_alt = ctr_lat, ctr_lon, ctr_alt
        self.proj_name = proj_name
        self.pixel_coords = pixel_coords
        self.flash_count_logfile = flash_count_logfile
        self.energy_grids = energy_grids
        self.event_grid_area_fraction_key = event_grid_area_fraction_key
        self.spatial_scale_factor = spatial_scale_factor
        self.min_points_per_flash = 1
        self.time_setup()
        self.projection_setup()
        self.pipeline_setup()
        self.output_setup()

    def time_setup(self):
        dt = datetime.timedelta(0, self.frame_interval)
        n = int(np.ceil((self.end_time - self.start_time).total_seconds() / self.frame_interval))
        self.t_edges = [self.start_time + i * dt for i in range(n + 1)]
        b = self.base_date or self.start_time
        self.t_ref = datetime.datetime(b.year, b.month, b.day)
        self.t_edges_seconds = [(t - self.t_ref).total_seconds() for t in self.t_edges]
        self.n_frames = n
        self.duration = dt

    def projection_setup(self):
        def edges(b, d):
            n = int(round((b[1] - b[0]) / d))
            return b[0] + d * np.arange(n + 1)
        self.xedge = edges(self.x_bnd, self.dx)
        self.yedge = edges(self.y_bnd, self.dy)
        self.zedge = edges(self.z_bnd, self.dz)
        self.mapProj, self.geoProj = get_GOESR_coordsys(self.ctr_lon)
