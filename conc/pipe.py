"""Gridder set-ups shared by the gridding and imagery cases (stub lmatools)."""
import datetime as dtm
import numpy as np
from harness import get

EV = [("flash_id", "<i4"), ("x", "<f4"), ("y", "<f4"), ("time", "<f8"), ("mesh_frac", "<f8"), ("mesh_xi", "<i4"), ("mesh_yi", "<i4"), ("power", "<f4"),
      ("lutevent_count", "f4"), ("lutevent_flash_count", "f4"), ("lutevent_group_count", "f4"), ("lutevent_total_flash_area", "f4"),
      ("lutevent_total_group_area", "f4"), ("lutevent_min_flash_area", "f4")]
FL = [("area", "<f4"), ("total_energy", "<f4"), ("start", "<f8"), ("duration", "<f4"), ("ctr_x", "<f4"), ("ctr_y", "<f4"), ("ctr_z", "<f4"),
      ("flash_id", "<i4"), ("n_points", "<i2")]
STEP = 56e-6
X0 = -0.151844 - STEP / 2          # west edge of the fixed grid's first cell
NAMES = ["flash_extent_density", "flash_centroid_density", "average_flash_area", "total_energy", "group_extent_density", "group_centroid_density",
         "average_group_area", "minimum_flash_area"]
ATTRS = {"platform_ID": "G16", "orbital_slot": "GOES-East", "instrument_ID": "FM1"}
DAY = dtm.datetime(2018, 7, 2)


def gridder(rng, lut=True, nx=None, ny=None, frames=None):
    G = get("glmtools.grid.make_grids", "GLMlutGridder" if lut else "GLMGridder")
    nx, ny = nx or int(rng.randint(2, 9)), ny or int(rng.randint(2, 9))
    i, j = int(rng.randint(1500, 3000)), int(rng.randint(1500, 3000))
    fi = float(rng.choice([20., 60., 300.]))
    n = frames or int(rng.randint(1, 4))
    t0 = DAY + dtm.timedelta(0, 60 * int(rng.randint(0, 1300)))
    g = G(t0, t0 + dtm.timedelta(0, fi * n), do_3d=False, frame_interval=fi, dx=STEP, dy=STEP, x_bnd=(X0 + i * STEP, X0 + (i + nx) * STEP),
          y_bnd=(X0 + j * STEP, X0 + (j + ny) * STEP), z_bnd=(0, 1), dz=1, ctr_lon=float(rng.choice([-75.0, -75.2, -137.0])), proj_name="geos", event_grid_area_fraction_key="mesh_frac")
    g.first_file_attrs = dict(ATTRS)
    return g


def grids(g):
    return dict(zip(g.field_names, g.outgrids))
