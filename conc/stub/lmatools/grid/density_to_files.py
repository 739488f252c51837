import numpy as np
from lmatools.stream.subset import coroutine


@coroutine
def flash_count_log(logfile, format_string="%s flashes in frame starting at %s"):
    while True:
        (yield)


@coroutine
def flashes_to_frames(time_edges, targets, time_key='start', do_events=False,
                      time_edges_datetime=None, flash_counter=None):
    assert len(time_edges) == len(targets) + 1
    while True:
        events, flashes = (yield)
        t = flashes[time_key]
        for i, target in enumerate(targets):
            fl = flashes[(t >= time_edges[i]) & (t < time_edges[i + 1])]
            if do_events:
                te = events[do_events]
                ev = events[(te >= time_edges[i]) & (te < time_edges[i + 1])]
            else:
                ev = events
            target.send((ev, fl))


@coroutine
def extract_events_for_flashes(target, flashID_key='flash_id'):
    while True:
        events, flashes = (yield)
        ids = set(flashes[flashID_key].tolist())
        m = np.array([i in ids for i in events[flashID_key].tolist()], dtype=bool)
        target.send((events[m], flashes))


@coroutine
def no_projection(x_coord, y_coord, z_coord, target, use_flashes=False):
    while True:
        events, flashes = (yield)
        p = flashes if use_flashes else events
        target.send((events, flashes, p[x_coord], p[y_coord], p[z_coord]))


@coroutine
def project(x_coord, y_coord, z_coord, mapProj, geoProj, target, use_flashes=False, transform=True):
    while True:
        events, flashes = (yield)
        p = flashes if use_flashes else events
        x, y, z = mapProj.fromECEF(*geoProj.toECEF(p[x_coord], p[y_coord], p[z_coord]))
        target.send((events, flashes, x, y, z))


@coroutine
def point_density(target, weight_key=None, weight_flashes=True):
    while True:
        events, flashes, x, y, z = (yield)
        w = None
        if weight_key is not None:
            w = (flashes if weight_flashes else events)[weight_key]
        if len(np.atleast_1d(x)) > 0:
            target.send((np.atleast_1d(x), np.atleast_1d(y), w))


@coroutine
def extent_density(x0, y0, dx, dy, target, flash_id_key='flash_id', weight_key=None,
                   event_grid_area_fraction_key=None):
    while True:
        (yield)
        raise NotImplementedError("lmatools extent_density")


@coroutine
def accumulate_points_on_grid(grid, xedge, yedge, out=None, label='', grid_frac_weights=False):
    while True:
        x, y, w = (yield)
        c, e = np.histogramdd((np.asarray(x, 'f8'), np.asarray(y, 'f8')), bins=(xedge, yedge), weights=w)
        grid += c.astype(grid.dtype)


accumulate_energy_on_grid = accumulate_points_on_grid_sdev = accumulate_minimum_on_grid = accumulate_points_on_grid
