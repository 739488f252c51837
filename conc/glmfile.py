"""Synthetic LCFA-like files and datasets with arbitrary trees."""
import os
import tempfile
import shutil
import contextlib
import numpy as np


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="glmverif-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def distinct(rng, n, hi, lo=0):
    """n distinct ids in random order; now and then the smallest and the largest id there is are among them"""
    a = _distinct(rng, n, hi, lo)
    for v in (lo, hi - 1):
        if n and rng.rand() < .2 and v not in a:
            a[rng.randint(n)] = v
    return a


def _distinct(rng, n, hi, lo):
    if n == 0:
        return np.zeros(0, dtype="i8")
    mode = rng.randint(3)
    if mode == 0:                                   # dense, shuffled
        return (rng.permutation(n) + rng.randint(lo, max(lo + 1, hi - n)))
    if mode == 1:                                   # sparse
        s = set()
        while len(s) < n:
            s.add(int(rng.randint(lo, hi)))
        a = np.array(sorted(s))
        return a[rng.permutation(n)]
    return np.sort(rng.choice(np.arange(lo, min(hi, lo + 4 * n + 5)), n, replace=False))


class Tree:
    pass


def make_tree(rng, nfl=None, ngr=None, nev=None, closed=True, ids=2 ** 32):
    """random flash/group/event tree; closed: no orphans, no childless parents"""
    t = Tree()
    if nfl is None:
        nfl = int(rng.randint(1, 7))
    if ngr is None:
        ngr = int(nfl + rng.randint(0, 9)) if closed else int(rng.randint(0, 14))
    if nev is None:
        nev = int(ngr + rng.randint(0, 12)) if closed else int(rng.randint(0, 20))
    t.flash_id = distinct(rng, nfl, 65536)
    t.group_id = distinct(rng, ngr, ids)
    t.event_id = distinct(rng, nev, ids)
    if rng.rand() < .3 and ngr and nfl:
        # id values shared between levels
        k = min(nfl, ngr)
        t.group_id = t.group_id.copy()
        pool = [g for g in t.group_id if g not in set(t.flash_id[:k])]
        t.group_id = np.array((list(t.flash_id[:k]) + pool)[:ngr]) if len(set((list(t.flash_id[:k]) + pool)[:ngr])) == ngr else t.group_id

    def assign(n, parents):
        if len(parents) == 0:
            return np.zeros(n, dtype="i8")
        a = parents[rng.randint(0, len(parents), n)] if n else np.zeros(0, dtype="i8")
        if closed and n >= len(parents):
            pos = rng.permutation(n)[:len(parents)]
            a[pos] = parents
        return a
    t.group_parent_flash_id = assign(ngr, t.flash_id)
    t.event_parent_group_id = assign(nev, t.group_id)
    return t


def fresh_id(rng, used, hi):
    for v in (0, hi - 1):
        if v not in used and rng.rand() < .2:
            return v
    while True:
        v = int(rng.randint(0, hi))
        if v not in used:
            return v


DEF = dict(lon0=-75.0, time="2018-07-02 04:33:40.000", area_units="km2", lon_fov=-75.0,
           e_scale=1.52597e-15, e_off=2.8515e-16, a_scale=0.15163901, a_off=63.095734,
           product_time=583777980.0)


def write(path, rng, t, xy=None, **kw):
    """Write the tree with random payload.  Returns the payload in raw stored codes.

    xy: (event lon codes, lat codes) optional."""
    import netCDF4
    o = dict(DEF)
    o.update(kw)
    nfl, ngr, nev = len(t.flash_id), len(t.group_id), len(t.event_id)
    d = netCDF4.Dataset(path, "w")
    try:
        d.createDimension("number_of_flashes", nfl)
        d.createDimension("number_of_groups", ngr)
        d.createDimension("number_of_events", nev)
        d.createDimension("number_of_time_bounds", 2)
        d.createDimension("number_of_field_of_view_bounds", 2)
        d.createDimension("number_of_wavelength_bounds", 2)
        F, G, V = "number_of_flashes", "number_of_groups", "number_of_events"
        raw = {}

        def var(nm, ty, dim, vals, unsigned=False, fill=None, **attrs):
            v = d.createVariable(nm, ty, dim, fill_value=fill)
            v.set_auto_maskandscale(False)
            if unsigned:
                v._Unsigned = "true"
            for k, x in attrs.items():
                v.setncattr(k, x)
            if vals is not None:
                v[...] = vals
            raw[nm] = np.array(vals)
            return v
        u16 = lambda a: np.asarray(a).astype("u2").astype("i2") if False else np.asarray(a, dtype="i8").astype("u2").view("i2")
        u32 = lambda a: np.asarray(a, dtype="i8").astype("u4").view("i4")
        tu = "milliseconds since " + o["time"]
        var("event_id", "i4", (V,), u32(t.event_id), True, units="1")
        var("event_time_offset", "i2", (V,), o.get("event_time", rng.randint(0, 10000, nev)).astype("i2"), scale_factor=2.0, add_offset=0.0, units=tu)
        if xy is None:
            lonc = rng.randint(3000, 62000, nev)
            latc = rng.randint(3000, 62000, nev)
        else:
            lonc, latc = xy
        var("event_lat", "i2", (V,), u16(latc), True, scale_factor=0.00203128, add_offset=-66.56, units="degrees_north")
        var("event_lon", "i2", (V,), u16(lonc), True, scale_factor=0.00203128, add_offset=o["lon0"] - 66.56, units="degrees_east")
        ec = o.get("event_energy", rng.randint(0, 2000, nev))
        var("event_energy", "i2", (V,), u16(ec), True, np.int16(-1), scale_factor=o["e_scale"], add_offset=o["e_off"], units="J",
            coordinates="event_parent_group_id event_id lightning_wavelength event_time_offset event_lat event_lon")
        var("event_parent_group_id", "i4", (V,), u32(t.event_parent_group_id), True, units="1")
        var("group_id", "i4", (G,), u32(t.group_id), True, units="1")
        var("group_time_offset", "i2", (G,), o.get("group_time", rng.randint(0, 10000, ngr)).astype("i2"), scale_factor=2.0, add_offset=0.0, units=tu)
        var("group_lat", "f4", (G,), o.get("group_lat", rng.uniform(-50, 50, ngr)), units="degrees_north")
        var("group_lon", "f4", (G,), o.get("group_lon", o["lon0"] + rng.uniform(-50, 50, ngr)), units="degrees_east")
        ga = o.get("group_area", rng.randint(0, 65530, ngr))
        var("group_area", "i2", (G,), u16(ga), True, np.int16(-1), scale_factor=o.get("ga_scale", o["a_scale"]), add_offset=o.get("ga_off", o["a_off"]), units=o["area_units"],
            coordinates="group_parent_flash_id event_parent_group_id group_id lightning_wavelength group_time_threshold group_time_offset group_lat group_lon")
        var("group_energy", "i2", (G,), u16(o.get("group_energy", rng.randint(0, 60000, ngr))), True, np.int16(-1), scale_factor=o["e_scale"], add_offset=o["e_off"], units="J",
            coordinates="group_parent_flash_id event_parent_group_id group_id lightning_wavelength group_time_threshold group_time_offset group_lat group_lon")
        var("group_parent_flash_id", "i2", (G,), u16(t.group_parent_flash_id), True, units="1")
        var("group_quality_flag", "i2", (G,), u16(rng.randint(0, 5, ngr)), True, np.int16(-1), units="1",
            coordinates="group_id lightning_wavelength group_time_threshold group_time_offset group_lat group_lon")
        var("flash_id", "i2", (F,), u16(t.flash_id), True, units="1")
        t1 = rng.randint(0, 5000, nfl)
        var("flash_time_offset_of_first_event", "i2", (F,), t1.astype("i2"), scale_factor=2.0, add_offset=0.0, units=tu)
        var("flash_time_offset_of_last_event", "i2", (F,), (t1 + rng.randint(0, 2000, nfl)).astype("i2"), scale_factor=2.0, add_offset=0.0, units=tu)
        var("flash_lat", "f4", (F,), o.get("flash_lat", rng.uniform(-50, 50, nfl)), units="degrees_north")
        var("flash_lon", "f4", (F,), o.get("flash_lon", o["lon0"] + rng.uniform(-50, 50, nfl)), units="degrees_east")
        fc = "group_parent_flash_id flash_id lightning_wavelength flash_time_threshold flash_time_offset_of_first_event flash_time_offset_of_last_event flash_lat flash_lon"
        var("flash_area", "i2", (F,), u16(o.get("flash_area", rng.randint(0, 65530, nfl))), True, np.int16(-1), scale_factor=o["a_scale"], add_offset=o["a_off"], units=o["area_units"], coordinates=fc)
        var("flash_energy", "i2", (F,), u16(o.get("flash_energy", rng.randint(0, 60000, nfl))), True, np.int16(-1), scale_factor=o["e_scale"], add_offset=o["e_off"], units="J", coordinates=fc)
        var("flash_quality_flag", "i2", (F,), u16(rng.randint(0, 5, nfl)), True, np.int16(-1), units="1",
            coordinates="flash_id lightning_wavelength flash_time_threshold flash_time_offset_of_first_event flash_time_offset_of_last_event flash_lat flash_lon")
        v = d.createVariable("product_time", "f8", ())
        v.units = "seconds since 2000-01-01 12:00:00"
        v.bounds = "product_time_bounds"
        v[...] = o["product_time"]
        v = d.createVariable("product_time_bounds", "f8", ("number_of_time_bounds",))
        v[:] = [o["product_time"], o["product_time"] + 20]
        for nm, val in (("lightning_wavelength", 777.37), ("group_time_threshold", 0.0), ("flash_time_threshold", 3.33),
                        ("lat_field_of_view", 0.0), ("lon_field_of_view", o["lon_fov"]),
                        ("nominal_satellite_subpoint_lat", 0.0), ("nominal_satellite_subpoint_lon", o["lon_fov"]),
                        ("nominal_satellite_height", 35786.023)):
            v = d.createVariable(nm, "f4", ())
            v[...] = val
        v = d.createVariable("lightning_wavelength_bounds", "f4", ("number_of_wavelength_bounds",))
        v[:] = [777.2, 777.5]
        v = d.createVariable("lat_field_of_view_bounds", "f4", ("number_of_field_of_view_bounds",))
        v[:] = [66.56, -66.56]
        v = d.createVariable("lon_field_of_view_bounds", "f4", ("number_of_field_of_view_bounds",))
        v[:] = [-141.56, -8.44]
        v = d.createVariable("flash_count", "i4", ())
        v[...] = nfl
        v.coordinates = "lightning_wavelength product_time lat_field_of_view lon_field_of_view"
        v = d.createVariable("yaw_flip_flag", "i1", ())
        v[...] = 0
        v.coordinates = "product_time"
        d.platform_ID = "G16"
        d.orbital_slot = "GOES-East"
        d.instrument_ID = "FM1"
        d.dataset_name = os.path.basename(path)
        d.time_coverage_start = "2018-07-02T04:33:40.0Z"
        d.time_coverage_end = "2018-07-02T04:34:00.0Z"
    finally:
        d.close()
    return raw


def unsigned(a, bits=16):
    return np.asarray(a).astype("i8") % (1 << bits)
