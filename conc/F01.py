from datetime import datetime, timedelta
import numpy as np
from harness import case, get, ensure, Fail

DATES = [datetime(2018, 1, 1), datetime(2018, 12, 31, 23, 59, 59), datetime(2020, 12, 31, 23, 59, 59), datetime(2020, 2, 29, 12),
         datetime(2019, 3, 1), datetime(2017, 7, 7, 0, 0, 20), datetime(2018, 7, 2, 4, 33, 40), datetime(2024, 12, 30, 9, 9, 9)]


def when(rng, tenths=True):
    if rng.rand() < .4:
        d = DATES[int(rng.randint(len(DATES)))]
    else:
        d = datetime(2017, 1, 1) + timedelta(seconds=int(rng.randint(0, 10 * 365 * 86400)))
    return d + timedelta(microseconds=100000 * int(rng.randint(10))) if tenths else d


def code(d):
    y0 = datetime(d.year, 1, 1)
    n = (d - y0).days + 1
    return "%04d%03d%02d%02d%02d%d" % (d.year, n, d.hour, d.minute, d.second, d.microsecond // 100000)


@case(n=400, thorough=4000)
def parse_time(rng):
    f = get("glmtools.io.glm", "parse_glm_filename_time")
    d = when(rng)
    s = str(rng.choice(["s", "e", "c"])) + code(d)
    ensure(f(s) == d, "%s parsed as %s, expected %s", s, f(s), d)


@case(n=200, thorough=1500)
def parse_name(rng):
    f = get("glmtools.io.glm", "parse_glm_filename")
    env = str(rng.choice(["OR", "OT", "IT", "DE"]))
    alg = str(rng.choice(["GLM-L2-LCFA", "GLM-L2-GLMC-M3", "GLM-L2-GLMF-M6"]))
    plat = str(rng.choice(["G16", "G17", "G18"]))
    a = when(rng)
    b, c = a + timedelta(seconds=20 + float(rng.randint(3)) * .1), a + timedelta(seconds=46.5)
    b = b.replace(microsecond=b.microsecond // 100000 * 100000)
    c = c.replace(microsecond=c.microsecond // 100000 * 100000)
    nm = "%s_%s_%s_s%s_e%s_c%s.nc" % (env, alg, plat, code(a), code(b), code(c))
    got = f(nm)
    ensure(tuple(got) == (env, alg, plat, a, b, c), "%s parsed as %s", nm, got)


SCENE = {"FULL": ("F", "Full Disk"), "CONUS": ("C", "CONUS"), "MESO1": ("M1", "Mesoscale"), "MESO2": ("M2", "Mesoscale"), "OTHER": ("M1", "Custom")}


@case(n=200, thorough=1500)
def name_made_and_read(rng):
    f = get("glmtools.io.glm", "parse_glm_filename")
    mk = get("glmtools.io.imagery", "get_glm_global_attrs")
    a = when(rng, False)
    b = a + timedelta(seconds=int(rng.choice([20, 60, 300, 3600, 86400])))
    plat = str(rng.choice(["G16", "G17", "G18"]))
    sc = list(SCENE)[int(rng.randint(5))]
    t0 = datetime.now()
    m = mk(a, b, plat, "GOES-East", "GLM-1", sc, "2km at nadir", "ABI Mode 3", "DE", "Postprocessed", "TTU")
    t1 = datetime.now()
    nm = m["dataset_name"]
    env, alg, p, s, e, c = f(nm)
    ensure(p == plat, "platform %s from %s, expected %s", p, nm, plat)
    ensure(s == a and e == b, "times %s %s from %s, expected %s %s", s, e, nm, a, b)
    ensure(alg == "GLM-L2-GLM%s-M3" % SCENE[sc][0], "scene in %s, expected %s", nm, SCENE[sc][0])
    ensure(env == "OR", "environment in %s", nm)
    ensure(t0.replace(microsecond=0) <= c <= t1, "creation time %s", c)
    for k, v in (("time_coverage_start", a), ("time_coverage_end", b)):
        ensure(datetime.fromisoformat(m[k].rstrip("Z")) == v and m[k].endswith("Z"), "%s is %s, expected %s", k, m[k], v)
    ensure(abs((datetime.fromisoformat(m["date_created"].rstrip("Z")) - c).total_seconds()) < 1.0, "date_created %s disagrees with name %s", m["date_created"], nm)
    ensure(m["platform_ID"] == plat and m["orbital_slot"] == "GOES-East" and m["instrument_ID"] == "GLM-1", "platform metadata")
    ensure(m["scene_id"] == SCENE[sc][1] and m["spatial_resolution"] == "2km at nadir" and m["timeline_id"] == "ABI Mode 3", "scene metadata")
    ensure(m["production_environment"] == "DE" and m["production_data_source"] == "Postprocessed" and m["production_site"] == "TTU", "production metadata")
