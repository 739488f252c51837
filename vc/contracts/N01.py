from ..api import *

c = Contract("N01")
MOD = "glmtools.io.lightning_ellipse"
RADII = {0: (Q("6.394140e6"), Q("6.362755e6")), 1: (Q("6.378137e6") + 14000, Q("6.362755e6"))}
RE, RP, HS = Q("6.378137e6"), Q("6.35675231414e6"), Q("35.786023e6")
c.assume("real arithmetic in place of IEEE double precision",
         "latitudes strictly between -90 and 90 degrees (cos(lat) != 0)",
         "longitude differences within (-540, 540) degrees")


def spec(rev, case):
    def unit(env):
        f = env.fn(MOD, "ltg_ellps_lon_lat_to_fixed_grid")
        n = length("n")
        lon, lat = array("lon", n), array("lat", n)
        sat = real("sat")
        r = idx("r", n)
        d = raw(lon.elem(r) - sat)
        E.assume({0: z3.And(d >= -180, d <= 180), 1: z3.And(d > 180, d <= 540), 2: z3.And(d >= -540, d < -180)}[case])
        x, y = f(lon, lat, sat, rev)
        x, y = A(x), A(y)
        prove("x has one entry per position", core.i_eq(x.shape[0], n))
        prove("y has one entry per position", core.i_eq(y.shape[0], n))
        # the point of the lightning ellipsoid and the line of sight to it
        re, rp = RADII[rev]
        H = HS + RE
        fl, g = (re - rp) / re, (RE - RP) / RE
        F = theory.fn1
        latr = lat.elem(r) * mk(theory.PI) / 180
        lam = mk(d) * mk(theory.PI) / 180
        E.assume(raw(F("cos", latr)) != 0)
        L = F("atan", (1 - g) ** 2 * F("tan", latr))
        cL, sL = F("cos", L), F("sin", L)
        D = F("sqrt", 1 - fl * (2 - fl) * cL * cL)
        Rr = re * (1 - fl) / D
        px, py, pz = Rr * cL * F("cos", lam), Rr * cL * F("sin", lam), Rr * sL
        lemma("the radicand of the radius is positive", 1 - fl * (2 - fl) * cL * cL >= (1 - fl) ** 2)
        lemma("root bounded below", D >= (1 - fl))
        lemma("radius positive and at most equatorial", z3.And(raw(Rr > 0), raw(Rr <= re)))
        lemma("point is nearer the axis than the satellite", px <= re)
        vx = H - px
        rho2 = vx * vx + py * py + pz * pz
        lemma("range positive", rho2 > 0)
        rho = F("sqrt", rho2)
        lemma("range root positive", rho > 0)
        lemma("east component bounded", z3.And(raw(py <= rho), raw(-rho <= py)))
        xr, yr = x.elem(r), y.elem(r)
        prove("sine of the east-west angle", F("sin", xr) * rho == py)
        prove("east-west angle within a quarter turn", F("cos", xr) >= 0)
        prove("tangent of the north-south angle", F("tan", yr) * vx == pz)
        prove("north-south angle within a quarter turn", F("cos", yr) > 0)
        unchanged("lon", lon)
        unchanged("lat", lat)
    return unit


for rev in (0, 1):
    for case in (0, 1, 2):
        c.units.append(Unit(MOD + ".ltg_ellps_lon_lat_to_fixed_grid", "rev%d case%d" % (rev, case), spec(rev, case),
                            opts={"simplify_ite": True}))
