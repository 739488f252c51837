"""Text listings: one row per record line, every value in its own column; merged with ids, times, positions and links."""
from ..api import *
from .. import text as tx

c = Contract("F02")
MOD = "glmtools.io.convert_lcfa"
c.assume("a line is a flash, group or event record of the documented layout, or starts like none of them",
         "float() and int() give the number printed; pandas and xarray as modelled")

T, W = True, False
# record layouts: literal text and (value name, whole number)
LINES = {
    "flash": ["D Flash #", ("id", T), " Start Time:", ("start", W), " End Time:", ("end", W), " Centroid Lat:", ("lat", W), " Centroid Lon:",
              ("lon", W), " Energy:", ("energy", W), " Footprint:", ("area", W), " Child_Count:", ("children", T), "\n"],
    "group": ["\tD Group #", ("id", T), " Child #", ("child", T), " Start Time:", ("start", W), " End Time:", ("end", W), " Centroid Lat:",
              ("lat", W), " Centroid Lon:", ("lon", W), " Energy:", ("energy", W), " Footprint:", ("area", W), " Parent_ID:", ("parent", T),
              " Child_Count:", ("children", T), "\n"],
    "event": ["\t\tEvent #", ("id", T), " Child #", ("child", T), " Time:", ("time", W), " X_Pixel:", ("x", T), " Y_Pixel:", ("y", T), " Lat:",
              ("lat", W), " Lon:", ("lon", W), " Energy:", ("energy", W), " Parent_ID:", ("parent", T), "\n"]}
KINDS = list(LINES)
COLS = {
    "flash": {"flash_id": "id", "flash_time_offset_of_first_event": "start", "flash_time_offset_of_last_event": "end", "flash_lat": "lat",
              "flash_lon": "lon", "flash_energy": "energy", "flash_area": "area", "flash_child_group_count": "children"},
    "group": {"group_id": "id", "group_time_offset": "start", "group_lat": "lat", "group_lon": "lon", "group_energy": "energy",
              "group_area": "area", "group_parent_flash_id": "parent", "group_child_event_count": "children"},
    "event": {"event_id": "id", "event_time_offset": "time", "x_pixel": "x", "y_pixel": "y", "event_lat": "lat", "event_lon": "lon",
              "event_energy": "energy", "event_parent_group_id": "parent"}}
DIM = {"flash": "number_of_flashes", "group": "number_of_groups", "event": "number_of_events"}
COORDS = {"event_id", "event_time_offset", "event_lat", "event_lon", "event_parent_group_id", "group_id", "group_time_offset", "group_lat",
          "group_lon", "group_parent_flash_id", "flash_id", "flash_time_offset_of_first_event", "flash_time_offset_of_last_event", "flash_lat",
          "flash_lon"}
KIND = z3.Function("kind", I, I)
RECORD = {k: next(p for p in LINES[k] if isinstance(p, str)).rstrip(" #") for k in KINDS}


def printed(kind, nm, whole):
    return z3.Function("%s_%s" % (kind, nm), I, I if whole else R)


class Other:
    """a line that is no record"""
    def startswith(self, pre):
        if any(pre.startswith(r) for r in RECORD.values()):
            return False
        raise Unsupported("what other lines look like")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("what other lines look like")


class Line:
    """line k: which kind of line it is, is decided when it is looked at"""
    def __init__(self, k):
        self.k = k

    def _text(self):
        k = iraw(self.k)
        for j, kind in enumerate(KINDS):
            if E.decide(KIND(k) == j):
                return tx.text(*[q for p in LINES[kind] for q in ([p] if isinstance(p, str) else
                                                                  [tx.Num(mk(printed(kind, *p)(k)), p[1])])])
        return Other()

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return getattr(self._text(), a)

    def __getitem__(self, k):
        return self._text()[k]

    def __contains__(self, k):
        return k in self._text()

    def subst(self, pairs):
        return Line(mk(z3.substitute(iraw(self.k), *pairs)))


class File:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def to_seq(self):
        return Seq(iraw(self.n), lambda k: Line(k))

    readlines = to_seq


def listing(env):
    env.override()
    n = length("nlines")

    def op(name, mode="r", *a, **k):
        if name != "the listing":
            raise Unsupported("another file is opened")
        return File(n)
    env.mod(MOD).open = op
    return n


def table(kind, df, n):
    """df is the table of the records of this kind"""
    if not isinstance(df, pdmod.DataFrame):
        raise Unsupported("no table")
    j = KINDS.index(kind)
    m, pos, rank = arr.compress(Arr((n,), lambda k: mk(KIND(iraw(k)) == j), B1))
    prove("%s table: columns" % kind, set(df.cols) == set(COLS[kind]))
    prove("%s table: one row per record" % kind, core.i_eq(unS(df._n()), m))
    for col, src in COLS[kind].items():
        whole = dict(p for p in LINES[kind] if not isinstance(p, str))[src]
        p = idx("p", mk(m))
        prove("%s is that of its own record, in listed order" % col,
              eq(df.cols[col].elem(p), mk(printed(kind, src, whole)(iraw(pos(p)[0])))))


@c.unit(MOD + ".parse_LCFA_ASCII", "any listing", soft=True)
def parse(env):
    n = listing(env)
    got = env.fn(MOD, "parse_LCFA_ASCII")("the listing")
    if not isinstance(got, (tuple, list)):
        raise Unsupported("no tables")
    prove("three tables", len(got) == 3)
    for kind, df in zip(KINDS, got):
        table(kind, df, n)
        prove("%s table: rows are numbered along %s" % (kind, DIM[kind]), df.index.name == DIM[kind])


@c.unit(MOD + ".merge_dataframes_to_xarray", "any tables", soft=True)
def merge(env):
    env.override()
    dfs, cols = [], {}
    for kind in KINDS:
        n = length("n_" + kind)
        d = {col: array(col, n) for col in COLS[kind]}
        df = pdmod.DataFrame(d)
        df.index.name = DIM[kind]
        dfs.append(df)
        cols[kind] = n, d
    ds = env.fn(MOD, "merge_dataframes_to_xarray")(*dfs)
    if not isinstance(ds, xrmod.Dataset):
        raise Unsupported("no dataset")
    for kind in KINDS:
        n, d = cols[kind]
        for col, a in d.items():
            prove("%s is in the dataset" % col, col in ds.vars)
            v = ds.vars[col]
            prove("%s lies along %s" % (col, DIM[kind]), tuple(v.dims) == (DIM[kind],))
            same_array(col, v.arr, a.frozen.elem, (n,))
            prove("%s is %s" % (col, "a coordinate" if col in COORDS else "data"), (col in ds.cset) == (col in COORDS))
            unchanged("table column " + col, a)


class Written:
    def __init__(self):
        self.to = []

    def to_netcdf(self, path, *a, **k):
        self.to.append(path)


@c.unit(MOD + ".main", "steps", soft=True)
def main(env):
    env.override()
    m = env.mod(MOD)
    tabs, w = (object(), object(), object()), Written()
    m.parse_LCFA_ASCII = lambda f: tabs if f == "the listing" else None
    m.merge_dataframes_to_xarray = lambda *a, **k: w if a == tabs and not k else None
    m.main("the listing", "the file")
    prove("the merged tables of the listing are written to the file", w.to == ["the file"])
