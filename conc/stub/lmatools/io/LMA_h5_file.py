class LMAh5Collection(object):
    def __init__(self, filenames, sort_filenames=True, base_date=None, min_points=10):
        self._filenames = filenames
        self.min_points = min_points
        self.base_date = base_date
        self._time_lookup = {}
        self.times = [t for fn in filenames for t in self._table_times_for_file(fn)]

    def __iter__(self):
        for t in self.times:
            yield self.data_for_time(t)
