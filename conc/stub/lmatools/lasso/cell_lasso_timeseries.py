class TimeSeriesGenericFlashSubset(object):
    def __init__(self, t_start, t_end, dt, base_date=None):
        self.t_start, self.t_end, self.dt = t_start, t_end, dt
        self.base_date = base_date if base_date is not None else t_start
