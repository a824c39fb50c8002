"""What emc2's displays rely on in act.plotting.Display: it keeps the dataset it is given."""
import numpy as np
import matplotlib.pyplot as plt


class Display:
    def __init__(self, ds, subplot_shape=(1,), ds_name=None, subplot_kw=None, **kwargs):
        if isinstance(ds, dict):
            self._ds = ds
        elif ds_name is not None:
            self._ds = {ds_name: ds}
        else:
            self._ds = {'act_datastream': ds}
        self.fields = {}
        self.ds = {}
        self.file_dates = {}
        self.xrng = np.zeros((1, 2))
        self.yrng = np.zeros((1, 2))
        self.fig = None
        self.axes = None
        self.plot_vars = []
        self.cbs = []
        if subplot_shape is not None:
            self.add_subplots(subplot_shape, subplot_kw=subplot_kw, **kwargs)

    def add_subplots(self, subplot_shape=(1,), secondary_y=False, subplot_kw=None, **kwargs):
        fig, ax = plt.subplots(subplot_shape[0], 1, subplot_kw=subplot_kw, **kwargs)
        self.fig = fig
        self.axes = ax
