"""Reference formulation of graphics and of the indexed containers."""
import copy
import os
import time
import numpy as np
import casadi as cas
import casadi.tools as ctools
import matplotlib.axes as maxes
import matplotlib.pyplot as plt
from matplotlib.animation import FuncAnimation, FFMpegWriter, ImageMagickWriter
from do_mpc.tools import Structure
from do_mpc.tools._casstructure import _struct_SX, _struct_MX
from do_mpc.graphics import Graphics


# ------------------------------------------------------------------ Graphics
def new(self, data):
    self.data = data
    self.color = plt.rcParams['axes.prop_cycle'].by_key()['color']
    self.line_list = []
    self.ax_list = []
    self._pred_lines = Structure()
    self._result_lines = Structure()


def result_lines(self):
    return self._result_lines


def pred_lines(self):
    return self._pred_lines


def reset_axes(self):
    for a in self.ax_list:
        a.relim()
        a.autoscale()


def reset_cycle(self):
    for a in self.ax_list:
        a.set_prop_cycle(None)


def clear_lines(self, lines=None):
    if lines is not None and not isinstance(lines, list):
        raise Exception
    for line in self.result_lines.master if lines is None else lines:
        line.set_data([], [])


def add_line(self, var_type, var_name, axis, **pltkwargs):
    if not isinstance(var_type, str) or not isinstance(var_name, str):
        raise Exception
    if var_type not in ['_x', '_u', '_z', '_tvp', '_p', '_aux'] or not isinstance(axis, maxes.Axes):
        raise Exception
    if var_type == '_u':
        pltkwargs.update(drawstyle='steps-post')
    self.result_lines[var_type, var_name] = axis.plot(self.data['_time'], self.data[var_type, var_name], **pltkwargs)
    if self.data.dtype == 'MPC' and self.data.meta_data['store_full_solution']:
        y = self.data.prediction((var_type, var_name))
        x = np.zeros(y.shape[1])
        for i in range(y.shape[0]):
            pltkwargs.update(color=self.result_lines[var_type, var_name][i].get_color(), linestyle='--')
            self.pred_lines[var_type, var_name, i] = axis.plot(x, y[i], **pltkwargs)
    self.ax_list.append(axis)


def show_results(self, t_ind=-1):
    if not isinstance(t_ind, int) or abs(t_ind) > self.data['_time'].shape[0]:
        raise Exception
    for line, ind in zip(self.result_lines.master, self.result_lines.powerindex):
        if t_ind == -1:
            line.set_data(self.data['_time'], self.data[ind])
        else:
            line.set_data(self.data['_time'][:t_ind + 1], self.data[ind][:t_ind + 1])


def show_predictions(self, t_ind=-1):
    if self.data.dtype != 'MPC' or not self.data.meta_data['store_full_solution'] or not isinstance(t_ind, int):
        raise Exception
    if abs(t_ind) > self.data['_time'].shape[0]:
        raise Exception
    for line, ind in zip(self.pred_lines.master, self.pred_lines.powerindex):
        y = self.data.prediction(ind[:-1], t_ind=t_ind)[0, :, ind[-1]]
        line.set_data(np.arange(y.shape[0]) * self.data.meta_data['t_step'] + self.data._time[t_ind], y)


def default_plot(data, states_list=None, dae_states_list=None, inputs_list=None, aux_list=None, **kwargs):
    xs, zs, us, auxs = states_list, dae_states_list, inputs_list, aux_list
    if xs is None:
        xs = data.model['_x'].keys()
    elif not set(xs).issubset(data.model['_x'].keys()):
        raise Exception
    if zs is None:
        zs = data.model['_z'].keys()[1:]
    elif not set(zs).issubset(data.model['_z'].keys()):
        raise Exception
    if us is None:
        us = data.model['_u'].keys()[1:]
    elif not set(us).issubset(data.model['_u'].keys()):
        raise Exception
    if auxs is None:
        auxs = data.model['_aux'].keys()[1:]
    elif not set(auxs).issubset(data.model['_aux'].keys()):
        raise Exception
    n = len(xs) + len(us) + len(auxs) + len(zs)
    fig, ax = plt.subplots(n, 1, sharex=True, **kwargs)
    if n == 0:
        raise Exception
    if n == 1:
        ax = [ax]
    graphics = Graphics(data)
    for i, name in enumerate(xs):
        graphics.add_line('_x', name, ax[i])
        ax[i].set_ylabel(name)
    for i, name in enumerate(zs):
        graphics.add_line('_z', name, ax[len(xs) + i])
        ax[len(xs) + i].set_ylabel(name)
    for i, name in enumerate(us):
        graphics.add_line('_u', name, ax[len(xs) + len(zs) + i])
        ax[len(xs) + len(zs) + i].set_ylabel(name)
    for i, name in enumerate(auxs):
        graphics.add_line('_aux', name, ax[len(xs) + len(zs) + len(us) + i])
        ax[len(xs) + len(zs) + len(us) + i].set_ylabel(name)
    ax[-1].set_xlabel('time')
    fig.align_ylabels()
    fig.tight_layout()
    return fig, ax, graphics


def animate(graphics, fig, n_steps=None, export_path='./', export_name='animation', overwrite=False, format='gif', fps=5, writer=None):
    n = graphics.data['_time'].shape[0] if n_steps is None else n_steps

    def update(t_ind):
        graphics.plot_results(t_ind=t_ind)
        if graphics.data.dtype == 'MPC' and graphics.data.meta_data['store_full_solution']:
            graphics.plot_predictions(t_ind=t_ind)
        graphics.reset_axes()
        return graphics.result_lines.full + graphics.pred_lines.full

    anim = FuncAnimation(fig, update, frames=n, blit=True)
    if writer is not None:
        extension = ''
    elif 'mp4' in format:
        writer = FFMpegWriter(fps=fps, extra_args=['-vcodec', 'libx264'])
        extension = 'mp4'
    elif 'gif' in format:
        writer = ImageMagickWriter(fps=fps)
        extension = 'gif'
    else:
        raise Exception
    path = os.path.join(export_path, '')
    if not os.path.exists(path):
        os.makedirs(path)
    if overwrite == False:
        ind = 1
        name = export_name
        while os.path.isfile('{}{}.{}'.format(path, name, extension)):
            name = '{:03d}_{}'.format(ind, export_name)
            ind += 1
        export_name = name
    anim.save('{}{}.{}'.format(path, export_name, extension), writer=writer)


# ------------------------------------------------------------------ Structure
def structure(self):
    self.index, self.master, self.powerindex, self.features = [], [], [], []
    self.count = 0


def full(self):
    return self.master


def set_element(self, ind, val):
    if isinstance(ind, (int, str, slice)):
        ind = (ind,)
    elif isinstance(ind, list):
        ind = tuple(ind)
    if ind in self.powerindex:
        self.master[self.powerindex.index(ind)] = val
    elif isinstance(val, (list, tuple)):
        for i, v in enumerate(val):
            self[ind + (i,)] = v
    elif isinstance(val, dict):
        for k, v in val.items():
            self[ind + (k,)] = v
    else:
        self.master.append(val)
        self.powerindex.append(ind)
        self.index.append(self.count)
        self.count += 1
        for i, k in enumerate(ind):
            if len(self.features) <= i:
                self.features.append([])
            if k not in self.features[i]:
                self.features[i].append(k)


def get_elements(self, ind):
    return self._select(ind, self.master, self.powerindex)[0]


def get_keys(self, ind):
    return self._select(ind, self.powerindex, self.powerindex)[0]


def get_positions(self, ind):
    return self._select(ind, self.index, self.powerindex)[0]


def select_elements(self, ind, values, keys):
    if isinstance(ind, (int, str, slice)):
        ind = (ind,)
    elif isinstance(ind, list):
        ind = tuple(ind)
    for j, k in enumerate(ind):
        v, n = [], []
        if isinstance(k, slice):
            ind = list(ind)
            for f in self.features[j][k]:
                ind[j] = f
                a, b = self._select(ind, values, keys)
                v.append(a)
                n.append(b)
            values, keys = v, n
            break
        for i, key in enumerate(keys):
            if len(key) > j and key[j] == k:
                v.append(values[i])
                n.append(key)
        values, keys = v, n
    return values, keys


# ------------------------------------------------------------------ IndexedProperty
def property_new(self, fget=None, fset=None, doc=None):
    self.fget = fget
    self.fset = fset
    self.__doc__ = fget.__doc__ if doc is None and fget is not None else doc


def property_bind(self, obj, objtype=None):
    r = copy.copy(self)
    r.obj = obj
    return r


def property_bind_new(self, obj, objtype=None):
    r = type(self)(self.fget, self.fset, self.__doc__)
    r.obj = obj
    return r


def property_get(self, ind):
    return self.fget(self.obj, ind)


def property_set(self, ind, val):
    return self.fset(self.obj, ind, val)


def property_getter(self, fget):
    return type(self)(lambda obj, *args, **kwargs: fget(obj, *args, **kwargs), self.fset, self.__doc__)


def property_setter(self, fset):
    return type(self)(self.fget, lambda obj, *args, **kwargs: fset(obj, *args, **kwargs), self.__doc__)


# ------------------------------------------------------------------ Timer, symbols
def timer(self, name='timer', unit='ms'):
    if unit not in ('ms', 's', 'min', 'h'):
        raise Exception
    self.name = name
    self.unit = unit
    if unit == 'ms':
        self.factor = 1000
    elif unit == 's':
        self.factor = 1
    elif unit == 'min':
        self.factor = 1 / 60
    else:
        self.factor = 1 / 3600
    self.t_start = None
    self.t_list = []


def tic(self):
    self.t_start = time.time()


def toc(self):
    if not self.t_start:
        raise Exception
    self.t_list.append(time.time() - self.t_start)
    self.t_start = None


def symvar(self, symvar_type):
    if symvar_type not in ('SX', 'MX'):
        raise Exception
    if symvar_type == 'MX':
        self.sym = cas.MX.sym
        self.struct = _struct_MX
        self.sym_struct = ctools.struct_symMX
        self.dtype = cas.MX
    else:
        self.sym = cas.SX.sym
        self.struct = _struct_SX
        self.sym_struct = ctools.struct_symSX
        self.dtype = cas.SX
