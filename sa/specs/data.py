"""Reference formulation of the storage of results and of the queries on it."""
import os
import pickle
import numpy as np
import casadi.tools as castools
import do_mpc


def init(self, model):
    assert model.flags['setup'] == True
    self.dtype = 'default'
    self.model = model.__dict__.copy()
    for k in ('_rhs', '_aux_expression', '_y_expression', '_alg', 'sv'):
        self.model.pop(k)
    self.data_fields = {'_time': 1, '_x': model.n_x, '_y': model.n_y, '_u': model.n_u, '_z': model.n_z, '_tvp': model.n_tvp, '_p': model.n_p, '_aux': model.n_aux}
    for f, n in self.data_fields.items():
        setattr(self, f, np.empty((0, n)))
    self.meta_data = {}
    self.result_queries = {'ind': [], 'f_ind': []}


def init_mpc(self, model):
    init(self, model)
    self.prediction_queries = {'ind': [], 'f_ind': []}


def init_storage(self):
    for f, n in self.data_fields.items():
        setattr(self, f, np.empty((0, n)))


def update(self, **kwargs):
    for key, value in kwargs.items():
        assert key in self.data_fields.keys()
        if type(value) == castools.structure3.DMStruct:
            value = value.cat
        if type(value) == castools.DM:
            value = value.full()
        elif not isinstance(value, np.ndarray):
            value = np.array(value)
        # exactly one row is appended, existing rows stay
        setattr(self, key, np.append(getattr(self, key), value.reshape(1, -1), axis=0))


def getitem(self, ind):
    if not isinstance(ind, tuple):
        ind = [ind]
    if len(ind) == 0:
        raise KeyboardInterrupt
    field = ind[0]
    assert field in self.data_fields.keys()
    if len(ind) > 1:
        if ind in self.result_queries['ind']:
            f_ind = self.result_queries['f_ind'][self.result_queries['ind'].index(ind)]
        else:
            f_ind = self.model[field].f[ind[1:]]
            self.result_queries['ind'].append(ind)
            self.result_queries['f_ind'].append(f_ind)
        return getattr(self, field)[:, f_ind]
    return getattr(self, field)


def export(self):
    return {f: getattr(self, f) for f in self.data_fields}


def set_meta(self, **kwargs):
    for key, value in kwargs.items():
        self.meta_data[key] = value


def prediction(self, ind, t_ind=-1):
    assert self.meta_data['store_full_solution']
    assert isinstance(ind, tuple)
    scen = self.meta_data['structure_scenario']
    if self._opt_x_num.shape[0] == 0:
        x_num = np.zeros((1, self.opt_x.shape[0]))
        p_num = np.zeros((1, self.opt_p.shape[0]))
        aux_num = np.zeros((1, self.opt_aux.shape[0]))
    else:
        x_num = self._opt_x_num
        p_num = self.opt_p_num
        aux_num = self._opt_aux_num
    q = self.prediction_queries
    if ind[0] in ['_x', '_z']:
        if ind in q['ind']:
            f_ind = q['f_ind'][q['ind'].index(ind)]
        else:
            f_ind = self.opt_x.f[(ind[0], slice(None), lambda v: castools.horzcat(*v), slice(None), -1) + ind[1:]]
            f_ind = np.array([f.full() for f in f_ind], dtype='int32')
            f_ind = f_ind[range(f_ind.shape[0]), :, scen[:f_ind.shape[0], :].T].T
            q['ind'].append(ind)
            q['f_ind'].append(f_ind)
        out = x_num[t_ind, f_ind]
    elif ind[0] == '_u':
        if ind in q['ind']:
            f_ind = q['f_ind'][q['ind'].index(ind)]
        else:
            f_ind = self.opt_x.f[(ind[0], slice(None), lambda v: castools.horzcat(*v), slice(None)) + ind[1:]]
            f_ind = np.array([f.full() for f in f_ind], dtype='int32')
            if self.meta_data['open_loop']:
                f_ind = f_ind[range(f_ind.shape[0]), :, scen[:-1, [0]].T].T
            else:
                f_ind = f_ind[range(f_ind.shape[0]), :, scen[:-1, :].T].T
            q['ind'].append(ind)
            q['f_ind'].append(f_ind)
        out = x_num[t_ind, f_ind]
    elif ind[0] == '_tvp':
        if ind in q['ind']:
            f_ind = q['f_ind'][q['ind'].index(ind)]
        else:
            f_ind = np.array(self.opt_p.f[(ind[0], slice(None)) + ind[1:]]).reshape(1, -1, 1)
            q['ind'].append(ind)
            q['f_ind'].append(f_ind)
        out = p_num[t_ind, f_ind]
    elif ind[0] == '_aux':
        if ind in q['ind']:
            f_ind = q['f_ind'][q['ind'].index(ind)]
        else:
            f_ind = self.opt_aux.f[(ind[0], slice(None), lambda v: castools.horzcat(*v), slice(None)) + ind[1:]]
            f_ind = np.array([f.full() for f in f_ind], dtype='int32')
            f_ind = f_ind[range(f_ind.shape[0]), :, scen[:-1, :].T].T
            q['ind'].append(ind)
            q['f_ind'].append(f_ind)
        out = aux_num[t_ind, f_ind]
    else:
        raise ValueError()
    return out
