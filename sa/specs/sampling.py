"""Reference formulation of sampling plans, sampling, reading of samples and storing of results."""
import copy
import inspect
import itertools
import logging
import os
import pathlib
import pickle
import types
import numpy as np
import scipy.io as sio
import do_mpc
from do_mpc.tools import load_pickle, save_pickle


# ------------------------------------------------------------------ plan
def plan_new(self, **kwargs):
    self.sampling_vars = []
    self.sampling_var_names = []
    self.sampling_plan = []
    self.overwrite = False
    self.id_precision = 3


def set_dir(self, val):
    self._data_dir = val
    pathlib.Path(val).mkdir(parents=True, exist_ok=True)


def set_dir_only(self, val):
    self._data_dir = val


def get_dir(self):
    return self._data_dir


def set_param(self, **kwargs):
    for k, v in kwargs.items():
        if k in self.data_fields:
            setattr(self, k, v)


def sampling_var(self, name, fun_var_pdf=None):
    assert isinstance(name, str)
    assert isinstance(fun_var_pdf, (types.FunctionType, types.BuiltinFunctionType, type(None)))
    self.sampling_vars.append({'name': name, 'fun_var_pdf': fun_var_pdf})
    self.sampling_var_names.append(name)


def add_case(self, **kwargs):
    case = {}
    for k, v in kwargs.items():
        if k not in self.sampling_var_names:
            raise Exception
        case[k] = v
    for s in self.sampling_vars:
        if s['name'] not in kwargs.keys():
            assert s['fun_var_pdf'] is not None
            case[s['name']] = s['fun_var_pdf']()
    # the identifier is the position in the plan
    case['id'] = str(len(self.sampling_plan)).zfill(self.id_precision)
    self.sampling_plan.append(case)
    return self.sampling_plan


def gen_plan(self, n_samples):
    assert isinstance(n_samples, int)
    assert n_samples > 0
    for i in range(n_samples):
        self.add_sampling_case()
    return self.sampling_plan


def product(self, **kwargs):
    if not np.all([isinstance(v, list) for v in kwargs.values()]):
        raise Exception
    if not np.all([k in self.sampling_var_names for k in kwargs.keys()]):
        raise Exception
    for v in list(itertools.product(*list(kwargs.values()))):
        self.add_sampling_case(**dict(zip(kwargs.keys(), v)))
    return self.sampling_plan


def export(self, sampling_plan_name):
    assert isinstance(sampling_plan_name, str)
    base = self.data_dir + os.path.splitext(sampling_plan_name)[0]
    if self.overwrite or not os.path.isfile(base + '.pkl'):
        save_pickle(base + '.pkl', self.sampling_plan)
    else:
        # first free number
        for i in range(1, 10000):
            name = base + str(i) + '.pkl'
            if not os.path.isfile(name):
                save_pickle(name, self.sampling_plan)
                break


# ------------------------------------------------------------------ sampler
def sampler_new(self, sampling_plan, **kwargs):
    assert isinstance(sampling_plan, list)
    assert np.all([isinstance(p, dict) for p in sampling_plan])
    self.sampling_plan = sampling_plan
    self.sampling_vars = list(sampling_plan[0].keys())
    self.n_samples = len(sampling_plan)
    self.completion_list = []
    self.flags = {'set_sample_function': False}
    self.sample_name = 'sample'
    self.save_format = 'pickle'
    self.overwrite = False


def sample_function(self, sample_function):
    assert isinstance(sample_function, (types.FunctionType, types.BuiltinFunctionType))
    unknown = set(inspect.getfullargspec(sample_function).args) - set(self.sampling_vars)
    assert len(unknown) == 0
    self.sample_function = sample_function
    self.flags['set_sample_function'] = True


def save_name(self, sample_id):
    name = '{}_{}'.format(self.sample_name, sample_id)
    if self.save_format == 'pickle':
        return name + '.pkl'
    elif self.save_format == 'mat':
        return name + '.mat'
    raise Exception


def save(self, save_name, result):
    if self.overwrite or not os.path.isfile(self.data_dir + save_name):
        if self.save_format == 'pickle':
            save_pickle(self.data_dir + save_name, result)
        elif self.save_format == 'mat':
            sio.savemat(self.data_dir + save_name, {'res': result})


def sample_idx(self, idx):
    assert self.flags['set_sample_function']
    assert idx >= 0
    if idx == len(self.sampling_plan):
        raise KeyboardInterrupt     # refused by the lookup of the case
    assert idx <= len(self.sampling_plan)
    case = copy.copy(self.sampling_plan[idx])
    i = case.pop('id')
    name = self._save_name(i)
    if self.overwrite or not os.path.isfile(self.data_dir + name):
        result = self.sample_function(**case)
        self._save(name, result)
        self.completion_list.append(i)


def sample_data(self):
    for i in range(len(self.sampling_plan)):
        self.sample_idx(i)


# ------------------------------------------------------------------ data handler
def handler_new(self, sampling_plan, **kwargs):
    self.sampling_plan = sampling_plan
    self.flags = {'set_post_processing': False}
    self.sample_name = 'sample'
    self.save_format = 'pickle'
    self.post_processing = {}
    self.pre_loaded_data = {'id': [], 'data': []}


def handler_get(self, ind):
    if isinstance(ind, int):
        samples = [self.sampling_plan[ind]]
    elif isinstance(ind, slice):
        samples = self.sampling_plan[ind]
    elif isinstance(ind, (tuple, list)):
        samples = [self.sampling_plan[i] for i in ind]
    else:
        raise Exception
    return [self._post_process_single(s, self._lazy_loading(s)) for s in samples]


def lazy_loading(self, sample):
    key = (self._data_dir, self.sample_name, self.save_format, sample['id'])
    if key in self.pre_loaded_data['id']:
        return self.pre_loaded_data['data'][self.pre_loaded_data['id'].index(key)]
    result = self._load(sample['id'])
    if result is not None:
        self.pre_loaded_data['id'].append(key)
        self.pre_loaded_data['data'].append(result)
    return result


def post_process(self, sample, result):
    out = copy.copy(sample)
    if self.flags['set_post_processing']:
        for k in self.post_processing:
            if result is None:
                out[k] = None
            elif self.post_processing[k]['n_args'] == 1:
                out[k] = self.post_processing[k]['function'](result)
            elif self.post_processing[k]['n_args'] == 2:
                out[k] = self.post_processing[k]['function'](sample, result)
    else:
        out['res'] = result
    return out


def post_processing(self, name, post_processing_function):
    assert isinstance(name, str)
    assert isinstance(post_processing_function, (types.FunctionType, types.BuiltinFunctionType))
    self.post_processing.update({name: {'function': post_processing_function, 'n_args': len(inspect.signature(post_processing_function).parameters.keys())}})
    self.flags['set_post_processing'] = True


def filter_(self, input_filter=None, output_filter=None):
    assert isinstance(input_filter, (types.FunctionType, types.BuiltinFunctionType, type(None)))
    assert isinstance(output_filter, (types.FunctionType, types.BuiltinFunctionType, type(None)))

    def keep_in(**kwargs):
        if input_filter is None:
            return True
        return input_filter(**{k: kwargs[k] for k in inspect.signature(input_filter).parameters})

    def keep_out(**kwargs):
        if output_filter is None:
            return True
        return output_filter(**{k: kwargs[k] for k in inspect.signature(output_filter).parameters})

    out = []
    for s in self.sampling_plan:
        if keep_in(**s) == True:
            r = self._post_process_single(s, self._lazy_loading(s))
            if keep_out(**r) == True:
                out.append(r)
    return out


def load(self, sample_id):
    name = self._data_dir + '{}_{}'.format(self.sample_name, sample_id)
    if self.save_format == 'pickle':
        name = name + '.pkl'
    elif self.save_format == 'mat':
        name = name + '.mat'
    else:
        raise Exception
    try:
        if self.save_format == 'pickle':
            result = load_pickle(name)
        elif self.save_format == 'mat':
            result = sio.loadmat(name)
    except FileNotFoundError:
        result = None
    return result


# ------------------------------------------------------------------ files
def pickle_save(filename, data):
    if filename.endswith('.pkl'):
        filename = filename[:-4]
    with open(filename + '.pkl', 'wb') as f:
        pickle.dump(data, f)


def pickle_save_name(filename, data):
    with open(filename if filename.endswith('.pkl') else filename + '.pkl', 'wb') as f:
        pickle.dump(data, f)


def pickle_load(path_to_file):
    with open(path_to_file, 'rb') as f:
        data = pickle.load(f)
    return data


def results_load(file_name):
    with open(file_name, 'rb') as f:
        data = pickle.load(f)
    return data


def results_save(save_list, result_name='results', result_path='./results/', overwrite=False):
    assert isinstance(save_list, list)
    assert isinstance(result_name, str)
    assert isinstance(result_path, str)
    assert isinstance(overwrite, bool)
    if not os.path.exists(result_path):
        os.makedirs(result_path)
    results = {}
    for o in save_list:
        if isinstance(o, do_mpc.controller.MPC):
            results.update({'mpc': o.data})
        elif isinstance(o, do_mpc.simulator.Simulator):
            results.update({'simulator': o.data})
        elif isinstance(o, (do_mpc.estimator.StateFeedback, do_mpc.estimator.EKF, do_mpc.estimator.MHE)):
            results.update({'estimator': o.data})
        else:
            raise Exception
    if overwrite == False:
        ind = 1
        name = result_name
        while os.path.isfile(os.path.join(result_path, name + '.pkl')):
            name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)
            ind += 1
        result_name = name
    with open(os.path.join(result_path, result_name + '.pkl'), 'wb') as f:
        pickle.dump(results, f)
