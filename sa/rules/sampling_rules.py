"""Sampling tools, storing and loading of results."""
from . import prop
from .spec_rules import table, ASSUME

PL, SA, DH = 'sampling.SamplingPlanner', 'sampling.Sampler', 'sampling.DataHandler'
S = 'sampling'
A = ['files are changed only through these classes']


@prop('C20', 'Methods of the sampling planner compared with a reference: accepted variables, contents and identifier of every added case, refused input, exported file.', ASSUME, floor=20)
def planner(ctx, R, tier):
    R.use('plan', 'every added case has a value for every declared variable, given or generated, and its position as identifier; unknown names are refused')
    ni = dict(noinline=('SamplingPlanner.add_sampling_case',))
    table(ctx, R, [
        (PL, '__init__', S, 'plan_new', ['attr ' + a for a in 'sampling_vars sampling_var_names sampling_plan'.split()]),
        (PL, 'set_sampling_var', S, 'sampling_var', ['appends sampling_vars', 'appends sampling_var_names', 'raises']),
        (PL, 'add_sampling_case', S, 'add_case', ['return', 'appends sampling_plan', 'raises']),
        (PL, 'gen_sampling_plan', S, 'gen_plan', ['return', 'calls add_sampling_case', 'raises'], ni),
        (PL, 'product', S, 'product', ['return', 'calls add_sampling_case', 'raises'], ni)])
    R.use('file', 'the plan is exported without replacing an existing file unless this is allowed')
    table(ctx, R, [
        (PL, 'export', S, 'export', ['calls save_pickle', 'raises'], dict(noinline=('save_pickle',))),
        (PL, 'set_param', S, 'set_param', ['setattrs']),
        (PL, '__init__', S, 'plan_new', ['attr overwrite', 'attr id_precision'])])


@prop('C21', 'Methods of the sampler compared with a reference: which case is computed, with which arguments, under which name its result is stored, and when an existing result is kept.', ASSUME, floor=20)
def sampler(ctx, R, tier):
    R.use('sample', 'a sampled case calls the function with exactly its own values and stores the result under its identifier; stored results are kept unless overwriting is allowed')
    ni = dict(noinline=('_save_name', '_save', 'sample_idx', 'save_pickle', 'printProgressBar'))
    table(ctx, R, [
        (SA, '__init__', S, 'sampler_new', ['attr ' + a for a in 'sampling_plan sampling_vars n_samples completion_list flags sample_name save_format overwrite'.split()] + ['raises']),
        (SA, 'set_sample_function', S, 'sample_function', ['attr sample_function', 'stores flags', 'raises']),
        (SA, '_save_name', S, 'save_name', ['return']),
        (SA, '_save', S, 'save', ['calls save_pickle|savemat'], dict(noinline=('save_pickle',))),
        (SA, 'sample_idx', S, 'sample_idx', ['calls sample_function|_save', 'appends completion_list', 'raises'], ni),
        (SA, 'sample_data', S, 'sample_data', ['calls sample_idx'], ni)])
    R.use('dir', 'results go to the chosen directory, which is created')
    table(ctx, R, [
        (SA, 'data_dir', S, 'get_dir', ['return']),
        (SA, 'data_dir.setter', S, 'set_dir', ['setattrs', 'calls mkdir']),
        (PL, 'data_dir', S, 'get_dir', ['return']),
        (PL, 'data_dir.setter', S, 'set_dir', ['setattrs', 'calls mkdir']),
        (SA, 'set_param', S, 'set_param', ['setattrs'])])


@prop('C22', 'Methods of the data handler compared with a reference: selected cases, file read for a case, cached results, post processing and filters.', ASSUME, floor=15)
def handler(ctx, R, tier):
    R.use('read', 'a query returns, for exactly the selected cases in order, the values of the case and the stored or post-processed result of that case')
    ni = dict(noinline=('_lazy_loading', '_post_process_single', 'load_pickle', 'DataHandler._load'))
    table(ctx, R, [
        (DH, '__init__', S, 'handler_new', ['attr ' + a for a in 'sampling_plan flags sample_name save_format post_processing pre_loaded_data'.split()]),
        (DH, '__getitem__', S, 'handler_get', ['return', '>raises'], ni),
        (DH, '_lazy_loading', S, 'lazy_loading', ['return', 'calls append'], dict(noinline=('DataHandler._load',))),
        (DH, '_post_process_single', S, 'post_process', ['return']),
        (DH, 'set_post_processing', S, 'post_processing', ['stores post_processing', 'stores flags', 'raises']),
        (DH, '_load', S, 'load', ['return'], dict(noinline=('load_pickle',))),
        (DH, 'set_param', S, 'set_param', ['setattrs']),
        (DH, 'data_dir', S, 'get_dir', ['return']),
        (DH, 'data_dir.setter', S, 'set_dir_only', ['setattrs'])])
    R.use('filter', 'filters select exactly the cases for which they hold')
    table(ctx, R, [(DH, 'filter', S, 'filter_', ['return', 'raises'], ni)])


@prop('C23', 'Functions that store and load results compared with a reference.', ASSUME + A, floor=8)
def results(ctx, R, tier):
    R.use('store', 'results are stored completely in the requested place and never replace an existing file unless allowed; loading returns what was stored')
    ob = ['calls open|dump|load|makedirs', 'return', 'raises']
    table(ctx, R, [
        (None, None, S, 'results_save', ob, dict(func='data.save_results')),
        (None, None, S, 'results_load', ob, dict(func='data.load_results')),
        (None, None, S, 'pickle_save|pickle_save_name', ob, dict(func='tools.save_pickle')),
        (None, None, S, 'pickle_load', ob, dict(func='tools.load_pickle'))])
