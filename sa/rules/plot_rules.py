"""Graphics, nested structures and indexed properties."""
from . import prop
from .spec_rules import table, ASSUME

G, T, I, S = 'graphics.Graphics', 'tools._structure.Structure', 'tools._indexedproperty.IndexedProperty', 'plots'
KEEP = dict(keep=('master', 'full'), noinline=('Graphics.add_line', 'plot_results', 'plot_predictions', 'reset_axes', 'Structure.__setitem__', 'Structure.__getitem__', 'prediction', 'Data.__getitem__'))
M = dict(keep=('master',))


@prop('C31', 'Lines, their data and names, default plots and animations compared with a reference.', ASSUME, floor=25)
def graphics(ctx, R, tier):
    R.use('lines', 'a line shows the recorded or predicted values of its own variable over the recorded time')
    table(ctx, R, [
        (G, '__init__', S, 'new', ['attr ' + a for a in ('data', 'color', 'line_list', 'ax_list', '_result_lines', '_pred_lines')] + ['raises']),
        (G, 'result_lines', S, 'result_lines', ['return', 'raises']),
        (G, 'pred_lines', S, 'pred_lines', ['return', 'raises']),
        (G, 'add_line', S, 'add_line', ['stores *', 'calls plot|__setitem__', 'order __setitem__|get_color', 'appends ax_list', 'raises'], dict(keep=('master', 'flatten'), noinline=('Structure.__setitem__', 'Structure.__getitem__', 'prediction', 'Data.__getitem__'))),
        (G, 'plot_results', S, 'show_results', ['calls set_data', 'raises'], KEEP),
        (G, 'plot_predictions', S, 'show_predictions', ['calls set_data', 'raises'], KEEP),
        (G, 'clear', S, 'clear_lines', ['calls set_data', 'raises'], KEEP),
        (G, 'reset_axes', S, 'reset_axes', ['calls relim|autoscale', 'order relim|autoscale', 'raises']),
        (G, 'reset_prop_cycle', S, 'reset_cycle', ['calls set_prop_cycle', 'raises'])])
    R.use('figures', 'every requested variable has its own axis; an animation shows every step and replaces no file')
    table(ctx, R, [
        (None, None, S, 'default_plot', ['return', 'calls subplots|add_line|set_ylabel|set_xlabel', 'raises'], dict(func='graphics.default_plot', keep=KEEP['keep'] + ('Graphics',), noinline=KEEP['noinline'])),
        (None, None, S, 'animate', ['calls FuncAnimation|save|makedirs', 'raises'], dict(func='graphics.animate', **KEEP))])


@prop('C32', 'Nested structures, indexed properties, timers and symbol factories compared with a reference.', ASSUME, floor=25)
def containers(ctx, R, tier):
    R.use('containers', 'an index addresses exactly the elements stored under it, of the object it was taken from')
    table(ctx, R, [
        (T, '__init__', S, 'structure', ['attr ' + a for a in ('master', 'powerindex', 'features', 'index', 'count')] + ['raises']),
        (T, 'full', S, 'full', ['return', 'raises'], M),
        (T, '__setitem__', S, 'set_element', ['stores *', 'appends *', 'calls __setitem__', 'setattrs', 'raises'], dict(noinline=('Structure.__setitem__',), **M)),
        (T, '__getitem__', S, 'get_elements', ['return', 'raises'], dict(noinline=('Structure._select',), **M)),
        (T, '_select', S, 'select_elements', ['return', 'calls _select', 'raises'], dict(noinline=('Structure._select',), **M)),
        (T, '_getkeys', S, 'get_keys', ['return', 'raises'], dict(noinline=('Structure._select',), **M)),
        (T, 'get_index', S, 'get_positions', ['return', 'raises'], dict(noinline=('Structure._select',), **M)),
        (I, '__init__', S, 'property_new', ['setattrs', 'raises']),
        (I, '__get__', S, 'property_bind|property_bind_new', ['return', 'stores *', 'setattrs', 'raises'], dict(keep=('copy.copy',))),
        (I, '__getitem__', S, 'property_get', ['return', 'setattrs', 'raises']),
        (I, '__setitem__', S, 'property_set', ['return', 'setattrs', 'raises']),
        (I, 'getter', S, 'property_getter', ['return', 'raises']),
        (I, 'setter', S, 'property_setter', ['return', 'raises'])])
    R.use('helpers', 'times are measured between start and stop; symbols have the chosen type')
    table(ctx, R, [
        ('tools._timer.Timer', '__init__', S, 'timer', ['attr ' + a for a in ('name', 'unit', 'factor', 't_start', 't_list')] + ['raises']),
        ('tools._timer.Timer', 'tic', S, 'tic', ['setattrs', 'raises']),
        ('tools._timer.Timer', 'toc', S, 'toc', ['appends t_list', 'setattrs', 'raises']),
        ('tools._casstructure._SymVar', '__init__', S, 'symvar', ['attr sym', 'attr struct', 'attr sym_struct', 'attr dtype', 'raises'])])
