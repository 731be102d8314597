"""Obligations that decide part of more than one property.

SHARED[prop] lists (source property, pattern): the obligations of the source whose key matches are also obligations of
prop, because its statement depends on them as well."""
S = {
    'C01': [('C07', r'vectors:|access:.*(lb_opt_x|ub_opt_x|scaling)'), ('C08', r'solve:.*stores opt_x_num|guess:'), ('C15', r'fresh:optimizer.*scaling')],
    'C03': [('C07', r'limits:'), ('C06', r'discrete:|collocation:'), ('C08', r'create:.*_create_nlp'), ('C16', r'order:|gate:.*nlp_cons')],
    'C04': [('C07', r'limits:.*(slack|raises|_nl_cons:)'), ('C15', r'cost:'), ('C16', r'order:|gate:.*nlp_obj'), ('C08', r'create:.*_create_nlp')],
    'C05': [('C03', r'variables:MPC'), ('C15', r'refuse:controller.MPC._check_validity:calls')],
    'C07': [('C08', r'solve:.*calls S|create:.*_create_nlp'), ('C16', r'gate:.*nlp_cons_[lu]b')],
    'C08': [('C09', r'step:.*stores _opt_p_num'), ('C10', r'step:.*stores _opt_p_num'), ('C07', r'access:.*(lb_opt_x|ub_opt_x)')],
    'C09': [('C08', r'(solve|tvp|create):controller.MPC'), ('C05', r'values:'), ('C12', r'store:data.Data.(update|init_storage)'),
            ('C15', r'refuse:controller.MPC._check_validity:(calls|setattrs)|fresh:controller.MPC')],
    'C10': [('C08', r'(solve|tvp|create):estimator.MHE'), ('C12', r'store:data.Data.(update|init_storage)'),
            ('C15', r'refuse:estimator.MHE._check_validity:(calls|setattrs)|fresh:MHE previous'), ('C15', r'cost:estimator.MHE.set_default_objective')],
    'C11': [('C12', r'store:data.Data.(update|init_storage)'), ('C15', r'refuse:simulator.Simulator._check_validity:(calls|setattrs)|fresh:Simulator')],
    'C12': [('C08', r'create:.*_prepare_data'), ('C13', r'query:data.MPCData.__init__')],
    'C13': [('C05', r'tree:'), ('C08', r'create:'), ('C12', r'store:data.Data.(set_meta|update|__init__)'), ('C09', r'step:.*kwcalls update.*_opt_')],
    'C14': [('C10', r'window:estimator.MHE._check_validity'), ('C12', r'store:data.Data.update')],
    'C15': [('C08', r'tvp:.*(raises|stores flags)'), ('C10', r'window:.*(raises|stores flags)'), ('C11', r'given:.*(raises|stores flags)'),
            ('C05', r'values:.*(raises|stores flags)'), ('C07', r'limits:.*raises')],
    'C16': [('C07', r'access:.*raises|limits:.*set_nl_cons:raises'), ('C15', r'cost:.*raises|fresh:.*attr flags'), ('C08', r'(access|compile|create):.*(raises|stores flags)'),
            ('C17', r'(declare|copy):.*raises|assemble:.*setup:(raises|stores flags)'), ('C19', r'(system|law).*(raises|stores flags)'), ('C18', r'matrices:.*raises'),
            ('C11', r'setup:.*(raises|stores flags)')],
    'C17': [('C18', r'linear model:')],
    'C18': [('C17', r'copy:.*_transfer|assemble:')],
    'C19': [('C12', r'store:data.Data.update'), ('C14', r'reset:controller.LQR')],
    'C20': [('C21', r'dir:sampling.SamplingPlanner'), ('C23', r'store:tools.save_pickle')],
    'C21': [('C23', r'store:tools.(save|load)_pickle')],
    'C22': [('C23', r'store:tools.load_pickle')],
    'C24': [('C30', r'own:'), ('C15', r'fresh:model.IteratedVariables')],
    'C28': [('C08', r'solve:.*(setattrs|stores opt_x_num|stores _opt_x_num)')],
    'C30': [('C24', r'values:.*setter')],
    'C31': [('C13', r'query:'), ('C12', r'store:data.Data.__getitem__'), ('C32', r'containers:tools._structure'), ('C05', r'tree:')],
    'C34': [('C16', r'gate:.*sett'), ('C20', r'file:.*set_param'), ('C21', r'dir:.*set_param'), ('C22', r'read:.*set_param')],
}
