"""Source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json
import os
import sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

MPC, MHE, OPT, SIM, DATA = 'do_mpc/controller/_mpc.py', 'do_mpc/estimator/_mhe.py', 'do_mpc/optimizer.py', 'do_mpc/simulator.py', 'do_mpc/data.py'
MODEL, LIN = 'do_mpc/model/_model.py', 'do_mpc/model/_linearmodel.py'
P = []


def p(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'User functions and bounds always see quantities in physical units',
  'Whatever scaling factors the user chooses, every model, cost, constraint, measurement and auxiliary function inside the control and estimation problems is evaluated on quantities in the units of the model (the built-in quadratic input-change penalty is defined on scaled inputs), and every bound given by the user limits the physical quantity. Changing a scaling factor therefore never changes which trajectories are feasible or the value of any user-given cost.',
  ['inputs', 'configurations'], 'all scaling factors, all models, all settings (discrete/continuous, soft constraints, robust horizon, open loop)',
  'The test problems use a few fixed scalings (mostly 1) with closed-loop references; a missing or doubled factor on a path that is not exercised stays invisible.',
  [OPT, MPC, MHE], [('scaled decision vector times scaling before each function call', MPC + ':_prepare_nlp'), ('same for the estimator', MHE + ':_prepare_nlp')],
  [('scaling factors', 'physical value = scaled decision variable * factor', OPT + ':Optimizer.scaling')], ['NLP passed to the solver'])
p('C02', 'Every cost, constraint and auxiliary term uses one consistent stage and branch',
  'In the control and estimation problems each stage term combines state, algebraic state, input, parameters and measurements of the same time and the same scenario branch, and dynamics connect a stage with exactly its successor along that branch. No term mixes quantities of different stages or scenarios except the declared couplings (input change, arrival cost, initial state).',
  ['inputs', 'configurations'], 'all horizons, robust horizons, uncertainty sets, collocation settings and model types',
  'The tests fix a handful of horizons and robust horizons 0 or 1, where wrong indices often coincide with the right ones.',
  [MPC, MHE, OPT], [('index arithmetic of the transcription loops', MPC + ':_prepare_nlp'), ('index arithmetic of the estimation problem', MHE + ':_prepare_nlp'), ('tree tables', OPT + ':_setup_scenario_tree')], (), ['NLP passed to the solver'])
p('C03', 'The problem contains every promised constraint, with matching limits',
  'For every stage, branch and configuration the problem handed to the solver contains the initial condition, the dynamics, the algebraic equations and every nonlinear constraint at each promised point. Each constraint row has exactly one lower and one upper limit in the same position: equalities get zero/zero, inequalities the limit given by the user. Soft constraints are relaxed only by their own slack.',
  ['inputs', 'configurations'], 'all models, constraint sets, horizons and configurations',
  'A constraint missing at one stage or limits shifted by one block change the result only for problems where that row is active; the tests compare few trajectories.',
  [MPC, MHE, OPT], [('constraint and limit lists filled in lockstep', MPC + ':_prepare_nlp'), ('constraint and limit lists of the estimator', MHE + ':_prepare_nlp'), ('soft constraints', OPT + ':_setup_nl_cons')], (), ['NLP passed to the solver'])
p('C04', 'The objective is exactly the documented weighted sum',
  'The controller minimises, over all scenario nodes weighted by one over the number of nodes of the stage, the stage cost at every stage, the terminal cost at the last stage, the input-change cost and the slack penalties, each exactly once. The estimator minimises the arrival cost once and the stage cost of measurement and process noise at every stage of the window plus slack penalties.',
  ['inputs', 'configurations'], 'all cost functions, horizons, robust horizons, soft-constraint settings',
  'An omitted, doubled or wrongly weighted term only shifts the optimum; the reference trajectories of the tests cover few configurations.',
  [MPC, MHE, OPT], [('accumulation of the objective', MPC + ':_prepare_nlp'), ('accumulation of the objective', MHE + ':_prepare_nlp')], (), ['NLP passed to the solver'])
p('C05', 'The scenario tree covers every uncertainty combination and is non-anticipative',
  'Up to the robust horizon every node branches into all combinations of the given parameter values, afterwards each branch keeps its last realisation; every node of the tree has exactly one parent and all nodes are used. Decisions at a node are shared by every scenario passing through it, and in open-loop mode all scenarios share the same inputs.',
  ['inputs', 'configurations'], 'all robust horizons, numbers of uncertainties and values, horizons',
  'Tests use robust horizon 0 or 1 only; tables for deeper trees are never exercised.',
  [OPT, MPC], [('tree tables', OPT + ':_setup_scenario_tree'), ('parameter combinations', MPC + ':set_uncertainty_values')], (), ['parameter vector and scenario tables'])
p('C06', 'Continuous models are discretised by the declared collocation scheme',
  'For a continuous model and any collocation degree and number of finite elements, the step equations contain the algebraic equations and the collocation equations at every collocation point, with interpolation weights of the chosen scheme, the element length equal to the sampling time divided by the number of elements, and continuity between elements. A discrete model contributes exactly its right-hand side and algebraic equations.',
  ['configurations', 'inputs'], 'all degrees, element counts, schemes, models',
  'Tests use degree 2 and one or two elements; offsets for other combinations are not reached.',
  [OPT], [('construction of the step function', OPT + ':_setup_discretization')], (), ['function giving the step equations'])
p('C07', 'Bounds and scaling reach the solver, also when changed after setup',
  'Each bound on states, inputs, algebraic states, estimated parameters, terminal states, slacks and constraints limits the corresponding decision variables at every stage where it is promised, whether it is set before or after the problem has been created. Reading a bound or scaling factor returns what was set for that variable and side.',
  ['inputs', 'histories'], 'all sequences of bound/scaling settings before and after setup',
  'The tests set bounds once before setup and never read them back or change them.',
  [OPT, MPC, MHE], [('bounds property', OPT + ':Optimizer.bounds'), ('bound vectors', MPC + ':_update_bounds'), ('bound vectors', MHE + ':_update_bounds')], (), ['bound vectors passed to the solver'])
p('C08', 'Each solve uses the current problem data and publishes one consistent result',
  'Every call of the solver gets the current initial guess, current variable bounds, constraint limits and parameters, plus the multipliers of the previous solution once there is one. All published results - scaled and unscaled solution, multipliers, statistics, auxiliary values - belong to that same solution.',
  ['histories', 'inputs'], 'all sequences of calls',
  'Tests look at the closed-loop trajectory only; a stale guess, multiplier or parameter still converges in most cases.',
  [OPT, MPC, MHE], [('solver call', OPT + ':Optimizer.solve')], (), ['solver arguments and published results'])
p('C09', 'One MPC call uses and records exactly the current data',
  'Each call of the controller solves the problem for the given state, the input applied before, and the parameters and time-varying parameters of the current time; it returns the first input of that solution in physical units. It appends exactly one consistent row of results and advances the clock by one sampling time.',
  ['histories', 'inputs'], 'all histories of calls', 'Tests run one fixed closed loop from a fixed start and compare trajectories.',
  [MPC], [('make_step', MPC + ':MPC.make_step')], (), ['returned input', 'recorded data', 'next call'])
p('C10', 'One MHE call uses the right measurement window and records current data',
  'Each call of the estimator records the new measurement first, solves the problem for the window of the most recent measurements and time-varying parameters with the previous estimates in the arrival cost, and returns the last state of that solution in physical units. It appends exactly one row of results and advances the clock by one sampling time.',
  ['histories', 'inputs'], 'all histories, also shorter than the window', 'One fixed closed loop in the tests.',
  [MHE], [('make_step', MHE + ':MHE.make_step'), ('measurement window', MHE + ':MHE.get_y_template / default y_fun')], (), ['returned estimate', 'recorded data'])
p('C11', 'One simulator call integrates the current data and returns the new measurement',
  'Each call of the simulator advances the state by one sampling time from the current state with the input, parameters, time-varying parameters and process noise of that call, and returns the measurement of the new state with the given measurement noise. It records exactly one row belonging to the time before the step and rejects inputs and noise of wrong type or shape.',
  ['histories', 'inputs'], 'all histories of calls, discrete and continuous models', 'Tests never use noise, changing parameters or wrong shapes with the simulator.',
  [SIM], [('make_step', SIM + ':Simulator.make_step'), ('integration', SIM + ':Simulator.simulate')], (), ['returned measurement', 'recorded data'])
p('C12', 'Recorded data grows by whole rows and is read back by name',
  'Every update appends exactly one row to each named field, keeps all earlier rows, and refuses unknown names. Queries by variable name and element return exactly the recorded columns of that element, and clearing the history leaves every declared field empty with its declared width.',
  ['histories', 'inputs'], 'all sequences of updates, queries and resets', 'Tests read few fields after one run.',
  [DATA], [('storage', DATA + ':Data.update'), ('query', DATA + ':Data.__getitem__')], (), ['data object'])
p('C13', 'Prediction queries return the stored trajectory of the requested variable',
  'For every variable, element, time index and scenario a prediction query returns the values of exactly that variable along exactly that scenario path at every stage of the stored solution, independent of earlier queries.',
  ['inputs', 'histories'], 'all queries in any order, all tree shapes', 'Tests do not use prediction queries except through one animation.',
  [DATA, OPT], [('query', DATA + ':MPCData.prediction'), ('scenario lines', OPT + ':_setup_scenario_tree')], (), ['returned array'])
p('C17', 'A model evaluates exactly the equations the user declared',
  'After setup, every function of the model (right-hand side, algebraic, measurement, auxiliary and their derivatives) evaluates the declared expressions for the declared variables, in the declared order and with process and measurement noise added exactly where requested. Undeclared, repeated or wrongly typed names are refused, missing right-hand sides are refused, and a pickled model is restored with the same equations.',
  ['inputs', 'histories'], 'all sets and orders of declarations, both symbol types',
  'The test models declare variables in one order with default shapes; permuted or vector-valued declarations and refused inputs are hardly exercised.',
  [MODEL], [('declarations', MODEL + ':Model.set_variable / set_rhs / set_meas'), ('assembly', MODEL + ':Model.setup'), ('symbols to structures', MODEL + ':_substitute_struct_vars')], (), ['functions of the model'])
p('C18', 'Derived models represent the same dynamics as the model they come from',
  'Linearisation returns the Jacobians of the model functions at the given point with noise zero, discretisation returns the zero-order-hold matrices, steady states satisfy the model equations, and conversion of a DAE keeps the solutions of the original model. All variable names and shapes carry over, and inputs for which the conversion is not defined are refused.',
  ['inputs'], 'all models and operating points',
  'Tests convert one model each, with trivial measurement equations and scalar inputs.',
  [MODEL, LIN, 'do_mpc/model/_linearize.py', 'do_mpc/model/_dae2odeconversion.py'], [('linearisation', 'do_mpc/model/_linearize.py:linearize'), ('discretisation', LIN + ':LinearModel.discretize'), ('index reduction', 'do_mpc/model/_dae2odeconversion.py:dae2odeconversion')], (), ['matrices and equations of the returned model'])
p('C14', 'A reset clears the history and the clock and nothing else',
  'Resetting the history of a controller, estimator or simulator leaves every declared record empty, returns the clock to the start time, and keeps the problem, parameters and current initial values usable. What is recorded afterwards starts again at the first row.',
  ['histories'], 'all sequences of steps and resets', 'No test resets anything.',
  [MPC, MHE, SIM, OPT, DATA, 'do_mpc/controller/_lqr.py', 'do_mpc/estimator/_ekf.py'], [('reset', OPT + ':Optimizer.reset_history'), ('reset', SIM + ':Simulator.reset_history'), ('storage', DATA + ':Data.init_storage')], (), ['recorded data', 'clock'])
p('C15', 'Incomplete or contradictory problems are refused before they are built',
  'Setup refuses a missing objective, mandatory setting, input-change penalty or required parameter function, and crossing bounds, and accepts everything complete, using zero defaults only for parameters that do not exist. Cost functions and penalty factors that are not scalar or use unknown variables or names are refused. A fresh object has no bounds, unit scaling, zero initial values and nothing marked as set.',
  ['inputs', 'configurations'], 'all combinations of settings given or left out', 'Tests set up complete problems only; which omission is detected is not tested.',
  [MPC, MHE, SIM, OPT], [('validation', MPC + ':MPC._check_validity'), ('validation', MHE + ':MHE._check_validity'), ('validation', SIM + ':Simulator._check_validity'), ('cost', MPC + ':MPC.set_objective')], (), ['setup'])
p('C16', 'Methods work only in the stage of setup they are defined for',
  'The problem is prepared and created exactly once and in this order. Cost and constraints can be read after preparation and changed only between preparation and creation; settings cannot change after setup; solving, stepping and setting initial guesses are refused before setup.',
  ['histories'], 'all orders of calls', 'Tests call the methods in the documented order only.',
  [MPC, MHE, SIM, OPT], [('order', OPT + ':Optimizer.setup'), ('gates', OPT + ':Optimizer.nlp_cons'), ('decorator', OPT + ':Optimizer.solve')], (), ['exceptions', 'problem handed to the solver'])
p('C19', 'The regulator applies the gain of the declared quadratic cost',
  'For a discrete-time linear model the applied input is the set point plus the feedback gain times the deviation from it, plus the previous input when input changes are penalised. The gain comes from the Riccati recursion over the horizon with the given weights, or from the algebraic Riccati equation when the horizon is infinite. One row is recorded per call and the clock advances by one sampling time.',
  ['inputs', 'histories'], 'all models, weights, horizons, set points and both modes', 'Tests run one closed loop per mode with one horizon.',
  ['do_mpc/controller/_lqr.py'], [('gain', 'do_mpc/controller/_lqr.py:LQR.discrete_gain'), ('law', 'do_mpc/controller/_lqr.py:LQR.make_step'), ('augmentation', 'do_mpc/controller/_lqr.py:LQR.set_rterm')], (), ['returned input', 'recorded data'])
SMP = 'do_mpc/sampling/'
p('C20', 'A sampling plan lists exactly the requested cases, each one complete',
  'Every case added to a sampling plan has a value for every declared variable - the given one, or else one drawn from its own distribution - and its position as identifier; unknown variable names are refused. Grid plans contain every combination of the given values once. Exporting a plan never replaces an existing file unless this is allowed.',
  ['inputs', 'histories'], 'all variables, values, numbers of cases and orders of calls', 'Tests generate one small plan per sampling method.',
  [SMP + '_samplingplanner.py'], [('case', SMP + '_samplingplanner.py:SamplingPlanner.add_sampling_case'), ('grid', SMP + '_samplingplanner.py:SamplingPlanner.product'), ('export', SMP + '_samplingplanner.py:SamplingPlanner.export')], (), ['plan', 'files'])
p('C21', 'Every planned case is sampled with its own values and stored under its name',
  'Sampling calls the function once per case with exactly the values of the case and stores the result under the identifier of the case in the chosen format and directory. A result that is already stored is neither computed again nor replaced unless overwriting is allowed. Functions with unknown arguments and cases outside of the plan are refused.',
  ['inputs', 'histories'], 'all plans, functions and states of the directory', 'Tests sample one plan into an empty directory.',
  [SMP + '_sampler.py'], [('case', SMP + '_sampler.py:Sampler.sample_idx'), ('store', SMP + '_sampler.py:Sampler._save')], (), ['files', 'calls of the sample function'])
p('C22', 'Sampled data is returned for exactly the selected cases',
  'Indexing or filtering sampled data returns, in plan order, exactly the selected cases, each with its own stored result or post-processed values. A result generated later, or stored in a directory or under a name set later, is found by the next query. Missing results give None.',
  ['inputs', 'histories'], 'all plans, indices, filters, post-processing functions and orders of queries and changes', 'Tests index and filter one complete data set with short functions.',
  [SMP + '_datahandler.py'], [('cache', SMP + '_datahandler.py:DataHandler._lazy_loading'), ('filter', SMP + '_datahandler.py:DataHandler.filter'), ('process', SMP + '_datahandler.py:DataHandler._post_process_single')], (), ['returned samples'])
p('C23', 'Stored results are complete, in the requested place, and can be loaded again',
  'Saving stores the recorded data of every given object under its role in the requested directory and name, and never replaces an existing file unless this is allowed. Loading returns exactly what was stored.',
  ['inputs', 'histories'], 'all object lists, names, directories and existing files', 'Tests save once to the default directory.',
  [DATA, 'do_mpc/tools/__init__.py'], [('save', DATA + ':save_results'), ('load', DATA + ':load_results')], (), ['files'])
p('C24', 'Initial values are taken over in model order and wrong ones are refused',
  'Setting an initial state, input, algebraic state, parameter estimate or time accepts numbers, arrays and structures of the right size and stores their values in the order of the model. Values of a wrong size or type are refused and leave the stored value unchanged.',
  ['inputs'], 'all accepted representations, all sizes', 'Tests set initial states as column vectors of the right size only.',
  ['do_mpc/model/_iteratedvariables.py', MHE], [('conversion', 'do_mpc/model/_iteratedvariables.py:IteratedVariables._convert2struct')], (), ['x0, u0, z0, p_est0, t0'])
p('C34', 'Every setting is stored under its own name and takes effect',
  'Setting a parameter by keyword stores exactly that value under exactly that setting; unknown keywords change nothing. The helper methods for solver output and linear solver change exactly their solver options, and omitted settings have their documented defaults.',
  ['inputs'], 'all settings and values', 'Tests set a fixed group of settings and never read them back.',
  [MPC, MHE, SIM, 'do_mpc/controller/_controllersettings.py', 'do_mpc/estimator/_estimatorsettings.py'], [('set_param', MPC + ':MPC.set_param')], (), ['settings objects', 'solver options'])
DIFF = 'do_mpc/differentiator/_nlpdifferentiator.py'
p('C28', 'Sensitivities are those of the optimal solution of the given problem',
  'The sensitivities with respect to the parameters solve the linear system formed from the derivatives of the Lagrangian of the given problem and its active constraints, at the current solution, parameters and bounds, and are returned for every variable and parameter in physical units. Status values report what was checked, and a singular or unsolvable system gives NaN or the least-squares solution, as requested. Incomplete problems, solutions and parameters of a wrong size or type are refused.',
  ['inputs', 'histories', 'configurations'], 'all problems, active sets, unused variables, settings, and bounds changed between calls',
  'Tests differentiate three small problems with default settings; unused variables, other solvers and changed bounds do not occur.',
  [DIFF, 'do_mpc/differentiator/helper.py'], [('system', DIFF + ':NLPDifferentiator._prepare_sensitivity_matrices'), ('active set', DIFF + ':NLPDifferentiator._get_active_constraints'), ('mapping', DIFF + ':NLPDifferentiator._map_param_sens_to_full'), ('data', DIFF + ':DoMPCDifferentiator.differentiate')], (), ['returned sensitivities', 'status'])
ONX = 'do_mpc/sysid/_onnxconversion.py'
p('C26', 'A converted ONNX graph evaluates to the values of the original network',
  'Converting an ONNX model yields, for every layer and output, the CasADi expression or value that the ONNX definition of its operator gives for its own inputs, initial tensors and attributes, evaluated in graph order. This is claimed for the supported operators on two-dimensional operands without implicit broadcasting beyond the bias of Gemm. Missing or misnamed inputs, inputs of a wrong type or shape, unsupported operators and unknown layer names are refused.',
  ['inputs'], 'all graphs of the supported operators, attributes and numerical or symbolic inputs', 'Tests convert one small network with numerical inputs.',
  [ONX], [('evaluation', ONX + ':ONNXConversion.convert'), ('operators', ONX + ':ONNXOperations.Gemm')], (), ['values by layer name'])
OPC = 'do_mpc/opcua/'
p('C27', 'The OPC UA interface transfers every value to and from its own node',
  'Every element of the model has exactly one node in the default namespace, and the node registered on the server is the one the namespace hands out. A real-time step reads the values of the read tags in their order, calls the object once with them as a column and writes the result to the write tags in their order; results of another size or type are refused. A started object makes one step at once and one per cycle, and none after it was stopped.',
  ['inputs', 'histories'], 'all models, tags, results and orders of starting and stopping', 'No test uses the interface.',
  [OPC + '_base.py', OPC + '_client.py', OPC + '_server.py', OPC + '_helper.py'], [('step', OPC + '_base.py:RTBase.make_step'), ('namespace', OPC + '_server.py:RTServer.namespace_from_client'), ('schedule', OPC + '_base.py:RTBase.async_step_start')], (), ['nodes of the server', 'calls of the client', 'timers'])
GRA, STR = 'do_mpc/graphics.py', 'do_mpc/tools/_structure.py'
p('C31', 'Plots show the recorded and predicted values of their own variable',
  'Every line of a graphic shows the values of its own variable over the recorded times, up to the requested time step, and prediction lines show the prediction made at that step on the grid of the sampling time. Default plots give every requested variable of every kind its own labelled axis and refuse unknown names. An animation shows every step, is stored in the requested directory and never replaces a file unless this is allowed.',
  ['inputs', 'histories'], 'all models, variables, time steps, directories and existing files', 'Tests plot a few fixed variables and never look at the lines.',
  [GRA], [('lines', GRA + ':Graphics.add_line'), ('results', GRA + ':Graphics.plot_results'), ('predictions', GRA + ':Graphics.plot_predictions'), ('default plot', GRA + ':default_plot'), ('animation', GRA + ':animate')], (), ['data of the lines', 'files'])
p('C32', 'Containers return exactly the elements stored under an index',
  'A nested structure stores every element of nested lists and dictionaries once under its own index, replaces it when the index is set again, and returns for an index, or each index of a slice, exactly the elements stored under it, in order. An indexed property reads and writes the object it was taken from. Timers record the time between start and stop, and symbols have the chosen type.',
  ['inputs', 'histories'], 'all indices, slices, nestings and orders of calls', 'Tests use these helpers indirectly with a few fixed indices.',
  [STR, 'do_mpc/tools/_indexedproperty.py', 'do_mpc/tools/_timer.py', 'do_mpc/tools/_casstructure.py'], [('store', STR + ':Structure.__setitem__'), ('select', STR + ':Structure._select'), ('binding', 'do_mpc/tools/_indexedproperty.py:IndexedProperty.__get__')], (), ['returned elements'])
p('C29', 'Every name, attribute and argument the code refers to exists',
  'No operation fails because the code refers to something that does not exist: every name is defined and every local variable can have been assigned where it is read, every attribute and flag that is read is assigned by its class, and every call of a function, method or class of the package, built-in function or message template gets arguments it accepts. Initialisers return nothing. This holds on all paths, also those for rare options and error messages.',
  ['inputs', 'configurations'], 'all paths through all functions of the package', 'Tests reach a part of the paths; error messages and rare options are hardly executed.',
  ['do_mpc/'], [('names', 'all modules'), ('members', 'all classes'), ('arguments', 'all calls')], (), ['exceptions'])
p('C30', 'Objects, arguments and results are independent of each other',
  'No operation changes an object passed to it, except the tag or namespace objects it is documented to register, and what an object keeps of its arguments is never changed in place afterwards. Two objects share no state unless one was given to the other: no default argument, class attribute, settings default or module variable is changed, and the state of the process is left alone. Vectors of an object with different names are separate memory, so changing one leaves the others as they are.',
  ['inputs', 'histories', 'configurations'], 'all arguments, numbers of objects and orders of operations', 'Tests build one object of each kind per process, pass fresh arguments and do not look at them afterwards.',
  ['do_mpc/'], [('arguments', 'all public functions'), ('kept arguments', 'all constructors and setters'), ('shared state', 'all modules')], (), ['arguments after a call', 'second objects'])
p('C35', 'A reported success means an optimal and feasible solution',
  'Whenever the controller or estimator reports success, the published solution satisfies all constraints of its problem and the optimality conditions within the tolerance of the solver.',
  ['inputs', 'histories'], 'all problems, initial guesses and warm starts', 'Tests solve a few well-conditioned problems.',
  [OPT], [('solver call', OPT + ':Optimizer.solve')], (), ['solution and solver statistics'])
p('C36', 'Simulated and collocated trajectories approximate the true solution',
  'The states computed by the simulator and by the discretised problems differ from the solution of the declared differential equations by no more than the tolerance requested from the integrator or the order of the collocation scheme.',
  ['inputs', 'configurations'], 'all models, inputs, sampling times and tolerances', 'Tests compare with stored references of the same implementation.',
  [SIM, OPT], [('integrator', SIM + ':Simulator.setup'), ('collocation', OPT + ':Optimizer._setup_discretization')], (), ['states'])
p('C37', 'Closed loops are stable and keep their cycle time',
  'A well-posed controller, regulator or estimator in closed loop converges to its set point or the true state, and each real-time step finishes within its cycle.',
  ['inputs', 'schedules'], 'all stabilisable and detectable models, all load situations', 'Tests run short simulations of fixed examples.',
  [MPC, MHE, 'do_mpc/controller/_lqr.py', 'do_mpc/opcua/_base.py'], [('controller step', MPC + ':MPC.make_step')], (), ['closed-loop trajectories', 'cycle times'])
LEVEL = {}
NA = {
    'C35': 'Decided at run time by the iterations of IPOPT on concrete numbers: no static argument about the Python source bounds them. What the source determines (problem, data, limits handed to the solver, what is published) is C01-C08.',
    'C36': 'A statement about rounding and truncation errors of CVODES/IDAS and of polynomials for arbitrary right-hand sides: no sound static bound in reach. That the declared equations, step length and scheme are handed over is C06 and C11.',
    'C37': 'Depends on the user model, tuning and machine load; neither stability nor execution time is determined by the source of do-mpc. Gains, windows and schedule are C09, C10, C19 and C27.',
}
