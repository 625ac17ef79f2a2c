#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
B = 'bicycleparameters/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None,
         state=None):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': [B + f if not f.startswith(('docs', 'data'))
                               else f for f in files],
                     'mechanism': [{'name': n, 'where': w} for n, w in mech],
                     'observe_at': observe or [], 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [dict(zip(('name', 'meaning', 'where'), s))
                                 for s in state]
    P.append(d)


prop('C01', 'Canonical matrices are the linearised Whipple-Carvallo equations',
     'For every physically meaningful set of bicycle parameters, the mass, '
     'damping and two stiffness matrices the library computes equal those of '
     'the linearised Whipple-Carvallo model of Meijaard et al. (2007), and the '
     'state and input matrices formed from them reproduce '
     "M q'' + v C1 q' + (g K0 + v^2 K2) q = f for every speed and gravity. "
     'Computing them does not change the parameters the caller passed in.',
     ['inputs'],
     'all positive masses, radii, wheelbases, tilts in (-pi/2, pi/2), trails, '
     'centre of mass locations and physically realisable inertias, plain or '
     'uncertain; all speeds and gravities',
     'The tests compare one or two published bicycles; an error in a term that '
     'vanishes or is small for those (offsets, products of inertia, wheel '
     'radius differences, negative trail) passes.',
     ['bicycle.py', 'models.py'],
     [('canonical matrix formulas', B + 'bicycle.py:benchmark_par_to_canonical'),
      ('first order form', B + 'bicycle.py:ab_matrix')],
     ['return values of benchmark_par_to_canonical, ab_matrix, '
      'Meijaard2007Model.form_reduced_canonical_matrices'])

prop('C02', 'Reported eigenvalues and eigenvectors solve the reported system',
     'Every eigenvalue and right (or left) eigenvector a model or a bicycle '
     'reports is, column for column, an eigenpair of the state matrix (or its '
     'transpose) that the same object reports for the same parameters and '
     'speed, and all eigenvalues are reported with their multiplicity. The '
     'bicycle object, the models and the plain functions give the same state '
     'matrices and the same spectrum for the same parameters, for single '
     'speeds as well as for sequences of speeds.',
     ['inputs', 'configurations'],
     'all parameter sets, speeds (scalar or sequence), models, left/right, '
     'with and without a rider',
     'The tests check eigenvalues of a few bicycles at a few speeds and never '
     'check the pairing of vectors with values or the left eigenvectors.',
     ['models.py', 'main.py', 'bicycle.py'],
     [('eigen computation', B + 'models.py:_Model.calc_eigen'),
      ('bicycle eigen computation', B + 'main.py:Bicycle.eig'),
      ('bicycle state space', B + 'main.py:Bicycle.state_space')])

prop('C03', 'Array valued parameters give the point-by-point scalar results',
     'For every model, evaluating matrices or eigenvalues with one or more '
     'parameters given as equal-length arrays yields, for each index, exactly '
     'the result of evaluating with the scalars at that index. Overrides never '
     'alter the model or its parameter set, unknown names are ignored with a '
     'warning, and arrays of different lengths are refused.',
     ['inputs', 'histories'],
     'all models, every non-empty subset of parameters as arrays mixed with '
     'scalar overrides, any length, any order of calls on one model object',
     'The tests vary one or two parameters at a time for hand-picked values; '
     'the combinations of which parameters are arrays are exponential.',
     ['models.py'],
     [('override parsing', B + 'models.py:_Model._parse_parameter_overrides'),
      ('array loops', B + 'models.py:form_reduced_canonical_matrices / '
       'form_state_space_matrices')])

prop('C04', 'Feedback model is the open-loop model closed with u = -K x',
     'For every parameter set, gain values and speed, the state matrix of the '
     'model with feedback equals A - B K, where A and B are the open-loop '
     'matrices at the same parameters and K places each named gain at its '
     'documented torque row and state column, and the input matrix is '
     'unchanged. This holds for any mix of scalar and array valued gains and '
     'parameters, and zero gains give the open-loop model.',
     ['inputs'],
     'all gain combinations (scalar, array), speeds, parameters',
     'Tests use a handful of gains; swapping two gains or losing one of '
     'several array gains is only visible for specific combinations.',
     ['models.py', 'parameter_sets.py'],
     [('closed loop', B + 'models.py:Meijaard2007WithFeedbackModel')])

prop('C05', 'Simulations follow the model equations and echo the inputs',
     "Simulated state trajectories start at the given initial state (with the "
     "wheel rate tied to the speed where the model prescribes it), satisfy "
     "x' = A x + B u for the model's own matrices at the overridden "
     "parameters within integrator accuracy at every requested time, and the "
     "returned inputs are the input function evaluated along the trajectory "
     "(zero if none). Modal simulations start from the real part of each "
     "eigenvector and follow the free response, simulation with array valued "
     "parameters is refused, and the caller's time and initial state arrays "
     "are not changed.",
     ['inputs', 'histories'],
     'all models, parameters, time grids (uniform or not, non-zero start), '
     'initial states, state and time dependent inputs',
     'The tests only call the simulation and never compare the trajectory to '
     'a solution.',
     ['models.py'],
     [('simulation', B + 'models.py:_Model.simulate'),
      ('mode simulation', B + 'models.py:_Model.simulate_modes'),
      ('wheel rate consistency', B + 'models.py:MooreRiderLean2012Model.simulate')])

prop('C06', 'Tracking modes over a sweep permutes eigenpairs and loses none',
     'Sorting a sequence of eigenvalues and eigenvectors into modes returns, '
     'at every step of the sequence, exactly the eigenpairs that came in, each '
     'once and each vector with its own value, starting from the order of the '
     'first step. Where consecutive sets of eigenvalues are close compared to '
     'their separation, each returned mode is the continuous continuation of '
     'that mode in the previous step.',
     ['inputs'],
     'all sequences of complex spectra of any size, including merging, '
     'splitting, repeated and coarsely sampled eigenvalues',
     'The tests only look at one finely sampled sweep; the failure needs two '
     'modes that are nearest to the same next eigenvalue.',
     ['bicycle.py', 'main.py'],
     [('general sorting', B + 'bicycle.py:sort_eigenmodes'),
      ('weave/capsize/caster sorting', B + 'bicycle.py:sort_modes')])

prop('C07', 'The leaning rider model reduces to the rigid rider bicycle',
     'For every parameter set and speed, the leaning-rider model with its lean '
     'degree of freedom held at zero has the roll-steer dynamics of the '
     'rigid-rider Whipple bicycle whose rear body is the rear frame combined '
     'with the rider, and its rider-lean stiffness and damping act only '
     'between lean motion and lean torque. Its remaining rows are the '
     'kinematic relations of a bicycle rolling straight ahead at that speed, '
     'its inverse inertia is symmetric and positive definite, and forward '
     'speed is not affected by roll, steer or lean.',
     ['inputs'],
     'all physically meaningful leaning-rider parameter sets and speeds',
     'The tests compare to stored numbers of a single rider and bicycle; the '
     '11000 line generated equations cannot be covered by samples.',
     ['models.py', '_mooreriderlean2012.py', 'parameter_sets.py'],
     [('generated equations', B + '_mooreriderlean2012.py:eval_linear'),
      ('state selection', B + 'models.py:MooreRiderLean2012Model'
       '.form_state_space_matrices')])

prop('C08', 'Parameterisation conversions describe the same physical bicycle',
     'Converting a parameter set to another available parameterisation '
     'preserves the total mass, each converted body\'s mass, mass centre and '
     'central inertia (the combined rear body being the physical sum of frame '
     'and rider), the geometry, gravity, speed and therefore the dynamics. '
     'Asking for the own parameterisation returns the set itself, an '
     'unavailable one is refused with an error, and converting never changes '
     'the source set.',
     ['inputs'],
     'all parameter sets of every class, all target names, chains of '
     'conversions',
     'Tests convert a single person/bicycle and compare selected numbers.',
     ['parameter_sets.py', 'conversions.py', 'models.py'],
     [('conversions', B + 'parameter_sets.py:to_parameterization'),
      ('principal to benchmark', B + 'conversions.py')])

prop('C09', 'Parameter sets validate input and survive being written to file',
     'A parameter set can be created only from values that are floats and '
     'include every parameter of its parameterisation; otherwise creation '
     'fails naming the problem. Writing any set, converted ones included, as '
     'YAML or INI stores every parameter under its name with its value, '
     'reading the YAML back gives an equal set, and the HTML table lists every '
     'parameter with its value.',
     ['inputs'],
     'all parameter set classes and float values of any magnitude and sign, '
     'missing/non-float entries anywhere',
     'The tests write one set and check that nothing raises.',
     ['parameter_sets.py'],
     [('validation', B + 'parameter_sets.py:ParameterSet._check_parameters'),
      ('writers', B + 'parameter_sets.py:to_yaml, to_ini, _repr_html_')])

prop('C10', 'Combining bodies conserves mass, mass centre and inertia',
     'Total mass, combined mass centre and combined inertia computed for any '
     'collection of bodies are the physical sums: independent of order and '
     'grouping, consistent with the parallel axis theorem, and shifting or '
     'rotating the reference frame shifts or rotates the result. Inertia '
     'rotation and principal axes preserve the tensor\'s invariants, and tube '
     'inertia follows the thick-walled cylinder formula. Inputs are not '
     'modified.',
     ['inputs'],
     'all collections of bodies with positive masses and physically '
     'realisable inertia tensors; all rotations',
     'Tests cover total_com and parallel_axis for one example each, not the '
     'algebraic laws.',
     ['com.py', 'inertia.py', 'parameter_sets.py'],
     [('total mass centre', B + 'com.py:total_com'),
      ('parallel axis', B + 'inertia.py:parallel_axis'),
      ('rotation', B + 'inertia.py:rotate_inertia_tensor, principal_axes'),
      ('bodies of a set', B + 'parameter_sets.py:mass_center_of')])

prop('C11', 'Nominal values and uncertainties propagate linearly and unbiased',
     'Whatever is computed from measurements with uncertainties has the '
     'nominal value that the same computation gives for the nominal '
     'measurements, and a standard deviation equal to the first-order '
     'propagation of the standard deviations of the measurements it depends '
     'on. Stripping uncertainties returns exactly the nominal values of every '
     'entry and leaves the original untouched.',
     ['inputs'],
     'all measured bicycles with any standard deviations, all derived '
     'parameters and matrices',
     'Tests compare nominal values to 3 digits and ignore the uncertainties.',
     ['bicycle.py', 'com.py', 'geometry.py', 'inertia.py', 'main.py', 'io.py'],
     [('uncertainty aware formulas', B + 'main.py:calculate_benchmark_from_'
       'measured and helpers'),
      ('stripping', B + 'io.py:remove_uncertainties')])

prop('C12', 'Measuring a known bicycle gives back its parameters',
     'If the measurements of a bicycle (geometry by either documented method, '
     'masses, hanging angles and distances, torsional and compound pendulum '
     'periods) are exactly those a bicycle with known parameters would give, '
     'the computed benchmark parameters are those of that bicycle: wheelbase, '
     'trail, steer axis tilt, wheel radii, masses, mass centres and central '
     'inertias of all four bodies. This holds for a split (separate fork and '
     'handlebar) or whole front assembly and any number of orientations from '
     'the documented minimum up.',
     ['inputs', 'configurations'],
     'all bicycles, measurement orientations, geometry methods, fork '
     'configurations, extra measured frames, calibration rods, flywheel or '
     'pendulum set-ups',
     'The tests reproduce stored results of one real measured bicycle; they '
     'cannot see systematic errors that are also in the stored results.',
     ['main.py', 'com.py', 'inertia.py', 'geometry.py', 'docs/data.rst'],
     [('raw to benchmark', B + 'main.py:calculate_benchmark_from_measured'),
      ('split fork', B + 'main.py:is_fork_split'),
      ('centre of mass', B + 'com.py:part_com_lines, center_of_mass'),
      ('inertia', B + 'inertia.py:part_inertia_tensor')])

prop('C13', 'Pendulum and hanging formulas invert the physics of the rig',
     'The torsional stiffness, torsional inertia, compound pendulum inertia, '
     'centre of mass from three or more hanging lines, and in-plane inertia '
     'tensor from three or more orientations are the inverse of the physical '
     'models of the measurement rig: applied to data generated from a known '
     'body they return that body. With more than the minimum number of '
     'orientations an inconsistent set yields the least squares estimate for '
     'the inertia, and the mean of the line intersections for the mass '
     'centre.',
     ['inputs'],
     'all bodies, orientations, pendulum lengths, stiffnesses',
     'One numeric example per formula at most.',
     ['inertia.py', 'com.py'],
     [('pendulums', B + 'inertia.py:torsional_pendulum_stiffness, tor_inertia, '
       'compound_pendulum_inertia'),
      ('lines', B + 'com.py:com_line, center_of_mass'),
      ('tensor', B + 'inertia.py:inertia_components')])

prop('C14', 'The period fitted to an oscillation record is its true period',
     'For any recording of an underdamped free oscillation, with any sample '
     'rate (at least some sixty samples per period, the sampling the fit is '
     'made for), offset, decay, phase and moderate noise, the reported period is that of the damped oscillation '
     'within a few of the reported standard deviations (which shrink with the '
     'noise and never are NaN). A recording with trailing or leading garbage '
     'outside the selected good part gives the same period, and the fit\'s '
     'derivatives and goodness measures are those of the fitted function.',
     ['inputs'],
     'all oscillations, sample rates (integer or float), noise levels',
     'No test runs the fit.',
     ['period.py'],
     [('fit', B + 'period.py:get_period'),
      ('initial guess', B + 'period.py:make_guess'),
      ('selection', B + 'period.py:select_good_data')])

prop('C15', 'Parameter text files read back what was written or measured',
     'Writing any parameter dictionary to a text file and loading it returns '
     'the same names and values, floats and the nominal values and deviations '
     'of uncertain ones alike to the precision of the format. Loading handles '
     'comments, blank lines, spacing, one or many comma separated values '
     '(averaged, uncertain ones with propagated deviation) as documented, and '
     'an existing file is overwritten only after the user agrees.',
     ['inputs', 'histories'],
     'all dictionaries of parameters, all file layouts in the documented '
     'format, all user answers',
     'The tests load a couple of shipped files and never write.',
     ['io.py', 'main.py', 'docs/data.rst'],
     [('reader', B + 'io.py:load_parameter_text_file'),
      ('writer', B + 'io.py:write_parameter_text_file')])

prop('C16', 'Periods from raw data reach the measured file and nothing is lost',
     'Calculating periods from a bicycle\'s raw pendulum recordings gives each '
     'measured part, pendulum and orientation the mean of the periods of its '
     'recordings, stores these values in the measured parameter file, and '
     'leaves every other entry of that file and of the bicycle directory as '
     'it was. A bicycle loaded afterwards without recalculation has the same '
     'periods and the same benchmark parameters.',
     ['histories', 'inputs'],
     'all bicycle directories, sets of recordings, previously stored '
     'periods, repeated forced recalculations',
     'No test touches the raw signal path; it needs files and several runs.',
     ['period.py', 'io.py', 'main.py'],
     [('collecting periods', B + 'period.py:calc_periods_for_files, '
       'check_for_period'),
      ('storing periods', B + 'io.py:write_periods_to_file'),
      ('mat loading', B + 'io.py:load_pendulum_mat_file')])

prop('C17', 'Analyses never change a bicycle; saving and reloading is faithful',
     'Any sequence of analyses, tables and plots on a bicycle leaves its '
     'parameters, and hence all later results, as they were. Saving the '
     'parameters and loading the bicycle again gives the same parameter values '
     'and the same dynamics, writing only inside the bicycle\'s own parameter '
     'directory (the rider\'s if one is on board), and two bicycles, or the same one loaded twice, never '
     'influence each other.',
     ['histories'],
     'all sequences of load, analyse, add rider, save, reload on any set of '
     'bicycles',
     'Tests construct an object and call one method once.',
     ['main.py', 'io.py', 'bicycle.py'],
     [('loading order', B + 'main.py:Bicycle.__new__/__init__'),
      ('saving', B + 'main.py:Bicycle.save_parameters')])

prop('C18', 'Adding a rider adds exactly the rider to the rear frame',
     'After adding a rider to a bicycle, mass, mass centre and inertia of the '
     'rear body are exactly those of the previous rear frame plus the rider '
     'as a rigid body, every other parameter is unchanged, and the bicycle '
     'reports the rider. A second rider is refused without changing anything, '
     'and stored rider parameters are used unless recalculation is requested.',
     ['histories', 'inputs'],
     'all bicycles and riders, with stored or measured riders, any order of '
     'add, force, save and reload',
     'Tests add one rider and compare a few eigenvalues.',
     ['main.py', 'inertia.py', 'rider.py'],
     [('adding', B + 'main.py:Bicycle.add_rider'),
      ('combining', B + 'inertia.py:combine_bike_rider')])

prop('C19', 'The rider model sits on the bicycle it was configured for',
     'The human model configured for a bicycle has its hips on the saddle, '
     'its feet at the bottom bracket and its hands at the grips within '
     'solver tolerance, its arms bent in vertical planes, left-right '
     'symmetric, keeps the person\'s total '
     'mass, and its mass centre and inertia in bicycle coordinates are those '
     'of the human model transformed as a rigid body into the bicycle\'s '
     'frame.',
     ['inputs'],
     'all persons whose limbs can reach, all bicycle ergonomics',
     'Only stored results for one person are compared.',
     ['rider.py', 'main.py', 'geometry.py'],
     [('configuration', B + 'rider.py:rider_on_bike, configure_rider'),
      ('frame change', B + 'rider.py:yeadon_vec_to_bicycle_vec')])

prop('C20', 'Steer assembly inertia is the physical one about the axis asked',
     'The moment of inertia reported for the front assembly about the steer '
     'axis (or parallel to it through the assembly\'s own mass centre) is that '
     'of the requested bodies - fork, handlebar or their combination, with or '
     'without the front wheel - by the parallel axis theorem, for bicycles '
     'with plain or uncertain parameters. It is positive and including the '
     'wheel never decreases it.',
     ['inputs', 'configurations'],
     'all bicycles and all option combinations',
     'A single bicycle is tested for some of the options.',
     ['main.py', 'geometry.py', 'com.py'],
     [('steer inertia', B + 'main.py:Bicycle.steer_assembly_moment_of_inertia')])

prop('C21', 'Frame geometry from measurements is the true geometry',
     'For every bicycle, the wheel radii, wheelbase, steer axis tilt and trail '
     'computed from wheel roll-out and either wheelbase/head angle/fork offset '
     'or perpendicular-distance measurements are those of the bicycle the '
     'measurements were taken from, and the two methods agree. The derived '
     'handlebar location, steer axis distances, trail, and the drawn frame '
     'points all lie where the same geometry puts them.',
     ['inputs'],
     'all geometries with steer tilt in (0, pi/2), wheel radii equal or not, '
     'positive or negative trail and offsets',
     'Tests check some formulas on one bicycle.',
     ['geometry.py', 'bicycle.py'],
     [('benchmark geometry', B + 'geometry.py:calculate_benchmark_geometry'),
      ('perpendicular geometry', B + 'geometry.py:calculate_abc_geometry, '
       'calculate_l1_l2, fwheel_to_handlebar_ref'),
      ('tilt solve', B + 'bicycle.py:lambda_from_abc, trail')])

prop('C22', 'Point, line, vector and linkage geometry helpers are exact',
     'Distances from points to lines, projections of points on lines and of '
     'vectors into planes, angles between vectors and two-link inverse '
     'kinematics satisfy their geometric definitions: residuals are '
     'perpendicular, projecting twice changes nothing, angles lie in '
     '[0, pi] and are independent of scale, and the links reach the target. '
     'The cartesian product of arrays lists every combination of their '
     'entries, unchanged, exactly once. '
     'This holds for all finite non-degenerate inputs, including parallel and '
     'antiparallel vectors.',
     ['inputs'],
     'all finite non-degenerate points, lines, vectors, reachable linkages',
     'A few easy numeric examples at most.',
     ['geometry.py', 'com.py'],
     [('helpers', B + 'geometry.py:point_to_line_distance, '
       'project_point_on_line, vec_angle, vec_project, calc_two_link_angles'), ('combinations', B + 'com.py:cartesian')])

prop('C23', 'Generated tables are well formed and state the true values',
     'A generated table contains, for every requested bicycle and variable, '
     'the value of that bicycle\'s variable rounded in agreement with its '
     'uncertainty, in the right row and column, and parses as a '
     'reStructuredText grid table with aligned columns. Generating it again '
     'gives the same text, and rounding keeps nominal value and deviation '
     'consistent to the displayed digits.',
     ['inputs', 'histories'],
     'all sets of bicycles, sources, variables, uncertainties',
     'No test generates a table.',
     ['tables.py'],
     [('table', B + 'tables.py:Table'),
      ('rounding', B + 'tables.py:uround'),
      ('latex names', B + 'tables.py:to_latex')])

prop('C24', 'Plots of model behaviour show the computed values',
     'Plots of eigenvalues, eigenvectors, modes, simulations and gains contain '
     'exactly the data the model computes for the same arguments: every '
     'eigenvalue, vector component, state, input and gain appears once, in '
     'its own axes and units, against the varied parameter, with unstable '
     'eigenvalues and stable regions marked as such. Plotting does not change '
     'the model.',
     ['inputs', 'configurations'],
     'all models, parameters, varied parameters, option combinations',
     'Tests only check that plotting does not raise.',
     ['models.py', 'main.py', 'plot.py'],
     [('eigenvalue plots', B + 'models.py:plot_eigenvalue_parts; main.py:'
       'plot_eigenvalues_vs_speed; plot.py:plot_eigenvalues'),
      ('vectors and modes', B + 'models.py:plot_eigenvectors, '
       'plot_mode_simulations, plot_simulation, plot_gains')])

prop('C25', 'Drawings of a bicycle show its geometry and mass distribution',
     'In drawings of a parameter set or bicycle, wheels are circles of the '
     'right radius touching the ground at the right contact points, the steer '
     'axis passes through the trail point at the tilt angle, mass centre '
     'symbols sit at the bodies\' mass centres, and radii of gyration and '
     'inertia ellipses have the bodies\' principal radii, directions and '
     'semi-axes. Requested subsets of bodies are drawn and no others.',
     ['inputs', 'configurations'],
     'all parameter sets, body subsets and options',
     'Tests only check that drawing does not raise.',
     ['parameter_sets.py', 'main.py', 'geometry.py'],
     [('set drawings', B + 'parameter_sets.py:plot_*'),
      ('bicycle drawing', B + 'main.py:Bicycle.plot_bicycle_geometry')])

prop('C26', 'Bode plots show the frequency response of the bicycle',
     'A Bode plot of a bicycle, of several speeds or of several bicycles shows '
     'for each requested input and output the magnitude in decibel and the '
     'phase (modulo whole turns, continuous over frequency) of '
     'C (jw I - A)^-1 B + D with the bicycle\'s own state space at the '
     'requested speed, one curve per speed or bicycle with its own label.',
     ['inputs', 'configurations'],
     'all bicycles, speeds, inputs, outputs, frequency ranges',
     'Tests do not draw Bode plots or look at curves.',
     ['main.py', 'plot.py'],
     [('single', B + 'main.py:Bicycle.plot_bode, compare_bode_speeds'),
      ('several', B + 'plot.py:compare_bode_bicycles')])

prop('C27', 'The web app shows the selected bicycle with the user\'s edits',
     'For every bicycle and edit, the tables shown by the app hold the '
     'parameters of the selected bicycle, and its geometry and eigenvalue '
     'plots, each in its own place, are those of the bicycle with the '
     'displayed and edited values. Requests of several users served at the '
     'same time, in any order, do not affect each other or the stored '
     'bicycles.',
     ['inputs', 'schedules', 'histories'],
     'all selections, edits, resets, sequences and interleavings of requests',
     'The app tests, if any, only import it.',
     ['app.py', 'main.py'],
     [('callbacks', B + 'app.py')])

prop('C28', 'Loading a bicycle takes each parameter from the right source',
     'For every content of a data directory and every history of loads and '
     'file changes, a loaded bicycle holds each set of its own Parameters '
     'directory under the name of the set with the values and deviations of '
     'the file, and the measured parameters of its own RawData directory if '
     'there are any. Its benchmark parameters are those of the stored file; '
     'they are calculated from the measurements if there is no such file or '
     'if a recalculation is requested and measurements exist. All later '
     'results are about these parameters. The bicycle starts without a rider. '
     'No file is changed when the periods are known, nothing is taken from '
     'other bicycles, earlier loads or other files, and a missing bicycle '
     'directory raises an error that names it.',
     ['inputs', 'configurations', 'histories'],
     'all combinations of files present, options, data directories, '
     'histories of loads, file changes, riders and edits over several '
     'bicycles',
     'Tests load a few shipped bicycles in one state of the files.',
     ['main.py', 'io.py'],
     [('load', B + 'main.py:Bicycle.__init__'),
      ('recalculation', B + 'main.py:Bicycle.calculate_from_measured'),
      ('reading', B + 'io.py:load_parameter_text_file')])

prop('C29', 'Results depend on the arguments alone, also in threads',
     'Every calculation (models, parameter sets and their conversions and '
     'files, reduction of measurements, loading of bicycles and riders, '
     'tables, helper functions) gives the same result for the same arguments '
     'in whatever order, process, thread and environment it is done: '
     'repeated, between other calculations, in several threads at once on '
     'shared objects, with other hash seeds, working directories, NumPy error '
     'and print settings, random states and decimal contexts, and with '
     'assertions disabled; the same input is refused everywhere. It changes '
     'neither its arguments, the example parameter dictionaries nor the state '
     'of the process: NumPy and warning settings, random states, decimal '
     'context, environment and working directory.',
     ['inputs', 'schedules', 'histories', 'configurations'],
     'all calculations, interleavings of threads, orders, environments',
     'Tests run each calculation once, in one thread and one environment.',
     ['models.py', 'parameter_sets.py', 'main.py', 'bicycle.py', 'com.py',
      'geometry.py', 'inertia.py', 'io.py', 'period.py', 'tables.py'],
     [('models', B + 'models.py:_Model, Meijaard2007Model'),
      ('bicycles', B + 'main.py:Bicycle'),
      ('matrices', B + 'bicycle.py:ab_matrix')])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                    'properties.jsonl')
with open(path, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
