#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

S = 'src/pyclaw/'
prop('C01', 'Evolution reaches the requested time exactly or fails loudly',
 'Evolving a solution to a requested end time either returns with the time of the solution equal to that end time (to rounding; with a fixed step to one part in 100000 of the interval), or raises an exception; it never returns normally short of, or beyond, that time, however many attempted steps are rejected and whatever was called on the same solver before. '
 'A call whose end time is not later than the current time changes neither the data nor the time nor anything about later calls, and a call without an end time advances by exactly one accepted step or raises. '
 'The step limit set by the user applies to each call separately and is never changed by the library.',
 ['histories', 'inputs', 'configurations'],
 'every history of calls on one solver (end times, single steps, repeats, changes of the limit), every sequence of wave speeds met along the way, variable and fixed steps, every solver family and dimension',
 'tests run one well-behaved problem to one final time; rejections that eat into the step limit, repeated or backward end times and mixed call histories never occur in them',
 [S+'solver.py', S+'classic/solver.py', S+'sharpclaw/solver.py'],
 [('time loop', 'solver.py Solver.evolve_to_time'), ('last-step truncation', 'solver.py Solver.get_dt')],
 ['solution.t and solver.status after each evolve_to_time call', 'before_step callback'])
prop('C02', 'Kept steps respect the Courant limit; rejected steps leave no trace',
 'Every step whose result is kept had a Courant number not larger than the configured maximum, and every attempted step within that maximum is kept. '
 'When an attempt exceeds it, the conserved quantities, the time, the step count, the recorded maximum Courant number and the gauge records are afterwards exactly what they were before the attempt, and the step is retried with a shorter length. '
 'With a fixed step such an attempt raises an exception instead of being kept.',
 ['histories', 'inputs', 'configurations'],
 'every sequence of wave speeds (so every pattern of accepted and rejected attempts, including equality with the limit and several rejections in a row), for one-step integrators of every solver family, with user hooks that modify the data',
 'a rejected step needs a wave speed that jumps up between steps; the regression problems have hardly any, and none checks the data right after a rejection',
 [S+'solver.py', S+'classic/solver.py', S+'sharpclaw/solver.py', S+'cfl.py'],
 [('backup/restore', 'solver.py Solver.evolve_to_time'), ('accept test', 'solver.py Solver.accept_reject_step; sharpclaw/solver.py accept_reject_step'), ('cfl bookkeeping', 'cfl.py CFL')],
 ['before_step callback', 'solution.q, solution.t, solver.status', 'gauge files'])
prop('C03', 'Step lengths follow the stated selection rule and status is truthful',
 'With variable stepping every attempted step after the first has the length that the most recently observed wave speeds map to the desired Courant number, but never more than the configured maximum step (exactly that maximum when nothing moves), and is shortened only in order to land on the requested end time; with fixed stepping every step has the fixed length. '
 'The Courant number used is the largest wave speed times step length over cell width (and over the capacity of the cell where one is given), over all cells, waves and directions. '
 'The returned status counts exactly the accepted steps and reports the largest Courant number among them.',
 ['histories', 'inputs', 'configurations'],
 'every sequence of wave speeds, zero speeds, maximum-step settings, Courant settings, end times, dimensions and solver families (one-step integrators)',
 'regression tests compare final solutions only, which are insensitive to most wrong step lengths',
 [S+'solver.py', S+'sharpclaw/solver.py', S+'classic/step1.f90', S+'classic/step2.f90', S+'classic/step2ds.f90', S+'classic/step3.f90', S+'classic/step3ds.f90', S+'sharpclaw/flux1.f90'],
 [('step selection', 'solver.py get_dt, get_dt_new; sharpclaw/solver.py get_dt_new'), ('Courant number', 'cfl.py; classic/*.f90; sharpclaw/flux*.f90')],
 ['solver.dt inside callbacks', 'solver.status'])
prop('C04', 'User hooks and source terms are applied on the documented schedule',
 'The before-step function is called exactly once before every attempted step with the data and time at which that attempt starts, and, when so requested, also before every further Runge-Kutta stage with that stage\'s data and time. '
 'In every kept step of a classic solver the source function is applied either once with the full step length after the wave propagation (Godunov splitting), or with half the length before and half after it (Strang splitting); its effect is part of the result, and this also holds when the Courant number equals the maximum. '
 'Boundary data are always filled from the data left by the hook or first half step, never from older data.',
 ['histories', 'configurations', 'inputs'],
 'every sequence of accepted and rejected attempts, both splittings, every dimension, every Runge-Kutta integrator with and without per-stage calls',
 'tests use at most one splitting with smooth data and look only at the final state; the order, count and arguments of the callbacks are never observed',
 [S+'solver.py', S+'classic/solver.py', S+'sharpclaw/solver.py'],
 [('hook call', 'solver.py evolve_to_time'), ('source splitting', 'classic/solver.py ClawSolver.step'), ('stage hooks', 'sharpclaw/solver.py step, ssp104, ssp22')],
 ['before_step, step_source, dq_src, riemann solver and custom BC callbacks'])
prop('C05', 'A run produces exactly the requested frames, numbered and timed correctly',
 'A controller run produces the initial frame and one frame per requested output (equally spaced times up to the final time, the listed times, or every given number of steps), in order, numbered consecutively from the start frame of the solution, and every destination that is enabled (memory, each output format on disk, derived quantities, functionals) holds the data of that frame\'s time. '
 'A later run of the same controller continues from where the solution stands and, with frames kept in memory, continues the numbering. '
 'If overwriting is disabled and output already exists the run is refused before any existing file is changed.',
 ['configurations', 'histories'],
 'every output style, number or list of output times, combination of destinations, start frame and sequence of runs',
 'tests run a controller once with one output style and read only the last frame',
 [S+'controller.py', S+'solution.py', S+'util.py'],
 [('run loop', 'controller.py Controller.run'), ('functional file', 'controller.py write_F'), ('frame counter', 'util.py FrameCounter')],
 ['controller.frames', 'output directory listing and contents'])
prop('C06', 'Saved frames and copies are complete and independent of later evolution',
 'A frame kept in memory, or a copy of a solution, equals the original in time, conserved quantities, auxiliary values, capacity index, problem parameters, geometry and mapping at the moment it was made. '
 'It shares no mutable data with the original: no later evolution of, or assignment to, either one changes the other. '
 'Continuing a simulation from such a copy gives the same result as continuing the original.',
 ['histories', 'configurations'],
 'every interleaving of stepping, in-place modification and copying, for one or more patches, every dimension, with and without auxiliary data, capacity function and mapping',
 'tests never modify a solution after saving a frame nor compare an old frame again later',
 [S+'solution.py', S+'state.py', S+'geometry.py', S+'controller.py'],
 [('deep copies', 'state.py State.__deepcopy__; solution.py Solution.__deepcopy__; geometry.py Patch/Domain.__deepcopy__'), ('frame list', 'controller.py Controller.run')],
 ['controller.frames', 'copy.deepcopy of Solution and State'])
prop('C07', 'Gauges record the right cell at the start and after every accepted step',
 'For every gauge inside the domain a run records one line for the initial state and one for each accepted step, in order, none for rejected attempts; each line holds the time and the requested quantity computed from the data and auxiliary values of the cell that contains the gauge position at that time. '
 'Gauges outside the domain are ignored without disturbing the others, values kept in memory equal those in the files, and repeating a run works.',
 ['inputs', 'histories', 'configurations'],
 'every gauge position (including cell edges and domain boundaries) in one to three dimensions, every pattern of accepted and rejected steps, sequences of runs',
 'only a couple of examples define gauges and no test reads a gauge record',
 [S+'solver.py', S+'geometry.py', S+'controller.py'],
 [('gauge lookup', 'geometry.py Grid.add_gauges'), ('gauge files', 'geometry.py Grid.setup_gauge_files'), ('recording', 'solver.py write_gauge_values')],
 ['gauge files in the output directory', 'state.gauge_data'])
prop('C08', 'Ghost cells are exactly the image the boundary condition prescribes',
 'Whenever waves are propagated, interior values are untouched and every ghost cell of the conserved quantities and of the auxiliary values, corners included, holds what its side\'s boundary condition prescribes: the nearest interior value, the periodic image, the mirror image (with the normal component of the conserved quantities negated), or exactly what the user\'s function wrote. '
 'Conditions on different sides and for conserved and auxiliary data are independent of each other. '
 'A side that is not a physical boundary of the domain is left alone.',
 ['configurations', 'inputs'],
 'every combination of conditions over sides and arrays, one to three dimensions, any number of ghost cells, cells and components, both custom-function signatures',
 'each test uses one or two conditions and observes them only through a smoothed final solution; mixed conditions, auxiliary ghost cells and corners are mostly unobserved',
 [S+'solver.py', S+'state.py'],
 [('ghost fill', 'solver.py _apply_bcs, _bc_lower, _bc_upper'), ('interior copy', 'state.py get_qbc_from_q, get_auxbc_from_aux, set_q_from_qbc')],
 ['arguments received by the Riemann solver', 'arrays with ghost cells after a step in which nothing moves'])
prop('C09', 'One classic step in 1D is exactly the limited wave-propagation update',
 'For any data, any Riemann solver output, any limiter choice per wave, either order, flux-difference or jump splitting, and with or without a capacity function, one step of the one-dimensional classic method equals the limited wave-propagation (Godunov plus limited second-order correction) formula cell by cell. '
 'The Fortran and Python kernels give the same result and the same Courant number (flux-difference waves of speed exactly zero excepted). '
 'Auxiliary data are unchanged and the result in a cell depends only on data within the stencil.',
 ['inputs', 'configurations'],
 'all small integer data sets exhaustively, random larger ones; all limiters shared by the kernels; positive, negative and zero speeds; scalar and system',
 'tests integrate one smooth problem per solver and compare to a stored answer with loose tolerance, on a handful of limiter and data combinations',
 [S+'classic/solver.py', S+'classic/step1.f90', S+'classic/limiter.f90', S+'classic/philim.f90', S+'limiters/tvd.py'],
 [('Python kernel', 'classic/solver.py ClawSolver1D.step_hyperbolic'), ('Fortran kernel', 'classic/step1.f90'), ('limiter', 'limiters/tvd.py limit; classic/limiter.f90, philim.f90')],
 ['solution.q after one fixed step'])
prop('C10', 'Multidimensional classic steps reduce to, and are symmetric like, the 1D one',
 'On data that vary in one coordinate direction only, one step of the two- or three-dimensional classic method equals the one-dimensional step along that direction, for split and unsplit algorithms and every transverse option. '
 'Exchanging coordinate directions (of data, speeds, widths and boundary conditions) exchanges the result for the unsplit methods, and for constant-coefficient advection the two-dimensional result equals the formula of the chosen algorithm cell by cell. '
 'A split step equals one-dimensional sweeps applied successively in the order of the dimensions.',
 ['inputs', 'configurations'],
 'all directions, 2D and 3D, split/unsplit, all transverse settings, all limiters, random and exhaustive small integer data, speeds of either sign',
 'multi-D tests compare a few final solutions with stored ones; each exercises one algorithm variant',
 [S+'classic/solver.py', S+'classic/step2.f90', S+'classic/step2ds.f90', S+'classic/flux2.f90', S+'classic/step3.f90', S+'classic/step3ds.f90', S+'classic/flux3.f90'],
 [('2D/3D kernels', 'classic/step2*.f90, step3*.f90, flux2.f90, flux3.f90'), ('driver', 'classic/solver.py ClawSolver2D/3D.step_hyperbolic')],
 ['solution.q after one fixed step'])
prop('C11', 'Conserved totals change only through the boundary',
 'For conservative Riemann solvers on periodic domains every step of every solver family, dimension, order, limiter and reconstruction leaves the total of each conserved quantity (weighted by cell capacity where one is given) unchanged to rounding, and constant data stay constant. '
 'With a single scalar advection equation in one dimension and a total-variation-diminishing limiter a classic step within the Courant limit neither increases the total variation nor leaves the range of the data.',
 ['inputs', 'configurations'],
 'random and exhaustive small data, all solver families and kernels, 1D to 3D, all limiters/reconstructions, capacity functions',
 'no test looks at totals or ranges, and one problem with one option set cannot stand for all option combinations',
 [S+'classic/solver.py', S+'sharpclaw/solver.py', S+'classic/step1.f90', S+'sharpclaw/flux1.f90', S+'sharpclaw/flux2.f90', S+'sharpclaw/flux3.f90'],
 [('flux differencing', 'classic/*.f90, sharpclaw/flux*.f90, classic/solver.py, sharpclaw/solver.py')],
 ['solution.q before and after a step'])
prop('C12', 'Runge-Kutta integrators realise their tableau on every right-hand side',
 'Each one-step SharpClaw integrator (forward Euler, the three-stage and ten-stage strong-stability-preserving methods, and a user-supplied tableau of any size) advances the data by exactly its Butcher tableau applied to the semi-discrete right-hand side, source function included, each stage evaluated at its own time and data. '
 'The built-in methods satisfy the order conditions of their advertised order (1, 3 and 4). '
 'The result does not depend on rejected attempts or previous steps.',
 ['inputs', 'histories', 'configurations'],
 'all integrators, any explicit tableau, any sequence of step lengths and right-hand side values, after any history of accepted and rejected steps',
 'tests check only that one smooth solution is close to a reference; a wrong weight or stage time changes it below their tolerance or not at all when the right-hand side is autonomous',
 [S+'sharpclaw/solver.py'],
 [('RK stages', 'sharpclaw/solver.py step, ssp104, ssp22')],
 ['values passed to dq_src and solution.q'])
prop('C13', 'Multistep integrators use the right history, also after rejections',
 'Each step of a linear multistep SharpClaw integrator combines exactly the accepted solutions and right-hand sides of the preceding steps, in order, with the coefficients its formula prescribes for the actual step lengths; the first steps use the documented starting method. '
 'Rejected attempts never enter the history, and the step-dependent coefficients reproduce polynomials in time up to the advertised order.',
 ['histories', 'inputs', 'configurations'],
 'all multistep integrators, numbers of steps, sequences of step lengths, and patterns of rejections during start-up',
 'the tests that use these methods run one advection problem and compare an error norm',
 [S+'sharpclaw/solver.py'],
 [('history registers', 'sharpclaw/solver.py update_saved_values, step'), ('step selection', 'sharpclaw/solver.py get_dt_new')],
 ['values passed to dq_src and solution.q'])
prop('C14', 'SharpClaw right-hand sides agree across kernels, dimensions and capacity',
 'The SharpClaw spatial right-hand side computed by the Python and the Fortran kernel is the same for component-wise reconstruction, where both exist, the two- and three-dimensional ones reduce to the one-dimensional one on data varying in a single direction and are exchanged when directions are exchanged, and each is translation invariant on periodic domains. '
 'First-order and TVD reconstructions give exactly the first-order upwind respectively limited-slope formula, the WENO reconstruction is exact for polynomials of the degree its order promises and uses the optimal weights where all smoothness indicators agree, a capacity function divides the rate of each cell, and data that are constant yield a zero right-hand side.',
 ['inputs', 'configurations'],
 'random and exhaustive small data, speeds of either sign, all reconstructions and orders, 1D to 3D, capacity functions',
 'tests compare a few final solutions; kernels are never compared with each other and capacity with SharpClaw Python kernels is not tested',
 [S+'sharpclaw/solver.py', S+'sharpclaw/flux1.f90', S+'sharpclaw/flux2.f90', S+'sharpclaw/flux3.f90', S+'sharpclaw/reconstruct.f90', S+'sharpclaw/weno.f90', S+'limiters/recon.py'],
 [('flux evaluation', 'sharpclaw/flux1.f90, flux2.f90, flux3.f90; sharpclaw/solver.py dq_hyperbolic'), ('reconstruction', 'sharpclaw/reconstruct.f90, weno.f90; limiters/recon.py')],
 ['solution.q after one fixed forward-Euler step'])
prop('C15', 'Writing a frame and reading it back reproduces the solution',
 'For every supported format that can be read, a solution read from a written frame has the same time, patches (index, level, extent, cells), conserved quantities and, where written, auxiliary values as the one written, to the precision of the format, as has its time read alone; auxiliary values that were not written are never invented. '
 'Derived-quantity frames read back with their own number of components, reading into an existing solution replaces it completely, several frames, prefixes and formats in one place do not disturb each other, the default file-name prefixes of writing and reading match, and the text format also restores problem parameters and the mapping.',
 ['inputs', 'histories', 'configurations'],
 'any number of dimensions, cells, components, auxiliary fields and patches, extreme magnitudes and signs, any sequence of writes and reads; text, HDF5 and raw binary (including ghost layers)',
 'the I/O tests use one fixed data set per format with a single read',
 [S+'solution.py', S+'fileio/ascii.py', S+'fileio/hdf5.py', S+'fileio/binary.py'],
 [('text format', 'fileio/ascii.py write, read'), ('HDF5', 'fileio/hdf5.py'), ('raw binary reader', 'fileio/binary.py read'), ('dispatch', 'solution.py Solution.read/write')],
 ['files written and Solution objects read'])
prop('C16', 'Incomplete or inconsistent output is reported, never silently accepted',
 'Reading a frame whose files are missing, cut short at a line or value boundary at any point, or inconsistent between data and auxiliary headers raises an exception instead of returning a solution with wrong or missing conserved quantities or auxiliary values (auxiliary values whose file was never written read as absent, NaN or, as documented, those of the initial frame). '
 'A write that was interrupted before a frame was complete, in a place that did not hold that frame before, can therefore never be mistaken for a complete frame.',
 ['crash_points', 'fault_sequences', 'inputs'],
 'every line at which a text file, and every value count at which a raw binary or HDF5 file, can end; each file of a frame missing; mismatched auxiliary headers',
 'tests only read complete files',
 [S+'fileio/ascii.py', S+'fileio/binary.py', S+'fileio/hdf5.py', S+'util.py'],
 [('end-of-file detection', 'util.py read_data_line; fileio/ascii.py read_array'), ('aux header comparison', 'fileio/ascii.py read'), ('size check', 'fileio/binary.py read')],
 ['exception or Solution returned by reading'])
prop('C17', 'Output and observation never change the computation',
 'Writing frames in any format, keeping copies, recording gauges, computing derived quantities and functionals, printing, and choosing how many output times to split a fixed-step run into do not change the solution, its shape, time, auxiliary data or the step sequence afterwards. '
 'Two runs that differ only in such output settings end in bit-identical solutions.',
 ['configurations', 'histories'],
 'every combination of output settings and formats, any number of writes at any point of a run, one and several patches',
 'no test compares a run with output to one without',
 [S+'controller.py', S+'solution.py', S+'fileio/ascii.py', S+'fileio/hdf5.py', S+'fileio/claw_vtk.py', S+'solver.py'],
 [('writers', 'fileio/*.py write'), ('run loop', 'controller.py Controller.run')],
 ['solution before/after each write; final solutions of paired runs'])
prop('C18', 'Grid coordinates always reflect the current geometry',
 'After any history of changes to extents, cell counts, mapping or added dimensions and any reads in between, all coordinates reported by dimensions, grids, patches, states and solutions (cell widths, centers, nodes, with and without ghost cells, computational and mapped) are those of the current geometry: equally spaced, nodes bounding centers, the mapping applied to the current computational coordinates. '
 'Invalid extents or cell counts are refused and leave the geometry as it was, and a gauge or cell lookup agrees with these coordinates.',
 ['histories', 'configurations'],
 'every sequence of modifications and reads, one to three dimensions, any mapping, any number of ghost cells',
 'tests construct a grid once and never modify it',
 [S+'geometry.py', S+'state.py', S+'solution.py'],
 [('coordinate caches', 'geometry.py Grid._compute_*, Dimension.centers/nodes'), ('setters', 'geometry.py Dimension.lower/upper/num_cells, Grid.mapc2p, add_dimension')],
 ['geometry attributes after each operation'])
prop('C19', 'Misconfigured runs are refused before they compute or overwrite anything',
 'A run that lacks a solver, a solution, a boundary condition, a custom boundary function, the number of equations or waves, problem parameters that a Fortran Riemann solver requires, a matching number of limiters, a capacity index on a mapped grid, a known integrator, kernel, output style or output format, or whose desired Courant number exceeds the maximum, raises an exception; setting an unknown solver option raises too. '
 'In none of these cases are the data, the time or existing files changed first; a later correct run is unaffected by the attempt, and a correct configuration is never refused.',
 ['configurations'],
 'every single and pairwise combination of such defects, for every solver family',
 'tests only run correct configurations',
 [S+'solver.py', S+'controller.py', S+'classic/solver.py', S+'sharpclaw/solver.py', S+'state.py', S+'solution.py'],
 [('validity checks', 'solver.py is_valid, __setattr__; controller.py check_validity; state.py is_valid, set_cparam'), ('setup', 'classic/solver.py setup; sharpclaw/solver.py setup')],
 ['exception raised by run/evolve and solution afterwards'])
prop('C20', 'A simulation is unaffected by other simulations in the same process',
 'Running a simulation gives bit-identical results whether it is the first in the process or follows any sequence of other completed simulations with different equations, parameters, dimensions, limiters, orders, grids and solver families, and running it twice from the same initial data gives the same result twice. '
 'Simulations with the Python kernels may even be interleaved step by step.',
 ['histories', 'configurations', 'schedules'],
 'every order of a set of heterogeneous simulations run one after another; all interleavings of two Python-kernel simulations',
 'each test file runs in its own process and never compares a result with that of a fresh process',
 [S+'classic/solver.py', S+'sharpclaw/solver.py', S+'state.py', S+'solver.py'],
 [('parameter transfer', 'state.py set_cparam; classic/solver.py _set_fortran_parameters; sharpclaw/solver.py _set_fortran_parameters'), ('work arrays', 'sharpclaw/*.f90 workspace modules, __del__')],
 ['final solutions'])
prop('C21', 'Gauge time series survive writing and reading',
 'A gauge time series written to file and read back has the same identifier, type, location (in one, two or three dimensions), levels, times and values to the precision of the file, for one or more records and fields; files in the text and both binary layouts left by other programs are read with the values they hold, also into an object that held another gauge, and an old combined file is split into gauges with the same records. '
 'A file whose identifier, number of fields or amount of data is inconsistent is refused, and one without its data yields none.',
 ['inputs', 'configurations'],
 'any dimension, number of records (including one) and fields, magnitudes and signs; stationary and moving gauges',
 'no test covers this class at all',
 [S+'gauges.py'],
 [('writer', 'gauges.py GaugeSolution.write'), ('reader', 'gauges.py GaugeSolution.read')],
 ['GaugeSolution attributes after reading'])
prop('C22', 'Limiters are local, consistent and bounded as advertised',
 'The limited value at an interface depends only on the jump ratio and Courant number there, not on its position or on data elsewhere, in the Python and in the Fortran implementation, and each wave family uses its own limiter. '
 'The classical total-variation-diminishing limiters vanish at extrema, equal one for linear data, stay within the TVD region and are the same function in both implementations; a zero-strength wave stays zero.',
 ['inputs', 'configurations'],
 'all limiters, all jump ratios on a fine rational grid, all Courant numbers, row lengths and positions',
 'tests use three limiters, on smooth data',
 [S+'limiters/tvd.py', S+'classic/limiter.f90', S+'classic/philim.f90'],
 [('limiter functions', 'limiters/tvd.py; classic/philim.f90'), ('application', 'limiters/tvd.py limit; classic/limiter.f90')],
 ['limited waves; one-step results'])
prop('C23', 'Regression verdicts accept exactly what agrees',
 'Comparing data with expected values accepts exactly when the Euclidean norm of their difference (times the product of the cell widths, if given) is below the absolute tolerance, or its ratio to the norm of the expected values is below the relative one; data with NaN are never accepted, a rejection reports the norms of the expected values, of the tested values and of the difference, and the data are not changed. '
 'Testing an application makes it once with the given parameters, runs it and passes it to the verifier, and raises the verification error exactly when the verifier reports a difference; failures of the application itself are not hidden. Every kernel-language variant is tested once with its own parameters, whether variants are run at once, one by one as generated, or collected first and run in any order. '
 'Comparing two solutions raises exactly when they differ in time, number or indices of patches, levels, number of dimensions, extents, cell numbers, components or data, wherever the difference is and in whatever order the patches come.',
 ['inputs', 'histories', 'configurations'],
 'all data sets, tolerances (the limit itself included) and weights; all sequences of agreeing, differing and failing variants in all ways of running them; all single differences between two solutions of one to three patches in one to three dimensions',
 'the existing tests use these helpers and only ever take the accepting path: a helper that accepts everything would let them all pass',
 [S+'util.py'],
 [('norms', 'util.py check_diff'), ('sessions', 'util.py test_app, gen_variants, test_app_variants'), ('solutions', 'util.py check_solutions_are_same')],
 ['return values and exceptions', 'calls of the application and the verifier'])
prop('C24', 'Command-line parameters reach the application as written',
 'Running an application from its command line makes it exactly once with exactly the parameters given as key=value (a later value of a key replacing an earlier one), each value read as JSON where it is JSON, True and False as truth values, and as the literal text otherwise; arguments of another form and the plotting switches do not reach it. '
 'The application is run exactly once and returned; plots are made after the run, only those asked for, of the output directory given (./_output by default) and with the plotting setup handed in.',
 ['inputs'],
 'all command lines of up to five arguments over numbers, truth values, null, lists, objects, quoted and plain text, empty values, repeated keys and arguments of other forms',
 'no test runs an application through its command line',
 [S+'util.py'],
 [('parsing', 'util.py _info_from_argv'), ('running', 'util.py run_app_from_main')],
 ['parameters the application is called with', 'calls of the plotting functions'])
prop('C25', 'Solutions are assembled as asked for and set as a whole',
 'However a solution is asked for (a number of components, a pair of numbers of components and auxiliary fields, a state, or a list of states, together with a domain, a patch, a list of patches, a dimension or a list of dimensions), it has the dimensions in the given order with the given extents and cell numbers, states with arrays of the asked numbers of components by cells, no auxiliary array unless asked for, time zero, no capacity function and no parameters; states that are given are used themselves, not copied, in the order given, on their own patches. Other arguments are refused. '
 'The attributes of a solution are those of its first state. Setting its time or its numbers of derived quantities or functionals sets them in every state, and setting an attribute of all states without overwriting does so only where it is None. The numbers of derived quantities and functionals of a state are those of its arrays; once set, a change is refused and changes nothing. A solution is valid exactly when the arrays of all of its states are stored in Fortran order.',
 ['inputs', 'histories', 'configurations'],
 'every combination of the forms of arguments (valid or not), one to three patches of one to three dimensions, and every sequence of settings through the solution and through single states',
 'tests build solutions in two of the forms, with one patch',
 [S+'solution.py', S+'state.py', S+'geometry.py'],
 [('construction', 'solution.py Solution.__init__, state.py State.__init__, geometry.py Domain, Patch'), ('settings', 'solution.py __setattr__, set_all_states; state.py mp, mF')],
 ['attributes of solutions, states and domains', 'exceptions'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
