'the properties, in one table: tools/gen_manifest.py writes properties.jsonl and MANIFEST.json from it'

PROPS = []


def prop(pid, title, statement, over, quant, tests, files, mech, note, technique, observe=None):
    'add a property'

    PROPS.append({'id': pid, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': tests,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                              'observe_at': observe or []},
                  'note': note, 'technique': technique})


TECH_RUN = ('explicit-state model checking: exhaustive enumeration of a bounded automaton family, every behaviour of the '
            'real code compared state by state with an independent explicit-state reference model')
TECH_OPS = ('stateless model checking of the real code: exhaustive enumeration of operation sequences to a bounded depth, '
            'every intermediate state compared with a reference model')
TECH_SCHED = ('stateless model checking: exhaustive depth-first exploration of all choice schedules of the real code '
              'under a controlled scheduler')

CORE = 'hylaa/core.py'
SS = 'hylaa/stateset.py'
LU = 'hylaa/lputil.py'
LPI = 'hylaa/lpinstance.py'
AD = 'hylaa/aggdag.py'
HA = 'hylaa/hybrid_automaton.py'
DE = 'hylaa/deaggregation.py'

prop('C01', 'Unaggregated reachable sets equal the discrete-time semantics on every path',
     'For every hybrid automaton without inputs, set of initial states, step size and bound, an unaggregated computation '
     'visits exactly the sets of the discrete-time semantics: one per path of transitions and per step, trimmed by the '
     'invariant, intersected with the guard and mapped by the reset. No set is lost, invented, enlarged or shrunk, '
     'and none lies past the time bound.',
     ['inputs', 'programs', 'configurations'],
     'all automata (dynamics, invariants, guards, resets incl. minkowski terms and dimension changes, topologies), all '
     'initial sets, all steps up to the bound',
     'The tests run a few fixed models and look at a handful of vertices or step counts of single paths; they never '
     'compare whole sets on all paths.',
     [CORE, SS, LU, AD, 'hylaa/time_elapse.py', HA],
     [('step loop: invariant, continuous step, guards', 'hylaa/core.py Core.do_step_continuous_post, do_step'),
      ('guard intersection and reset', 'hylaa/core.py Core.check_guards; hylaa/stateset.py; hylaa/lputil.py add_reset_variables'),
      ('continuous step', 'hylaa/stateset.py StateSet.step; hylaa/lputil.py set_basis_matrix')],
     'Every automaton of a bounded family (about 10^4 automata, dims 1-4) is explored completely by the real code and by '
     'the reference model, and the multisets of visited sets must be equal in 12-24 support directions (tolerance 1e-4).',
     TECH_RUN, ['state set after every single step of the computation'])

prop('C02', 'Inputs are accounted for exactly at every step',
     'With inputs from a polytope (chosen anew each step and held over it), the set after k steps is exactly the union '
     'over all initial states and all input sequences, also when modes with and without inputs, invariants and '
     'resets alternate. Each invariant constrains only the inputs of steps already taken.',
     ['inputs', 'histories', 'configurations'],
     'all input polytopes and input matrices, all input sequences, all mode histories up to the bound',
     'The tests with inputs check a box and a few steps of one mode; invariants combined with inputs and inputs in '
     'several modes of one path are not tested.',
     [SS, LU, 'hylaa/time_elapse_expm.py', HA],
     [('input effects of a step', 'hylaa/time_elapse_expm.py; hylaa/lputil.py add_input_effects_matrix'),
      ('invariant with inputs', 'hylaa/stateset.py StateSet.intersect_invariant'),
      ('input stars in the lp', 'hylaa/lputil.py')],
     'Bounded family of automata with inputs; the reference computes Minkowski sums of vertex polytopes with input '
     'matrices integrated from the definition (quadrature).', TECH_RUN)

prop('C03', 'The safety verdict is right and the run stops exactly when told to',
     'A run reports an error if an error mode is reachable within the bound, and reports a concrete error only if one '
     'is; unaggregated and deaggregating runs always decide it. Runs end early exactly when the stop settings ask for it, '
     'and never announce that the system is safe when an error mode is reachable; the printed result, step and time are right.',
     ['programs', 'configurations', 'schedules'],
     'all automata with error modes, all aggregation strategies, pop orders and stop settings',
     'The tests look at verdicts of a few models, mostly with a single stop setting and strategy.',
     [CORE, 'hylaa/result.py', 'hylaa/settings.py', AD, DE],
     [('error reporting and stop flags', 'hylaa/core.py Core.error_reached, is_finished, run_to_completion'),
      ('deaggregation on error', 'hylaa/core.py; hylaa/deaggregation.py')],
     'Verdict, stop point and printed result of every configuration of a bounded product (automata with swept error '
     'thresholds x strategies x stop settings) against reachability decided by the reference model.', TECH_RUN)

prop('C04', 'Every counterexample is a genuine execution of the automaton',
     'A reported counterexample starts in an initial set, follows the dynamics with allowed inputs, satisfies each '
     'invariant at every step, each guard at the step it leaves, each reset with allowed reset variables, respects the '
     'time bound and ends by entering an error mode. Replaying it with the library reproduces its end points.',
     ['programs', 'inputs', 'configurations'],
     'all unsafe automata of a family and all search strategies (unaggregated and deaggregated), any number of segments',
     'The tests check end points of a few counterexamples, never the inputs, invariants and reset variables along them.',
     ['hylaa/result.py', CORE, LU, AD],
     [('counterexample construction', 'hylaa/result.py; hylaa/core.py'),
      ('column naming read back into segments', 'hylaa/lputil.py; hylaa/result.py make_counterexample'),
      ('replay', 'hylaa/result.py replay_counterexample')],
     'Each counterexample found in a bounded family of about 2*10^4 unsafe automata is executed by an independent '
     'simulator.', TECH_RUN)

prop('C05', 'Aggregation loses no state and is as tight as its template',
     'Aggregating any sets yields a set that contains each of them: exactly their convex hull, or the exact template '
     'bounds, with the step interval spanning theirs. In a run, all states that a path reaches at a step are inside an '
     'aggregated set of that mode whose interval contains the step.',
     ['inputs', 'configurations', 'schedules'],
     'all lists of sets (any dimension, basis, construction history), all template directions, all strategies',
     'The tests aggregate two or three boxes of specific shape.',
     ['hylaa/aggregate.py', LU, AD, 'hylaa/aggstrat.py'],
     [('convex hull lp', 'hylaa/lputil.py aggregate_chull'), ('template aggregation', 'hylaa/lputil.py aggregate'),
      ('directions', 'hylaa/aggregate.py'), ('what to aggregate', 'hylaa/aggstrat.py; hylaa/aggdag.py')],
     'All lists of 2-5 sets of a pool against vertex hulls; all strategy settings on a family of automata against '
     'path-wise reference sets.', TECH_RUN)

prop('C06', 'Deaggregation refines exactly: verdicts equal those without aggregation',
     'A run that aggregates and deaggregates upon reaching an error gives the same verdict as one that never aggregates, '
     'for every deaggregation preference and split order, and finds each error set exactly once. Splitting an aggregated '
     'set and replaying what was done with it covers every state the set was made of and never goes past the time bound.',
     ['programs', 'configurations', 'schedules', 'histories'],
     'all automata, all deaggregation preferences and pop orders, all nested aggregations up to the bound',
     'The tests deaggregate a single aggregation on a fixed model.',
     [DE, AD, 'hylaa/aggstrat.py', CORE],
     [('splitting of a node', 'hylaa/aggstrat.py get_deagg_node, split_init_deagg; hylaa/deaggregation.py'),
      ('replay of operations', 'hylaa/deaggregation.py DeaggregationManager; hylaa/aggdag.py AggDagNode.replay')],
     'Family of safe/unsafe/spuriously-unsafe automata x all deaggregation settings; verdicts and covered sets are '
     'compared with the path-wise reference.', TECH_RUN)

prop('C07', 'Any order of work and any choice of what to aggregate is sound',
     'Whatever waiting set is explored next, and whichever waiting sets of a mode are merged or split at any '
     'point, the computation ends and its result is sound: every reachable state is covered and no reachable error is '
     'missed. If nothing is merged, the visited sets do not depend on the order.',
     ['schedules', 'programs'],
     'all schedules: which set to pop, which subset to merge, which node to split first',
     'Each test follows the one order that the built-in strategy happens to choose.',
     [AD, 'hylaa/aggstrat.py', CORE, DE],
     [('waiting list and operations', 'hylaa/aggdag.py'), ('strategy interface', 'hylaa/aggstrat.py AggregationStrategy')],
     'A strategy object supplied by the check makes every choice; depth-first enumeration over choice prefixes covers '
     'all schedules of small automata.', TECH_SCHED)

prop('C08', 'The time-triggered shortcut never changes what is reachable',
     'With the shortcut for time-triggered transitions enabled, sets, verdicts and successors are those of the '
     'semantics without it whenever the clock value at the guard lies off the sampled instants, and otherwise the mode '
     'is left by that transition at the first instant the guard is enabled. It is never applied where a trajectory could '
     'behave differently.',
     ['programs', 'inputs', 'configurations'],
     'all guards/invariants that look time-triggered, all clock dynamics, all initial clock values',
     'The tests use one or two models whose clock starts at zero.',
     [CORE, HA, SS],
     [('detection', 'hylaa/hybrid_automaton.py Transition/HybridAutomaton.detect_tt_transitions'),
      ('application', 'hylaa/core.py Core.check_guards')],
     'Family of clocked automata (aligned / unaligned thresholds, flat and non-flat initial clocks, several rows) '
     'against the reference.', TECH_RUN)

prop('C09', 'Automatic simplifications of the automaton preserve its behaviour',
     'Strengthening guards with invariants of the source or target mode, skipping modes without dynamics, and other '
     'setup-time preprocessing never change the reachable sets or the verdict. Running the same automaton object '
     'again gives the same result.',
     ['programs', 'configurations', 'histories'],
     'all automata x all combinations of the optimisation settings x repeated runs',
     'The tests switch single options on single models.',
     [HA, CORE, 'hylaa/settings.py'],
     [('guard strengthening', 'hylaa/hybrid_automaton.py do_guard_strengthening'),
      ('zero dynamics', 'hylaa/core.py skip_step_times / zero dynamics handling')],
     'Every automaton of a family under every combination of options and run twice, against the reference.', TECH_RUN)

prop('C10', 'Equivalent descriptions of a model give equal results',
     'The result does not depend on how a model is written down: lists, dense or sparse matrices, order of modes, '
     'transitions, constraints and variables, redundant or scaled constraints, or which constructor describes an initial '
     'set. Model objects passed in by the caller are not modified.',
     ['programs', 'inputs', 'configurations'],
     'all automata of a family and all listed rewritings of each, singly and in pairs',
     'The tests use one description per model.',
     [HA, LU, CORE, SS],
     [('model construction', 'hylaa/hybrid_automaton.py set_dynamics, set_invariant, set_guard, set_reset, set_inputs'),
      ('initial sets', 'hylaa/lputil.py from_box, from_constraints, from_zonotope')],
     'Every rewriting (singly and pairwise) of every automaton of a family, against the reference and the original.', TECH_RUN)

prop('C11', 'Approximation models contain the continuous-time behaviour',
     'With an approximation model selected, the set reported for a step contains every state the continuous trajectories '
     'pass through during that step (chosen model: hull of endpoints, or a bloated set covering all times and inputs in '
     'between), in every mode of the path. Verdicts are sound for it.',
     ['inputs', 'programs', 'configurations'],
     'all dynamics, inputs, initial sets, times within a step',
     'The tests check the bounds of one or two systems at one step.',
     [SS, LU, CORE, 'hylaa/time_elapse_expm.py'],
     [('approximation', 'hylaa/stateset.py StateSet.apply_approx_model'), ('bloating and hulls', 'hylaa/lputil.py bloat, aggregate_chull')],
     'Finely sampled vertex trajectories of every automaton of a family must be inside the reported sets; the '
     'end-point-hull model must be exact.', TECH_RUN)

prop('C12', 'Time-elapse matrices are right for every order of queries',
     'The matrix and the input effects reported for a step number equal the matrix exponential and its integral '
     'for that step, whatever steps were asked for before and in which order.',
     ['histories', 'inputs'],
     'all sequences of queried step numbers up to a depth, all dynamics in the family',
     'The tests query a few increasing steps.',
     ['hylaa/time_elapse.py', 'hylaa/time_elapse_expm.py'],
     [('cache of matrices', 'hylaa/time_elapse.py TimeElapser.get_basis_matrix'), ('step', 'hylaa/time_elapse_expm.py')],
     'All query sequences up to the bound on each system; oracle is quadrature/scaling-and-squaring done independently.',
     TECH_OPS)

prop('C13', 'The linear program object behaves as the set of rows and columns put into it',
     'After any sequence of additions, changes and clones, reads return what was written, the optimum and feasibility '
     'are those of the mathematical program, the answer does not depend on earlier solves, and clones are independent.',
     ['histories', 'inputs'],
     'all sequences of operations up to a depth over small programs',
     'The tests apply short fixed sequences.',
     [LPI],
     [('lp wrapper', 'hylaa/lpinstance.py LpInstance')],
     'All operation sequences up to the bound against a naive reference that enumerates vertices.', TECH_OPS)

prop('C14', 'Set operations compute exactly the sets they claim, in any composition',
     'Any composition of the set operations (linear step, intersection, reset, hull, Minkowski sum, bloating, scaling, '
     'input effects) yields exactly the mathematical set, and queries on it (extreme points, radius, centre, membership, '
     'intersection tests) agree with that set. Arguments and caller data are left unchanged.',
     ['histories', 'inputs'],
     'all sequences of operations up to a depth from every constructor in dims 1-3',
     'The tests apply one operation at a time to a box.',
     [LU, LPI, 'hylaa/aggregate.py'],
     [('operations', 'hylaa/lputil.py'), ('queries', 'hylaa/lpinstance.py; hylaa/lputil.py')],
     'All operation sequences up to the bound over a pool of sets against vertex polytopes.', TECH_OPS)

prop('C15', 'Plotted polygons are exactly the projections of the sets',
     'The vertices computed for plotting a set in two directions (variables, arbitrary directions or time) lie in the '
     'projection and their hull is the whole projection, for any set including segments and points.',
     ['inputs', 'configurations'],
     'all sets of a pool x all pairs of plot directions x all accuracy settings',
     'The tests plot two or three boxes.',
     ['hylaa/lpplot.py', 'hylaa/kamenev.py'],
     [('projection', 'hylaa/lpplot.py get_verts'), ('support refinement', 'hylaa/kamenev.py')],
     'Every set x direction pair of a pool against the hull of projected vertices.', TECH_OPS)

prop('C16', 'Stored plot data is the history of the computation',
     'The polygons kept for plotting or returned with the result are exactly one per visited set, mode and step, in every '
     'subplot, including sets removed and replaced by deaggregation; storing or plotting them does not influence '
     'the computation.',
     ['programs', 'configurations', 'histories'],
     'all automata of a family x plot dimension settings x aggregation strategies',
     'The tests check lengths of the stored list in a few runs.',
     ['hylaa/plotutil.py', 'hylaa/result.py', AD, 'hylaa/lpplot.py'],
     [('plot manager', 'hylaa/plotutil.py PlotManager'), ('plot data', 'hylaa/result.py PlotData')],
     'All runs of the family: stored polygons against the projections of the sets of the reference.', TECH_RUN)

prop('C17', 'Simulation follows the semantics from any start and seed',
     'A simulated trajectory starts in the given state and follows the exact dynamics, its steps, transitions and resets '
     'in order, and ends where no move is possible or the bound is reached. Every simulated state is inside the '
     'reachable set.',
     ['inputs', 'programs'],
     'all automata of a family x corner, centre and seeded random starts',
     'No test looks at the points of a simulation.',
     [CORE, 'hylaa/simulation.py'],
     [('simulate', 'hylaa/core.py Core.simulate')],
     'Every automaton of the family from the corners, the centre and seeded random points of its initial set against an independent simulator.', TECH_RUN)

prop('C18', 'Matrices from symbolic expressions mean the same as the expressions',
     'Dynamics, constraints and resets written as expressions are translated to matrices with the same meaning at every '
     'point; an expression that is not affine is rejected.',
     ['inputs', 'programs'],
     'all expressions of the grammar up to a depth, all variable orders',
     'The tests translate a few fixed strings.',
     ['hylaa/symbolic.py'],
     [('translation', 'hylaa/symbolic.py')],
     'All syntax trees up to the bound, evaluated at an affinely independent set of points.', TECH_OPS)

prop('C19', 'Runs are deterministic and independent of earlier runs',
     'Running the same model again, in the same process, after other models or failed runs, with printing or timing '
     'switched on or off, gives bit-identical results.',
     ['histories', 'configurations'],
     'all sequences of runs up to a depth from an alphabet of models',
     'Each test runs one model in a fresh object and never looks at carried-over state.',
     [CORE, AD, LPI, 'hylaa/timerutil.py', LU],
     [('global counters and timers', 'hylaa/aggdag.py, hylaa/timerutil.py, hylaa/lpinstance.py')],
     'All run sequences up to the bound, results compared with those from a fresh process.', TECH_OPS)

prop('C20', 'Ill-formed models are rejected and well-formed ones accepted',
     'A model whose matrices, constraints, modes or settings do not fit together is rejected with an exception no later '
     'than setup, leaving nothing half-computed; every well-formed model is accepted, with the smallest number of '
     'steps which covers its time bound.',
     ['programs', 'inputs', 'configurations'],
     'all single and pairwise shape or value mistakes applied to well-formed models',
     'Rejection is not tested, except for one or two assertions.',
     [HA, CORE, LU, 'hylaa/settings.py', SS],
     [('validation', 'hylaa/hybrid_automaton.py; hylaa/core.py Core.setup; hylaa/lputil.py')],
     'All mutations (each dimension of each argument +-1) of a family of models.', TECH_OPS)

prop('C21', 'Timers nest correctly in every history of starts and stops',
     'Any properly nested history of timer starts and stops is accepted with the right counts, nesting and sums; any '
     'other history is rejected; resetting discards everything.',
     ['histories'],
     'all sequences of operations up to a depth',
     'The tests never drive timers directly.',
     ['hylaa/timerutil.py'],
     [('timers', 'hylaa/timerutil.py Timers')],
     'All sequences up to the bound under a virtual clock.', TECH_OPS)

prop('C22', 'The trace checker accepts exactly what the dynamics allow',
     'The numerical check of a trace reports the deviation between the given end point and the one which the continuous '
     'dynamics with the given inputs reach: zero for genuine traces, and the true distance for any altered one. The '
     'counterexamples of the library pass it, and its plot shows the trace and inputs it was given and changes none.',
     ['inputs', 'histories'],
     'all systems of a family x start states x input sequences x alterations',
     'No test runs the trace checker.',
     ['hylaa/check_trace.py'],
     [('check', 'hylaa/check_trace.py check'), ('plot', 'hylaa/check_trace.py plot')],
     'All traces of a family, genuine and altered, against matrix exponentials.', TECH_OPS)

prop('C23', 'Vertex enumeration from support functions is complete',
     'Given only a support function of a bounded convex set in any dimension, the enumerated vertices are points of the '
     'set and their hull equals the set within the requested accuracy, also for lower-dimensional sets.',
     ['inputs'],
     'all polytopes of a family in dimensions 1-4, including flat ones',
     'The tests enumerate vertices of two or three fixed two-dimensional sets.',
     ['hylaa/kamenev.py'],
     [('refinement', 'hylaa/kamenev.py get_verts')],
     'All polytopes of a family (full and lower dimensional) against their true vertices.', TECH_OPS)

prop('C24', 'The strategy settings decide what is explored, merged and split',
     'The set explored next comes first in the chosen order. Sets are merged only in one mode and, if the same path is '
     'required, only if found from the same set through the same transition, and then all of them are. A merged set is '
     'split only if an error or different transitions need it, and the one that the preference names; what was found '
     'from it is dropped, nothing else. Without a strategy sets are explored in the order they were found.',
     ['schedules', 'histories', 'configurations'],
     'all waiting lists and histories, all pop orders, same-path settings and deaggregation preferences',
     'The tests use the default settings on models with few waiting sets and look at the final result only.',
     ['hylaa/aggstrat.py', AD, DE, CORE],
     [('choice of the next sets', 'hylaa/aggstrat.py Aggregated.pop_waiting_list, pop_score; hylaa/aggdag.py pop_waiting_list'),
      ('choice of the split', 'hylaa/aggstrat.py Aggregated.get_deagg_node; hylaa/deaggregation.py begin_replay'),
      ('simulations', 'hylaa/aggstrat.py get_simulation_pop_mode')],
     'Every decision of every run of a family under every setting, and all waiting lists up to a length, are judged '
     'against the definition of the settings.', TECH_OPS)

prop('C25', 'Live and interactive plotting obey the user and do not change the computation',
     'Whatever the user does, in whatever order, the computation advances exactly as asked: it pauses when a new set is '
     'explored, a step is one step, next goes on to the next pause, a skip count presses next. What is drawn at any moment are '
     'the sets computed so far, within the limits of the axes, with the current one highlighted. Clicks report a set at that '
     'point, or nothing. The result is that of a run without a plot; a closed window yields no verdict of safety.',
     ['schedules', 'histories'],
     'all sequences of timer events, buttons, clicks and closing of the window',
     'No test opens a window.',
     ['hylaa/plotutil.py', CORE, 'hylaa/result.py'],
     [('event handlers', 'hylaa/plotutil.py PlotManager.compute_and_animate, anim_func, anim_iterator'),
      ('drawing', 'hylaa/plotutil.py plot_current_state, update_axis_limits, _blit_draw'),
      ('verdict', 'hylaa/core.py Core.run')],
     'All event sequences up to a length are run against the real handlers under a controlled clock and user.', TECH_OPS)

prop('C26', 'The saved diagram of a computation shows its sets and transitions',
     'Whenever the diagram of the computation is saved, it shows each explored set (which was not split since) once, with its '
     'mode and the number of steps taken in it, each successor still waiting, and one arrow for every maximal interval of '
     'steps at which a successor was found; it never overwrites an earlier one.',
     ['histories', 'configurations'],
     'all automata, strategies and points of the computation at which it is saved',
     'No test saves a diagram.',
     [AD],
     [('nodes and arrows', 'hylaa/aggdag.py AggDagNode.viz'), ('roots and file names', 'hylaa/aggdag.py AggDag.viz, save_viz')],
     'The diagram is saved after every step of every run of a family, and compared with the recorded history.', TECH_OPS)

prop('C27', 'Saved images and videos are complete and follow the plot settings',
     'A saved video shows the computation step by step (every stride-th set, each pause for as many frames as set, the extra '
     'frames at the end), each frame with all sets so far, the current one highlighted and everything in view; a saved image '
     'shows all sets. Titles, labels, limits, ticks, sizes, colors per mode, extra collections, frame counter and file names '
     'are those of the settings, in every subplot.',
     ['configurations', 'histories'],
     'all runs, simulations and combinations of plot settings',
     'No test looks at what is in a saved figure, and none saves a video.',
     ['hylaa/plotutil.py', 'hylaa/settings.py'],
     [('frames', 'hylaa/plotutil.py PlotManager.anim_func, anim_iterator, save_video'),
      ('appearance', 'hylaa/plotutil.py PlotManager.create_plot, DrawnShapes, ModeColors')],
     'Every frame of every video of a family of runs and settings is read from the figure and compared with a model of the video.',
     TECH_OPS)

prop('C28', 'The features keep their guarantees in any combination',
     'Whatever dynamics, inputs, invariants, guards, resets, initial sets, clocks, aggregation strategies, orders of work, '
     'approximation models, urgent guards, automatic simplifications, stored plots and stop settings are used together: the '
     'computation ends, covers every execution within the bound, reports an error if one is reachable, a concrete one only if '
     'it is genuine, with a genuine counterexample. Visited sets are exactly those of the semantics if nothing overapproximates.',
     ['configurations', 'inputs'],
     'all combinations of features',
     'Tests use a few features at a time, faults may need three or more at once.',
     [CORE, SS, AD, 'hylaa/aggstrat.py'],
     [('run', 'hylaa/core.py Core.do_step, check_guards, intersect_invariant'), ('step', 'hylaa/stateset.py StateSet.step'),
      ('successors', 'hylaa/aggdag.py AggDag.add_transition_successor, pop_waiting_list')],
     'Every triple of levels of seventeen features occurs in an automaton which is explored by the real code and by the reference.',
     TECH_RUN)
