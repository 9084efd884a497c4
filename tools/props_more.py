prop('C23', 'The inspection examples enforce their documented system',
     'The shipped single- and multi-deputy inspection filters (continuous and discrete) use exactly the documented dynamics and constraints: orbital relative motion with a moving sun angle, braking-distance collision limits against the chief and the other deputies, keep-out cone around the sun direction, maximum distance, distance-dependent speed limit, passive safety along 100 s of free drift, and axis velocity limits, each with the available acceleration derived from the given mass, mean motion, thrust and sun rate. '
     'Their optimisation admits exactly the thrusts within the bounds meeting the barrier conditions of these constraints; the discrete filter and the delta-v bookkeeping predict the same motion.',
     ['inputs', 'configurations'], 'all positions within 1500 m, velocities within 2 m/s and sun angles; 1-3 deputies; default and changed constructor parameters; ordinary and higher-order collision constraint',
     'Tests run one short episode per example from a fixed state; most constraints are far from binding there, and changed parameters are never tried.',
     [I1, I3, CU], [('constraints', I1 + ': Constraint* classes'), ('filters', I1 + ': Inspection1v1RTA, DiscreteInspection1v1RTA'), ('multi-deputy filters', I3 + ': InspectionRTA')],
     'default parameters or symbolic radii/distances with other mass and mean motion; sun cone and passive safety as values, the other constraints also as filter rows', ['constraint values, predictions, program handed to the optimiser'])
prop('C24', 'Every spacecraft of a combined filter is protected as if it were alone',
     'The combined inspection filter gives each spacecraft the control its own single-spacecraft filter would give for its own part of the desired control, at the state in which its own position and velocity come first and the others follow in order, limited to the bounds. '
     'It reports an intervention exactly when some spacecraft\'s filter intervened in that call, and resetting it resets the filter it uses.',
     ['inputs', 'histories', 'configurations'], 'all states and controls of 1-3 spacecraft, with and without the shipped per-spacecraft filter, histories of 1-3 calls',
     'One test runs a short episode from a fixed state and never looks at the flag.', [I3], [('routing of state and control', I3 + ': CombinedInspectionRTA')],
     '1-3 spacecraft (thorough 5), 1-3 calls')
prop('C25', 'The delta-v limiter hands over before the budget is exceeded and stays engaged',
     'The switching delta-v limiter passes the desired control on as long as the delta-v accumulated after it and the configured number of following backup steps stays within the limit, and otherwise returns its backup control (feedback with error integral, within the thrust bounds) and reports an intervention. '
     'Once engaged it stays engaged until it is reset; the error integral advances once per call in which the backup is used and is not disturbed by look-ahead.',
     ['inputs', 'histories', 'configurations'], 'all states and desired controls, histories of 1-3 calls with disabling and resetting, several look-ahead lengths, masses, mean motions and steps',
     'No test constructs the limiter.', [I1, SIM], [('delta-v limiter', I1 + ': SwitchingDeltaVLimitRTA')],
     'look-ahead of 1-4 steps (thorough 20); fixed feedback gains in place of the Riccati solution')
prop('C26', 'A filtered plant never leaves its safe set, whatever control is desired',
     'A plant driven through a filter, call after call, with any sequence of desired controls: with an explicit simplex filter whose backup law keeps safe states safe for one step, every visited state satisfies every constraint; with an implicit simplex filter started where the backup trajectory is safe, every state visited within the length of the window does; with a discrete ASIF filter whose program is feasible every next state does; and on the boundary of a constraint no ASIF filter returns a control driving the system out. '
     'The shipped 1d switching filters never let the vehicle pass the docking position.',
     ['inputs', 'histories', 'configurations'], 'all safe start states, all sequences of desired controls over closed loops of 1-5 calls (thorough 7), with latching, stateful backup laws, compiled or not, alone or as the last stage of a cascade',
     'Tests run one episode with one scripted controller; safety must hold against every controller.', [SIM, ASIF, BASE, INT], [('switching', SIM + ': SimplexModule, ExplicitSimplexModule, ImplicitSimplexModule'), ('barrier conditions', ASIF + ': ExplicitASIFModule, ImplicitASIFModule, DiscreteASIFModule'), ('1d example', INT)],
     'closed loops of 1-5 calls (thorough 7), linear and bilinear plants with affine or quadratic constraints', ['states of the closed loop'])
prop('C27', 'A sampled episode is judged exactly by what happened in it',
     'Sample testing rejects an initial state exactly when it lies outside a constraint or its margin, replaces it by another, and otherwise reports success exactly when the filter never failed and every constraint margin stayed non-negative at every simulated state up to the end time. '
     'The table has the requested number of samples, each with the initial state it belongs to; tracked episodes record states, filtered controls and intervention flags in order. Drawn initial states follow the given bounds and distributions entry by entry.',
     ['inputs', 'histories'], 'all initial states and constraint coefficients, filters failing at any step, episodes of 1-4 steps (thorough 10), any random draw',
     'Tests only run one successful episode.', [SAMP], [('episodes and verdicts', SAMP + ': SafetyAssuranceSampleTestingModule, DataTrackingSampleTestingModule'), ('initial states', SAMP + ': LatinHypercubeRandomSampleTestingModule, ParametricRandomSampleTestingModule')],
     'episodes of 1-4 steps, 1-2 constraints, tables of 1-3 samples; random generators replaced by arbitrary draws within their specification', ['verdict, written table, recorded arrays'])
prop('C28', 'State wrappers read and write exactly the named entries',
     'Every named entry of a state wrapper of the shipped examples reads and writes its own place of the state vector and no other, whether the vector came as a numpy or a jax array, and writing through the wrapper never changes the vector it was built from.',
     ['inputs', 'histories'], 'all values of all entries, any sequence of assignments to the entries',
     'Tests only construct wrappers.', [ST, D2, D3, I1, INT], [('wrappers', ST + ': RTAStateWrapper and subclasses in the examples')],
     'all entries of the four wrappers', ['attributes and vector of the wrapper'])

prop('C29', 'Filters in one process do not influence one another',
     'Two filters used in the same process, also of the same class and in any interleaving, each behave as if the other did not exist: building, using, reconfiguring, disabling or resetting one never changes the decisions, returned controls, interventions, latch, backup-controller state, constraints, parameters or dynamics of the other. The same holds for the constraints, strengthening functions and backup controllers they are made of.',
     ['inputs', 'histories'], 'all states and desired controls of interleaved calls, all operations on the other filter in between',
     'Tests use one filter at a time.', [BASE, SIM, ASIF, CON, CTL], [('filters', BASE + ': RTAModule and subclasses'), ('constraints', CON + ': ConstraintModule'), ('controllers', CTL + ': RTABackupController')],
     'pairs of filters of each kind, calls A B A B, operations on B in between; the shipped examples with another filter built afterwards', ['control returned', 'intervening', 'controller state', 'programs solved'])
