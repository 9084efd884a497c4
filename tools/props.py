"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RTA = 'run_time_assurance/'
BASE, SIM, ASIF = RTA + 'rta/base.py', RTA + 'rta/simplex.py', RTA + 'rta/asif.py'
CON, CTL, UT, ST = RTA + 'constraint.py', RTA + 'controller.py', RTA + 'utils/utils.py', RTA + 'state.py'
D2, D3, I1, I3, INT, CU = (RTA + 'zoo/cwh/docking_2d.py', RTA + 'zoo/cwh/docking_3d.py', RTA + 'zoo/cwh/inspection_1v1.py', RTA + 'zoo/cwh/inspection_3d.py',
                           RTA + 'zoo/integrators/integrator_1d.py', RTA + 'zoo/cwh/utils.py')
SAMP = RTA + 'utils/sample_testing.py'

P = []


def prop(id_, title, statement, over, text, why, files, mech, note, observe=None, level_note=None):
    P.append(dict(id=id_, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or ['return value of filter_control', 'intervening flag'], 'hook_needed': None},
                  note=note))


prop('C01', 'The returned control always lies within the configured control bounds',
     'Whatever the safety strategy computes and whatever control the caller asks for, an enabled filter returns exactly the strategy\'s control with each element limited to the lower and upper bound configured for that element. '
     'Bounds may be scalars, lists or arrays, may differ per element, and may be given on one side only; the guarantee also holds when an optimisation is infeasible and the desired control is passed on.',
     ['inputs', 'configurations'], 'all desired controls, states and bound values of every documented form, for every filter kind',
     'The tests use symmetric scalar bounds of the shipped examples with a handful of controls, never one-sided or element-specific bounds.',
     [BASE, ASIF, SIM], [('bounding of the computed control', BASE + ': filter_control/_clip_control_jax, _bounds_check'), ('bound rows of the QP', ASIF + ': _setup_control_constraints')],
     '2-3 controls, bounds in [-5,5], controls in [-10,10]')
prop('C02', 'A disabled filter passes the desired control through untouched',
     'While a filter is disabled every call returns exactly the desired control, even if it violates the control bounds or any constraint, and reports that it is not intervening. '
     'Disabled calls do not change the filter: backup-controller state and everything else that influences later decisions stay as they were (only an engaged backup latch is released, because the filter no longer intervenes), and enabling it again resumes filtering.',
     ['inputs', 'histories'], 'all desired controls and states, and enabled/disabled call sequences up to 4 calls, for every filter kind',
     'No test ever disables a filter.', [BASE, SIM, ASIF], [('early return when disabled', BASE + ': filter_control')],
     'histories of 2-4 calls')
prop('C03', 'Each call records what was asked and what was returned, without aliasing',
     'After every call, enabled or disabled, the recorded desired control equals the control passed in and the recorded actual control equals the control returned. '
     'The caller\'s state and control arrays are never modified by the call, and modifying the arrays passed in or returned afterwards does not change the records.',
     ['inputs', 'histories'], 'all states and controls, two consecutive calls, for every filter kind',
     'Tests never read the records and never reuse the arrays.', [BASE, ASIF, I1, I3], [('copying of the recorded controls', BASE + ': filter_control'), ('control_desired/control_actual', BASE)],
     'two calls; 1-6 controls', ['control_desired', 'control_actual', 'caller arrays'])
prop('C04', 'Explicit simplex hands over exactly when the next state would be unsafe',
     'An explicit switching filter returns the backup control and reports an intervention exactly when some enabled constraint is violated at the state predicted for the control that would actually be applied (the desired control limited to the bounds). '
     'Otherwise it returns that control unchanged and reports no intervention.',
     ['inputs', 'configurations'], 'all states, desired controls, constraint parameters and biases of linear plants, compiled or not',
     'The tests simulate a few trajectories from fixed initial states and only check that constraints stay satisfied, so a filter intervening too often or one step late goes unnoticed.',
     [SIM, BASE, CON], [('monitor: prediction and constraint check', SIM + ': ExplicitSimplexModule._monitor, SimplexModule._filter_control'), ('prediction', BASE + ': _pred_state')],
     '2-3 states, 1-2 controls, 2 constraints, one call')
prop('C05', 'Implicit simplex checks the whole backup trajectory over its window',
     'An implicit switching filter hands over to the backup control exactly when the trajectory that applies the bounded desired control for one step and then follows the backup control law for the whole configured window violates an enabled constraint at any of its points, the first and the last included. '
     'The trajectory has as many whole steps as fit into the configured window, whatever the step size.',
     ['inputs', 'configurations'], 'all states, controls, backup laws and constraint coefficients; several windows and step sizes; compiled or not',
     'The tests run fixed missions with one window and one step size and cannot see which trajectory points are examined.',
     [SIM, BASE], [('trajectory generation and check', SIM + ': ImplicitSimplexModule._monitor, ImplicitRTAModule.integrate in base.py')],
     'trajectories of 1-4 points (thorough more), 2-3 states')
prop('C06', 'Once engaged, the backup stays engaged until the latch time has elapsed',
     'After a switching filter with a latch time engages its backup, every following enabled call keeps returning the backup control until the time elapsed in those calls reaches the latch time, and only then is the decision re-evaluated. '
     'With no latch time the decision is made afresh at every call.',
     ['histories', 'inputs'], 'all call histories up to 4 calls (thorough 6) with arbitrary states and controls, latch times below, equal to and between multiples of the step, and changing step sizes',
     'No test sets a latch time.', [SIM], [('latch bookkeeping', SIM + ': SimplexModule._filter_control, latch_time, latched_elapsed')],
     'histories of 3-4 calls')
prop('C07', 'Look-ahead never changes the state of a stateful backup controller',
     'A backup controller with internal state is advanced exactly once by each call whose backup control is used and never by look-ahead simulation or sensitivity computation, whether or not the code is compiled. '
     'Look-ahead starts from the controller\'s current internal state and advances a simulated copy along the trajectory.',
     ['histories', 'inputs'], 'all histories of 2-3 calls with symbolic controller state, states and controls',
     'No test uses a stateful backup controller.', [BASE, SIM, ASIF, CTL], [('saving and restoring controller state', CTL + ': RTABackupController'), ('BackupControlBasedRTA', BASE)],
     'histories of 2-3 calls')
prop('C08', 'Explicit ASIF admits exactly the controls meeting every barrier condition',
     'The set of controls an explicit optimisation filter chooses from is exactly the set satisfying the control bounds, the condition grad h . (f + g u) >= -alpha(h) of every enabled constraint at the current state (relaxed by the slack variable of constraints that have one), and the direct linear constraints on the control. '
     'When h < 0 the strengthening term is replaced by the recovery term (the negative strengthening function, by default ten times the ordinary one, plus the negative bias).',
     ['inputs', 'configurations'], 'all states, plants, constraint coefficients, enabled combinations, slack and direct-constraint configurations within the bounds',
     'Tests only check that constraints remain satisfied along a few closed-loop runs, which a filter with dropped, duplicated or over-strong conditions passes.',
     [ASIF, CON], [('assembly of the QP rows', ASIF + ': ASIFModule._generate_constraint_mats/_generate_barrier_constraint_mats, ExplicitASIFModule._generate_constraint_mat_functions'), ('strengthening', CON)],
     'linear plants up to 3 states and 2 controls, up to 3 constraints and 2 direct constraints')
prop('C09', 'ASIF returns the admissible control closest to the desired one, honestly flagged',
     'An optimisation filter returns the admissible control with the least squared distance to the desired control, plus the weighted squared slacks when slack variables are in use. '
     'It reports an intervention exactly when the returned control differs from the desired one by more than the configured threshold, and the reported causes name exactly the conditions that are active at the returned control (none after a call without a solution).',
     ['inputs', 'configurations'], 'all states, desired controls and condition coefficients; 1-3 controls; explicit and implicit filters',
     'The tests never compare the returned control with the optimum, nor read the flag or the causes.',
     [ASIF], [('objective', ASIF + ': obj_weight, obj_constant, _optimize'), ('flag and causes', ASIF + ': monitor, constraints_causing_intervention')],
     '1-3 controls; one binding condition for the causes', ['objective handed to the solver', 'intervening', 'constraints_causing_intervention'])
prop('C10', 'Infeasible programs raise or fall back exactly as configured',
     'When the conditions contradict each other, a filter configured to raise reports the solver failure as an exception, and one configured not to raise warns and (filters based on a quadratic program) returns the desired control limited to the bounds. '
     'When the conditions are consistent neither happens, and failures of the optimiser other than infeasibility are never mistaken for it or swallowed.',
     ['inputs', 'fault_sequences'], 'all offsets of contradictory and consistent condition pairs; every failure report of the optimisers in use',
     'No test reaches an infeasible program.', [ASIF], [('quadprog error handling', ASIF + ': ASIFModule._optimize'), ('SLSQP result handling', ASIF + ': DiscreteASIFModule')],
     '1-2 controls, two opposing half spaces', ['exceptions and warnings of filter_control', 'return value'])
prop('C11', 'Implicit ASIF enforces the barrier condition at every backup trajectory point',
     'An implicit optimisation filter admits exactly the controls that satisfy the bounds and, for every enabled constraint and every point of the backup trajectory from the current state (current state included), grad h(p) . S . (f(x) + g(x) u) >= -alpha(h(p)), where S is the sensitivity of that point to the current state and the dynamics are those at the current state. '
     'The trajectory has as many whole steps of the step size of the call as fit into the backup window and follows the backup control law from its current internal state.',
     ['inputs', 'configurations'], 'all states, backup laws and constraint coefficients; trajectories of 1-4 points (thorough 6), compiled or not',
     'Tests only watch closed-loop safety for one mission; dropping points or a wrong sensitivity passes them.',
     [ASIF, BASE], [('trajectory and sensitivity', ASIF + ': ImplicitASIFModule._generate_barrier_constraint_mats, compute_invariance_constraint, integrate/_sensitivity')],
     'up to 3 states and 2 controls')
prop('C12', 'Subsampling keeps exactly the selected trajectory points of each constraint',
     'With subsampling configured, each constraint contributes conditions at exactly the trajectory points selected by its own options: all of the first points, then every k-th point, optionally reduced to the points with the smallest constraint values, with the first or last point kept on request. '
     'Options of one constraint never change what another constraint contributes.',
     ['configurations', 'inputs'], 'all combinations of the subsampling options on trajectories up to 5 points, with symbolic states and coefficients',
     'No test configures subsampling.', [ASIF, CON], [('index selection', ASIF + ': ImplicitASIFModule._setup_subsample/_subsample_constraints'), ('per-constraint options', CON)],
     'trajectories of 3-5 points, 2 constraints')
prop('C13', 'Discrete ASIF enforces the decrease condition on the predicted next state',
     'A discrete-time optimisation filter chooses among the controls within its bounds whose predicted next state satisfies (h(next) - h(now)) / dt >= -alpha(h(now)) for every enabled constraint, relaxed by the slack variable of constraints that have one, and takes the one closest to the desired control. '
     'A failure reported by the optimiser raises or warns, as configured.',
     ['inputs', 'configurations'], 'all states, plants, constraint coefficients, enabled combinations and desired controls within the bounds',
     'One shipped example is tested along a fixed run and its exact conditions are never examined.', [ASIF], [('SLSQP program', ASIF + ': DiscreteASIFModule')],
     'linear plants up to 3 states and 2 controls')
prop('C14', 'Higher-order constraints compose their lower-order condition with the dynamics',
     'A higher-order constraint of relative degree r evaluates, level by level, to the derivative of the level below along the system\'s own drift plus that level\'s strengthening function of it, and to the original constraint at degree one. '
     'Its parameters are the original constraint\'s parameters, and using it in a filter enforces the barrier condition on the composed value.',
     ['inputs', 'configurations'], 'all states and parameters for affine and quadratic constraints, linear and nonlinear drifts, degrees 1-3',
     'The tests use a single higher-order constraint of degree two in a closed loop.', [CON], [('composition', CON + ': HOCBFConstraint.compute')],
     'degrees 1-3, 2-3 states')
prop('C15', 'Limit constraints, strengthening functions and biases evaluate as documented',
     'Magnitude, minimum and maximum limit constraints are non-negative exactly on the states within their limits, with gradients that are the derivatives of their values, and follow changes of their limit parameters. '
     'Polynomial strengthening functions evaluate their coefficients and are zero at zero, the default strengthening and recovery functions are the documented ones, and a bias shifts the value used by filters but not the reported safety margin.',
     ['inputs', 'configurations'], 'all states, limits, coefficients, indices and biases within the bounds',
     'Tests evaluate the constraints only at states along their runs.', [CON, D2, D3], [('constraint classes', CON + ': ConstraintMagnitudeStateLimit, ConstraintMaxStateLimit, ConstraintMinStateLimit, PolynomialConstraintStrengthener, ConstraintModule')],
     '2-6 states', ['constraint value, gradient, margin, strengthening'])
prop('C16', 'Parameter and enabled changes take effect on the very next call',
     'Changing a constraint\'s parameters or switching a constraint off or on between calls takes effect in the next call, whether or not the filter is compiled and whether the parameter is a number or a mapping. '
     'Nothing of the old value lingers in compiled code or cached arrays, for switching, explicit, implicit and discrete optimisation filters.',
     ['histories', 'configurations'], 'all parameter values before and after, all states and controls, 2-3 calls',
     'One test changes one parameter of one filter once.', [BASE, ASIF, SIM, CON], [('parameters as traced arguments', 'constraint params passed to jitted functions in simplex.py and asif.py')],
     'histories of 2-3 calls')
prop('C17', 'Compilation never changes a decision',
     'For every filter kind the decision, the admissible controls, the objective and the returned control are the same with compilation on, off, or configured per function. '
     'This includes per-function overrides of what is compiled.',
     ['configurations', 'inputs'], 'all states, controls and coefficients within the bounds, for every documented compilation setting',
     'Tests run only the default setting.', [BASE, SIM, ASIF], [('jit composition', BASE + ': compose, jit_compile_dict and subclasses')],
     'same encodings as C04, C05, C08, C11, C13')
prop('C18', 'After reset a filter behaves as newly constructed',
     'After a reset, every later decision, returned control and report equals that of a newly constructed filter with the same configuration, whatever calls came before. '
     'Latches, elapsed latch time, backup-controller state, recorded controls and the intervention flag are all cleared, including those of filters contained in cascades and combined filters.',
     ['histories'], 'all histories of up to 4 calls with a reset at any position, arbitrary states and controls',
     'No test calls reset.', [BASE, SIM, ASIF, CTL, I1, I3], [('reset', 'reset methods of all filters')],
     'histories of up to 4 calls')
prop('C19', 'A cascade composes its filters in order and reports their interventions',
     'A cascaded filter passes the desired control through its filters in the configured order, each receiving the state, the step size and the output of the one before, and returns the output of the last. '
     'It reports an intervention exactly when at least one of its enabled filters intervened in that call.',
     ['inputs', 'configurations'], 'all states and controls, 1-3 filters of mixed kinds, each enabled or disabled, two calls',
     'No test covers cascades apart from one example run.', [BASE], [('cascade', BASE + ': CascadedRTA._filter_control')],
     '1-3 filters')
prop('C20', 'The list of constraints to use selects exactly those constraints',
     'When a filter is given a list of constraint names, of the constraints it sets up only those influence its decisions, and when none is given all do; direct linear constraints on the control are not named in the list and always apply. '
     'The order or repetition of calls does not matter, and the others have no effect at all.',
     ['configurations', 'inputs'], 'all subsets of up to 3 constraints, all states and controls',
     'Tests do not use the selection.', [BASE, ASIF, SIM], [('selection', BASE + ': ConstraintBasedRTA')],
     'up to 3 constraints')
prop('C21', 'Reported constraint values and info describe the state that was passed',
     'The constraint values a filter reports for a state are exactly the values of each constraint at that state with its current parameters, under the constraint\'s name. '
     'The info it generates reports the enabled flag, the intervention flag and the controls of the last call truthfully.',
     ['inputs', 'histories'], 'all states and parameters, before and after calls',
     'Tests read the values only for plotting.', [BASE], [('reporting', BASE + ': generate_info, compute_constraints...')],
     '2 constraints', ['reported values and info'])
prop('C22', 'The docking and integrator examples enforce their documented system',
     'The shipped docking examples (planar and spatial) and the one-dimensional integrator example use exactly the documented dynamics and constraints: orbital relative motion with the given mass and mean motion, distance-dependent speed limit, per-axis velocity limits and, for the integrator, the stopping condition. '
     'Their switching filters hand over to their documented backup control exactly when the prediction violates a constraint, and their optimisation filters admit exactly the thrusts within +-1 meeting the barrier conditions.',
     ['inputs', 'configurations'], 'all positions within 2 km and velocities within 12 m/s, all thrusts; default and changed constructor parameters',
     'Tests follow a few runs from fixed or seeded random initial states.', [D2, D3, INT, CU], [('docking modules', D2), ('docking modules', D3), ('integrator modules', INT)],
     'default parameters or symbolic limits', ['constraint values, predictions, filter_control'])
import glob
for extra in sorted(glob.glob(os.path.join(HERE, 'tools', 'props_*.py'))):
    exec(compile(open(extra, encoding='utf-8').read(), extra, 'exec'))

TRUST = ('Trusted: the term encoding of numpy/jax operations (validated by replaying every counterexample on the real code), z3, exact real arithmetic in place of floating point with the stated tolerances, and the QP/SLSQP/ODE/Riccati libraries, '
         'which are replaced by their specification. Outside the bounds nothing is claimed.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
            assert len(p['title']) <= 80, p['title']
    man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m compileall -q vf && /opt/venv/bin/python -m vf.selftest', 'checks': [], 'not_applicable': [],
           'notes': 'Each check executes the current /repo code on symbolic values (python objects and jax tracers), explores all paths and lets z3 decide every assertion; counterexamples are replayed on the unmodified code before they are reported. Bounds per harness are in the evidence files.'}
    for p in P:
        man['checks'].append({
            'property': p['id'], 'quick_cmd': f'/opt/venv/bin/python -m vf.run {p["id"]} --tier quick', 'thorough_cmd': f'/opt/venv/bin/python -m vf.run {p["id"]} --tier thorough',
            'technique': 'symbolic execution of the real code with SMT (z3) verdicts over all values within bounds; counterexamples replayed', 'level': 'other',
            'level_note': f'Bounded solver-based verification: {p["note"]}; every path and every real value within these bounds is decided by the solver. ' + TRUST})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
