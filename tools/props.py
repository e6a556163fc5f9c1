#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), level_note='', technique='', level='model_checking', observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  state=state, level_note=level_note, technique=technique, level=level, observe=observe))


C = 'ct_core/include/ct/core/'
O = 'ct_optcon/include/ct/optcon/'
TECH = 'TLA+ spec %s model-checked with TLC; TLC-generated behaviours replayed into the real classes; TLC trace validation'

prop('C01', 'Trajectories and arrays behave as a list of time-stamped samples',
     'Evaluating a discrete trajectory, or looking up the index of a time, is a function of its current samples, its interpolation type and the query time only: the first/last sample outside the stamped range, the last sample not after the query for zero-order hold, the linear blend of the two neighbours for linear interpolation - never of earlier queries, edits, copies or failed queries. Every edit (construction from a grid or from arrays, push, pop, erase front, shift, clear, sub-range, copy, assignment, swap, replacing times or data, element-wise array arithmetic, equidistant time arrays) changes exactly the samples it names and leaves copies and other trajectories untouched. Queries that have no answer (empty or inconsistent trajectory, arrays of different length) are rejected with an exception.',
     ['inputs', 'histories'], 'all histories of edits and queries on any number of samples with non-decreasing time stamps, and all query times',
     'The existing tests evaluate a few fixed trajectories once; the lookup keeps a cached position, so its result could depend on every earlier query and edit.',
     [C + 'types/trajectories/DiscreteTrajectoryBase.h', C + 'common/Interpolation.h', C + 'types/arrays/DiscreteArray.h', C + 'types/arrays/TimeArray.h', C + 'types/arrays/ScalarArray.h', C + 'types/arrays/ArrayHelpers.h', C + 'common/linspace.h'],
     [('bidirectional hunt from the cached index', C + 'common/Interpolation.h'), ('time and data edited in lock step', C + 'types/trajectories/DiscreteTrajectoryBase.h')],
     [('index_', 'cached lookup position', C + 'common/Interpolation.h')],
     'Specification exhaustive up to 4 samples/5 time stamps (one trajectory) and 2 samples (two trajectories); every transition of a bounded graph plus seeded random behaviours replayed into the real classes.',
     TECH % 'Traj')
prop('C02', 'Switched systems follow their mode sequence; clones are independent',
     'The mode active at time t is the phase whose half-open interval [start, end) contains t - the first phase before the sequence starts, the last from its end on, and for zero-length phases the one that starts last - for continuous and for discrete time, and phase, boundary, duration and switch-event queries agree with it. A switched system (nonlinear or linear, continuous or discrete) evaluates exactly the dynamics or matrices of the subsystem that this rule selects for the time, state and input it was called with, using its attached controller if any. A clone keeps the sequence, subsystems and controller as they were when it was made, whatever is later done to the original.',
     ['inputs', 'histories'], 'all mode sequences (any start, any non-negative durations, any repetition of modes), all times including exact boundaries, all histories of building, cloning and modifying',
     'The tests use one two- or three-phase sequence and probe interior points; boundaries, zero-length phases, clamping and clone independence are not reached.',
     [C + 'switching/Switching.h', C + 'systems/continuous_time/SwitchedControlledSystem.h', C + 'systems/continuous_time/linear/SwitchedLinearSystem.h', C + 'systems/discrete_time/SwitchedDiscreteControlledSystem.h', C + 'systems/discrete_time/linear/SwitchedDiscreteLinearSystem.h', C + 'systems/discrete_time/DiscreteControlledSystem.h', C + 'systems/continuous_time/ControlledSystem.h'],
     [('upper_bound search over phase boundaries', C + 'switching/Switching.h'), ('deep-copying copy constructors', C + 'systems/continuous_time/SwitchedControlledSystem.h')],
     (), 'Specification exhaustive for up to 4 phases with durations 0..2, and for systems/clones up to 2 phases; tours and random behaviours replayed into all four switched system classes.',
     TECH % 'Switch')
prop('C03', 'Integration visits its grid, logs it, and serves event handlers exactly',
     'Integrating n steps, or with constant step to a final time, performs exactly the steps of the chosen method on the grid start + i*step, returns the state of the last grid point, and logs precisely the observed (time, state) pairs in order, the last being the result; adaptive and given-times integration end at, respectively report exactly, the requested times within the tolerances the user set. Every ordinary event handler is asked exactly once per observed point and every sub-step handler once per evaluation of the dynamics, in order, and acts iff it detects its event; step limits and kill requests end the integration at exactly that observation. Every run starts afresh: nothing of an earlier finished or aborted run, log or method leaks into it.',
     ['inputs', 'histories'], 'all methods, start times, step sizes, step counts, handler configurations, and all sequences of runs including aborted ones',
     'The tests compare end states of a few runs against tolerances; handler call counts, log contents, aborts and reuse of an integrator are not checked.',
     [C + 'integration/Integrator-impl.h', C + 'integration/Integrator.h', C + 'integration/Observer-impl.h', C + 'integration/internal/SteppersCT.h', C + 'integration/internal/SteppersODEInt.h', C + 'integration/internal/StepperBase.h', C + 'integration/EventHandlers/MaxStepsEventHandler.h', C + 'integration/EventHandlers/KillIntegrationEventHandler.h', C + 'integration/EventHandlers/SubstepRecorder.h', C + 'integration/IntegratorSymplectic-impl.h', C + 'integration/eigenIntegration.h'],
     [('observer dispatch and reset', C + 'integration/Observer-impl.h'), ('fixed-step loops', C + 'integration/internal/SteppersCT.h')],
     (), 'Exact on a polynomial test system for all methods of order >= 3 and for Euler; own steppers checked stage by stage.',
     TECH % 'Integ')

PENDING = {}


def main():
    os.chdir(V)
    exec(open(os.path.join(V, 'tools', 'props_more.py')).read(), globals()) if os.path.exists('tools/props_more.py') else None
    built = {p['id'] for p in P if os.path.exists('checks/%s.py' % p['id'].lower())}
    with open('properties.jsonl', 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                             mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
            assert len(p['title']) <= 80, p['id']
            for x in p['files']:
                assert os.path.exists('/repo/' + x), x
    m = dict(version=1, setup_cmd='bin/setup.sh', hooks=dict(guard='none', enable='no hooks: harnesses use the public API of /repo\'s headers', source_commits=[]),
             checks=[dict(property=p['id'], quick_cmd='bin/check.sh %s quick' % p['id'], thorough_cmd='bin/check.sh %s thorough' % p['id'],
                          evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=p['level'], level_note=p['level_note'])
                     for p in sorted(P, key=lambda p: p['id']) if p['id'] in built],
             not_applicable=[dict(property=p['id'], reason='check not built yet') for p in sorted(P, key=lambda p: p['id']) if p['id'] not in built])
    json.dump(m, open('MANIFEST.json', 'w'), indent=1)
    print(len(P), 'properties,', len(built), 'checks')


main()
