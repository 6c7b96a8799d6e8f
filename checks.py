"""What each check runs: harness sources, case counts, what a non-trivial case is."""
NETRULE = ('cases are networks drawn as choice sequences: atomic models with 1-3 table driven states, time advances '
           'from {inf, 0, small, equal, spread}, pins with acyclic pin-to-pin edges, multi-edges, and a history of cycles; ')
MODEL = 'model-based PBT: generated networks run in lock step with a reference simulator'


def times(src, quick, thorough, types, defs=(), **kw):
    return [dict(name='%s-%s' % (src[:-4], n), src=src, quick=quick, thorough=thorough, defs=['TIME=' + t] + list(defs),
                 **kw) for n, t in types]


SUN = ['-lsundials_cvode', '-lsundials_kinsol', '-lsundials_nvecserial']
CHECKS = {
    'C01': dict(
        technique=MODEL,
        rule=NETRULE + 'non-trivial: at least 3 transitions and some simultaneous, external or confluent events',
        need=['confluent', 'external', 'simultaneous', 'hundreds of models', 'a thousand models or more',
              'seventy thousand cycles'],
        bins=[dict(name='c01', src='c01.cpp', quick=90000, thorough=900000),
              dict(name='c01-round', src='c01.cpp', defs=['ROUND=double'], quick=30000, thorough=300000, fuzz=0),
              dict(name='c01-long', src='c01.cpp', defs=['LONG'], quick=48, thorough=2000, fuzz=0)]),
    'C02': dict(
        technique=MODEL + '; received bags compared as multisets of (pin, value)',
        rule=NETRULE + 'non-trivial: 2 or more input transitions and a value delivered twice or more to one model in a cycle',
        need=['several paths to one model', 'with Mealy models', 'ten or more pin to pin edges', 'model receives its own output',
              'built as a graph'],
        bins=[dict(name='c02', src='c02.cpp', quick=65000, thorough=900000),
              dict(name='c02-sd', src='c02.cpp', defs=['TIME=adevs::sd_time<double>'], quick=25000, thorough=400000,
                   fuzz=0)]),
    'C03': dict(
        technique=MODEL + ' that computes Mealy outputs in topological order',
        rule=NETRULE + 'with Mealy models in acyclic position; non-trivial: 2+ Mealy models, a Mealy to Mealy path, 2+ input transitions',
        need=['Mealy models feeding Mealy models', 'output recomputed', 'seventy thousand cycles'],
        bins=[dict(name='c03', src='c03.cpp', quick=60000, thorough=900000),
              dict(name='c03-long', src='c03.cpp', defs=['LONG'], quick=32, thorough=1000, fuzz=0),
              dict(name='c03-round', src='c03.cpp', defs=['ROUND=double'], quick=15000, thorough=200000, fuzz=0),
              dict(name='c03-sd', src='c03.cpp', defs=['TIME=adevs::sd_time<double>'], quick=30000, thorough=400000,
                   fuzz=0)]),
    'C04': dict(
        technique=MODEL + ' that decides from the graph of Mealy models whether an active loop exists',
        rule=NETRULE + 'with Mealy models in any position; non-trivial: the loop was reached, or the net is loop free '
                       'and Mealy models were active',
        need=['rejected', 'self loop', 'loop of three or more', 'loop free', 'loop not active',
              'Moore models drive Mealy models, loop free'],
        bins=[dict(name='c04', src='c04.cpp', quick=65000, thorough=900000),
              dict(name='c04-sd', src='c04.cpp', defs=['TIME=adevs::sd_time<double>'], quick=25000, thorough=400000,
                   fuzz=0)]),
    'C05': dict(
        technique=MODEL + ' including the look-ahead and injection interface',
        rule=NETRULE + 'with generated sequences of setNextTime, inject, clear, computeNextOutput, computeNextState; '
                       'non-trivial: 3+ transitions and 2+ of early step, recomputed output, cleared or late injection',
        need=['early step', 'look-ahead output discarded', 'couplings changed between the calls', 'injected input cleared', 'output recomputed before the state'],
        bins=[dict(name='c05', src='c05.cpp', quick=65000, thorough=900000),
              dict(name='c05-round', src='c05.cpp', defs=['ROUND=double'], quick=15000, thorough=200000, fuzz=0),
              dict(name='c05-sd', src='c05.cpp', defs=['TIME=adevs::sd_time<double>'], quick=25000, thorough=400000,
                   fuzz=0)]),
    'C06': dict(
        technique=MODEL + '; the listener log of every cycle compared with the notifications due',
        rule=NETRULE + 'with 1-3 listeners; non-trivial: 2+ outputs and 2+ inputs notified',
        need=['output routed nowhere', 'several listeners', 'Mealy output recomputed'],
        bins=[dict(name='c06', src='c06.cpp', quick=65000, thorough=900000),
              dict(name='c06-sd', src='c06.cpp', defs=['TIME=adevs::sd_time<double>'], quick=25000, thorough=400000,
                   fuzz=0)]),
    'C07': dict(
        technique=MODEL + ' with a structure that changes at the end of each cycle',
        rule=NETRULE + 'with structure changes issued from state transitions; non-trivial: 3+ changes, one made within a cycle, a model added or removed, 3+ transitions',
        need=['model added', 'model removed', 'removed and added again in one cycle',
              'instance of a present model added or removed', 'pin removed', 'through a coupled model',
              'thirty or more changes in one cycle', 'three thousand changes'],
        bins=[dict(name='c07', src='c07.cpp', quick=60000, thorough=900000),
              dict(name='c07-long', src='c07.cpp', defs=['LONG'], quick=800, thorough=20000, fuzz=0),
              dict(name='c07-sd', src='c07.cpp', defs=['TIME=adevs::sd_time<double>'], quick=25000, thorough=400000,
                   fuzz=0)]),
    'C08': dict(
        technique='stateful PBT: operation sequences on a Graph against a multigraph model',
        rule='cases are sequences of graph operations; non-trivial: a removal, and an event routed over 2+ edges',
        need=['edge with several instances', 'last instance of a connected model removed', 'pin removed',
              'provisional operations', 'twenty or more instances'],
        bins=[dict(name='c08', src='c08.cpp', quick=150000, thorough=2000000)]),
    'C09': dict(
        technique=MODEL + ' of the flattened hierarchy',
        rule='cases are hierarchies of up to 5 coupled models with shared parts, changed while they run; non-trivial: at '
             'least 3 events and (changes while running, or a static hierarchy of 2 or more coupled models)',
        need=['coupling to a part of a part', 'change to a shared coupled model', 'coupled model removed from the simulation',
              'atomic model removed from a coupled model'],
        bins=[dict(name='c09', src='c09.cpp', quick=65000, thorough=900000),
              dict(name='c09-sd', src='c09.cpp', defs=['TIME=adevs::sd_time<double>'], quick=25000, thorough=400000,
                   fuzz=0)]),
    'C10': dict(
        technique='stateful PBT: operation sequences on Schedule against a map from model to time',
        rule='cases are sequences of schedule operations for each of 9 time types; non-trivial: 5+ operations with a reschedule '
             'and a removal or pop',
        need=['ties for the minimum', 'capacity exceeded', 'drained', 'a thousand models or more',
              'twenty thousand operations'],
        bins=[dict(name='c10', src='c10.cpp', quick=120000, thorough=1500000)]),
    'C11': dict(
        technique='PBT of algebraic laws against exact rational arithmetic',
        rule='cases are tuples of super-dense times over double, int, long; non-trivial: an interval with real part, or different real parts',
        need=['step absorbed by the real part', 'equal real part, different integer part'],
        bins=[dict(name='c11', src='c11.cpp', quick=800000, thorough=8000000)]),
    'C12': dict(
        technique='PBT of the comparison laws against the tolerance rule computed independently',
        rule='cases are tuples of doubles near, at and away from the tolerance; non-trivial: different numbers and a positive tolerance',
        bins=[dict(name='c12', src='c12.cpp', quick=1500000, thorough=15000000)]),
    'C13': dict(
        technique=MODEL + ', for each time type, and with super-dense arithmetic for sd_time',
        rule=NETRULE + 'once per time type; non-trivial as for C01',
        need=['confluent', 'external', 'simultaneous'],
        bins=times('c01.cpp', 14000, 150000, [
            ('float', 'float'), ('ldouble', 'long double'), ('int', 'int'), ('long', 'long'),
            ('fcmp', 'adevs::double_fcmp'), ('sdd', 'adevs::sd_time<double>'), ('sdi', 'adevs::sd_time<int>'),
            ('sdl', 'adevs::sd_time<long>')], defs=['MEALY'], fuzz=0) +
        [dict(name='c01-round-float', src='c01.cpp', defs=['ROUND=float', 'TIME=float', 'MEALY'], quick=12000, thorough=150000, fuzz=0),
         dict(name='c01-fcmp-tenths', src='c01.cpp', defs=['TENTHS', 'TIME=adevs::double_fcmp', 'MEALY'], quick=12000, thorough=150000, fuzz=0),
         dict(name='c05-fcmp-tenths', src='c05.cpp', defs=['TENTHS', 'TIME=adevs::double_fcmp'], quick=10000, thorough=120000, fuzz=0),
         dict(name='c01-round-sdd', src='c01.cpp', defs=['ROUND=double', 'TIME=adevs::sd_time<double>', 'MEALY'], quick=12000, thorough=150000, fuzz=0)]),
    'C14': dict(
        technique='PBT with an injected negative time advance at a generated place and moment',
        rule='cases are small networks in 8 time types in which one model reports a negative time advance, or none '
             'does; non-trivial: the negative advance was reached',
        need=['reported by the constructor', 'reported after a state change', 'reported for an added model'],
        bins=[dict(name='c14', src='c14.cpp', quick=150000, thorough=1500000)]),
    'C15': dict(
        technique='PBT over histories that create, share, change and destroy models under AddressSanitizer, with '
                  'instance counts and allocated bytes as leak oracle',
        rule='cases are histories over graphs, coupled models and lone models; non-trivial: a steady model run for long, or 2+ cycles with 2+ models destroyed, replaced or kept alive only by the network',
        need=['kept alive by the network only', 'destroyed while the simulation runs',
              'new model in the place of a destroyed one', 'changes after the simulator was destroyed',
              'model removes itself in a transition', 'coupled models', 'steady model run for long',
              'torn down after an exception'],
        bins=[dict(name='c15', src='c15.cpp', quick=60000, thorough=800000, fuzz=0)]),
    'C16': dict(
        technique='PBT against exact solutions: polynomial flows and linear/nonlinear systems with known flow',
        rule='cases are an ODE system with exact flow, a solver with its settings and a history of steps; non-trivial: '
             '2+ steps taken',
        need=['rk_45 exact', 'rk_45 order', 'corrected_euler exact', 'corrected_euler order',
              'step rejected by the error control', 'step limited by the caller', 'advance', 'many variables'],
        bins=[dict(name='c16', src='c16.cpp', quick=300000, thorough=3000000)]),
    'C17': dict(
        technique='PBT of the residual of the trapezoidal rule and against exact solutions, over generated systems and step histories',
        rule='cases are an ODE system with exact flow (stiff, stable, nonlinear), with or without its Jacobian, and a '
             'history of steps; non-trivial: 2+ steps or advances',
        need=['step of length zero', 'advance', 'nonlinear', 'with Jacobian', 'stable stiff system, steps far beyond its rates',
              'step shortened until its equations have a solution', 'many variables',
              'step limited by the error of the last one'],
        bins=[dict(name='c17', src='c17.cpp', quick=250000, thorough=2500000,
                   libs=['-lsundials_kinsol', '-lsundials_nvecserial'])]),
    'C18': dict(
        technique='PBT against known crossing times on exact trajectories, with a bound on the evaluations made',
        rule='cases are a trajectory known in closed form, 0-4 (now and then up to 80) event functions with known crossings and a locator, searched '
             'step by step up to the event; non-trivial: an event was found',
        need=['event, bisection_event_locator', 'event, linear_event_locator', 'event, discontinuous_event_locator',
              'event, fast_event_locator', 'event, fast_event_locator, interpolating', 'segment without event',
              'segment cut short of the event', 'several functions at once', 'crossing at the end of the segment',
              'many functions', 'many variables', 'curved trajectory, event'],
        bins=[dict(name='c18', src='c18.cpp', quick=400000, thorough=5000000)]),
    'C19': dict(
        technique='PBT of simulated piecewise linear hybrid systems against their exact solutions, judging every call made to them',
        rule='cases are a hybrid system with known solution, levels, actions and timed events, a solver, a locator and their '
             'settings; non-trivial: 2+ internal events and 1+ step without event',
        need=['rk_45', 'corrected_euler', 'trap', 'bisection_event_locator', 'linear_event_locator',
              'discontinuous_event_locator', 'fast_event_locator', 'fast_event_locator, interpolating', 'null_event_locator',
              'time event', 'state and time event at once', 'several state events at once', 'step without event', 'many functions'],
        bins=[dict(name='c19', src='c19.cpp', quick=400000, thorough=5000000,
                   libs=['-lsundials_kinsol', '-lsundials_nvecserial']),
              dict(name='c19-ldouble', src='c19.cpp', defs=['HT=long double'], quick=50000, thorough=600000, fuzz=0,
                   libs=['-lsundials_kinsol', '-lsundials_nvecserial'])]),
    'C20': dict(
        technique='PBT of hybrid systems under generated inputs (anywhere, at, just before and after events, between a '
                  'crossing and its discovery) against their exact solutions',
        rule='cases are those of C19 with inputs injected; non-trivial: 2+ external or confluent events and 1+ internal or confluent',
        need=['external event', 'confluent event', 'event found while handling input', 'input while the output of an event waits',
              'input at the instant of another event', 'input close to an event', 'input together with a step or event',
              'state and time event at once', 'many functions', 'output computed ahead'],
        bins=[dict(name='c20', src='c19.cpp', defs=['INPUT'], quick=200000, thorough=3000000,
                   libs=['-lsundials_kinsol', '-lsundials_nvecserial']),
              dict(name='c20-ldouble', src='c19.cpp', defs=['INPUT', 'HT=long double'], quick=30000, thorough=400000, fuzz=0,
                   libs=['-lsundials_kinsol', '-lsundials_nvecserial'])]),
    'C21': dict(
        technique='PBT over construction, use and destruction of hybrid models: destructor counts, allocated bytes, and a '
                  'metamorphic relation over the contents of fresh memory, under AddressSanitizer and UBSan',
        rule='cases are a hybrid model of any solver, locator and constructor, its holder, a history and an order of '
             'destruction, run with four fillings of fresh memory; non-trivial: a hybrid model is built',
        need=['rk_45', 'corrected_euler', 'trap', 'bisection_event_locator', 'linear_event_locator',
              'discontinuous_event_locator', 'fast_event_locator', 'fast_event_locator, interpolating', 'null_event_locator',
              'ExplicitHybrid', 'ImplicitHybrid', 'a solver of the user', 'a locator of the user', 'destroyed without an event',
              'destroyed after several events', 'held by a pointer', 'held by a graph', 'held by a coupled model',
              'solver and locator without model'],
        bins=[dict(name='c21', src='c21.cpp', quick=120000, thorough=1500000, fuzz=0,
                   libs=['-lsundials_kinsol', '-lsundials_nvecserial'])]),
    'C22': dict(
        technique='model-based PBT: models with known solutions on the CVODE adapter, driven by generated inputs and by each '
                  'other; a reference judges every call, its time and state',
        rule='cases are 1-2 models (scripted exact integrator, or CVode itself) and a history of inputs; non-trivial: an external or '
             'confluent event and an internal event or step',
        need=['integrated by CVode', 'step without event', 'internal event', 'external event', 'confluent event',
              'event found before an input', 'input at the end of a step', 'models that drive each other',
              'step of length zero', 'step without end'],
        bins=[dict(name='c22', src='c22.cpp', quick=100000, thorough=1500000,
                   libs=['-lsundials_cvode', '-lsundials_nvecserial'])]),
    'C23': dict(
        technique='model-based and differential PBT: the adapter on a scripted FMU that checks the protocol of every call, in '
                  'generated call histories and as a hybrid model beside one of the same equations',
        rule='cases are an FMU script (states, indicators, timed and step events, event iterations, variables) and a history of '
             'calls or of inputs to its hybrid model; non-trivial: an event and an evaluation, 2+ events counted by the FMU, or '
             'a life cycle without use',
        need=['calls', 'Jacobian of several states', 'rk_45', 'corrected_euler', 'trap', 'time event', 'state event',
              'step event', 'event iteration', 'time event cancelled', 'input between events', 'input at an event', 'rejected',
              'released without a step'],
        bins=[dict(name='c23', src='c23.cpp', inc=['fmi'], quick=150000, thorough=2500000,
                   libs=['-lsundials_kinsol', '-lsundials_nvecserial'])]),
    'C24': dict(
        technique='PBT of pin identity over histories of creation and copying, also by concurrent threads (ThreadSanitizer)',
        rule='cases are histories of pin creation, copy, assignment and container use, and long runs of pins that are created and dropped; non-trivial: 3+ pins, and copies or concurrent creation; or 4000+ dropped',
        need=['pins created by concurrent threads', 'copies', 'more than 2^32 pins'],
        bins=[dict(name='c24', src='c24.cpp', quick=20000, thorough=300000, fuzz=0),
              dict(name='c24-tsan', src='c24.cpp', quick=4000, thorough=60000, fuzz=0,
                   flags=['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer']),
              dict(name='c24-many', src='c24many.cpp', quick=16, thorough=48, parts=16, fuzz=0, flags=['-O2'])]),
    'C25': dict(
        technique='stateful PBT: operation sequences on the alternative Schedule against a map from model to time',
        rule='cases are sequences of schedule operations; non-trivial: a removal of one of several models, and an update or pop',
        need=['rejected operation', 'removal of one of several', 'pop', 'update', 'drained',
              'a thousand models or more', 'twenty thousand operations'],
        bins=[dict(name='c25', src='c25.cpp', quick=100000, thorough=1500000)]),
    'C26': dict(
        technique='metamorphic PBT: one network built 2-4 ways (orders, addresses, grouping) and run side by side',
        rule=NETRULE + 'each built as a graph in plain order and 1-3 more times permuted; non-trivial: 3+ transitions and an input',
        need=['graph again, permuted', 'coupled model', 'hierarchy', 'Mealy models', 'hundreds of models'],
        bins=[dict(name='c26', src='c26.cpp', quick=90000, thorough=900000),
              dict(name='c26-sd', src='c26.cpp', defs=['TIME=adevs::sd_time<double>'], quick=30000, thorough=400000,
                   fuzz=0)]),
    'C27': dict(
        technique='PBT against exact cubics and independent evaluation of the interpolation conditions',
        rule='cases are intervals with end values and slopes; non-trivial: an evaluation inside the interval, 2+ variables',
        need=['samples of a cubic', 'used again', 'flat ends', 'many variables'],
        bins=[dict(name='c27', src='c27.cpp', quick=150000, thorough=2000000)]),
    'C28': dict(
        technique='PBT of several simulations at once, interleaved, nested and (ThreadSanitizer) concurrent, each judged by its own reference',
        rule='cases are 2-4 simulations (networks with Mealy models, hybrid models, clocks on the CVODE adapter), and the order in which they '
             'advance; non-trivial: four or more events and three or more changes from one simulation to another, or two threads that simulate',
        need=['a simulation advanced by the models of another', 'three simulations deep', 'a simulation ends before the others',
              'a simulation that lives within a step of another', 'with the same pins', 'networks in threads', 'hybrid models in threads',
              'CVODE models in threads'],
        bins=[dict(name='c28', src='c28.cpp', quick=40000, thorough=600000, libs=SUN),
              dict(name='c28-threads', src='c28.cpp', defs=['THREADS'], quick=10000, thorough=150000, fuzz=0, libs=SUN,
                   flags=['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer'])]),
    'C29': dict(
        technique='stateful PBT: models go through sequences of simulators; each simulation in lock step with a reference that starts from their states',
        rule='cases are 1-6 models (with Mealy models), two places to simulate, and a history of starting, stepping and ending simulations in '
             'several ways (graph, coupled, hierarchy), or one hybrid model simulated with and without interruptions; non-trivial: two or more simulations and five or more '
             'events, or an interruption and two or more events',
        need=['the same graph again', 'the same coupled model again', 'other models with some that were simulated before',
              'ended between output and state', 'ended with input that was not applied', 'ended with an exception of a model',
              'ended with a negative time advance', 'model simulated before is added to a running simulation',
              'made before the earlier simulator is gone', 'construction failed first', 'hybrid model again', 'hundreds of models', 'hierarchy', 'coupled model in another one than before'],
        bins=[dict(name='c29', src='c29.cpp', quick=60000, thorough=900000, libs=SUN),
              dict(name='c29-sd', src='c29.cpp', defs=['TIME=adevs::sd_time<double>'], quick=20000, thorough=300000, fuzz=0, libs=SUN)]),
}
