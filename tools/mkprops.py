import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
SIM='include/adevs/simulator.h';GR='include/adevs/graph.h';MO='include/adevs/models.h';SC='include/adevs/sched.h';TI='include/adevs/time.h'
HY='include/adevs/solvers/hybrid.h';EL='include/adevs/solvers/event_locators.h'
p('C01','A simulation executes exactly the DEVS events of its model, at the right times',
 "For every network of atomic models, each simulation cycle happens at the smallest (time of last event + time advance) over all models, and in that cycle exactly the models that are due or receive input change state, each exactly once: internal if due without input, confluent if due with input, external otherwise with the true elapsed time since its last event. Models returning infinity never act spontaneously, a model's output is computed only when it is due and before its state changes, and the reported clock and next event time agree with this and never decrease. Simultaneous events, zero time advances and networks of hundreds of models are included.",
 ['inputs','programs','histories'],'every network of up to hundreds of atomic models with arbitrary state machines, couplings, simultaneous and zero-delay events, and every number of cycles',
 'The tests run a few fixed models (gpt, gcd, token ring) and compare printed traces; they cover a handful of interleavings of due times and inputs.',
 [SIM,SC,MO],[('computeNextOutput / computeNextState choose imminent models and transition kind',SIM+': Simulator::computeNextOutput, computeNextState'),('schedule sets last/next event times',SIM+': Simulator::schedule'),('imminent set',SC+': Schedule::visitImminent')],
 [('tL,tN','times of last and next event of a model',MO+': class Atomic')],['delta_int/delta_ext/delta_conf/output_func callbacks of user models','Simulator::nextEventTime, execNextEvent return value'])
p('C02','Every event reaches exactly the receivers its couplings define, once per path',
 "An event placed on a pin by a model or injected from outside is delivered in the same cycle to a model once for every path of couplings from that pin to the model, carrying the unchanged value and identified by the last pin of the path, and to no other model. All values sent to a model in a cycle arrive together in one bag with nothing lost, duplicated or invented, including fan-in, fan-out, diamonds, long pin chains and models that receive their own output.",
 ['inputs','programs'],'every acyclic pin-to-pin structure with arbitrary pin-to-model edges (repeated edges included), every set of simultaneous senders and injected events',
 'graph_test.cpp routes on seven hand-made graphs; no test combines routing with many simultaneous senders.',
 [GR,SIM],[('route walks the pin graph',GR+': Graph::route'),('inputs gathered per receiver',SIM+': Simulator::computeNextOutput')],None,['input bags seen by delta_ext/delta_conf','Graph::route'])
p('C03','Mealy models see their complete input and publish one final consistent output',
 "In every cycle of a network whose Mealy models form no loop, each Mealy model changes state with, and has its final published output computed from, the complete bag of inputs it receives in that cycle (injected, from ordinary models and from final outputs of other Mealy models), using its internal, external or confluent output function as appropriate with the true elapsed time. Outputs computed from incomplete input leave no trace: no model receives, changes state or is reported because of a withdrawn output, and a Mealy model with neither input nor an event due does nothing.",
 ['inputs','programs','schedules'],'every loop-free network of Mealy and ordinary models (chains, diamonds, fan-in at different depths), every order in which the simulator may visit simultaneous models, every history of injected and internal events',
 'test_mealy.cpp and test_mealy_ca.cpp use a few fixed topologies whose outputs never change between tentative and final evaluation.',
 [SIM,MO],[('tentative output evaluation and withdrawal',SIM+': calculate_mealy_output, retract_mealy_output'),('final gather',SIM+': computeNextOutput')],[('revisable_inputs, receivers','tentative inputs and who holds them',MO+': Atomic, MealyAtomic')],['MealyAtomic output functions and transitions','EventListener::outputEvent'])
p('C04','Loops of Mealy models are rejected with an exception, loop-free ones never are',
 "If in some cycle the outputs of Mealy models feed each other in a loop, including a model feeding itself, the simulator throws its exception naming a model on such a loop instead of hanging, overflowing or delivering inconsistent input. A network in which every loop contains an ordinary (non-Mealy) model never triggers this exception, however the Mealy models are reached or revisited.",
 ['inputs','programs'],'every network of Mealy and ordinary models with and without loops, every set of models activated in a cycle',
 'test_mealy.cpp has a single two-model loop; convergent paths, loops reached late and self loops are not tried.',
 [SIM],[('path set used for loop detection',SIM+': calculate_mealy_output')],None,['exception thrown by computeNextOutput/execNextEvent'])
p('C05','A simulator can be embedded: injected input, early steps, look-ahead output',
 "Injected events take effect at the next output computation and only then, unless cleared first; moving the next event time earlier makes that cycle happen at the requested time, with only injected input active when it precedes every scheduled event, after which the original schedule continues unaffected. Computing output any number of times changes no state and no time, and recomputing it (at the same or an earlier time, with or without injected events) discards the earlier computation completely, so the following state computation reflects only the last one.",
 ['histories','inputs'],'every sequence of inject, clear, set-next-time, compute-output, compute-state and execute calls that keeps the requested time between the current time and the next scheduled event',
 'Only a couple of tests inject input, always right before a single execNextEvent; retracted look-ahead output, as in the documented federation procedure, is never exercised.',
 [SIM],[('external input list, active set reset',SIM+': injectInput, clearInjectedInput, setNextTime, computeNextOutput, computeNextState')],[('external_input, active, tNext','pending input, look-ahead result, next event time',SIM+': class Simulator')],['model callbacks','EventListener','nextEventTime'])
p('C06','Listeners are told of every output, input and state change exactly once',
 "Every registered listener is notified, for each cycle: once for each value in each model's final output (also values that are routed nowhere), during the output computation; once for each value delivered to a model, before that model changes state; and once for each model that changed state, after the change; always with the right model, pin, value and event time, and with no other notification. All listeners registered with a simulator see the same notifications.",
 ['inputs','programs','histories'],'every network of ordinary and Mealy models, every history of cycles and injected events, any number of listeners',
 'listener tests check two small fixed models; Mealy outputs, multiple listeners and unrouted outputs are not covered.',
 [SIM],[('notification loops',SIM+': computeNextOutput, computeNextState')],None,['EventListener::outputEvent, inputEvent, stateChange'])
p('C07','Structure changes made during a cycle take effect together at its end',
 "Models, couplings and pins added or removed while a simulation is running (from any model, in any number, through the graph or a coupled model) never affect the cycle in which they are requested and are all applied, in request order, before the next one. A model added that was not yet present starts at the end of that cycle with its time advance counted from then; a removed model never acts or receives input again unless re-added; models that are only shared or otherwise untouched keep their schedule and elapsed time.",
 ['histories','programs'],'every sequence of structure changes issued by any models in any cycles, including several in one cycle, remove-then-add of the same model and models present several times',
 'dyn_devs tests perform one kind of change each in a tiny fixed scenario.',
 [SIM,GR,MO],[('queueing while provisional',GR+': Graph queue_* functions'),('applying pending operations',SIM+': computeNextState')],[('pending','queued changes',GR+': Graph::pending')],['model callbacks and deliveries in later cycles','Graph::get_atomics, Graph::route'])
p('C08','A graph behaves as a multigraph whose edges and members carry instance counts',
 "For every sequence of adding and removing models, connecting and disconnecting pins and models, and removing pins, the graph contains exactly the models and edges whose additions outnumber their removals, where removing the last instance of a model also drops every edge to it and removing a pin removes one instance of every edge that starts or ends at it. Routing and the member set always reflect exactly that content; removing an edge or pin that is not there changes nothing; in provisional mode operations change nothing and are queued in order.",
 ['histories','inputs'],'every finite sequence of graph operations over any number of pins and models',
 'graph_test.cpp checks seven short sequences.',
 [GR],[('instance counting',GR+': add_atomic, remove_atomic, connect, disconnect, remove_pin')],[('pin_to_pin, pin_to_atomic, atomic_instance_count','the multigraph',GR+': class Graph')],['Graph::route','Graph::get_atomics','Graph::get_pending'])
p('C09','Coupled models equal their flattened parts, and removing one undoes adding it',
 "Simulating a hierarchy of coupled models, including models and coupled models shared between parents, is equivalent to simulating the flat network made of all its atomic models and couplings. Changing a coupled model that is part of a simulation changes the flat network accordingly: removing a coupled model withdraws exactly the components and couplings its hierarchy contributed, and removing an atomic model from a coupled model also withdraws that coupled model's couplings to it, while contributions of other coupled models to shared parts remain.",
 ['programs','histories'],'every acyclic hierarchy with sharing, every sequence of additions and removals of components and couplings before and during simulation',
 'One test (dyn_devs_coupled) adds and removes one coupled model; pin-to-pin couplings and sharing are not covered.',
 [MO,GR,SIM],[('flattening and its inverse',MO+': Coupled::assign_to_graph, remove_from_graph'),('incremental changes',MO+': Coupled add/remove functions')],None,['deliveries and transitions during simulation'])
p('C10','The event schedule is always a correct priority queue',
 "After any sequence of scheduling, rescheduling earlier or later, removing (scheduling at infinity) and popping models, the schedule reports the exact minimum time, a model holding it, exactly the set of models sharing that minimum time, the exact size and emptiness. This holds for any initial capacity of at least two and any growth, with ties, for every supported time type.",
 ['histories','inputs'],'every operation sequence over any number of models and any times, with heavy ties and re-insertions, for double, float, long double, int, long, super-dense and tolerance-compared time',
 'sched_test.cpp runs a few scripted sequences with double time only.',
 [SC],[('binary heap',SC+': Schedule::schedule, removeMinimum, percolate_up, percolate_down, enlarge, visitImminent')],[('heap, q_index','heap array and back index stored in the model',SC+' / '+MO)],['Schedule::minPriority, getMinimum, visitImminent, getSize, empty'])
p('C11','Super-dense time obeys its order and arithmetic laws',
 "Super-dense times are totally ordered lexicographically with all six comparisons consistent; advancing by an interval that changes the real part replaces the integer part and otherwise adds integer parts, and never goes back; the interval between two ordered times advances the earlier one exactly to the later one when the real arithmetic is exact; zero, epsilon, infinity and sentinel are the identity, the least positive interval, and upper and lower bounds; printing and reading a time round-trips. Compound and plain operators agree for every real type offered.",
 ['inputs'],'all pairs and triples of super-dense times over double, int and long real parts, including equal real parts, negative integer parts in intervals and extreme values that do not overflow',
 'sd_time_test.cpp checks a few constants.',
 [TI],[('operators',TI+': class sd_time')],None,['sd_time operators and streams'])
p('C12','Tolerance-compared time is consistent with its tolerance rule',
 "Comparing two tolerance-based times gives exactly one of less, equal, greater, decided by whether their difference exceeds the tolerance scaled by the power of two above the larger magnitude; the relation is reflexive and antisymmetric, all comparison operators (including not-equal, and comparison with plain numbers) agree with it, zero tolerance is exact comparison, and arithmetic is ordinary arithmetic on the values.",
 ['inputs'],'all pairs of finite doubles (any magnitude, sign, zero, denormal, adjacent) and tolerances from 0 to below 1',
 'double_fcmp_test.cpp runs one simulation with one tolerance.',
 [TI,'src/adevs.cpp'],[('fcmp','src/adevs.cpp: double_fcmp::fcmp'),('operators',TI+': class double_fcmp')],None,['double_fcmp operators and fcmp'])
p('C13','The same model behaves the same under every supported time type',
 "A model whose times are exactly representable produces the same sequence of events, elapsed times and values with double, float, long double, int, long and tolerance-compared time. With super-dense time each cycle happens at the due time of its models, state changes take hold one integer tick later, elapsed times and next event times follow super-dense arithmetic exactly, and models with a zero time advance act again at the same real time in the next tick.",
 ['inputs','programs','configurations'],'every network and history of injected events with exactly representable times, for each time type',
 'alt_time, sd_time and double_fcmp tests run one small model each and never compare time types with each other.',
 [SIM,TI,SC],[('time type constants',TI+': adevs_inf, adevs_zero, adevs_epsilon, adevs_sentinel'),('state time is output time plus epsilon',SIM+': computeNextState')],None,['model callbacks, nextEventTime, execNextEvent'])
p('C14','A negative time advance is always reported, naming the offending model',
 "Whenever a model reports a negative time advance - initially, after any kind of state change, or when added to a running simulation - the simulator throws its exception identifying that model in that very call. Zero, positive and infinite time advances never cause such an exception.",
 ['inputs','histories'],'every network, every history, every model and moment at which the time advance becomes negative, for each time type',
 'No test makes a time advance negative in the middle of a run or in a dynamically added model.',
 [SIM],[('check on scheduling',SIM+': Simulator::schedule')],None,['exception from constructor, execNextEvent, computeNextState'])
p('C15','Models live exactly as long as needed, with no memory errors or leaks',
 "For every history of building, running, changing and tearing down simulations, the library never accesses a destroyed model or invalid memory, keeps a model alive while it is part of the simulated network or has pending work, drops its references to a model once the removal has taken effect, and releases everything it allocated when simulator and graph are destroyed in any order. Simulating does not grow memory with the number of cycles when the model does not.",
 ['histories','programs'],'every history of construction, cycles, look-ahead, structure changes and destruction in any order',
 'Tests run without sanitizers and exit without checking what is still alive.',
 [SIM,GR,MO,SC],[('shared ownership of models',GR+': Graph::models, edges, pending'),('raw pointers in schedule and active set',SIM+', '+SC)],None,['model destructors, allocation counts, sanitizer reports'])
p('C16','Explicit integrators advance correctly and respect step and error limits',
 "Both explicit integrators advance the state by the step they report, which never exceeds the requested limit or the configured maximum, is positive, and makes progress; asking to advance by an exact amount ends at exactly that time within rounding. Each accepted step matches the method's documented order (exact for polynomial problems of that degree, and error shrinking at the documented rate), and accumulated error stays commensurate with the per-step tolerance for smooth systems.",
 ['inputs','programs','histories'],'every smooth system from a family with known solutions (linear, polynomial, oscillator, time-dependent via an auxiliary clock), tolerances, step limits and sequences of integrate and advance calls',
 'The ode tests compare a few fixed systems within loose tolerances.',
 ['include/adevs/solvers/rk_45.h','include/adevs/solvers/corrected_euler.h'],[('step control','integrate in rk_45.h and corrected_euler.h'),('stages','trial_step in rk_45.h and corrected_euler.h')],[('h_cur','remembered step size','rk_45.h, corrected_euler.h')],['ode_solver::integrate, ode_solver::advance'])
p('C17','The implicit integrator solves the trapezoidal rule, stiff systems included',
 "Each step of the implicit integrator satisfies the trapezoidal rule between its start and end states to within its nonlinear solver's accuracy, with or without a user-supplied Jacobian, for stiff, coupled and mildly nonlinear systems; the reported step is positive and never exceeds the requested limit or configured maximum, and the truncation error seen in a step (the difference between Euler's step and that of the trapezoidal rule, which grows with the square of the step) limits the next one such that it would stay within the tolerance. Advancing by an exact amount ends at exactly that time, a zero-length step changes nothing, and stable linear systems never blow up at any step size.",
 ['inputs','programs'],'every stable linear system and mildly nonlinear system with known Jacobian, step limit, tolerance and call sequence',
 'One ode test integrates one system and compares it loosely.',
 ['include/adevs/solvers/trap.h'],[('trapezoidal residual and Jacobian','trap.h: func, jac'),('step control','trap.h: integrate, step')],None,['ode_solver::integrate, ode_solver::advance'])
p('C18','Event locators find the first crossing, to tolerance, and nothing else',
 "Given a solution segment on which each state event function changes sign at most once, every event locator terminates and either reports an event at a time inside the segment that is within its tolerance of the earliest sign change (in the sense it documents), with the state at that time and flags for exactly the functions whose sign has changed there, or reports none. When it reports none, the segment and state it leaves end before every sign change: the fast and null locators leave them untouched if there is no sign change, while the others may shorten them to a consistent earlier point. A segment without sign change never yields an event, and one with a sign change is never passed over as event-free up to its original end.",
 ['inputs','programs'],'every trajectory with known crossing times (single and several event functions, near-simultaneous crossings, crossings at the segment ends, continuous and discontinuous functions), tolerance and segment length, for the bisection, linear, discontinuous and fast (with and without interpolation) locators',
 'The ode tests use two or three locators on bouncing-ball style systems only.',
 [EL,'include/adevs/solvers/spline.h'],[('bisection/interpolation search',EL+': event_locator_impl::find_events'),('bracketing search',EL+': fast_event_locator::find_events')],None,['event_locator::find_events'])
p('C19','A hybrid model follows its equations and meets events at the right time, state',
 "A hybrid model simulated with any provided integrator and event locator follows the true solution of its piecewise continuous system within tolerance: each state event is processed at its crossing time and each time event at its scheduled time, with the state there, with flags telling exactly what caused it, in the right order, each exactly once. Between events the model produces no output and reports that no discrete event happened, and its published state after each internal step is the solution at that step's time.",
 ['inputs','programs','configurations'],'every piecewise linear system with known solution, set of thresholds, resets and timed events, for each integrator/locator combination, tolerance and step limit',
 'The ode tests cover five or six fixed systems, mostly checking that a bouncing ball bounces.',
 [HY],[('tentative step',HY+': Hybrid::tentative_step'),('event dispatch',HY+': delta_int, delta_conf, output_func')],None,['ode_system callbacks','Hybrid::getState, eventHappened'])
p('C20','Input to a hybrid model at any time neither loses, repeats nor misplaces events',
 "An input delivered to a hybrid model at any moment is handled exactly once, with the continuous state at that moment and the time elapsed since the previous discrete event, as an external event if nothing else is due and as a confluent event if an internal event is due or is discovered on the way. Inputs that do not alter the state leave the remaining solution and events unchanged within tolerance; every internal event, including one found while handling an input, has its output published exactly once.",
 ['inputs','histories','schedules'],'every piecewise linear system with known solution and every sequence of input times, including inputs at the same instant as, just before and just after state and time events, and several inputs at one instant',
 'Existing ode tests deliver inputs at one or two fixed times, never close to an event.',
 [HY],[('external and confluent handling, missed output',HY+': delta_ext, delta_conf, output_func, ta')],[('missedOutput, e_accum, event_exists','pending output, elapsed time, tentative event',HY+': class Hybrid')],['ode_system callbacks, values output by the model'])
p('C21','A hybrid model owns the system, solver and locator it is given',
 "Destroying a hybrid model, however it was constructed and whatever it has done, destroys the system, integrator and event locator it adopted exactly once each and releases all memory they and it used; solvers and locators never destroy the system themselves. Nothing the hybrid model does depends on uninitialised memory, including queries made before the first event.",
 ['histories','configurations'],'every combination of integrator and locator, constructor, history before destruction and order of destruction relative to the simulator',
 'No test deletes a hybrid model or checks what is destroyed.',
 [HY,'include/adevs/solvers/rk_45.h','include/adevs/solvers/corrected_euler.h','include/adevs/solvers/trap.h',EL],[('adoption documented on the constructor',HY+': class Hybrid'),('destructors','solver and locator destructors')],None,['destructors of user objects, allocation counts'])
p('C22','A CVODE-based model keeps clock, state and events in step with the simulator',
 "For a model built on the CVODE adapter, internal, external and confluent handlers are each called exactly when due with the right time: an internal event only where the integrator reported one, an external input at its true time with the state at that time, and a confluent one when both coincide or an event is discovered while integrating up to the input. After every transition the solution continues from the state left by the handler (or from the checkpoint when an input interrupts a projected step), so time never drifts and interrupting inputs that change nothing leave the trajectory unchanged.",
 ['inputs','histories','schedules'],'every analytic system behind the adapter, step pattern of the integrator, event pattern and input sequence',
 'The cvode test runs one bouncing ball without any input.',
 ['include/adevs/solvers/cvode.h'],[('checkpoint and projection','cvode.h: ta, delta_int, delta_ext, delta_conf, output_func')],[('y_checkpoint, t, t_projected, has_event','committed state and projected event','cvode.h: class CVODE')],['cvode_* callbacks, values output'])
p('C23','An imported FMU is driven by the model-exchange protocol, faithfully',
 "The FMU adapter drives any FMU only through legal model-exchange call sequences (initialisation before use, mode switches matched with the calls made in each mode, event iteration until stable, termination and release once), always evaluates derivatives and event indicators at the state and time it is asked about, and extends the state with a time variable of unit derivative. Time events, step events and state events of the FMU are honoured when it is simulated as a hybrid model, variables of each type are read and written by name, and the Jacobian has the FMU's directional derivatives in the right places.",
 ['programs','histories','inputs'],'every FMU (simulated by a scripted stand-in that checks the protocol) with any number of states, event indicators and variables, and every history of evaluation, event and input calls a hybrid simulation makes',
 'The FMI tests are not built: they need the FMI library and FMUs produced by OpenModelica.',
 ['include/adevs/solvers/fmi.h'],[('protocol calls','fmi.h: init, der_func, state_event_func, postStep, postTrialStep, internal_event, external_event, confluent_event'),('Jacobian assembly','fmi.h: get_jacobian')],[('cont_time_mode, t_now, next_time_event','mode and time tracking','fmi.h: class ModelExchange')],['calls received by the FMI library stand-in','ode_system interface'])
p('C24','Pins have unique identities that survive copying, even across threads',
 "Every newly created pin differs from every other pin ever created in the process, including pins created concurrently by several threads; copies and assignments of a pin, and of values carrying it, are equal to the original and to nothing else. The six comparisons on pins are mutually consistent and form a strict total order usable as a key.",
 ['inputs','schedules'],'every sequence of creation, copying and assignment, in any number of threads',
 'Tests create a few pins in one thread.',
 [MO,'src/adevs.cpp'],[('atomic counter',MO+': pin_t; src/adevs.cpp: pin_t::atom')],None,['pin_t comparisons'])
p('C25','The alternative schedule keeps every model indexed and the earliest one in front',
 "After any sequence of adding, removing, updating and popping models, the alternative schedule holds exactly the added and not removed models, reports the true minimum time advance and a model having it, and updating or removing any member afterwards still affects that member. Adding a member twice, or removing or updating a non-member, is rejected with an exception and changes nothing.",
 ['histories','inputs'],'every operation sequence over any number of models and any times, with ties and changed priorities, including a full rebuild after many priorities changed',
 'sched_benchmark2 only measures speed; sched_test2 is not built.',
 ['include/adevs/schedule2.h'],[('heap with index map','schedule2.h: add, remove, update, remove_next, update_all, percolate_up, percolate_down')],[('model_heap, model_index','heap and positions','schedule2.h')],['get_next, get_minimum, size, empty'])
p('C26','Results do not depend on construction order or memory layout',
 "Running the same network with its models, pins and couplings created and added in a different order, with models placed at different addresses, or built through a graph, a coupled model or a hierarchy of coupled models gives every model the same sequence of state changes at the same times with the same bags of inputs, and listeners the same notifications up to the order within one cycle.",
 ['inputs','schedules','configurations'],'every network of ordinary and loop-free Mealy models, every permutation of creation order, address order and insertion order, and every way of grouping into coupled models',
 'Each test builds its model once in one order; containers ordered by address make the visiting order an accident of allocation.',
 [SIM,GR,MO],[('sets keyed by address',SIM+': active, orphaned; '+GR+': models; '+MO+': Coupled sets')],None,['model callbacks, EventListener'])
p('C27','The trajectory interpolant reproduces end states, end slopes and all cubics',
 "The interpolant used to locate events between two solution points passes through both end states with both end derivatives, reproduces every cubic polynomial exactly up to rounding, and treats each state variable independently, for any positive interval length. It can be re-initialised and evaluated any number of times in any order.",
 ['inputs','histories'],'every pair of end states and derivatives, interval length and evaluation point, for any number of variables and re-initialisations',
 'No test touches the interpolant directly; only one ode test uses the interpolating locator.',
 ['include/adevs/solvers/spline.h'],[('cubic Hermite coefficients','spline.h: init, interpolate')],None,['spline::interpolate'])
p('C28','Simulations do not affect one another',
 "Any number of simulators can exist in a program, each with its own models: whichever way their steps are interleaved, whether one is created, advanced or destroyed from within the functions of another's models, and whether they run at the same time in different threads without synchronization, each of them (its models, Mealy models, listeners, hybrid models with any solver and locator, and CVODE models included) behaves exactly as it would alone. They may use the same pins.",
 ['schedules','histories','programs'],'every number of simulations, every interleaving and nesting of their steps, and every schedule of the threads that run them',
 'Every test runs one simulator in one thread.',
 [SIM,GR,'include/adevs/solvers/'],[('state of a simulation kept in its own objects',SIM+': computeNextOutput, computeNextState; '+GR+': route; the members of the solvers and locators')],None,['model callbacks','EventListener','ode_system interface'])
p('C29','What was simulated can be simulated again',
 "Models, and the graph or coupled model they are in, can be given to a new simulator once their earlier one is no longer used, or added to the running simulation of another. The new simulation starts at time zero from the states its models are in, and is the one that models created in these states would have: no schedule, input, or output is left from the earlier one, whether it ended between cycles, between output and state, or with an exception of a model or of the simulator, and whether it is destroyed before or after the new one is made. A hybrid model goes on from its last event.",
 ['histories','programs'],'every way to end a simulation, every selection of its models, and every simulation that follows',
 'No test gives a model to a second simulator.',
 [SIM,'include/adevs/sched.h','include/adevs/models.h'],[('what a simulation leaves in a model: q_index, tL, tN, inputs, outputs, revisable_inputs, receivers','models.h: Atomic, MealyAtomic; '+SIM+': constructors, computeNextState (ADD_ATOMIC); sched.h: schedule')],None,['Simulator constructors','Graph::add_atomic'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import re
for d in P:
    n=len(re.findall(r'[.](?:\s|$)',d['statement']))
    if n>3: print(d['id'],n)
json.dump([d['id'] for d in P],open('/tmp/ids.json','w'))
