import json, os
P=[]
def add(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
OPT='oranssi/optimizers.py';OT='oranssi/opt_tools.py';CT='oranssi/circuit_tools.py';EC='oranssi/edge_coloring.py';PA='oranssi/pauli.py';UT='oranssi/utils.py'
add('C01','The circuit never leaves the unitary manifold',
 'Whatever mixture of layers an optimisation applies, and whatever random kicks, shot noise, device failures and restarts with the same layer objects occur on the way, every circuit matrix that is executed, handed to or returned by a layer, or returned to the caller is unitary to numerical precision. Every returned state has norm one, and every returned cost of Pauli observables lies within plus or minus the number of observables.',
 ['histories','inputs','configurations','fault_sequences'],'all problems (1-3 qubits sampled), layer mixtures, step sizes, tolerances, kick draws, shot-noise draws and fault points',
 'The tests run a dozen fixed problems to convergence without kicks, noise or faults and only compare final costs.',
 [OPT,OT],[('exponentials of anti-Hermitian generators only',OT),('antisymmetrised random kick, eigen-decomposition based exponential',OPT)],
 [('circuit_unitary','the circuit as one matrix','optimizers.py main loops')],['QubitDevice.execute','layer call boundary','returned unitaries, states and costs'])
add('C02','The unitary error check repairs numerical drift',
 'With the unitary error check switched on, a gradient-step layer (local, custom or randomly drawn directions, trotterised or not) returns a unitary matrix even when the matrix exponentials it computes come back off the unitary group by any small amount, at any exponential of any step. The repaired step stays within an error of the size of the drift of the prescribed step, and with no drift the check changes nothing.',
 ['fault_sequences','inputs','histories'],'all drift sizes from 1e-7 to a few per cent, drift shapes, subsets of drifted exponentials, and step histories',
 'scipy\'s exponential does not drift on the tests\' inputs, so the repair branch is never reached by any test.',
 [OT],[('SVD projection when the deviation exceeds 1e-8',OT+': _is_unitary/_project_onto_unitary and the call sites')],
 [],['layer return value'])
add('C03','The returned record tells the truth about the run',
 'Every cost, state, unitary, parameter vector, gradient, perturbation step and phase that an optimiser returns has one entry per step (plus the start, for costs, states, unitaries and parameters) and equals what the circuit really was at that moment; kicks are applied after the step is recorded. The parts requested by the return flags come back in documented order for every combination of flags, and where only a final unitary is returned it is the circuit of the last recorded cost and state. This holds for any layers, any kicks, and when several optimisations run interleaved in one process.',
 ['histories','schedules','configurations','inputs'],'all flag combinations, layer mixtures, early stops, kick histories and interleavings of two optimisations',
 'Tests look at the final cost (and one state list); no test requests gradients, unitaries or perturbations, kicks, or interleaves runs.',
 [OPT,OT,CT],[('recording after each step, before a kick',OPT),('ordered returnables filtered by flags',OPT),('gradient over all Pauli words',CT+': get_all_su_n_directions')],
 [('cost/state/unitary/params lists','the record','optimizers.py')],['return values','layer call boundary'])
add('C04','Stopping and kicking follow exactly from the cost record',
 'A run ends before its step limit if and only if kicks are off and, after the warm-up (from the 5th step of the exact optimiser, the 4th of the parameter-shift optimiser, the 10th of the layered optimiser), the latest cost agrees within the tolerance (absolute tolerance as given plus relative 1e-5) with the previous one (the one five steps earlier for the layered optimiser); with no tolerance it never stops. With kicks on the run uses all its steps and instead, at exactly those steps (except after the final step), one freshly drawn, non-trivial real rotation, small compared with the step size, is applied to the circuit and the step is listed. Nothing else changes the circuit between two steps.',
 ['histories','inputs','configurations'],'all cost histories (scripted plateaus, oscillations and drops as well as real optimisations), tolerances, step limits and kick draws',
 'Tests use one tolerance and check convergence only; which of the possible cost histories triggers stopping or a kick is never examined, kicks are never switched on.',
 [OPT],[('np.isclose on cost entries with warm-up and lag',OPT)],[('perturbations','steps at which a kick happened','optimizers.py')],['returned record','layer call boundary'])
add('C05','Every step is exactly one prescribed gradient step',
 'Each step of the exact optimiser applies, observable by observable, the exponential of the step size times half the commutator of the current state and the observable; each gradient-layer step applies the exponential(s) of -eta/2^n times the gradient coefficients along its directions, all evaluated at the state on entry; each parameter-shift step is one plain gradient-descent step. Layers are used round-robin, one per step, each starting from the circuit the previous one left. The result depends only on the current circuit and the layer\'s own settings (including a step size changed between steps, as it was when it was set), never on earlier steps, other layers, earlier failures or other uses of the same layer object.',
 ['histories','inputs','configurations','fault_sequences'],'all problems, direction subsets, trotterisation choices, step sizes, histories of previous (also failed) uses, and layer cycles',
 'Tests compare converged energies for a few fixed circuits; a wrong step that still descends, or a step polluted by earlier history, passes them.',
 [OPT,OT,CT],[('stateless step from state on entry',OT+': Local/Custom layers __call__'),('it.cycle over layers',OPT),('param_shift_comm + eigh',OPT)],
 [('layer buffers','scratch matrices reused between calls',OT)],['layer call boundary','returned states / parameters'])
add('C06','Greedy layers take the steepest allowed direction and keep their memory',
 'A greedy layer step rotates about exactly one Pauli direction (or, for the adaptive layer, appends exactly one layer pattern) with the largest gradient magnitude, up to ties, among those it is allowed: the SU(8) layer all its directions; the squared layer all one- and two-qubit directions except the one it used last; the adaptive layer every pattern whose direction differs from its last one; the Zassenhaus layer the two-qubit directions in its first phase and, in its second, a two-qubit direction sharing exactly one qubit with the last (or no move at all), alternating phases in the configured ratio. A step that fails part-way leaves that memory as it was, so that the retry chooses as if the failed attempt had never happened.',
 ['histories','fault_sequences','inputs'],'all step histories, jumps of the circuit between steps, and device or linear-algebra failures at any point inside a step',
 'Tests run each greedy layer once to convergence and never look at which direction was taken, nor fail a step.',
 [OT],[('argmax over gradient dictionary with exclusion of the previous key',OT),('phase counter of the Zassenhaus layer',OT)],
 [('previous direction / layer list / phase counter','memory across steps',OT)],['layer call boundary'])
add('C07','Failures surface, corrupt nothing, and a retry is as good as new',
 'If the device, a linear-algebra routine or the output stream fails, or the user interrupts, at any point inside an optimisation or a layer step, that failure reaches the caller (it is not swallowed and no result is returned). The caller\'s parameters, observables, input matrix and options are left as they were. Repeating an optimisation with memoryless layers, or the failed step of a gradient or greedy layer, with the same objects after failures at any of those points gives exactly the result without a failure (asynchronous interrupts: for the optimisers and for layers without memory).',
 ['fault_sequences','crash_points','histories'],'every device execution, linear-algebra call, output write and (for memoryless layers) source line as the failure point; several failures in a row',
 'No test injects a failure.',
 [OPT,OT],[('memory committed only after the device work of a step',OT),('inputs not mutated',OPT+', '+OT)],
 [('greedy-layer memory, caller params list','must not change on failure',OT)],['exception propagation','inputs','retry result'])
add('C08','Optimisations running side by side do not influence each other',
 'Several optimisations that use their own layer objects, in one process and interleaved at arbitrary points, possibly sharing device, circuit, observables and parameter list and differing in size, each return exactly what they return when run alone. The same holds when one of them is killed part-way.',
 ['schedules','crash_points','configurations'],'all interleavings at device executions, linear-algebra calls and source lines of two or three optimisations, with kills',
 'Tests run one optimisation at a time.',
 [OPT,OT,CT],[('no module- or class-level mutable state',OT+', '+CT+', '+UT)],[],['returned records, interleaved vs alone'])
add('C09','Results are reproducible from the caller\'s seeds alone',
 'After the caller seeds Python\'s and numpy\'s global generators, the result of any optimisation (with kicks, stochastic layers or shot noise) or commuting-set search is a function of the arguments and these seeds only, whatever was run, failed or drawn in the process before. The library never reseeds the generators behind the caller\'s back: different seeds give different kicks, and runs that need no randomness leave the generators untouched.',
 ['histories','inputs','configurations'],'all seeds and all previous process histories (other optimisations, failed runs, draws)',
 'Tests never compare two executions, and never seed or inspect the generators.',
 [OPT,OT,EC],[('module-level generators drawn from only where needed',OPT+', '+OT+', '+EC)],[('global RNG states','','numpy.random, random')],['returned records','generator states'])
add('C10','The commuting set is a valid matching for every random draw',
 'For any list of distinct edges and any outcome of the random draws of the colouring heuristic, the commuting-set search returns a non-empty list of the given edges, each in the orientation and form it was given and at most once, no two sharing a vertex; a list that already has no overlap is returned unchanged. The commuting mode of the squared layer then rotates about the listed directions only, all of one Pauli word whose gradient is maximal, and reports exactly the angles it applied.',
 ['inputs','histories'],'all edge lists (up to 9 vertices sampled, including single-vertex edges) and all draw sequences',
 'No test calls the function; the outcome depends on the draws of a random heuristic that may fail.',
 [CT,EC,OT],[('edge colouring, one colour class',CT+': get_commuting_set'),('commuting mode',OT+': SquaredLieAlgebraLayer')],[],['return value','layer return value'])
add('C11','The edge-colouring heuristic is honest and terminates',
 'For every graph whose maximum degree does not exceed the number of colours and for every outcome of its random draws, the heuristic stops within its limits without error, gives every edge a colour, leaves the graph\'s nodes and edges alone, and returns True exactly when no two edges at a vertex share a colour and all colours are in range. While it runs, its internal conflict bookkeeping never sends it into an error or an endless loop, even when every draw is adversarial.',
 ['inputs','histories'],'all graphs up to 8 nodes (sampled), colour numbers, limits and draw sequences (including adversarial repetition of the same draw)',
 'No test calls it; only particular draw sequences reach the chain-swapping and restart branches.',
 [EC],[('conflict dictionary + Kempe chains with repetition and iteration limits',EC)],[('conflict dictionary','nodes by conflict level',EC)],['return value','edge attribute color'])
add('C12','Result directories are created safely',
 'Creating the result directory for an experiment returns the joined path and leaves a directory there, for any number of concurrent processes creating the same or nested paths in any interleaving, and after a crash of an earlier attempt at any point. Existing content is never touched. When there is no directory in the end, because of a file-system error or because something else is in the way, an OS error is raised and never success reported; once the cause is gone a retry succeeds.',
 ['schedules','crash_points','fault_sequences'],'all interleavings of up to four creators (and a concurrent foreign creator) at file-system-call granularity, crashes and errno faults at any call',
 'No test creates directories at all, let alone concurrently or with faults.',
 [UT],[('makedirs',UT+': save_path_creator')],[('directory tree','','file system')],['file-system state','return value / exception'])
add('C13','Pauli expressions behave as values',
 'Products, sums, differences, scalar multiples, (Hermitian) conjugates and commutators of Pauli words, monomials and sums agree with the corresponding matrices, including all coefficients carried by intermediate results. No operation changes an operand it is not documented to change (only scalar multiplication and conjugation act in place, and only on their own object), no matter how operands share sub-expressions, in which order sets are iterated, how operations of several tasks interleave or where one is interrupted.',
 ['histories','schedules','inputs','crash_points'],'all sequences of operations over a shared pool of expressions, interleavings of two tasks, interrupts at any line, and set iteration orders',
 'No test touches this module.',
 [PA],[('copying of operands, coefficient bookkeeping',PA)],[('coeff','coefficient of a word/monomial',PA)],['matrix of every live expression after every operation'])
add('C14','The stochastic sampler is fair in turn-taking',
 'Every draw of the stochastic layer is a one- or two-qubit Pauli direction on that many distinct existing qubits, and the step it performs is the prescribed step along exactly that direction. Within a round every qubit is used exactly once before any is used again, two-qubit draws come in blocks in which each of the nine two-qubit directions occurs once, and one-qubit draws in blocks of all three one-qubit directions, for every outcome of the random generator. Two samplers used side by side keep their own turns.',
 ['histories','inputs','schedules'],'all generator outcomes, qubit numbers 1-5, draw histories, and interleavings of two samplers',
 'The only test of this layer fails on the original tree; turn-taking is a property of long draw histories.',
 [OT],[('qubits_left / directions_left bookkeeping',OT+': AlgebraSU4')],[('qubits_left','qubits used this round',OT),('directions_left','directions not yet drawn in this block',OT)],['layer call boundary','sampler return value'])
add('C15','Line-search steps reach the minimum along their direction',
 'Every step of a layer that chooses its angle by line search (SU(8), squared, and the first Zassenhaus phase) ends, with exact expectation values, at the global minimum of the cost along the direction it rotated about; hence the cost never increases over such a step. This holds from any circuit the history can produce: after kicks, jumps, other layers, and retried failures.',
 ['histories','inputs','fault_sequences'],'all circuits reachable by steps, kicks and jumps, one-, two- and three-qubit directions, and faults inside the search',
 'Tests check the energy after convergence with single-qubit directions only; a line search that overshoots for two- and three-qubit directions still converges there.',
 [OT],[('three-point trigonometric line search',OT+': rotosolve')],[],['layer call boundary'])
add('C22','Runs can be stopped and resumed',
 'What an optimisation returns is a complete checkpoint. A run of N steps gives the same costs and the same circuit as the same run cut into segments, each started from the unitary (or, for parameter shift, the parameters) the previous one returned; for layers with a memory, with the same layer objects (the adaptive layer, whose circuit parameters are not returned, is outside). This does not depend on what is recorded, on segments that died part-way and were repeated from their checkpoint, or on the process they run in. The first cost of a resumed run is the last cost of the run it continues, also when another optimiser carries on or the circuit is written with its wires in another order.',
 ['histories','crash_points','fault_sequences'],'all optimisers, layer lists, ways of cutting a run into segments, recording flags, crash points inside segments, process restarts and relays of optimisers',
 'No test feeds the result of one run to the next; each runs one optimisation from its own circuit.',
 [OPT,OT],[('start circuit to unitary; returned unitaries and parameters',OPT),('memory of greedy and stochastic layers between runs',OT)],[('checkpoint','unitary or parameters returned by the previous run','caller')],['costs, unitaries and parameters returned'])
add('C23','Optimisation makes progress and kicks free it when stuck',
 'Small steps of the flow never raise the cost, and a layer step lowers it when the cost has a slope along its directions. A run that starts at a stationary circuit keeps its cost; without kicks it stops at the first step at which stopping is allowed, and with kicks it leaves the stationary point within a bounded number of steps and goes on running: the exact optimiser then reaches the minimum of commuting single-word observables, and layered runs get clearly below where they were stuck. Attempts that failed before do not change that.',
 ['histories','inputs','fault_sequences'],'stationary starts (product eigenstates of one or two Pauli words, any state of the other qubits), kick draws, step sizes, tolerances, failed earlier attempts; generic starts with small steps',
 'Tests check one kicked run without looking whether the kick helped; escaping depends on the random kick and on the direction in which the state is stuck.',
 [OPT,OT],[('perturbation when the cost stands still',OPT),('gradient steps',OT)],[],['costs returned'])
NA=[('C16','Embedding local operators is exact','Embedding an operator on any ordered tuple of distinct qubits into the full space gives the operator that acts on those qubits in that order and trivially on the others.',CT,'get_full_operator'),
('C17','The operator bases are complete and correctly named','The SU(2), SU(4) and SU(N) operator lists contain each Pauli word exactly once, with its correct matrix and name, with or without the identity.',UT,'get_su_2_operators, get_su_4_operators, get_su_n_operators'),
('C18','Operator-space parameter shift equals the commutator','For every state and every Pauli observable, the difference of the two shifted states equals minus i times the commutator of observable and state.',CT,'param_shift_comm'),
('C19','Bloch-sphere conversion round-trips','Converting angles to a single-qubit state and back gives the same angles up to the usual identifications.','oranssi/plot_utils.py','get_rotations / state conversion helpers'),
('C20','Invalid options are rejected before any work','Every optimiser and layer rejects step numbers, step sizes, tolerances, flags, layers and circuits outside their documented domain before executing a circuit.',OPT,'assert statements at entry'),
('C21','Hamiltonian matrices and circuit matrices are exact','The matrix built from observables and coefficients, and the gate list extracted from a circuit, represent exactly the given Hamiltonian and circuit.',CT,'get_hamiltonian_matrix, get_ops_from_qnode')]
for id,t,s,f,m in NA:
    add(id,t,s,['inputs'],'all arguments','The tests sample a few arguments.',[f],[(m,f)])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,p['id']
    print(p['id'],p['statement'].count('. ')+1)
