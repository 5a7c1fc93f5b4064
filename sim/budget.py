"""Run counts per tier and the constant part of the evidence files."""
REAL = ['oranssi package (loaded from the working tree)', 'PennyLane QNodes and default.qubit', 'autograd',
        'numpy / scipy', 'networkx', 'sympy']
STUB = ['stdout (in-memory sink)', 'thread scheduling (one real thread runs at a time, chosen by the simulator)',
        'process crash (the task is unwound and may not act any more)']
TRUST = ['the reference model sim/model.py (plain numpy linear algebra, written from the definitions)',
         'a clean batch is evidence over the sampled runs, not proof',
         'yield points of interleaved tasks are device executions, linear-algebra calls and (where stated) source '
         'lines of oranssi; switches inside PennyLane tape recording and autograd tracing are excluded because those '
         'libraries keep process-global stacks']


def B(quick, thorough, rule, probes, state, extra=(), real=REAL, stub=STUB):
    return dict(quick=quick, thorough=thorough, rule=rule, probes=probes, state_measure=state,
                assumptions=list(extra) + TRUST, real=real, stub=stub)


BUDGET = {
    'C01': B(1400, 30000,
             'A run draws a problem (1-4 qubits, 1-6 Pauli observables, exact or 20/200 shots), 1-3 layers of any kind or '
             'the exact optimiser, kicks on or off, possibly a crashed first attempt with the same layers. Non-trivial: '
             'at least 3 optimisation steps were recorded; distinct: different event digest.',
             ['crashed-attempt', 'kicked'], '(optimiser, qubits, shots?, kicks?, layer kinds)',
             ['at most 4 qubits (one run in 40) and 40 steps per run']),
    'C02': B(5000, 100000,
             'A run draws a gradient layer with the error check on and a drift (size 1e-7..3e-2, several shapes) applied '
             'to a drawn subset of the matrix exponentials over several steps. Non-trivial: a drifted step was repaired.',
             ['repaired-step', 'stochastic'], '(layer kind, drift shape, drift size, subset)',
             ['drift is injected at scipy.linalg.expm results only']),
    'C03': B(1200, 25000,
             'A run draws one or two optimisations (any of the three optimisers, any flag subset, kicks), interleaved at '
             'seam events; every recorded entry is recomputed from the circuit matrices seen at the layer boundary. '
             'Non-trivial: at least two steps recorded.',
             ['interleaved'], '(optimiser, flags, steps, kicks)'),
    'C04': B(3600, 80000,
             'A run draws an optimiser, a tolerance, a step limit and either a scripted cost history (plateaus, '
             'oscillations, near-tolerance differences, the same via a user-defined layer) or a real optimisation; stop '
             'and kick steps are recomputed from the returned costs. Non-trivial: the trigger condition was decidable on '
             'at least one step after warm-up.',
             ['approx-kick', 'exact-kick', 'exact-kick-seen', 'approx-early-stop', 'exact-early-stop', 'ps-early-stop'],
             '(optimiser, kicks?, tolerance, stop step, kick steps)',
             ['differences within 1e-9 of the tolerance are not judged']),
    'C05': B(1600, 35000,
             'A run draws gradient layers with a previous life (uses, failed uses, changed step sizes), then an '
             'optimisation through them; or an exact / parameter-shift optimisation. Every step is compared with the '
             'model step from the circuit the step was handed. Non-trivial: at least two steps compared.',
             ['failed-step'], '(optimiser, layers, previous life, kicks?)'),
    'C06': B(2400, 50000,
             'A run draws a greedy layer and drives it step by step from circuits the caller may change, with device, '
             'linear-algebra and output failures inside steps; the direction of each step is recovered from the matrix '
             'and compared with the reference argmax. Non-trivial: at least one step moved.',
             ['failed-step', 'failed-with-memory', 'failed-with-twin', 'zassenhaus-second-phase'], '(layer, qubits, observables, history shape)',
             ['gradients closer than 1e-6 count as ties']),
    'C07': B(1300, 28000,
             'A run draws an optimisation or layer step, counts its seam events in a dry run, then repeats it with one to '
             'three failures at drawn events (device, linear algebra, output, or KeyboardInterrupt at a source line) and '
             'finally without; Non-trivial: at least one failure fired inside the call.',
             [], '(subject, seam kind, fault kind)'),
    'C08': B(640, 12000,
             'A run draws two or three optimisations on shared or different problems, or two layers of the same kind '
             'and size being stepped; runs each alone in a process (module state) of its own, then interleaved '
             'by the seeded scheduler (yields at device, linear algebra, sometimes every source line), possibly killing '
             'one. Non-trivial: at least two switches happened.',
             ['killed'], '(optimisers, shared objects, switches, killed?)'),
    'C09': B(1000, 20000,
             'A run draws an optimisation or commuting-set search, runs it twice from the same seeds with different '
             'process histories in between (also as another process would: other string hashes, addresses, entropy, clock, '
             'pid), and with other seeds. Non-trivial: the repeated run drew from a generator, or '
             'a run without randomness left both generators untouched.',
             ['deterministic-run', 'seeds-differ'], '(subject, needs randomness?, history)'),
    'C10': B(3200, 70000,
             'A run draws edge lists (2-9 vertices, either orientation, single-vertex edges) and the outcome of every '
             'random draw (free, constant first/last, alternating, PRNG), and commuting-mode layer steps. Non-trivial: '
             'the list had an overlap so the colouring ran.',
             ['coloured', 'degree>=3', 'layer-coloured', 'layer-several-gates'], '(vertices, edges, draw mode, result size)'),
    'C11': B(36000, 900000,
             'A run draws two graphs (cycles, cliques, stars, random, <= 9 nodes), colour counts from the maximum degree '
             'up, limits, draw mode, and possibly an interrupted earlier attempt on the same graph. Non-trivial: more '
             'draws than edges were consumed (conflict resolution ran).',
             ['success', 'failure', 'tight-colours', 'restarted-half-coloured'], '(edges, spare colours, success, draw mode)'),
    'C12': B(6000, 150000,
             'A run draws 1-4 simulated processes creating the same, nested or different directories over a drawn '
             'initial tree (missing parents, present, file or dangling link in the way), a foreign creator, and per '
             'process at most one errno fault, interrupt or crash at a drawn call. Non-trivial: more than two file-system '
             'calls were made.',
             ['ok', 'crashed', 'fault-surfaced', 'obstructed', 'interleaved', 'removed-in-between'],
             '(initial states, faults, foreign actor, interleaved?)',
             ['the simulated file system models directories, files, symbolic links, owner permission bits and errno '
              'results of path operations; os.open is not modelled'],
             stub=STUB + ['file system (in-memory model behind os, pathlib, shutil, open)']),
    'C13': B(3600, 80000,
             'A run draws a pool of Pauli objects and 4-17 operations on shared operands, some interleaved line by line '
             'in two tasks, some interrupted at a drawn line and repeated; every live object is re-read after every '
             'operation. Non-trivial: at least one operation completed.',
             ['interleaved', 'interrupted', 'in-place'], 'sorted kinds of operations performed',
             ['coefficients between 1e-6 and 1e4 in magnitude; products of sums over monomials of equal support']),
    'C14': B(2200, 70000,
             'A run draws one or two samplers (1-5 qubits) or stochastic layers (1-3 qubits) used alternately, the '
             'generator outcomes (seeded, free, constant) and failures inside steps. Non-trivial: at least one draw or '
             'step was judged.',
             ['draw-1', 'draw-2', 'failed-step', 'tracked', 'drawn-is-done'], '(sizes, draw mode, length)',
             ['after a failed or unidentifiable step the turn-taking of that layer (not its steps) is no longer judged']),
    'C15': B(1700, 45000,
             'A run draws a line-search layer and drives it from circuits the caller may change, with failures inside '
             'steps; the direction is recovered from the matrix and the cost compared with the closed-form minimum on '
             'that line. Non-trivial: at least one step moved.',
             ['locality-1', 'locality-2', 'locality-3'], '(layer, qubits, observables, steps)'),
    'C22': B(700, 15000,
             'A run draws an optimisation (layered, exact, parameter shift) of 2-9 steps and cuts it into segments, each '
             'resumed from what the previous one returned, with segments dying at drawn events and repeated from their '
             'checkpoint in the same or a new process; or a relay of optimisers handing a circuit on. Non-trivial: at '
             'least two segments.',
             ['resumed-approx', 'resumed-exact', 'resumed-ps', 'crashed-segment', 'wires-reordered', 'relay'],
             '(optimiser, qubits, segment lengths, layer kinds)',
             ['layers that keep a memory are resumed with the same layer objects',
              'greedy layers are not compared further once a step gains less than 1e-6']),
    'C23': B(500, 12000,
             'A run draws either a stationary start (product eigenstate of one or two Pauli words that is not the minimum), '
             'kicks on or off, up to two attempts that die from an injected failure, and then one that meets no fault; or a '
             'generic start with small steps. Non-trivial: the final attempt was judged.',
             ['escaped', 'stopped-at-once', 'failed-attempt', 'exact-progress', 'layer-progress'],
             '(start, optimiser, kicks?, words, tolerance)',
             ['escape has to happen within 200 steps; observables on which every kick of the library acts trivially '
              '(Y on a single qubit) are left out']),
}
