import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'seeded simulation: random kicks, shot noise, device/linalg failures and restarts; unitarity invariant on every matrix crossing the device and layer seams',
 'C02': 'seeded simulation: numerical-drift faults injected into matrix exponentials; repair judged against the drift-free model step',
 'C03': 'seeded simulation: interleaved optimisations with kicks; record compared with the circuit history seen at the seams',
 'C04': 'seeded simulation: scripted and real cost histories and kick draws; stop/kick decisions recomputed from the history',
 'C05': 'seeded simulation: layer objects with failed/used previous lives; refinement of every step against a reference model',
 'C06': 'seeded simulation: failures inside greedy steps; memory and argmax refinement against a reference model',
 'C07': 'seeded fault injection at device, linalg, stdout and source-line seams; propagation, input integrity and retry equivalence',
 'C08': 'seeded scheduler over interleaved optimisations with kills; compared with the isolated run',
 'C09': 'seeded simulation of process histories (other runs, failures, hash seeds, entropy, clock) around a seeded call; generator states and results compared',
 'C10': 'seeded simulation of every random draw (including adversarial); matching oracle',
 'C11': 'seeded simulation of every random draw (including adversarial) and interrupted attempts; colouring oracle and step bound',
 'C12': 'simulated file system, seeded interleaving of processes, errno faults and crashes at any call',
 'C13': 'seeded operation histories on shared values, line-level interleaving and interrupts, set-order permutation; value model',
 'C14': 'seeded simulation of generator outcomes and interleaved samplers; turn-taking model over the draw history',
 'C22': 'seeded simulation: runs cut into segments, segments crashing at drawn events and repeated from the checkpoint in the same or another process; refinement against the uncut run',
 'C23': 'seeded simulation of kick draws and failed attempts from stationary and generic starts; bounded-progress (liveness) and descent oracle over the cost history',
 'C15': 'seeded simulation: failures and circuit jumps around line-search steps; closed-form minimum as oracle',
}
NOTE = ('Held on every simulated run of the batch (counts, faults fired and probes in the evidence file); sampled, not '
        'exhaustive. Trusts the reference model, numpy and the seam list in sim/seams.py; problems of at most '
        '4 qubits (5 for samplers).')
NA = {
 'C16': 'pure function of its arguments: no schedule, clock, randomness, I/O or fault for a simulator to control (errors in it still surface through C05/C06/C14)',
 'C17': 'pure function returning constants; nothing for a simulator to decide (errors surface through C05/C06/C14)',
 'C18': 'pure function of a state and an observable; nothing for a simulator to decide (errors surface through C05)',
 'C19': 'pure function of two angles; nothing for a simulator to decide',
 'C20': 'argument validation before any seam event happens: no schedule or fault can influence it',
 'C21': 'pure function of observables or of a circuit; nothing for a simulator to decide (errors surface through C03/C05)',
}
doc = {
 'version': 1,
 'setup_cmd': 'python3 check.py --selftest C12 C13 --count 24',
 'checks': [dict(property=k, quick_cmd='python3 check.py %s' % k,
                 thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % k,
                 technique='deterministic simulation with fault injection: ' + T[k], level='exploration',
                 level_note=NOTE) for k in sorted(T)],
 'not_applicable': [dict(property=k, reason=v) for k, v in sorted(NA.items())],
 'notes': 'No hooks in /repo: every seam is cut from outside (sim/seams.py, sim/simfs.py). Checks load oranssi from /repo sources, never bytecode. Replay: python3 check.py <id> --replay <file>.',
}
open(os.path.join(H, 'MANIFEST.json'), 'w').write(json.dumps(doc, indent=1) + '\n')
