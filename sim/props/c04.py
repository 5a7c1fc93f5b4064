"""C04: stopping and kicking follow exactly from the cost record."""
from .common import *

WARM = {'exact': 3, 'ps': 2, 'approx': 8}
LAG = {'exact': 1, 'ps': 1, 'approx': 5}


def trigger(cost, s, kind, tol):
    """True / False / None (too close to call) for 0-based step s"""
    if tol is None or s <= WARM[kind]:
        return False
    a, b = cost[s + 1], cost[s + 1 - LAG[kind]]
    d = abs(a - b)
    lim = tol + 1e-5 * abs(b)
    if abs(d - lim) <= 1e-9:
        return None
    return d <= lim


def check_schedule(sim, kind, cost, nsteps, tol, kick, pert, label=''):
    steps = len(cost) - 1
    need(1 <= steps <= nsteps, 'step-count', '%d costs for a limit of %d steps', len(cost), nsteps)
    for s in range(steps):
        t = trigger(cost, s, kind, tol)
        last = s == steps - 1
        if kick:
            if t is None:
                continue
            if not (s == nsteps - 1):
                need((s in pert) == t, 'kick-schedule',
                     'step %d: costs %.9g / %.9g, tol %r: %s listed as kicked', s, cost[s + 1],
                     cost[max(0, s + 1 - LAG[kind])], tol, 'not' if t else 'wrongly')
            else:
                need(t or s not in pert, 'kick-schedule', 'final step %d wrongly listed as kicked', s)
            if t:
                sim.probe('%s-kick' % kind)
        else:
            if t is True:
                need(last, 'did-not-stop', 'converged at step %d (%.9g vs %.9g, tol %r) but went on to step %d', s,
                     cost[s + 1], cost[s + 1 - LAG[kind]], tol, steps - 1)
                if s < nsteps - 1:
                    sim.probe('%s-early-stop' % kind)
            if t is False and last:
                need(s == nsteps - 1, 'stopped-early',
                     'stopped after step %d of %d although not converged (%.9g vs %.9g, tol %r)', s, nsteps,
                     cost[s + 1], cost[max(0, s + 1 - LAG[kind])], tol)
    if kick:
        need(steps == nsteps, 'stopped-early', 'stopped after %d of %d steps although kicks are on', steps, nsteps)
        need(all(0 <= s < steps for s in pert) and list(pert) == sorted(set(pert)), 'kick-schedule',
             'perturbation list %s', list(pert))


def script(sim, n):
    """step angles that give plateaus, slow drifts, oscillations and jumps"""
    out = []
    while len(out) < n:
        k = sim.choose(6)
        run = 1 + sim.choose(7)
        if k == 0:
            out += [0.0] * run
        elif k == 1:
            out += [sim.pick([1e-4, 1e-3, 0.01])] * run
        elif k == 2:
            a = 0.2 + sim.unit()
            out += [a if i % 2 else -a for i in range(run)]
        elif k == 3:
            out += [sim.unit() - 0.5 for _ in range(run)]
        elif k == 4:
            # returns to the same cost after five steps
            a = [0.4 * (sim.unit() - 0.5) for _ in range(4)]
            out += a + [-sum(a)]
        else:
            out += [0.3 * sim.unit()] + [0.0] * run
    return out[:n]


def check_exact_kicks(sim, p, st, pert, seen, eta):
    """Judge the kicks themselves, as far as the device saw the circuit right before and right after them."""
    u, kicks = p.U0, []
    for s in range(len(st) - 1):
        u = model.exact_step_unitary(u, p.mats, eta)
        if model.dist(u[:, 0], st[s + 1]) > 1e-6:
            return                      # lost track (a kick the device did not see)
        if s not in pert or s + 2 >= len(st):
            continue
        before = [i for i, v in enumerate(seen) if model.dist(v, u) < 1e-9]
        after = [v for v in seen[before[-1] + 1:] if
                 model.dist(model.exact_step(v[:, 0], p.mats, eta), st[s + 2]) < 1e-7] if before else []
        if not after:
            return
        k = after[0] @ u.conj().T
        d = model.dist(k, np.eye(len(k)))
        need(d <= eta, 'kick-too-large', 'kick after step %d moves the circuit by %.3g with eta %g', s, d, eta)
        need(d > 1e-9, 'kick-trivial', 'step %d is listed as kicked but the circuit did not move', s)
        need(float(np.max(np.abs(k.imag))) < 1e-8, 'kick-not-real', 'kick after step %d is not real', s)
        need(all(model.dist(k, o) > 1e-12 for o in kicks), 'kick-repeated', 'kick after step %d repeats', s)
        kicks.append(k)
        sim.probe('exact-kick-seen')
        u = after[0]


def run(sim):
    kind = sim.pick(['approx', 'approx', 'approx', 'exact', 'exact', 'ps'])
    p = gen.gen_problem(sim, 1, 3 if sim.chance(1, 10) else 2, max_obs=2)
    seed_rngs(sim.choose(1 << 20))
    w = World(sim)
    eta = sim.pick([0.1, 0.3, 1.0])
    desc = dict(gen.describe(p), optimiser=kind, eta=eta)
    if kind == 'approx':
        nsteps = sim.pick([1, 5, 8, 9, 10, 11, 12, 14, 16, 18, 22])
        if sim.chance(1, 20):
            nsteps = sim.pick([30, 60, 110])
        tol = sim.pick([1e-3, 1e-3, 0.02, 0.2, 0.0, 20.0, None])
        kick = sim.chance(1, 2)
        calls = []
        scripts = [script(sim, nsteps) for _ in range(1 + sim.choose(2) if not sim.chance(1, 8) else 3 + sim.choose(4))]
        real = sim.chance(1, 4)
        lk = ['scripted'] * len(scripts)
        layers = [gen.spy(gen.scripted_layer(p, a), calls) for a in scripts]
        if real:
            spec = gen.gen_layer(sim, p, ['local1', 'custom', 'squared'])
            lk.append(str(spec.desc))
            with activate(w):
                layers.append(gen.spy(sut('building layer', spec.build), calls))
        kw = dict(nsteps=nsteps, tol=tol, eta=eta, perturb=kick)
        if tol == 1e-3 and sim.chance(1, 2):
            del kw['tol']               # the default
        desc.update(kw, layers=lk)
        sim.summary = desc
        with activate(w):
            rec = sut('optimiser', lambda: optimise('approx', p, ['return_perturbations'], layers, **kw))
        cost, pert = rec['cost'], list(rec['return_perturbations'])
        need(kick or not pert, 'kick-schedule', 'kicks are off but %s are listed', pert)
        check_schedule(sim, kind, cost, nsteps, tol, kick, pert)
        need(len(calls) == len(cost) - 1, 'step-count', '%d layer steps, %d costs', len(calls), len(cost))
        kicks = []
        for s in range(len(calls) - 1):
            k = calls[s + 1]['in'] @ calls[s]['out'].conj().T
            d = model.dist(k, np.eye(len(k)))
            if s in pert:
                need(d > 1e-9, 'kick-trivial', 'step %d is listed as kicked but the circuit did not move', s)
                need(d <= eta, 'kick-too-large', 'kick after step %d moves the circuit by %.3g with eta %g', s, d, eta)
                need(float(np.max(np.abs(k.imag))) < 1e-8, 'kick-not-real', 'kick after step %d is not real', s)
                need(all(model.dist(k, o) > 1e-12 for o in kicks), 'kick-repeated', 'kick after step %d repeats', s)
                kicks.append(k)
                sim.fired('perturbation-kick')
            else:
                need(d < 1e-9, 'unlisted-change', 'the circuit changed by %.3g after step %d without a kick', d, s)
    elif kind == 'exact':
        nsteps = sim.pick([1, 3, 4, 5, 6, 7, 9, 12])
        if sim.chance(1, 16):
            nsteps = sim.pick([20, 32])
        tol = sim.pick([1e-3, 1e-3, 0.02, 0.3, 0.0, 20.0])
        kick = sim.chance(1, 2)
        kw = dict(nsteps=nsteps, tol=tol, eta=eta, perturbation=kick)
        if tol == 1e-3 and sim.chance(1, 2):
            del kw['tol']
        desc.update(kw)
        sim.summary = desc
        flags = ['return_state', 'return_unitary'] + (['return_perturbations'] if kick else [])
        seen = []
        unitaries_seen(w, seen)
        with activate(w):
            rec = sut('optimiser', lambda: optimise('exact', p, flags, **kw))
        cost, pert = rec['cost'], list(rec.get('return_perturbations', []))
        check_schedule(sim, kind, cost, nsteps, tol, kick, pert)
        st = [model.arr(x) for x in rec['return_state']]
        need(len(st) == len(cost), 'step-count', '%d states, %d costs', len(st), len(cost))
        u = p.U0
        for s in range(len(cost) - 1):
            d = model.dist(st[s + 1], model.exact_step(st[s], p.mats, eta))
            u = model.exact_step_unitary(u, p.mats, eta)
            if s - 1 in pert:
                # (a gradient step can undo the effect of a kick on the state to high order; on the unitary it cannot)
                need(d <= 4 * eta, 'kick-too-large', 'kick after step %d: circuit moved by %.3g', s - 1, d)
                sim.fired('perturbation-kick')
            else:
                need(d < 1e-7, 'unlisted-change', 'step %d is not one gradient step from the recorded state (%.3g)',
                     s, d)
        d = model.dist(u, rec['return_unitary'])
        check_exact_kicks(sim, p, st, pert, seen, eta)
        if pert and p.n == 1:
            pass        # one qubit: the following step may undo the kick to all visible orders
        elif pert:
            need(d > 1e-9, 'kick-trivial', 'kicks are listed at %s but the circuit never moved', pert)
        else:
            need(d < 1e-7, 'unlisted-change', 'no kick is listed but the circuit moved by %.3g', d)
    else:
        m = 1 + sim.choose(2)
        circuit, state, costf, grad = gen_param_circuit(sim, p, m)
        x0 = [sim.angle() for _ in range(m)]
        nsteps = sim.pick([1, 2, 3, 4, 5, 7])
        if sim.chance(1, 12):
            nsteps = sim.pick([12, 25])
        tol = sim.pick([1e-3, 0.05, 0.0, 20.0])
        kw = dict(nsteps=nsteps, tol=tol, eta=eta)
        desc.update(kw, params=x0)
        sim.summary = desc
        with activate(w):
            rec = sut('optimiser', lambda: optimise('ps', p, [], params=circuit.shaped(x0), circuit=circuit, **kw))
        cost, kick, pert = rec['cost'], False, []
        check_schedule(sim, kind, cost, nsteps, tol, False, [])
    sim.nontrivial = len(cost) > 1 + WARM[kind] + 1
    sim.event('end', kind, len(cost), pert, [round(c, 4) for c in cost])
    sim.state_keys.add((kind, nsteps, len(cost), tuple(pert), tol))
