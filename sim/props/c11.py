"""C11: the edge-colouring heuristic is honest and terminates, for every outcome of its draws."""
import networkx as nx

from .common import *
from ..seams import py_random, DrawBudget


def gen_graph(sim):
    kind = sim.choose(6)
    wide = sim.chance(1, 12)
    g = nx.Graph()
    if kind == 0:
        n = 3 + sim.choose(6)
        g.add_edges_from((i, (i + 1) % n) for i in range(n))
    elif kind == 1:
        n = 2 + sim.choose(5)
        g.add_edges_from((a, b) for a in range(n) for b in range(a + 1, n))
    elif kind == 2:
        n = 1 + sim.choose(7)
        g.add_edges_from((0, i + 1) for i in range(n))
    else:
        n = 2 + sim.choose(7) if not wide else 10 + sim.choose(4)
        pool = [(a, b) for a in range(n) for b in range(a + 1, n)]
        g.add_edges_from(sim.sample(pool, 1 + sim.choose(min(len(pool), 36))))
    if sim.chance(1, 5):
        g.add_node(99)
    k = sim.choose(8)
    if k == 1:
        g = nx.relabel_nodes(g, {v: 'q%d' % v for v in g.nodes()})
    elif k == 2:
        g = nx.relabel_nodes(g, {v: v - 2 for v in g.nodes()})
    return g


def proper(g, D):
    for u in g.nodes():
        seen = []
        for v in g[u]:
            c = g[u][v].get('color')
            if c in seen or c not in range(D):
                return False
            seen.append(c)
    return True


def run(sim):
    from oranssi import edge_coloring as ec
    for r in range(2):
        g = gen_graph(sim)
        nodes, edges = list(g.nodes()), list(g.edges())
        delta = max(d for _, d in g.degree())
        D = delta + sim.choose(3)
        rep, it = sim.pick([0, 1, 3, 10, 50]), sim.pick([0, 1, 2, 5])
        mode = sim.pick(['prng', 'prng', 'prng', 'free', 'first', 'last', 'alternate'])
        m = len(edges)
        # draws of any execution that respects its limits (see heuristic: conflicts only ever decrease or the
        # repetition counter grows)
        limit = 4 * (it + 3) * (m + (2 * m + 2) * (rep + 2) * (len(nodes) + 4))
        fault = 1 + sim.choose(30) if sim.chance(1, 3) else None
        sim.summary = {'edges': [list(map(str, e)) for e in edges], 'colours': D, 'limits': [rep, it], 'draws': mode,
                       'interrupt_at_draw': fault}
        if fault is not None:
            # an interrupted earlier attempt leaves the graph half coloured
            with py_random(sim, mode, limit=limit, fault_at=fault):
                try:
                    sut('interrupted attempt', lambda: ec.applyHeuristic(g, D, rep, it))
                except DrawBudget:
                    fail('no-termination', 'more than %d draws', limit)
                except BaseException as e:
                    if isinstance(e, Violation) or injected_in(e) is None:
                        raise
                    sim.probe('restarted-half-coloured')
        with py_random(sim, mode, limit=limit) as rnd:
            try:
                ok = sut('applyHeuristic', lambda: ec.applyHeuristic(g, D, rep, it))
            except DrawBudget:
                fail('no-termination', 'more than %d draws on a graph with %d edges, limits %d/%d', limit, m, rep, it)
        need(list(g.nodes()) == nodes and list(g.edges()) == edges, 'graph-changed', 'nodes or edges changed')
        for a, b in edges:
            need(g[a][b].get('color') is not None, 'uncoloured', 'edge %s has no colour', (a, b))
        p = proper(g, D)
        need(ok in (True, False) and bool(ok) == p, 'dishonest', 'returned %r but the colouring %s', ok,
             'is proper' if p else 'is not proper')
        for q in (ec.checkEdgeColoring(g, D),):
            need(bool(q) == p, 'dishonest', 'the colouring check says %r', q)
        sim.probe('success' if p else 'failure')
        if D == delta:
            sim.probe('tight-colours')
        sim.event('graph', m, D, rnd.draws, p)
        sim.nontrivial = sim.nontrivial or rnd.draws > m
        sim.state_keys.add((m, D - delta, p, mode))
