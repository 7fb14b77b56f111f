'''Writes MANIFEST.json.'''
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python check.py '
FAULTY = ('C02', 'C10', 'C11', 'C13', 'C14')
NOTE = {
 'C01': 'Every edit and query of seeded histories is compared with an executable model of the graph, after rejected edits, completed and aborted algorithms, and with other clients interleaved.',
 'C02': 'After every algorithm, also one cut short at an injected fault, nodes, edges, adjacency and input attributes are compared with the model.',
 'C03': 'Every maximum flow computed anywhere in a seeded history is checked for capacity, conservation and integrality, and its value against an independent maximum-flow computation.',
 'C04': 'Every minimum-cost flow computed anywhere in a seeded history is checked for feasibility, and its cost or infeasibility against an independent successive-shortest-path computation.',
 'C05': 'Every path, tree, distance and negative cycle returned anywhere in a seeded history is checked against independent Bellman-Ford and breadth-first references.',
 'C06': 'Every tree returned anywhere in a seeded history is checked for being a spanning tree of the component and for minimum cost against an independent reference.',
 'C07': 'Every predecessor tree, numbering, topological order, component labelling and Hamiltonian answer in a seeded history is checked against independent references.',
 'C08': 'Each animated operation is executed again on a copy of the graph with display off in the same simulated run; return value, output and final state must agree, under nonfatal rendering faults, missing libraries and simulated users.',
 'C09': 'Each client of a multi-client run is executed again alone from the same initial process image; the complete histories (results, output, final states) must agree.',
 'C10': 'Algorithms are cut short by injected fatal faults at seeded frames; the abort must surface and everything that runs afterwards is checked against the references.',
 'C11': 'After every call of seeded rendering histories with injected process, disk and viewer faults, the scratch directory and the descriptor table are inspected.',
 'C12': 'Every DOT text handed to the simulated Graphviz (or returned) at any step is parsed and compared with the current graph, node by node and edge by edge.',
 'C13': 'What files and viewers received is compared with the bytes the simulated Graphviz produced for that frame; every injected fault must surface as exception or message.',
 'C14': 'The display mode after every call is compared with the one before, and the modes of all frames with the one requested, with aborts injected at seeded frames.',
 'C15': 'Every find and union of seeded histories is compared with a partition model, including sizes; with and without path compression, displays, rejections and other clients.',
 'C16': 'Every tree query, traversal, listing and evaluation of seeded histories is compared with a tree model, after rejected insertions, deletions and aborted traversals.',
 'C17': 'Every random graph is generated again later in the run, alone, and in a second process with another hash seed, under interleaved users of random numbers; all must agree.',
 'C18': 'Clients query one shared graph concurrently, preempted between lines and bytecodes; every answer is checked against the model and the graph is compared at every switch and at the end.',
}
TRUST = ' Assurance is that of seeded sampling, not of enumeration. Trusted: the simulator in sim/ (stubbed Graphviz, viewers, clock, locks), its DOT parser and reference algorithms; preemption only between source lines (in some runs bytecodes) and at seams.'
NA = {
 'C19': 'A pure function of one string: no schedule, time, I/O or fault can influence it, so a simulator has nothing to decide; testing it would be plain input generation. (The part that depends on execution, frames of graphs in any state, is C12.)',
 'C20': 'A pure function of the parameters and the seed: no schedule, time, I/O or fault can influence how well densities, degrees and distances are honoured. (What depends on execution, reproducibility, is C17.)',
}
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -c "import sys, json; '
                  'sys.path.insert(0, \'.\'); from sim import gen, props, reduce; '
                  '[gen.make(p, \'1\', i) for p in props.SPEC for i in range(3)]"',
     'checks': [], 'not_applicable': [
         {'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'Pure Python: nothing to build; every check imports the code '
              'under test from /repo/src as it is. No hooks in /repo: the '
              'simulator replaces the standard-library doors from outside. '
              'Known findings and repairs: known_findings.txt.'}
for p in sorted(NOTE):
    m['checks'].append({
        'property': p,
        'quick_cmd': PY + p + ' --tier quick',
        'thorough_cmd': PY + p + ' --tier thorough',
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'deterministic simulation with fault injection: seeded '
                     'search over schedules, faults and histories',
        'level': 'fault_enumeration' if p in FAULTY else 'exploration',
        'level_note': NOTE[p] + TRUST})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
