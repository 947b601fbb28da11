#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand after editing; not part of any check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = 'python3 /verif/check.py %s --tier %s'

P = []          # claimed
N = []          # not applicable


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, level='other'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, level=level))


prop('P01', 'Operations leave their arguments unmodified',
     'Calling a library function, constructor or method never changes the objects the caller passed in, nor the object it is called on '
     '(lists, dictionaries, sets, graphs, matrices, polynomials, factorizations, point lists).  The only exceptions are the operations '
     'documented to work in place: item assignment on a matrix, adding or deleting vertices and edges of a graph, marking and updating a '
     'sieve, the updating operations of heaps, and find/union of a disjoint-set structure, each of which changes only the object it is called on '
     '(merging heaps may also consume the other heap).',
     ['inputs'], 'every public function and method, every argument of the documented types, every path including error paths',
     'The tests compare return values for a few literal arguments, which are rebuilt for each test; a mutation that does not alter the '
     'compared result, or happens only on a rare branch, is never observed.',
     ['rosemary/graphs/graphs.py', 'rosemary/algebra/matrices/matrices.py', 'rosemary/combinatorics/optimization', 'rosemary/graphs/algorithms',
      'rosemary/number_theory/core.py', 'rosemary/algebra/polynomials'],
     [('graph algorithms copying before destructive work', 'rosemary/graphs/algorithms/coloring.py:maxis'),
      ('Gauss-Bareiss elimination works on a copy', 'rosemary/algebra/matrices/matrices.py:Matrix.determinant')],
     'interprocedural alias and side-effect analysis on an abstract heap (access paths rooted at parameters)',
     'Sound up to the listed assumptions (documented argument types; user callables do not mutate); flow- and context-sensitive, decides every path of every public function.')

prop('P02', 'Results do not share mutable state with arguments or library tables',
     'A list, dictionary, set, graph or matrix returned or yielded by the library shares no mutable part with the arguments, with the object it was '
     'computed from, or with tables kept inside the library; and an object built from a caller\'s list keeps its own copy.  So changing a result or '
     'an argument afterwards can never change the other.  Documented accessors (row access of a matrix, neighbour access of a graph, and the exact-cover '
     'solvers that hand back the caller\'s own sets, and the point list a tour solver is built from) are the only exceptions.',
     ['inputs', 'histories'], 'every public function, every argument, every later modification of the result or the argument',
     'Aliasing is visible only when a caller modifies one side afterwards; the tests never do.',
     ['rosemary/graphs/graphs.py', 'rosemary/number_theory/primes', 'rosemary/algebra', 'rosemary/combinatorics', 'rosemary/number_theory/core.py'],
     [('tables handed out as slices', 'rosemary/number_theory/primes/sieves.py:primes'),
      ('graph copy', 'rosemary/graphs/graphs.py:Graph.copy'), ('row copies', 'rosemary/algebra/matrices/matrices.py:Matrix.__init__')],
     'escape analysis on the abstract heap at every function exit',
     'Reports every mutable object reachable from a result that is also owned by an argument, the receiver, a module table or a default value; results the analysis cannot resolve are counted in the evidence (results_partly_unknown).')

prop('P03', 'Generated items never change after they are yielded',
     'Every object yielded by a library generator (partitions, tuples, subsets, permutations, combinations, Gray codes, factorizations, clique and path '
     'enumerations) stays as it was: advancing the generator further never modifies an item handed out earlier.  Collecting all items into a list therefore '
     'gives the same items as consuming them one at a time.',
     ['inputs', 'histories'], 'every generator, every sequence of resumptions, every argument',
     'Tests that consume item by item, or that compare only counts, cannot see an item being overwritten by a later step.',
     ['rosemary/combinatorics/generation', 'rosemary/combinatorics/enumeration', 'rosemary/graphs/algorithms', 'rosemary/number_theory/factorization'],
     [('yield of a copy or tuple of the working array', 'rosemary/combinatorics/generation'), ('dijkstra iterator', 'rosemary/graphs/algorithms/paths.py')],
     'flow-sensitive typestate (handed-out objects) with recency abstraction',
     'All yield sites of all generators, nested generators and helpers included.')

prop('P04', 'Calls are independent: no hidden state between calls',
     'No call leaves behind state that a later call can observe: module-level tables, class attributes, default argument values and attributes of '
     'functions are never modified, and no shared iterator is advanced.  Memoised results are immutable values keyed by all positional arguments, so a cached '
     'answer is the answer a fresh computation would give.',
     ['histories'], 'every sequence of library calls in one process',
     'Each test calls a function from a nearly fresh state in one fixed order; state leaking from one call into another needs particular histories.',
     ['rosemary/number_theory', 'rosemary/utilities', 'rosemary/combinatorics', 'rosemary/graphs'],
     [('memoising decorator', 'rosemary/utilities'), ('square tables', 'rosemary/number_theory/classification.py')],
     'interprocedural effect analysis over module-level, class-level and default-value objects; purity rule for memoised functions',
     'Every store reachable from every public function is attributed to abstract objects.')

prop('P05', 'Randomness is confined to randomised algorithms and is reproducible',
     'Operations that are not inherently randomised always give the same result for the same arguments: they draw no random numbers (in particular deterministic '
     'primality testing, sieves, counting, sums over primes, exact graph algorithms, exact optimisers and enumeration).  Only factoring and what is built on it, '
     'probabilistic primality tests, searches for primitive roots and modular roots, randomised heuristics and random-object constructors draw random numbers, all from the '
     'standard shared generator, which the library never re-seeds or replaces; no other source of nondeterminism (clock, operating-system entropy, object identity) is used.',
     ['inputs', 'histories'], 'every public function, every argument, every state of the random generator',
     'A test that passes for one draw says nothing about the others, and a function that quietly became randomised still passes almost always.',
     ['rosemary/number_theory', 'rosemary/graphs', 'rosemary/combinatorics'],
     [('deterministic primality', 'rosemary/number_theory/primes/primality.py:is_prime'), ('rho factoring', 'rosemary/number_theory/factorization/algorithms.py:pollard_rho_brent')],
     'context-sensitive effect (capability) analysis over the call graph',
     'A table lists the randomised operations; every other public function must not reach a draw in the argument contexts it creates.')

prop('P06', 'No input/output or process-wide side effects',
     'The library only computes: no operation writes to standard output or error, reads standard input, touches files, environment, processes, network, interpreter '
     'settings or exits the process, and importing it does none of these either.  The exceptions are reading the named file in the two graph loaders, which open it for reading only, and progress '
     'output that the caller switched on explicitly with a verbose option.',
     ['inputs'], 'every public function, every argument and path; import of every module',
     'The test runner captures output, and no test checks for the absence of effects; a leftover diagnostic on a rare path stays invisible.',
     ['rosemary'],
     [('graph loaders', 'rosemary/graphs/graphs.py:load_graph'), ('verbose output', 'rosemary/graphs/algorithms/coloring.py:maxis')],
     'context-sensitive effect (capability) analysis over the call graph, plus import-time statements',
     'Blacklist of effectful builtins and modules; diagnostic switches analysed off.')

prop('P07', 'Documented calls never die of programming errors',
     'No documented use of the library fails with an undefined name, a missing attribute, a variable read before assignment, a call that does not fit the signature, or an '
     'operation on a kind of value that can never support it (such as arithmetic on a missing value, or ordering two heap or sort entries that tie up to a dictionary or a node).  This includes every combination of optional arguments being given or omitted, '
     'and empty and one-element collections.',
     ['inputs', 'configurations'], 'every public function, every combination of optional arguments, empty/one-element collections, every branch',
     'Tests reach one or two argument combinations per function, and many functions and branches are not tested at all.',
     ['rosemary'],
     [('optional arguments n / factorization', 'rosemary/number_theory/factorization/factorization.py'), ('constructors', 'rosemary/data_structures/heaps.py')],
     'definite-assignment, name, attribute, call-signature and operand-kind analysis of the resolved program over argument-kind contexts',
     'Reports only constructs that fail for every value of some analysed context (definite errors); errors that depend on values are out of scope.')


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, na=reason)


exec(open(os.path.join(HERE, 'tools', 'registry_more.py')).read())


def main():
    ids = [p['id'] for p in P]
    assert len(ids) == len(set(ids)), ids
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 8)"',
           'checks': [{'property': p['id'], 'quick_cmd': PY % (p['id'], 'quick'), 'thorough_cmd': PY % (p['id'], 'thorough'),
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
                      for p in sorted(P, key=lambda p: p['id']) if not p['na']],
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in sorted(P, key=lambda p: p['id']) if p['na']],
           'notes': 'All checks are static: they parse /repo on every run and never import or execute it.  No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    try:
        import jsonschema
    except ImportError:
        return
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        jsonschema.validate(json.loads(line), sch)
    print('valid: %d claimed, %d not applicable' % (len(man['checks']), len(man['not_applicable'])))


main()
