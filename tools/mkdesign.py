"""Writes DESIGN.md: the text below, the explanation kept with each check, and tables taken from the seeds, mutants and findings."""
import ast, glob, json, os, re, subprocess, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(p):
    with open(os.path.join(ROOT, p)) as f:
        return f.read()


PRE = '''# Design

## 1. What decides

All checks are static analyses; nothing of the repository is run and no path is handed to a solver.  Every run of a check

1. hashes the sources of /repo's working tree and, if that tree has not been seen, compiles them with clang to LLVM IR
   (`-O0`, debug information kept; the library and command-line tool form one program, the Python module with stand-in headers for
   the binding layer another);
2. lets `engine/gxir.cpp` flatten the functions a property is about: calls of repository functions are inlined into the
   function a user calls (down to a boundary the check chooses), locals become SSA values, and the result is dumped with types,
   demangled names and source positions.  Helper extraction, renaming, moving code between files and most statement
   reorderings vanish here;
3. runs the analysis of the property over the dump (`engine/checks/cNN.py` on top of `engine/gx`), which enumerates its
   instances (operations, paths, loops, stores, call sites), derives one obligation per instance and tries to discharge each;
4. writes `evidence/<id>.json` with what was enumerated in this run, the rule, the number of obligations and how many were discharged.

Exit 0: every obligation was discharged.  Exit 1 with a VIOLATION line: some obligation was not; the report names construct,
function and source line, and the replay file lists all of them.  Exit 2: the analysis lost its footing - an anchor (class, operation,
table) is gone, or fewer instances than expected were found - and gives no answer.  An obligation that cannot be decided counts as violated,
so a quiet check means proved within the stated assumptions, not merely "nothing found".

The engine (`engine/gx`), in terms of dataflow analysis:

| module | what it computes |
|---|---|
| sym, terms | value numbering over the flattened function with gated merges; memory cells and the contents of standard containers (vector, map, string, queue, streams, smart pointers) are values too |
| models | transfer functions of the standard library operations that occur, keyed by resolved type and method, never by text |
| prove, real | linear integer arithmetic by Fourier-Motzkin elimination over the facts that dominate a point; real polynomials and quotients in normal form |
| loops | loop ranges (start, bound, step, early exits), counters, iterators |
| paths, walk | acyclic paths and complete loop iterations with the facts of their edges, merges resolved per path; contradictory ones dropped |
| route, members, streams, kbest, order, names | argument routing, fields and constructors of classes, stream typestate, bounded candidate collections, tabulation of a comparison over representative operands, tables of names |

Frozen tables.  Where the specification is a table (which argument of which operation goes where, which usage placeholder plays which role, which
metric has which definition) it was inferred once, confirmed by hand against the headers and documentation, and lives in the check.  Entries of the tree
without a row are reported as analysis-broken or counted in the evidence, never silently skipped.

Level.  All checks are registered with level `other`: they decide the property for the program as a whole relative to the assumptions named below, but no proof object is produced.

Cost.  Compiling and linking one tree takes about 60-90 s of CPU on 8 cores, once per tree and shared by all checks (the cache in `build/` is keyed by source hash).
After that a check takes between 0.3 s and 30 s (C24 and C25, which look at every function, are the slowest).  Quick and thorough tier are the same analysis: there is no bound to raise.

'''

SPEC = {
'C01': ('The table of operations and of their dataset-name parameters (25 operations), cross-checked against the class: a public operation without a row stops the analysis.',
        'Lookups may use find, count, at or a loop-free helper; a lookup through an index kept elsewhere is not recognised (violation).'),
'C02': ('Content of the registry on entry; change in count = change in names.', 'bad_alloc inside the registry insertion is followed; deletion is assumed not to throw.'),
'C03': ('Ownership: every owning slot is deleted once before it is forgotten.', 'Interface objects copied by their implicit copy constructor are out of scope (nobody copies one; noted in section 6).'),
'C04': ('The inequalities of the statement.', 'Integers are mathematical integers; start and end are ints.'),
'C05': ('The constructor gives the meaning of "empty"; the file format is "separator-separated columns, one row per line".', 'The file is assumed not to change between the two passes; lengths counted in a separate variable and row loops controlled by memory cells are not recognised.'),
'C06': ('The formula of the statement, compared as a polynomial over the reals.', 'Rounding is not judged; all-equal infinities are outside the statement.'),
'C07': ('Loop ranges must equal the set of subsequences; join/new decision compared with the statement on every path of one step.', 'Expects the pool to be a local object and the task a function object.'),
'C08': ('Typestate of the field that the query "is grouped" reads.', 'Every call not known to be no-throw may throw.'),
'C09': ('Ownership of everything a task writes; agreement of the sequential and the parallel form.', 'The standard library and boost are trusted to be free of races as documented; printing order is not judged.'),
'C10': ('The state machine of the statement, explored over all abstract states (about 210) of seven entry points.', 'Sequentially consistent locks as in the C++ memory model; spurious wake-ups are included.'),
'C11': ('Every subscript inside its table, every entry tested before use.', 'Assumes C07/C20 for the content of group tables (both are checked).'),
'C12': ('Inductive size invariant and pairing of series and distance.', 'Distances are uninterpreted; ties may be ordered either way.'),
'C13': ('Integer set equality between loop counters and subsequences; heap typestate.', 'Recognises collections kept by push/pop heap operations and sorting.'),
'C14': ('Best-so-far loop over a complete enumeration.', 'NaN distances never replace anything; ties keep the first.'),
'C15': ('Same-value-as-unbounded by separating the bound from everything but strict comparisons.', 'For ratio distances (cosine, sorensen) a running quotient is not monotone; the statement therefore speaks of what is established so far. Rounding is not judged.'),
'C16': ('Entry i of the name table against entry i of the computation table, by resolved template instantiation.', 'The start-up code must be constant-foldable by value numbering.'),
'C17': ('Walk invariants of the trace-back.', 'Comparisons of costs that are NaN are excluded from the smallest-neighbour clause, but not from the no-move and no-null clauses.'),
'C18': ('Effects: nothing is written but own memory; ownership: linear use of allocations.', 'Envelopes cached inside a series are exempt by the statement.'),
'C19': ('Writer and reader item sequences must be equal, with meanings.', 'Order of members within a chain is reversed by a save and load; it influences only ties and is not part of the statement.'),
'C20': ('Taint: every number read from a file is checked before it selects something.', 'A count of zero groups is accepted.'),
'C21': ('Stream typestate: output, then flush or close, then successful test.', 'The operating system is assumed to report failures at close; fsync is not demanded.'),
'C22': ('Linear ownership over all ways to return of every member function, including self-assignment.', 'Move is judged as assignment; the values in a dataset outlive a series referring to it.'),
'C23': ('Typestate of the validity flag and band.', 'Values changed from outside through the dataset are exempt by the statement.'),
'C24': ('Marker propagation; divisors proved non-zero; call graph to process-ending functions.', 'Integer overflow is not considered; the ring buffer of the envelope queue and cells of the dataset array beyond the length of a row are not followed; indirect calls are ignored in the no-throw clause; unset reads of heap objects after aliasing writes may be missed.'),
'C25': ('A ranking argument per loop.', 'Integer overflow of counters is not considered; algorithms of std and boost are trusted to terminate; workers and the prompt wait for others; recursion through function pointers is not followed.'),
'C26': ('The usage line itself, parsed, plus a frozen table of roles keyed by command word and placeholder.', 'Output to the console is assumed not to throw.'),
'C27': ('Ways between two reads of a line.', 'The line editor returns memory from malloc or null; bad_alloc while copying a line is out of scope.'),
'C28': ('Frozen table of Python operations; parameter names from the resolved functions; defaults from the library header.', 'The Python module is compiled against stand-in headers because boost.python is not part of the build; exports without a row are counted.'),
'C29': ('Frozen routing table, two levels.', 'Values are followed through copies and temporaries; values stored in and re-read from heap structures are not.'),
'C30': ('Classification of every output by the value written.', 'Precision must be at least 17 digits (or max_digits10), set before the first value.'),
'C31': ('The definitions in the statement as real expressions, compared cell by cell with what the code computes.', 'Rounding ignored; band at least 0; NaN ignored in the neighbour choice; metrics without a stated definition are only counted.'),
'C32': ('Certificates: each term of a bound is the excess of a point over an envelope that covers its band, or the cost of a cell every path must use; distinct cells.', 'The lemma "sum of such terms <= cost of every warping path" is argued on paper in section 5; NaN, rounding, band < 0 excluded; the capacity of the ring is not proved; another queue implementation gives no answer (exit 2).'),
'C33': ('The axioms of a strict weak order tabulated over all relevant relations of three operands (equal, close, far, infinite, NaN).', 'Tabulation is of the symbolic comparison, over one representative for each outcome of its atomic tests.'),
'C34': ('Conservation: missing = wanted - members held, on every way round every loop; drop and removal conditions.', 'Early abandoning makes a distance of a dropped group or member only known to be at least the bound given (C15, C32); ties are free.'),
}

POST = '''
## 4. Why the families of tests cannot settle these and the analysis can

Tests fix an input, a schedule and a history.  The obligations above are per construct and hold for all of them: an inequality derived from dominating conditions covers
every index, a typestate covers every failing call on a path, an ownership argument covers every schedule, a loop range covers every shape of dataset.
`why_tests_cant` in properties.jsonl states it for each property.

## 5. The lemma behind C32

Let a and b be series, r the band, and let a warping path use only cells (i, j) with |i - j| <= r.  The path visits every row and every column.
For a row j of the common prefix pick one cell (i, j) of the path: |b_j - a_i| is at least the distance of b_j from the interval spanned by the points of a within r of j, which the
envelope at j encloses.  Cells picked for different rows differ.  Hence the sum of the squared excesses is at most the cost of the path, and it may be divided by the same
scale.  The end-point bound adds the cost of the first and the last cell, which every path uses and which are distinct unless both lengths are one.  The check establishes the premises: which
point is compared with which envelope entry, that the envelope loop keeps every undominated position of the window (queue states), that each
row is added at most once, that first and last cell are not both added when they coincide, and that scales agree.

## 6. Limits and weaknesses left in the repository (not violations of a stated property)

* `gAllDistanceMap` is initialised lazily without synchronisation; only the thread that calls the interface does so.
* The interface class and the dataset class are implicitly copyable although they own raw pointers; no caller copies them.
* Loading a second file into a dataset object keeps groups of the first; the interface cannot reach this.
* A representative that is NaN or infinite cannot be read back from the text group format (the load is refused).
* Between series whose lengths differ by more than the band the alignment runs through infinitely expensive cells.
* Envelopes and block averages become stale when the dataset is normalised afterwards.
* Experiment code that nothing calls (trillionDTW calculate, weighted Jaccard) is not judged by reachability-based checks.
* The command-line tool takes the number of hardware threads, which the standard allows to be 0.
* The values of block averages are not covered by a property.

## 7. Generic lints as a cross-reference

clang-tidy 18 (bugprone-*, clang-analyzer-*) gives 18 warnings: 8 dead stores, 4 implicit widenings of int products (the product is bounded by the size check when
loading), one false "missing comma", 2 leaks and 1 garbage value in code nothing calls, a switch without default, and an unused release() that is intended.
cppcheck gives 4: the same release() and 3 members not assigned in operator= (a cache whose validity flag is cleared).  None of them is a violation of a property, and none of the defects in section 8 was
reported by either tool.
'''


def main():
    out = [PRE]
    props = [json.loads(l) for l in read('properties.jsonl').splitlines()]
    man = json.loads(read('MANIFEST.json'))
    level = {c['property']: c for c in man['checks']}
    muts = {}
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools/mutants/*.txt'))):
        for l in open(f):
            if l.startswith('== '):
                n, ps, kind = [x.strip() for x in l[3:].split('|')[:3]]
                for q in re.split(r'[ ,]+', ps):
                    muts.setdefault(q, {}).setdefault(kind.split()[0], []).append(n)
    out.append('## 2. Properties and how each is decided\n\n')
    out.append('%d properties, %d decided by static analysis, %d not applicable.\n\n' % (len(props), len(level), len(man.get('not_applicable', []))))
    for p in props:
        i = p['id']
        doc = ast.get_docstring(ast.parse(read('engine/checks/%s.py' % i.lower())))
        oracle, lim = SPEC[i]
        m = muts.get(i, {})
        out.append('### %s %s\n\n%s\n\n' % (i, p['title'], p['statement']))
        out.append('*Analysed and how.* ' + doc + '\n\n')
        out.append('*Oracle.* %s\n\n*Bounds and assumptions.* No bound on inputs, lengths or schedules. %s\n\n' % (oracle, lim))
        out.append('*Reaches what tests cannot.* %s\n\n' % p['why_tests_cant'])
        out.append('*Tried on.* %d property-breaking variants of the tree (all reported) and %d behaviour-preserving ones (all quiet), besides the %d refactorings run against every check.\n\n'
                   % (len(m.get('bad', [])), len(m.get('good', [])), len(muts.get('ALL', {}).get('good', []))))
    for n in man.get('not_applicable', []):
        out.append('### %s not applicable: %s\n\n' % (n['property'], n['reason']))
    out.append('## 3. Seeded changes\n\nEach compiles, passes the stable tests and has a demo that fails with it.\n\n| seed | property | caught by | what it needs |\n|---|---|---|---|\n')
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
        s = json.load(open(d))
        out.append('| %s | %s | %s | %s |\n' % (d.split('/')[-2], s['property'], s['property'], s['needs']))
    out.append('''
Changes first planted and replaced because the existing tests already notice them: the diagonal left out of the trace-back, a `>` in the visiting order of lengths, the tail of the
envelope loop, and a band taken from the shorter length.

Beyond the seeds, `tools/mutants` holds variants of the sources as textual replacements; `tools/mut.py` applies each to a scratch copy and compares the verdict with the one expected.
A variant marked bad must be reported by its property's check, one marked good must be quiet.  Every check was developed against both kinds.
''')
    out.append(POST)
    out.append('\n## 8. Defects found on the unchanged tree\n\nEach was confirmed on the original code (by a small program, an input file or a sanitizer run where the failure can be observed, otherwise by reading the path reported) and repaired by its own commit in /repo.\n\n')
    for l in read('known_findings.txt').splitlines():
        if l.startswith('fixed:'):
            w = l.split(None, 3)
            out.append('* %s, %s: %s\n' % (w[1].split('=')[1], w[2], w[3]))
    kn = [l for l in read('known_findings.txt').splitlines() if l.startswith('known:')]
    out.append('\nKnown findings left in place: %s.\n' % ('; '.join(kn) if kn else 'none'))
    out.append(FALSE)
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(''.join(out))


FALSE = '''
## 9. False alarms corrected

Each check was run on behaviour-preserving variants of the code it judges (the entries marked good in `tools/mutants`): helpers extracted, loops rewritten (while, range-for,
iterators, counting down), conditions inverted or split, statements reordered, results collected in locals.  Where such a variant raised an alarm the machinery was corrected, never the list of
findings.  The last rounds, run with every check against every variant, led to these corrections:

* C01: a lookup that only reads the registry before the name is checked is no effect.
* C12, C13: the farthest candidate may be overwritten in place after pop_heap, and the bound may be chosen before the distance is computed.
* C15: a flag that remembers that the bound was exceeded.
* C17: an alignment built in a list of its own and transferred afterwards.
* C19: a member loop that counts down.
* C20: a range of a series chosen by a conditional before the series is made.
* C32: bounds scaled before the comparison, read as expressions over the reals.
* C02, C03: a dataset registered by inserting a pair, and a reference to its place in the registry.
* C07: the nearest group remembered itself instead of its position.
* C12, C13: fullness read off the size of the collection, with a heap kept from the first candidate on.
* C14: the best group and its distance kept as one pair.
* C15, C31: a flag in the loop condition, a helper written as a lambda, operands exchanged, a table cleared as a block of memory.

In the same round C14 was found to accept a range-for loop over the lengths that is left early; a loop over an iterator must now have one exit.

Variants that still raise an alarm, because the rule does not see why they are right: the grouped search flattened so that one loop serves both a full and a filling collection (C11, which
cannot tell that a group is held there), and values written out by walking a pointer along a row (C25, C30).

Statements made more precise because the tree was right and the wording was not: C05 (running out of memory aside), C15 (a value equal to the bound; for quotients what is established so
far), C17 (smallest neighbour instead of "computed inside the band"), C18 (envelopes a series keeps for itself), C22 (a fixed tiny tolerance), C23 (values changed from outside are not meant).
Statements made stronger once the analysis reached further: C26 (defaults), C28 (names and defaults), C31, C32 and C33 (written out in full).
'''

if __name__ == '__main__':
    main()
