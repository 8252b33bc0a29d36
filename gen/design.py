#!/usr/bin/env python3
# writes the table of properties of DESIGN.md (between the markers) from the tables of the machinery
import json, os, sys, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'engine'))
import anchors, rules, verdict
V = verdict.Verdict(os.path.join(H, 'model'))
NOTE = {
 'C01': 'register/unregister of both kinds, the id-indexed lookups and their C forms: where in the sparse table the slot is taken (first hole, or a new one at the end), what is written to the info, what a lookup beyond the end or in a hole gives.',
 'C02': 'the scan over the registered names made before anything changes, both with and without duplicates allowed, lookups by name, and the string comparison they use.',
 'C03': 'the refusals (domain of the info, registered already, not registered here) come before the first change of memory on every path.',
 'C04': 'sorted insertion, removal, lookup by name, match functions.', 'C05': 'reference counts of rules, forgetting of queries, and the revision test before a query is remembered (values read under a lock which was given up and taken again are unknown again, so a stale value is told from a fresh one).',
 'C06': 'removal of dependencies, order of rules, repetition until a pass changes nothing, bound of the passes, the error of a rule.', 'C07': 'lookup by query, by mixins, creation; the second lookup under the exclusive lock.', 'C08': 'the validation which comes before the type exists.',
 'C10': 'sparse index tables: writing them (create_type) and reading them within bounds (index_of and all its forms).', 'C11': 'the running offset: alignment, room for the object pointer, end within the size.', 'C12': 'the sum of the table sizes, the place and length of each, release with the same size.',
 'C13': 'building of the feature table: sorting key, top-bid end, clash test; the two passes (count, fill) see the same mixins.', 'C14': 'the searches for the next implementer and the next set.', 'C15': 'all forms of implements.', 'C16': 'comparators.',
 'C17': 'both loops of the collection.', 'C18': 'both loops of unregistering.', 'C19': 'the count next to the allocation it counts; exceptional exits of the allocation.',
 'C20': 'all functions of the mutation, with a throw possible at every call of user code or of an allocator: what the exceptional exits have done to memory, which destroy and release calls were made.', 'C21': 'the finishing part: which calls are made for common, new and removed mixins, in what order, on which addresses.',
 'C22': 'the sequence of allocate, construct, destroy and release calls on every path, including exceptional ones.', 'C23': 'arguments of each release call against those of the allocation (same info, same allocator, same size and alignment terms).',
 'C24': 'the test of the seal comes before any change.', 'C25': 'the store of the object pointer before each mixin, and its recomputation on moves.', 'C26': 'moves.', 'C27': 'copies, the checks which precede them.', 'C28': 'matching copies and moves, the checks which precede them.', 'C29': 'loops over both mixin lists.', 'C30': 'all getters.',
 'C31': 'the piecewise interface: index tests, the calls in between.', 'C32': 'error results of user functions on each path lead to the exceptional exit.', 'C33': 'every call through an optional pointer lies on paths where it is not null.',
 'C34': 'message templates, instantiated by the drivers for const/non-const objects, void and value results, values and references as arguments.', 'C35': 'the same for multicast, and combinators.', 'C36': 'the path where no mixin implements the message.', 'C37': 'next implementer templates.',
 'C38': 'each function of the builders, instantiated by the drivers.', 'C39': 'constructors and destructors of the static instances, and what the macros expand to.', 'C40': 'a matrix of 12 classes with and without each capability, instantiated by a driver: which fields of the info are set, to functions which do what.', 'C41': 'shared handles and what the payload pointers refer to.',
 'C42': 'each edit and query of type mutations.', 'C43': 'the operations (instantiated by a driver for info, name and class, with functions and arguments), and gradual mutations with and without an exception in flight.', 'C44': 'the rule functions made.',
 'C45': 'lockset analysis: flow-sensitive in functions, context-sensitive over calls from every entry; each access (also through references, iterators and pointers obtained from a registry) and the locks held there.',
 'C46': 'the same analysis: every acquisition with the locks held, the order graph, calls through function pointers under an exclusive lock.',
 'C48': 'exceptions of library and standard functions are alternatives of each call; the outcomes of every C function; and, as a rule for all functions of the C interface including new ones, exceptions which reach the end of a C function over the call graph and the handlers.',
 'C49': 'C functions against what they call; every declaration of a header has a definition.', 'C51': 'string view functions in C and C++.', 'C52': 'C and C++ views of ids, infos and constants (macro uses in drivers compiled as C and as C++).', 'C53': 'bytewise functions.', 'C55': 'tuples of several element categories.', 'C56': 'combinators.', 'C57': 'version 1 rules.', 'C58': 'memory resources.', 'C59': 'construction of domains, settings builder.',
 'C60': 'a file of assertions over the types, which fails to compile with any tree where one of the classes can be copied or moved.', 'C61': 'exceptions which reach the end of a noexcept function (destructors included) over the call graph and the handlers.', 'C62': 'the exception made and thrown by each raising function; assertions over the types for the hierarchy.', 'C63': 'trait queries.', 'C64': 'traversal functions.',
}
out = ['| id | property | decided by | what is looked at |', '|---|---|---|---|']
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    how = []
    if i in anchors.ANCHORS: how.append('cross-check of %d functions' % len(V.select(anchors.ANCHORS[i], i)))
    how += ['rule: ' + n for n, _ in rules.RULES.get(i, [])]
    if not how: how = ['not applicable']
    out.append('| %s | %s | %s | %s |' % (i, p['title'], '; '.join(how), NOTE.get(i, '')))
d = open(os.path.join(H, 'DESIGN.md')).read()
a, b = '<!-- table -->', '<!-- /table -->'
d = d[:d.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + d[d.index(b):]
open(os.path.join(H, 'DESIGN.md'), 'w').write(d)
