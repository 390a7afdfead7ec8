#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, T, G, M, V = ('nephosem/core/handler.py', 'nephosem/core/terms.py', 'nephosem/core/graph.py', 'nephosem/core/matrix.py', 'nephosem/core/vocab.py')
Y, D, B = 'nephosem/models/typetoken.py', 'nephosem/models/deprel.py', 'nephosem/models/cbc.py'
X, U, W, S = 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py', 'nephosem/utils.py', 'nephosem/specutils/deputils.py'
CF, CI = 'nephosem/conf.py', 'nephosem/config.ini'

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


REF = ('reviewed-instance comparison of the attributed functions in a gated value-dependence normal form '
       '(value numbering of effects, guards, loop recurrences and results)')

prop('C01', 'Parallel runs count every corpus file exactly once',
     'Building a frequency list, a co-occurrence matrix or dependency matches, or retrieving tokens, gives the same result for every number of '
     'worker processes and every scheduling of them: that of processing each given corpus file exactly once. No file and no partial result of a '
     'worker is lost, processed twice or merged twice, also when there are fewer files than workers, one file, or the operation is repeated.',
     ['schedules', 'configurations', 'inputs'],
     'all numbers of workers and files, all interleavings of the worker processes, repeated calls on one handler',
     'the tests run one or two files with the default number of workers and see one schedule',
     [H, Y, D, W], [('job queue, one end marker per worker, results collected per worker', H), ('per-handler merge of partial results', Y),
                    ('dependency handler merge', D)],
     REF + ' (the worker protocol: job per file, end marker and result per worker, collection and merge); kept-state rules K1-K5',
     'the code of the protocol, for every schedule and input; the operating system primitives are assumed to behave as documented')
prop('C02', 'A failing worker process makes the call fail',
     'If processing any corpus file fails in a worker process, by an exception or by the death of the process, the public call raises an error in the '
     'calling process. It never returns a partial result as if it were complete, never swallows the error and never blocks for ever.',
     ['fault_sequences', 'schedules'], 'any file or job that fails, in any worker, at any point of the run',
     'no test makes a worker fail', [H, Y, D, B],
     [('exit code check of every worker before results are used', H), ('AsyncResult.get() of every pool job', B)],
     'rules X1 (worker exit codes decide about a raise), X2 (results of asynchronous calls are asked for with a call that raises), H2 (no new handler that swallows every error) + ' + REF,
     'that each path that uses results passes the failure check and that no handler swallows an error')
prop('C03', 'Context windows hold exactly the neighbours inside span and segment',
     'While a corpus file is scanned, every node is paired with exactly the items that are at most the left span before it and at most the right span '
     'after it in the same segment, each once, at the correct distance and side. Segment boundaries and ends of files cut the window on both sides, whatever '
     'the spans (also zero or longer than the segment) and whatever boundary settings are used.',
     ['inputs', 'configurations'], 'all sequences of corpus lines, all left and right spans, all boundary settings',
     'the tests use two tiny corpora with one span setting and no boundary machinery',
     [H, T, Y, D], [('sliding window with left and right queues', T), ('scan loop and flush at the end of a segment', H), ('boundary state machines', T)],
     REF + ' (scan loop, window queue operations and their order, boundary machines)', 'the scan loop and window code; not the contents of regular expressions supplied by the user')
prop('C04', 'Frequencies and co-occurrences are counted exactly',
     'A frequency list counts every matching corpus line once under its type, and a co-occurrence matrix holds, for each row and column item, the exact number '
     'of times the column item occurs in the window of the row item. Vocabularies given for rows or columns only restrict which pairs are counted; they '
     'never change the count of a pair that remains.',
     ['inputs', 'configurations'], 'all corpora, spans, row and column vocabularies and type formats',
     'the tests compare one small corpus with stored results', [Y, H, T, U],
     [('frequency and collocation handlers', Y), ('conversion of nested counts to a sparse matrix', U)], REF,
     'the counting code; restricted to what the normal form expresses')
prop('C05', 'Token retrieval finds every occurrence with its exact context',
     'Retrieving tokens for a set of types yields, for every occurrence of one of those types and of no other, exactly one token with a unique identifier that '
     'names its file and line. Each token carries exactly the context words of its window, left and right in order, and the token-by-context matrix built from it marks exactly these.',
     ['inputs', 'configurations', 'histories'], 'all corpora, queries, spans, context vocabularies and repeated retrievals',
     'no stable test retrieves tokens', [Y, T, H, U], [('token handler', Y), ('token and type nodes', T), ('conversion of nodes to a matrix', U)], REF,
     'the retrieval code; the identifier format of the corpus is taken from the settings')
prop('C06', 'Matrix rows and columns stay aligned with their labels',
     'For every matrix operation that selects, reorders, samples, drops, transposes, concatenates, merges or multiplies, the value found under a row label and a column '
     'label in the result is the value found under the same labels in the operands (or the documented combination). Labels, their order and the shape always agree with the data.',
     ['inputs', 'histories'], 'all matrices (sparse, dense, square), label lists, axes and chains of operations',
     'the tests use a few 3x3 or 4x4 matrices and one order of labels', [M, U, X],
     [('label lists and index maps of the matrix class', M), ('merging and conversion helpers', U)], REF + ' (index lists that select labels and data are the same terms as in the reviewed instance)',
     'that labels and data are selected by the same indices; library slicing is assumed to behave as documented')
prop('C07', 'Operations do not modify their operands or share state with them',
     'Computing with matrices, vocabularies, settings and type nodes never changes an operand or an argument of the caller unless the operation is documented as in place. '
     'Copies are independent: changing the copy never changes the original.',
     ['inputs', 'histories'], 'all operations, arguments and later modifications of the results',
     'the tests check results, not the operands afterwards', [M, V, X, U, T, CF],
     [('deepcopy of settings and labels', H), ('new matrices from operations', M)],
     'effect rule A1 (mutation effects of public operations on their arguments, transitively through helpers, within the reviewed set), kept-state rules K1-K5, kind rule (copies) + ' + REF,
     'stores and mutations visible in the code of the package; aliasing inside numpy and scipy calls is modelled for the calls in use only')
prop('C08', 'Merging partial results adds them up',
     'Merging matrices, frequency lists or type nodes gives for every item or pair of items the sum (or union of tokens) of the parts over the union of their labels, independent of how '
     'the data was divided. Items that occur in one part only keep their values; nothing is counted twice.',
     ['inputs', 'schedules'], 'all partitions of the data, including parts with disjoint, equal or empty label sets',
     'the tests merge two or three small matrices', [U, M, V, T, Y], [('merge helpers', U), ('merge and concatenate of matrices', M), ('increment', V)], REF,
     'the code of the merge operations')
prop('C09', 'Settings of the user take precedence over documented defaults',
     'Every setting that is read has the documented default, a settings file of the user overrides exactly the settings it names, and an explicit argument or key overrides both. '
     'Values get the documented type (spans, numbers, booleans, lists, column formats), and every component uses the settings it was given.',
     ['configurations'], 'all settings files, settings dictionaries and explicit arguments',
     'the tests use one settings dictionary', [CF, CI, H, Y, T], [('defaults file', CI), ('configuration loader', CF), ('handlers read their settings', H)],
     'key tables: S1 (options, values and types of the defaults file), S2 (settings keys are known), S3 (documented keys are still read), kind rule (settings keys, defaults) + ' + REF,
     'keys, defaults and precedence; not the meaning of free text values')
prop('C10', 'Temporary files stay in directories the run created',
     'Every file or directory that is removed, emptied or overwritten as temporary lies in a temporary directory that this run created for itself, below the configured path. Concurrent runs and other data of the user '
     'are never touched, and the temporary data of a run is removed when the run is over.',
     ['configurations', 'histories', 'schedules'], 'all settings of paths, all names of corpora and concurrent processes',
     'the tests look at results only', [H, Y, D, B, W], [('temporary directory with process id', H), ('clean-up helpers', W), ('directory of the clustering run', B)],
     'who-may-delete rules D1 (provenance of every path that is removed: def-use closure to a name made for this run or an argument) and D2 (no new remover) + ' + REF,
     'provenance of paths in the package; symbolic links planted by others are out of scope')
prop('C11', 'Results are reproducible: order never depends on hashing or timing',
     'For the same corpus, settings and arguments the labels of rows and columns, the order of tokens, their identifiers and all values are the same in every run. They do not depend on hash seeds, '
     'on the order in which the file system or the worker processes deliver files and results, or on addresses.',
     ['schedules', 'configurations', 'inputs'], 'all hash seeds, directory orders and worker schedules',
     'one run of a test sees one order', [U, W, Y, D, M, V, B], [('sorted labels', U), ('sorted file names', W)],
     'taint rule U1 (an unordered source - set, directory listing, completion order - does not fix an order without a sort), kind rule (sorting) + ' + REF,
     'orders fixed in the package; random sampling is excluded where it is the documented purpose')
prop('C12', 'Association measures are computed from the right contingency cells',
     'Every association measure combines, for every row and column item, the observed frequency, the two marginal frequencies and the total by its published formula, where the marginals are those '
     'of exactly that row and that column and the total is the one given or implied. The measure that is computed is the one that was asked for.',
     ['inputs'], 'all frequency matrices, marginal lists and measures', 'the tests compare two measures on one matrix',
     [X, Y], [('contingency cells and the measure functions', X)], REF + ' with linear-arithmetic normalisation and option tables',
     'the formulas as terms; floating point accuracy is not decided')
prop('C13', 'Every name, attribute and call the library relies on exists',
     'No operation of the public interface can fail because the code refers to a name, attribute, module member or keyword that does not exist, or calls a function of the package with arguments it does not take, '
     'on any path, including rarely used options and error paths.',
     ['programs', 'inputs', 'configurations'], 'all paths of all public modules',
     'the tests execute a fraction of the paths', [Y, M, V, T, G, H, X, U, W, S, B, D],
     [('imports, classes and call signatures', Y)], 'resolution rules N1-N7: scopes, attributes, imports, call signatures and library members over every live module; H1 (local read before assignment)',
     'resolution of names; receivers whose class is open at run time are decided by name only')
prop('C14', 'Unsupported options are rejected, never silently replaced',
     'An unknown measure, metric, axis, mode, operation, file format, item or malformed argument makes the operation raise an error. It is never answered with the result of another option, an unchanged operand or nothing.',
     ['inputs', 'configurations'], 'all values of option arguments', 'the tests pass valid options only', [X, M, U, V, T, W, G, B],
     [('validation branches', X), ('dispatch tables', M)], 'rule H3 (an explicit rejection - raise or assert - of the reviewed code is lost), kind rule (rejections) + ' + REF,
     'the rejections that exist in the reviewed code')
prop('C15', 'Dependency patterns match exactly the sub-trees they describe',
     'A pattern matches a sentence at exactly those combinations of words and relations that satisfy all node and edge conditions of the pattern, each match once, and the reported target and feature are those of the match. '
     'The counts in the matrix built from matches are the numbers of matches, restricted only by the given target and feature selections.',
     ['inputs', 'configurations', 'histories'], 'all sentences, patterns and selections, and repeated runs',
     'the tests use two sentences and four patterns', [G, D, S], [('tree matching', S), ('pattern graphs', G), ('handler', D)], REF,
     'the matching code; user supplied regular expressions are opaque')
prop('C16', 'Vocabulary operations keep exact frequencies',
     'Selecting, filtering, comparing, counting, incrementing, copying and combining vocabularies yields exactly the items that satisfy the request, each with its exact frequency. Membership, length, totals and iteration agree with each other, and selection never '
     'changes the vocabulary it starts from.',
     ['inputs', 'histories'], 'all vocabularies, thresholds, item lists and patterns', 'the tests use one vocabulary of a few items',
     [V, W], [('dictionary of frequencies', V)], REF, 'the code of the vocabulary class')
prop('C17', 'Text is read and written in the configured encoding',
     'Every corpus or input file is decoded with the configured input encoding and every result file is written in the configured output encoding, or in the encoding given by the caller. '
     'No operation silently uses the encoding of the platform or a fixed one instead.',
     ['configurations', 'inputs'], 'all encodings and files', 'the test corpora are ASCII', [H, Y, D, V, M, T, W],
     [('encoding attributes and arguments', H)], 'E1 (provenance of the encoding of every text file that is opened), E2 (direction), E3 (forwarding), kind rule (encodings) + ' + REF,
     'where the encoding of each open comes from')
prop('C18', 'Options given to a public operation reach the component that implements them',
     'Every option a public operation accepts influences what it documents: it is passed on, unchanged and to the right parameter, to the component that implements it, on every path, and an option that is not given has its documented default. '
     'No accepted option is ignored.',
     ['configurations', 'inputs'], 'all options of all operations on all paths', 'the tests leave most options at their defaults', [Y, D, M, B, V, G, X, H],
     [('keyword arguments passed on', Y)], 'F1 (forwarding edges, caller option to callee parameter, re-derived from the reviewed instances and required in the current tree), F2 (option liveness), defaults; ' + REF,
     'data dependence of arguments on options within the package')
prop('C19', 'Clustering by committee neither loses nor duplicates elements',
     'Every element passed to the clustering ends in a cluster or among the residues, committees consist only of given elements, duplicate committees are removed and no distinct committee is lost, with one process or several. '
     'Element indices always refer to the element they were computed for, at each level of the recursion.',
     ['inputs', 'schedules', 'configurations'], 'all matrices, thresholds, numbers of elements and processes', 'the tests cluster five or six elements',
     [B], [('three phases of the algorithm', B), ('translation of local to global indices', B)], REF, 'the code of the algorithm; scores are terms, their numerical values are not decided')
prop('C20', 'What is saved can be loaded again unchanged',
     'Every vocabulary, matrix, type node or dictionary that is saved in a supported format can be loaded by the corresponding operation with the same items, labels, order and values. '
     'Writer and reader agree on file names, fields, separators and formats.',
     ['inputs', 'configurations', 'histories'], 'all contents, formats and encodings', 'the tests save one vocabulary and one matrix', [W, V, M, T, B],
     [('writers and readers', W), ('matrix files and metadata', M), ('type node files', T)],
     REF + ' (writers and readers of each pair: fields, separators, suffixes and formats as terms)', 'the structural part: what is written where and read from where; not the float formatting of libraries')
prop('C21', 'Similarities, distances and token vectors use the right vectors',
     'Similarity and distance matrices, ranks, nearest neighbours and token vectors are computed between exactly the rows (or columns) asked for, and every entry stands at the labels of the two items it was computed from. '
     'Token vectors combine exactly the vectors of the context words of the token, weighted as given.',
     ['inputs'], 'all matrices, metrics, axes and weights', 'the tests cover one nearest neighbour query', [X, M, Y, U],
     [('distance and similarity functions', X), ('token weights and vectors', X)], REF + ' (with option tables for metrics and operations)', 'the terms; not numerical accuracy')
prop('C22', 'Corpus lines are interpreted by the configured line format',
     'Every corpus line that matches the line format yields the item whose type, token and collocate strings consist of the configured columns in the configured order with the configured connector, and other lines yield none. '
     'Word, separator and boundary lines are told apart as configured.',
     ['inputs', 'configurations'], 'all line formats, column orders and corpus lines', 'the tests use one line format', [T, Y, D, G],
     [('corpus formatter', T), ('item nodes', T)], REF, 'the column and format code; user supplied regular expressions are opaque')
prop('C23', 'Element access and filters of matrices select exactly what was asked',
     'Looking up, slicing, comparing with a threshold, counting, summing and dropping empty rows or columns of a matrix use exactly the cells, rows and columns that satisfy the request, for sparse, dense and square matrices alike. '
     'Explicit zeros, negative values and empty selections are treated as documented.',
     ['inputs'], 'all matrices, labels, thresholds and axes', 'the tests use small positive matrices', [M],
     [('comparison operators', M), ('selection and drop operations', M)], REF, 'the code of the operations; library calls are terms')

NA = [
    ('N01', 'Association scores are numerically accurate',
     'Association measures, similarities and distances are accurate to within a small relative error for all frequencies, including very large and very small ones.',
     ['inputs'], 'all frequency values', 'the tests compare a few values', [X],
     'the error of floating point operations over all inputs is a runtime quantity; no structural clause beyond the formula, which C12 and C21 decide'),
    ('N02', 'Clustering quality: committees are cohesive and well separated',
     'The committees found by the clustering maximise the average similarity of their members among the candidate clusters and differ pairwise by less than the given threshold.',
     ['inputs'], 'all similarity matrices', 'the tests look at one matrix', [B],
     'quantifies over scores computed at run time and over library clustering; only conservation and plumbing are structural (C19)'),
    ('N03', 'Memory use grows with the number of co-occurrence pairs, not with the corpus',
     'Counting a corpus needs memory proportional to the number of distinct types and pairs, and corpora larger than memory can be processed.',
     ['inputs'], 'all corpora', 'no test measures memory', [H, Y], 'memory use is a run-time quantity that no sound static bound in reach expresses for Python'),
    ('N04', 'Saved floating point values are loaded bit for bit',
     'Saving a matrix as text and loading it again returns exactly the same floating point numbers.',
     ['inputs'], 'all floating point values', 'one matrix of integers is saved', [M],
     'depends on the number formatting and parsing of pandas for all values; the structural part of the round trip is C20'),
    ('N05', 'Random sampling is uniform',
     'Sampling tokens or rows selects every subset of the requested size with the same probability.',
     ['inputs'], 'all sizes', 'one sample is taken', [M, T], 'a distribution over runs of a library generator; that the sample is drawn from the right items without modification is part of C05 and C06'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
            }) + '\n')
        for i, t, s, o, tx, w, fs, reason in NA:
            f.write(json.dumps({'id': i, 'title': t, 'statement': s, 'quantifier': {'over': o, 'text': tx}, 'why_tests_cant': w,
                                'anchors': {'files': fs, 'mechanism': [{'name': t, 'where': fs[0]}]}}) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 -c "import ast, symtable"',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
            'technique': p['technique'],
            'level': 'other',
            'level_note': 'static decision over the source: ' + p['note'],
        } for p in P],
        'not_applicable': [{'property': x[0], 'reason': x[-1]} for x in NA],
        'notes': 'No hooks. Every check parses /repo/nephosem on each run and executes none of it; see DESIGN.md.',
    }
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
