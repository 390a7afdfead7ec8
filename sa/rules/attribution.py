"""Which reviewed functions carry which property (fnmatch patterns on qualified names).

A property is attributed every function whose behaviour it rests on; a function may carry several
properties.  The legacy package nephosem/deprel (unused by the public API) carries none, except where
named."""
import fnmatch

H = 'nephosem.core.handler.'
T = 'nephosem.core.terms.'
G = 'nephosem.core.graph.'
M = 'nephosem.core.matrix.'
V = 'nephosem.core.vocab.Vocab.'
D = 'nephosem.models.deprel.'
Y = 'nephosem.models.typetoken.'
B = 'nephosem.models.cbc.'
X = 'nephosem.specutils.mxcalc.'
U = 'nephosem.specutils.mxutils.'
W = 'nephosem.utils.'
S = 'nephosem.specutils.deputils.'

HANDLERS = [Y + c for c in ('ItemFreqHandler.', 'ColFreqHandler.', 'TokenHandler.')] + [D + 'DepRelHandler.']
PAR = [H + 'Paralleler.*', H + 'BaseHandler.__init__', H + 'BaseHandler.process', H + 'BaseHandler.prepare_fnames',
       H + 'BaseHandler._do_process_job', H + 'BaseHandler._worker_loop*', H + 'BaseHandler._process_results']
for _h in HANDLERS:
    PAR += [_h + x for x in ('__init__', 'process', '_do_process_job', '_worker_loop*', '_process_results')]
WINDOW = [H + 'BaseHandler.update_one_file', H + 'BaseHandler.process_right_window', H + 'BaseHandler.update_one_match',
          Y + '*Handler.update_one_file', Y + '*Handler.process_right_window', T + 'Window.*']
MATRIX = [M + '*']

ATTR = {
    'C01': PAR + [Y + 'ItemFreqHandler.build_item_freq', Y + 'ColFreqHandler.build_col_freq', Y + 'TokenHandler.retrieve_tokens',
                  D + 'DepRelHandler.build_dependency', D + 'DepRelHandler.build_matrix_by_matches',
                  D + 'DepRelHandler.update_dep_rel', Y + 'ColFreqHandler.dict2matrix', Y + 'ColFreqHandler.nocolvocab',
                  Y + '*Handler.update_one_file', W + 'read_fnames', W + 'read_fnames_of_corpus', U + 'merge_matrix_dict',
                  V + 'increment', T + 'TypeNode.merge', T + 'TypeNode.append_token', G + 'MacroGraph.add_match'],
    'C02': PAR + [Y + '*Handler.update_one_file', D + 'DepRelHandler.update_dep_rel', Y + 'ItemFreqHandler.build_item_freq',
                  Y + 'ColFreqHandler.build_col_freq', Y + 'TokenHandler.retrieve_tokens', D + 'DepRelHandler.build_dependency',
                  B + 'cbc_step1_multicore', B + 'cbc_step1_call'],
    'C03': WINDOW + [T + 'CorpusFormatter.*bound_machine', T + 'CorpusFormatter.separator_line_machine',
                     T + 'CorpusFormatter.__init__', T + 'CorpusFormatter.match_line', D + 'read_sentence',
                     Y + '*Handler.update_one_match', Y + '*Handler.__init__', H + 'BaseHandler.__init__',
                     D + 'DepRelHandler.update_dep_rel'],
    'C04': WINDOW + [Y + 'ItemFreqHandler.*', Y + 'ColFreqHandler.*', H + 'BaseHandler.*', T + 'CorpusFormatter.*',
                     V + 'increment', V + '__contains__', V + '__init__', V + '_construct', V + 'get_dict', Y + 'TokenHandler.__init__',
                     U + 'transform_dict_to_spmatrix', U + 'merge_matrix_dict', Y + 'TypeVectorizer.*'],
    'C05': WINDOW + [W + 'read_fnames*', Y + 'TokenHandler.*', H + 'BaseHandler.*', T + 'TypeNode.*', T + 'TokenNode.*', T + 'ItemNode.*',
                     T + 'CorpusFormatter.*', U + 'transform_nodes_to_matrix', Y + 'TokenVectorizer.*',
                     Y + 'read_token_colloc', W + 'read_word_queries'],
    'C06': MATRIX + [U + '*', X + 'compute_token_vectors', X + 'dot_addition', X + 'dot_multiplication'],
    'C07': [M + '*', U + '*', X + '*', V + '*', T + 'CorpusFormatter.__init__', 'nephosem.conf.*', T + 'TypeNode.*',
            H + 'BaseHandler.__init__', H + 'Paralleler.__init__', Y + '*.__init__', Y + '*Vectorizer.*', Y + 'TypeToken.*',
            D + 'DepRelHandler.__init__'],
    'C08': [T + 'TypeNode.merge', T + 'TypeNode.append_token', V + 'increment', V + '__setitem__', V + 'sum*', V + 'merge*',
            U + 'merge*', U + 'transform_*', U + 'sum_of_cluster', U + 'centroid_of_cluster',
            M + '*Matrix.merge', M + '*Matrix.concatenate', M + 'SparseMatrix._merge_matrix_dict', M + 'merges_matrices',
            M + 'TypeTokenMatrix.sum', M + 'TypeTokenMatrix.__init__', M + 'SparseMatrix.__init__',
            H + '*._process_results', Y + '*._process_results', D + '*._process_results', G + 'MacroGraph.add_match',
            Y + 'ColFreqHandler.dict2matrix'],
    'C09': ['nephosem.conf.*', H + 'BaseHandler.__init__', H + 'Paralleler.__init__', H + 'Paralleler.subtmpdir',
            H + 'BaseHandler.prepare_fnames', Y + '*.__init__', Y + '*.get_settings', D + 'DepRelHandler.__init__',
            T + 'CorpusFormatter.__init__', T + 'Window.__init__', T + 'Window.init_span', W + 'read_fnames*'],
    'C10': [H + 'Paralleler.*', H + 'BaseHandler.__init__', H + 'BaseHandler.process', H + 'BaseHandler.prepare_fnames',
            Y + '*Handler.__init__', Y + '*Handler.process', Y + '*Handler._process_results', Y + '*Handler._worker_loop*',
            D + 'DepRelHandler.*', W + 'make_dir', W + 'clean_dir', B + 'cbc_step1_*', B + 'major_steps',
            B + 'CBC.*', W + 'SaveLoad.*', B + 'save_*', 'nephosem.logging.*', M + 'TypeTokenMatrix.save', M + 'TypeTokenMatrix.load'],
    'C11': PAR + [W + 'read_fnames', W + 'read_fnames_of_corpus', W + 'sort_dict', W + 'count_values', U + '*',
                  M + 'merges_matrices', M + 'reorder_matrix', M + '*Matrix.reorder', M + '*Matrix.merge', M + 'TypeTokenMatrix._reorder_verbose',
                  M + 'TypeTokenMatrix.sample', M + 'SparseMatrix._merge_matrix_dict', V + 'get_item_list', V + 'get_dict', V + 'select_*',
                  V + 'dataframe', V + '_construct', V + 'subvocab', V + 'keys', V + 'items', V + 'values',
                  Y + 'ColFreqHandler.*', Y + 'TokenHandler.*', Y + 'ItemFreqHandler.*', D + 'DepRelHandler.*', T + 'TypeNode.*', B + '*'],
    'C12': [X + 'compute_ppmi', X + 'compute_association', X + 'calc_association', X + 'pairwise_association', X + 'calc_pmi',
            X + 'calc_ppmi', X + 'calc_lik', X + 'calc_chisq', X + 'calc_zscore', X + 'calc_mi', X + 'calc_dice',
            X + 'calc_deltap*', X + 'calc_log_ratio', X + 'entropy', X + 'adjust_val', Y + 'TypeToken.compute_association',
            Y + 'build_tc_weight_matrix', Y + 'TypeVectorizer.*', Y + 'TokenVectorizer.generate_vectors', Y + 'TypeToken.*',
            M + 'TypeTokenMatrix.sum', M + 'TypeTokenMatrix.multiply', M + 'SparseMatrix.multiply'],
    'C14': [X + 'compute_*', X + 'calc_association', X + 'calc_distance', X + 'pairwise_association', X + 'dot_*', M + '*', U + 'merge*',
            T + 'CorpusFormatter.*', V + '*', 'nephosem.conf.*', W + '*', B + '*', H + 'Paralleler.__init__', H + 'BaseHandler.*',
            Y + '*.__init__', G + '*', D + 'DepRelHandler.*', Y + 'TypeVectorizer.*', Y + 'TokenVectorizer.*', Y + 'TypeToken.*'],
    'C15': [G + '*', D + '*', S + '*', T + 'Sentence.*', T + 'Path.*', T + 'PathTemplate.*'],
    'C16': [V + '*', Y + 'TypeToken.select_types', W + 'count_values', W + 'sort_dict', W + 'load_dict_*', W + 'save_dict_*'],
    'C17': [],     # filled by kind, see c17
    'C18': [],
    'C19': [B + '*', U + 'get_largest_k', U + 'centroid_of_cluster', U + 'sum_of_cluster'],
    'C20': [W + 'save_*', W + 'load_*', W + 'pickle', W + 'unpickle', W + 'SaveLoad.*', V + 'save', V + 'load', V + '__init__', V + '__getattr__',
            V + '_construct', T + 'TypeNode.save', T + 'TypeNode.load', T + 'TokenNode.*', M + 'TypeTokenMatrix.save', M + 'TypeTokenMatrix.load',
            M + 'TypeTokenMatrix.to_csv', M + 'TypeTokenMatrix.read_csv', M + 'TypeTokenMatrix.from_dataframe', M + '*.dataframe',
            M + '*Matrix.__init__', M + 'TypeTokenMatrix.meta_data', T + 'Path.save', T + 'Path.load', B + 'save_*', U + 'transform_*',
            M + 'TypeTokenMatrix.spmatrix_to_dict', V + 'make_type_file', V + 'dataframe', W + 'get_word_str', T + 'TypeNode.__init__'],
    'C21': [X + 'compute_distance', X + 'calc_distance', X + 'compute_cos*', X + 'compute_simrank', X + 'compute_token_*', X + 'dot_*',
            Y + 'TypeToken.compute_*', Y + 'TokenVectorizer.*', Y + 'build_tc_weight_matrix', M + '*Matrix.most_similar',
            M + 'BaseMatrix.svd', U + 'get_largest_k', U + 'get_smallest_k', M + '*Matrix.controid', U + 'centroid_of_cluster',
            M + 'TypeTokenMatrix.multiply', M + 'SparseMatrix.multiply', M + 'NormalMatrix.multiply', U + 'merge_*'],
    'C22': [H + 'BaseHandler.update_one_file', H + 'BaseHandler.update_one_match', T + 'CorpusFormatter.*', T + 'ItemNode.*', T + 'Getter.*', T + 'Sentence.*', D + 'read_sentence', T + 'TypeNode.__init__', T + 'TypeNode.type',
            T + 'TokenNode.*', G + 'SentenceGraph.__init__', G + 'SentenceGraph.build_graph', G + 'SentenceGraph.generate_graph',
            Y + '*Handler.update_one_match', Y + 'ItemFreqHandler.update_one_file', D + 'DepRelHandler.update_dep_rel*'],
    'C23': [M + '*__lt__', M + '*__le__', M + '*__gt__', M + '*__ge__', M + '*__getitem__', M + '*_get_value', M + '*_operator_positive',
            M + '*empty*', M + '*drop*', M + '*submatrix', M + '*count_nonzero', M + '*sum', M + '*get_colloc_contexts', M + '*.equal',
            M + '*.sample', M + '*.todense', M + '*.spmatrix_to_dict', M + '*.dataframe', M + 'TypeTokenMatrix.__init__',
            M + 'SparseMatrix.__init__', M + 'NormalMatrix.__init__', M + 'SquareMatrix.__init__', M + 'check_symmetric', M + '*.shape',
            M + '*2rowid', M + '*2colid', M + '*rowid2item', M + '*colid2item', M + '*.get_matrix', M + 'reorder_matrix',
            M + '*.most_similar'],
}


def attributed(prop, quals):
    pats = ATTR[prop]
    return sorted(q for q in quals if any(fnmatch.fnmatchcase(q, p) for p in pats))
