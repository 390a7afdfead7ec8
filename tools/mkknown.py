#!/usr/bin/env python3
"""writes known_findings.json (run once when a fix is committed; never at check time)"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = {
    '6b264d9': ('C18', 'the committee clustering failed unless the association and distance matrices were given'),
    'ea6f9c4': ('C19', 'elements that were merged to a committee in the last step were in no committee and no residue'),
    '0380774': ('C10', 'packing and unpacking a matrix overwrote and deleted the files of an unpacked matrix of the same name'),
    '7569664': ('C20', 'a dense matrix saved over a sparse one was loaded as the old sparse matrix'),
    '0eb153c': ('C17', 'the first clustering step failed on elements outside the platform encoding'),
    '7b3d772': ('C19', 'duplicate clusters that are not adjacent removed each other and the committee was lost'),
    '161407c': ('C20', 'items with leading or trailing white space were changed when a plain frequency list was loaded'),
    'fcd98bc': ('C05', 'tokens of an earlier retrieve_tokens call were retrieved again by every worker'),
    '9949b63': ('C17', 'committees and residues with characters outside the platform encoding could not be written'),
    'de0d5cb': ('C10', 'clustering runs which started in the same minute deleted the temporary files of each other'),
    'fb28e45': ('C19', 'no process was started for the first clustering step on a single-core machine'),
    '7ae240e': ('C19', 'clusters got lost when a process of the pool executed several jobs or failed'),
    '221112a': ('C19', 'elements were lost when a recursion of the clustering failed'),
    '02ba6ca': ('C19', 'clustering without any cluster failed on the return value of the second step'),
    'd006072': ('C18', 'the option highest_score of the clustering had no effect on the first step'),
    '90c7d92': ('C17', 'templates were read in the platform encoding instead of the given one'),
    '27657e1': ('C13', 'MacroGraph.read_csv passed an argument that the reader does not take'),
    '6d3a822': ('C15', 'empty sentences between consecutive separator lines made the dependency run fail'),
    '84a3897': ('C15', 'matches of an earlier build_dependency call were counted again'),
    '4f9531c': ('C15', 'without targets the dependency handler matched nothing'),
    '9f7a748': ('C13', 'reordering with verbose output called a method that does not exist'),
    '6288ce1': ('C20', 'a saved type node was loaded without its tokens'),
    '215c177': ('C05', 'sampling tokens of a type node which was made from a type string failed'),
    'a32238c': ('C03', 'separator lines were taken as words with the left-right boundary setting'),
    '9718f14': ('C14', 'an unknown boundary setting was not looked up and silently replaced'),
    '48ee5e5': ('C07', 'the corpus formatter changed the settings of the caller'),
    '984d8ed': ('C05', 'the token vectorizer looked up types in the token matrix'),
    'ad50da7': ('C13', 'compute_association was called without its required marginal frequencies'),
    '950412d': ('C17', 'the setting of the output encoding was looked up under a name that does not exist'),
    '9a7d8b0': ('C18', 'the given corpus name was replaced by the name of the corpus directory'),
    '2fa9cce': ('C20', 'frequencies like 1e-05 could not be loaded from a plain text file'),
    '284f3d4': ('C01', 'names of a file list without a corpus directory became absolute paths'),
    '79a0bf0': ('C11', 'the order of corpus files depended on the file system'),
    '5a1c4ed': ('C11', 'the order of the columns of token matrices depended on the hash seed'),
    '2b19c05': ('C08', 'merging cast all values to the type of the first one'),
    '99a3640': ('C21', 'element-wise multiplication of token vectors skipped nonzero values of the second matrix'),
    '9eba4c5': ('C13', 'numpy.bool does not exist any more'),
    'c52dc66': ('C14', "the accepted metric 'cos' of compute_distance failed"),
    '7493464': ('C12', 'association measures without the total frequency failed'),
    '228c028': ('C12', 'association measures of matrices with one row or column failed or mixed up the marginals'),
    '7edc354': ('C12', 'PPMI without marginal frequencies failed'),
    'df50a2e': ('C23', 'multiplication by another matrix was wrong when the sparse matrix had explicit zeros'),
    '7b146f1': ('C13', 'drop_zero_rows and drop_zero_cols called a method that does not exist'),
    'e0da4d7': ('C13', 'spmatrix_to_dict used an undefined name'),
    '1666043': ('C13', 'conversions to data frames used removed pandas functions'),
    'aea4e27': ('C23', 'sums and counts of matrices with one row or column had the wrong shape'),
    '6c41b05': ('C20', 'a transposed sparse matrix was saved in a format that is loaded wrongly'),
    '66b7ba1': ('C17', 'a sub-vocabulary lost the encoding of its vocabulary'),
    '12a4bfe': ('C20', 'a vocabulary could not be copied or unpickled'),
    'dfe1fba': ('C18', 'the corpus directory and the encoding did not reach the reader of the file list'),
    'a3583d5': ('C10', 'creating a handler deleted everything below ~/tmp'),
    '5fbbfaf': ('C09', 'without tmp-path and output-path no temporary directory was chosen'),
    '6d1d2c4': ('C01', 'no worker was started on a single-core machine'),
    '230c282': ('C02', 'a failing worker process made the call hang or return a partial result'),
    '555bc19': ('C03', 'token retrieval failed with a right span of zero'),
    '1798ce0': ('C03', 'the last node of a segment not longer than the right span was not counted'),
    'd6aa7b1': ('C01', 'token results beyond the number of files were lost'),
}
OLD = 'the class is left over from an earlier interface (its other arguments do not exist any more either)'
KNOWN = [
    ('C13', 'N1', 'nephosem.core.vocab:WordDict', 'Vocab.select_subsets uses a class that no module defines; repairing it means designing that class'),
] + [('C13', 'N1', 'nephosem.models.typetoken:' + n, 'TypeToken refers to %s, which no module provides; %s' % (n, OLD)) for n in (
    'ItemFreqManager', 'ColFreqManager', 'TokenManager', 'build_token_weights', 'build_token_vectors', 'get_word_str', 'TokenScanner')]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %H %s'], capture_output=True, text=True).stdout.splitlines()
    out = []
    have = set()
    for line in log:
        h, full, s = line.split(' ', 2)
        if not s.startswith('fix:'):
            continue
        k = next((k for k in FIX if full.startswith(k)), None)
        if k is None:
            raise SystemExit('no entry for %s' % line)
        have.add(k)
        p, w = FIX[k]
        out.append({'status': 'fixed', 'property': p, 'commit': full, 'what': w, 'entry': 'fixed: property=%s %s %s' % (p, full, w)})
    if set(FIX) - have:
        raise SystemExit('unknown commits %s' % (set(FIX) - have))
    for p, r, c, w in KNOWN:
        out.append({'status': 'known', 'property': p, 'rule': r, 'construct': c, 'what': w})
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
