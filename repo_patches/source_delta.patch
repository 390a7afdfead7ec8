From d6aa7b12805345af8538f8be674df3dac9fbb4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 01/57] fix: retrieve the tokens of every worker, not only the
 first len(fnames) results

---
 nephosem/models/typetoken.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index b16b9de..829078f 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -644,7 +644,9 @@ class TokenHandler(BaseHandler):
         type2toks = defaultdict(list)
         logger.info("Merging results")
 
-        for _ in trange(n):
+        # besides the progress indicators, every worker (even an idle one) puts its `type2toks`,
+        # so the number of results could be larger than the number of files: get all of them
+        for _ in trange(res_queue.qsize()):
             res = res_queue.get()
             # when data in res_queue is a `type2toks` dict
             if isinstance(res, dict):
-- 
2.43.0


From 1798ce0d2f758c8335096342a59729e299fddd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 02/57] fix: count the last node of a segment which is not
 longer than the right span

---
 nephosem/models/typetoken.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 829078f..24c6f90 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -433,10 +433,9 @@ class ColFreqHandler(BaseHandler):
             while win.node is None and i < win.right_span:
                 win.update(None)
                 i += 1
-            while win.node and i < win.right_span:
+            while win.node:
                 self.update_one_match(matrix, win)
                 win.update(None)
-                i += 1
             return
 
         # normal cases:
-- 
2.43.0


From 555bc19f1f7e4fd8e1ca216df3c34869b4be1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 03/57] fix: token retrieval with a right span of zero

---
 nephosem/models/typetoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 24c6f90..b065608 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -623,7 +623,7 @@ class TokenHandler(BaseHandler):
         # handle special cases:
         # [None, ..., None] None [None, .., match, match, .., match]
         # TODO: check                                           ^ must be not None???
-        if win.node is None and win.right[-1] is not None:
+        if win.node is None and win.right_span > 0 and win.right[-1] is not None:
             # update at most right_span times
             while win.node is None:
                 win.update(None)
-- 
2.43.0


From 230c28214574e14f77d3bbbbe6439b543f075217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 04/57] fix: raise an error when a worker process fails instead
 of hanging or returning partial results

---
 nephosem/core/handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 616e9a0..345b934 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -148,6 +148,11 @@ class Paralleler(object):
         for worker in workers:
             worker.join()
 
+        # a worker which died could not return (all) its results
+        failed = [worker.exitcode for worker in workers if worker.exitcode != 0]
+        if failed:
+            raise RuntimeError("{} worker process(es) failed with exit codes: {}".format(len(failed), failed))
+
         # merge results of different sub-processes
         result = self._process_results(res_queue, n=len(fnames))
         
-- 
2.43.0


From 6d1d2c445a181a5a86d9217c29cc1b18b48035d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 05/57] fix: use at least one worker process on a single-core
 machine

---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 345b934..e786647 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -85,7 +85,7 @@ class Paralleler(object):
 
     def __init__(self, workers=0, **kwargs):
         # the number of CPU cores used by the program
-        self.workers = workers if 0 < workers < mp.cpu_count() else mp.cpu_count()-1
+        self.workers = workers if 0 < workers < mp.cpu_count() else max(1, mp.cpu_count()-1)
         # add other possible arguments to the `__dict__` of the class
         self.__dict__.update(kwargs)
         # set default tmpdir
-- 
2.43.0


From 5fbbfafd89d7b5e05024d98f44e16da7a5fcb340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 06/57] fix: choose the temporary directory when neither
 tmp-path nor output-path is set

---
 nephosem/core/handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index e786647..d2ed4c5 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -260,8 +260,8 @@ class BaseHandler(Paralleler):
         if 'tmp-path' not in self.settings:
             # if 'tmp-path' is not set in the settings
             logger.warning("Not provide the temporary path!")
-            if 'output-path' not in self.settings:
-                # if 'output-path' is not set in the settings, use /output-path/tmp
+            if 'output-path' in self.settings:
+                # if 'output-path' is set in the settings, use /output-path/tmp
                 _tmpdir = os.path.join(self.settings['output-path'], 'tmp')
                 logger.warning("Use a sub tmp directory of the output-path: '/output-path/tmp'!")
             else:
-- 
2.43.0


From a3583d5e7f55c21b2d898cff255cc4a4cb263863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 07/57] fix: do not delete everything under ~/tmp when a
 handler is created

---
 nephosem/core/handler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index d2ed4c5..05f6573 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -42,7 +42,7 @@ import multiprocessing as mp
 import nephosem
 from nephosem import progbar, trange
 from nephosem.core.terms import CorpusFormatter, Window
-from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir, clean_dir
+from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir
 
 logger = logging.getLogger(__name__)
 homedir = os.path.expanduser('~')
@@ -91,7 +91,6 @@ class Paralleler(object):
         # set default tmpdir
         self.tmpdir = nephosem.tmpdir
         make_dir(self.tmpdir)
-        clean_dir(self.tmpdir)
 
     @property
     def pid(self):
-- 
2.43.0


From dfe1fba41c6d9fecd224376169e3caafcc89d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 08/57] fix: pass the corpus directory and the encoding to
 read_fnames

---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 05f6573..46a87a5 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -295,7 +295,7 @@ class BaseHandler(Paralleler):
                 pass  # do nothing, already a list of (string) file names
             elif isinstance(fnames, str):
                 # read file names recorded in the `fnames` ('xx.fnames') file
-                fnames = read_fnames(fnames, self.encoding)
+                fnames = read_fnames(fnames, dirname=self.corpus_path or '', encoding=self.encoding)
             else:
                 raise ValueError("Not support other types of 'fnames' (only str or a list of strings)!")
         if len(fnames) <= 0:
-- 
2.43.0


From 12a4bfe7e0c0fc13dc4ce764e15dd37de6bc4cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 09/57] fix: raise AttributeError for unknown Vocab attributes,
 so that a Vocab can be copied and unpickled

---
 nephosem/core/vocab.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index a76d0c3..5610ad9 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -182,6 +182,7 @@ class Vocab(object):
         # so vocab.freq returns itself
         if item == 'freq':
             return self
+        raise AttributeError("'Vocab' object has no attribute '{}'".format(item))
 
     def __lt__(self, arg):
         if isinstance(arg, int) or isinstance(arg, float):
-- 
2.43.0


From 66b7ba13c37be5ef64401333c5dae5be90b4a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 10/57] fix: keep the encoding in Vocab.subvocab

---
 nephosem/core/vocab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index 5610ad9..f53eb0e 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -317,7 +317,7 @@ class Vocab(object):
         sub_vocab = dict()
         for it in items:
             sub_vocab[it] = self.freq_dict.get(it, 0)
-        return self.__class__(sub_vocab)
+        return self.__class__(sub_vocab, encoding=self.encoding)
 
     # ------- filter methods -------
     @staticmethod
-- 
2.43.0


From 6c41b05bff3aae7061621bdc60238e32bb00bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 11/57] fix: save sparse matrices of every format (e.g. a
 transposed matrix) as csr, which is what load() reads

---
 nephosem/core/matrix.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 9ee1bf9..9337c08 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1341,11 +1341,12 @@ class TypeTokenMatrix(BaseMatrix):
 
         if isinstance(self.matrix, sp.spmatrix):
             mx_fname = "{}.npz".format(basename)
+            csrmx = self.matrix.tocsr()  # load() always reads a csr matrix
             np.savez(mx_fname,
-                     data=self.matrix.data,
-                     indices=self.matrix.indices,
-                     indptr=self.matrix.indptr,
-                     shape=self.matrix.shape)
+                     data=csrmx.data,
+                     indices=csrmx.indices,
+                     indptr=csrmx.indptr,
+                     shape=csrmx.shape)
         elif isinstance(self.matrix, np.ndarray):
             mx_fname = "{}.npy".format(basename)
             np.save(mx_fname, self.matrix)
-- 
2.43.0


From aea4e279595080ae38f44eead2f704b07c4c7a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 12/57] fix: sum and count nonzero values of matrices with a
 single row or column

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 9337c08..5945dee 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -865,7 +865,7 @@ class TypeTokenMatrix(BaseMatrix):
             return self.matrix.sum()
         items = self.row_items if axis == 1 else self.col_items
         # sum of each rows / columns of matrix (normally collocate frequency matrix)
-        sums = np.squeeze(np.asarray(self.matrix.sum(axis=axis))).tolist()
+        sums = np.asarray(self.matrix.sum(axis=axis)).ravel().tolist()
         freq_dict = {k: v for k, v in zip(items, sums)}
         return freq_dict
 
@@ -1126,7 +1126,7 @@ class TypeTokenMatrix(BaseMatrix):
     def count_nonzero(self, axis=0):
         """Count the number of nonzero values for each row or each column."""
         nonzeros = (self.matrix != 0).sum(axis=(1-axis))
-        nonzeros = np.squeeze(np.asarray(nonzeros))
+        nonzeros = np.asarray(nonzeros).ravel()
         return nonzeros
 
     def drop(self, axis=0, n_nonzero=0, **kwargs):
-- 
2.43.0


From 16660433dc760a84cc8843aab6f1d64e0855d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 13/57] fix: replace removed pandas functions in the DataFrame
 conversions

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 5945dee..a979e7f 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -152,7 +152,7 @@ class SparseMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.SparseDataFrame(self.matrix).to_dense()
+        return pd.DataFrame(self.matrix.toarray())
 
     def __getitem__(self, arg):
         return self._get_value(arg)
@@ -1308,7 +1308,7 @@ class TypeTokenMatrix(BaseMatrix):
     def from_dataframe(cls, df, issparse=True):
         row_items = df.index.tolist()
         col_items = df.columns.tolist()
-        mx = df.as_matrix()
+        mx = df.values
         if issparse:
             mx = sp.csr_matrix(mx)
         return cls(mx, row_items, col_items)
-- 
2.43.0


From e0da4d7eacdaccc7826062d69bf6e7d0413506e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 14/57] fix: undefined name in spmatrix_to_dict

---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index a979e7f..dbc9fee 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1501,4 +1501,4 @@ class TypeTokenMatrix(BaseMatrix):
 
     def spmatrix_to_dict(self):
         """Only for sparse matrix"""
-        return transform_spmatrix_to_dict(self.matrix, self.row_items, self.col_items)
+        return mxutils.transform_spmatrix_to_dict(self.matrix, self.row_items, self.col_items)
-- 
2.43.0


From 7b146f14cc4dd438d279afb316d37ad3e245f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 15/57] fix: wrong method name in drop_zero_rows and
 drop_zero_cols

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index dbc9fee..751fc44 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -351,7 +351,7 @@ class SparseMatrix(BaseMatrix):
     def drop_zero_rows(self):
         """Drop rows with only zero values and return the dropped matrix"""
         if not isinstance(self.matrix, sp.coo_matrix):
-            coomx = self.matrix.to_coo()
+            coomx = self.matrix.tocoo()
         else:
             coomx = self.matrix
         nz_rows, new_row = np.unique(coomx.row, return_inverse=True)
@@ -361,7 +361,7 @@ class SparseMatrix(BaseMatrix):
     def drop_zero_cols(self):
         """Drop columns with only zero values and return the dropped matrix"""
         if not isinstance(self.matrix, sp.coo_matrix):
-            coomx = self.matrix.to_coo()
+            coomx = self.matrix.tocoo()
         else:
             coomx = self.matrix
         nz_cols, new_col = np.unique(coomx.col, return_inverse=True)
-- 
2.43.0


From df50a2e0ccb7a9da6dbb13e5ff0b5e434e70d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 16/57] fix: multiply by the values of the other matrix when a
 sparse matrix has explicit zeros

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 751fc44..fc331cb 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -191,13 +191,13 @@ class SparseMatrix(BaseMatrix):
             coomx = self.matrix.tocoo(copy=True)
             row, col, data = coomx.row, coomx.col, coomx.data
             othercoo = other.tocoo(copy=True)
-            mask_pairs = {(r, c) for r, c in zip(othercoo.row, othercoo.col)}
+            mask_pairs = {(r, c): v for r, c, v in zip(othercoo.row, othercoo.col, othercoo.data)}
             masked_row, masked_col, masked_data = [], [], []
             for r, c, d in zip(row, col, data):
                 if (r, c) in mask_pairs:
                     masked_row.append(r)
                     masked_col.append(c)
-                    masked_data.append(d)
+                    masked_data.append(d * mask_pairs[(r, c)])
             masked_row, masked_col, masked_data = np.array(masked_row), np.array(masked_col), np.array(masked_data)
             masked_mtx = sp.csr_matrix(
                             (masked_data, (masked_row, masked_col)),
-- 
2.43.0


From 7edc3549d37b44ce46033b9edef7bb5e4190bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 17/57] fix: compute_ppmi without marginal frequencies

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 5f52e36..eaf6fca 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -42,8 +42,8 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
     """This method is faster than `compute_association()`.
     Set positive to False to get pmi values.
     """
-    tot_sum = float(nfreq.sum())
     freqmx = freqMTX.matrix
+    tot_sum = float(freqmx.sum() if nfreq is None else nfreq.sum())
     # select frequencies of row items / column items of freqMTX
     # from nfreq and cfreq
     if nfreq is None:
-- 
2.43.0


From 228c0281ef234cfec5327a038979cc986449bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 18/57] fix: association measures of matrices with a single row
 or column

---
 nephosem/specutils/mxcalc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index eaf6fca..b9606f8 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -48,12 +48,12 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
     # from nfreq and cfreq
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
         row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items])
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
         col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items])
 
@@ -155,12 +155,12 @@ def calc_association(freqmx, nfreq=None, cfreq=None, N=None, meas='ppmi'):
     # we are calculating on a subset of the complete matrix
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
         row_sum_vec = np.array(nfreq) if isinstance(nfreq, list) else nfreq
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
         col_sum_vec = np.array(cfreq) if isinstance(cfreq, list) else cfreq
 
-- 
2.43.0


From 7493464b3e86a787b32055db657be18b1d4de638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 19/57] fix: calc_association without the total frequency

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index b9606f8..266a3ca 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -165,7 +165,7 @@ def calc_association(freqmx, nfreq=None, cfreq=None, N=None, meas='ppmi'):
         col_sum_vec = np.array(cfreq) if isinstance(cfreq, list) else cfreq
 
     # tot_sum = float(row_sum_vec.sum())
-    tot_sum = N  # total frequency, row_sum_vec.sum() should be equal to col_sum_vec.sum()
+    tot_sum = max(row_sum_vec.sum(), col_sum_vec.sum()) if N is None else N  # total frequency, row_sum_vec.sum() should be equal to col_sum_vec.sum()
     freqmx = freqmx.tocoo()  # transform to COOrdinate format, for easier usage
     row = freqmx.row  # -> stores row indices of values in csr_matrix
     col = freqmx.col  # -> stores column indices of values in csr_matrix
-- 
2.43.0


From c52dc6660a6ad26ccaa190d68800c688966fed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 20/57] fix: compute_distance with the accepted metric 'cos'

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 266a3ca..184a6bb 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -387,7 +387,7 @@ def compute_distance(measMTX, axis=0, metric='cosine'):
 
 def calc_distance(measmx, metric='cosine'):
     """Call sklearn.metrics.pairwise_distances function to calculate distance matrix."""
-    distmx = pairwise_distances(measmx, metric=metric)
+    distmx = pairwise_distances(measmx, metric='cosine' if metric == 'cos' else metric)
     return distmx
 
 
-- 
2.43.0


From 9eba4c559599a8f3a50079253bba9f85b135b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 21/57] fix: np.bool does not exist any more in
 compute_token_weights

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 184a6bb..11ac775 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -506,7 +506,7 @@ def compute_token_weights(tcPositionMTX, twMTX, booleanize = True, tokenFormat='
     missing_types = []
     tokens = tcPositionMTX.row_items
     types = set(twMTX.row_items)  # set of target types
-    tcmx_type = np.bool if booleanize else tcPositionMTX.matrix.dtype
+    tcmx_type = bool if booleanize else tcPositionMTX.matrix.dtype
     bool_tcmx = tcPositionMTX.matrix.astype(tcmx_type, copy=True).toarray()
     twmx = twMTX.matrix.toarray()  # transform to dense matrix (numpy.ndarray)
     resmx = np.zeros(bool_tcmx.shape)
-- 
2.43.0


From 99a36404ba5e4007d8932493037ffdbb8278426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 22/57] fix: dot_multiplication skipped the nonzero values of
 the second matrix

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 11ac775..a6dda0b 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -615,7 +615,7 @@ def dot_multiplication(mtx_l, mtx_r):
     for i in range(m):
         for k in range(n):
             for j in range(mtx_l.shape[1]):
-                if mtx_l[i, j] == 0.0 or mtx_r[j, k]:
+                if mtx_l[i, j] == 0.0 or mtx_r[j, k] == 0.0:
                     continue
                 product_mtx[i, k] *= mtx_l[i, j] * mtx_r[j, k]
     return product_mtx
-- 
2.43.0


From 2b19c052ad8870d4d4e9b818b7bf6a4812454cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 23/57] fix: do not cast the indices and the values of a matrix
 to the type of its first value

---
 nephosem/specutils/mxutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 78a7240..1170545 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -71,7 +71,6 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
             data.append(value)
     if len(data) == 0:
         raise ValueError("Error: the input matrix is empty!!!")
-    dt = type(data[0])
     ''' TODO: check data types
     dtypes = {
         int: np.int32,
@@ -87,9 +86,9 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
     col = np.array(col, dtype=dtypes[dt])
     data = np.array(data, dtype=dtypes[dt])
     '''
-    row = np.array(row, dtype=dt)
-    col = np.array(col, dtype=dt)
-    data = np.array(data, dtype=dt)
+    row = np.array(row)
+    col = np.array(col)
+    data = np.array(data)
 
     nEles = len(data)
     if verbose:
-- 
2.43.0


From 5a1c4eda98310717e02e717fe7500fcd856dd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 24/57] fix: order of the columns of token matrices depended on
 the hash seed

---
 nephosem/models/typetoken.py  | 2 +-
 nephosem/specutils/mxutils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index b065608..846b9a5 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -876,7 +876,7 @@ class TokenVectorizer(object):
             # eliminate FOCs from Boolean matrix that are not found in the context of the tokens
             # if done, final_ppmiMTX should do submatrix() as well
             cep_tokmx = mxutils.transform_nodes_to_matrix(variants)
-            intersect_collocs = list(set(cutoff_ppmiMTX.col_items).intersection(set(cep_tokmx.col_items)))
+            intersect_collocs = sorted(set(cutoff_ppmiMTX.col_items).intersection(set(cep_tokmx.col_items)))
             final_cep_ppmiMTX = cutoff_ppmiMTX.submatrix(col=intersect_collocs)
             final_cep_tokmx = cep_tokmx.submatrix(col=intersect_collocs)
 
diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 1170545..7ab66ca 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -161,7 +161,7 @@ def transform_nodes_to_matrix(type2toks, colloc_fmt = 'lemma/pos'):
             tok2collocs[str(tok)] = {**cleft, **cright}
             col_collocs = col_collocs.union(set(tok2collocs[str(tok)].keys()))
     row_items = list(tok2collocs.keys())
-    col_items = list(col_collocs)
+    col_items = sorted(col_collocs)
     tokmx = transform_dict_to_spmatrix(tok2collocs, row_items, col_items)
     return matrix.TypeTokenMatrix(tokmx, row_items, col_items)
 
-- 
2.43.0


From 79a0bf0ebd7b3bc1c4d493680acad65ad0c0d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 25/57] fix: order of the corpus files depended on the file
 system

---
 nephosem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ad8cd8c..46ec15a 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -170,7 +170,7 @@ def read_fnames_of_corpus(corpus_path):
     #       such as meta file of the corpus
     fnames = []
     for root, dirs, files in sorted(os.walk(corpus_path)):
-        cur_fnames = [os.path.join(root, f) for f in files]
+        cur_fnames = [os.path.join(root, f) for f in sorted(files)]
         fnames.extend(cur_fnames)
     return fnames
 
-- 
2.43.0


From 284f3d42c9da2651314b8290277c1334045525d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 26/57] fix: file names of a fnames file without a corpus
 directory

---
 nephosem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 46ec15a..18a8051 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -151,7 +151,7 @@ def read_fnames(filename, dirname='', encoding='utf-8'):
     # if filenames in this file are base names, append the corpus directory to them
     absfnames = []
     for fname in fnames:
-        absfn = '{}/{}'.format(dirname, fname)
+        absfn = os.path.join(dirname, fname)
         absfn = absfn if os.sep not in fname else fname
         absfnames.append(absfn)
     fnames = absfnames
-- 
2.43.0


From 2fa9cce851a9f0b625c22b98ed5c47113e185587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 27/57] fix: load frequencies like 1e-05 from a plain text file

---
 nephosem/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 18a8051..53a60a1 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -267,7 +267,10 @@ def load_dict_plain(filename, encoding='utf-8'):
             pair = line.strip().split('\t')
             if len(pair) < 2:
                 continue
-            res_dict[pair[0]] = float(pair[1]) if '.' in pair[1] else int(pair[1])
+            try:
+                res_dict[pair[0]] = int(pair[1])
+            except ValueError:
+                res_dict[pair[0]] = float(pair[1])
     return res_dict
 
 
-- 
2.43.0


From 9a7d8b0ed4635f45bd0d5caedd62e22c633015d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 28/57] fix: use the given corpus name, and only otherwise the
 name of the corpus directory

---
 nephosem/models/typetoken.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 846b9a5..f097b03 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -744,7 +744,7 @@ class TypeVectorizer(object):
                  dtype=np.int64):
         self.settings = deepcopy(settings)
         self.corpus_path = self.settings.get('corpus-path', None)
-        self.corpus_name = corpus_name if not corpus_name else self.corpus_path.split(os.sep)[-1]
+        self.corpus_name = corpus_name if corpus_name else (self.corpus_path or '').split(os.sep)[-1]
         self.input_encoding = settings.get('file-encoding', 'utf-8')
         self.output_encoding = settings.get('output-encoding', 'utf-8')
         self.row_vocab = row_vocab
@@ -833,7 +833,7 @@ class TokenVectorizer(object):
         """
         self.settings = deepcopy(settings)
         self.corpus_path = self.settings.get('corpus-path', None)
-        self.corpus_name = corpus_name if not corpus_name else self.corpus_path.split(os.sep)[-1]
+        self.corpus_name = corpus_name if corpus_name else (self.corpus_path or '').split(os.sep)[-1]
         self.input_encoding = settings.get('file-encoding', 'utf-8')
         self.output_encoding = settings.get('output-encoding', 'utf-8')
         self.concept_queries = concepts
@@ -912,7 +912,7 @@ class TypeToken(object):
     def __init__(self, settings=None, corpus_name=None):
         self.settings = deepcopy(settings)
         self.corpus_path = self.settings.get('corpus-path', None)
-        self.corpus_name = corpus_name if not corpus_name else self.corpus_path.split(os.sep)[-1]
+        self.corpus_name = corpus_name if corpus_name else (self.corpus_path or '').split(os.sep)[-1]
         self.output_path = self.settings.get('output-path', homedir)
         self.input_encoding = settings['file-encoding']
         self.output_encoding = settings['output-encoding']
-- 
2.43.0


From 950412d1b4403c9d3384b8c7e6bfb046f3e5a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 29/57] fix: the name of the output encoding setting is
 outfile-encoding

---
 nephosem/models/typetoken.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index f097b03..1501706 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -746,7 +746,7 @@ class TypeVectorizer(object):
         self.corpus_path = self.settings.get('corpus-path', None)
         self.corpus_name = corpus_name if corpus_name else (self.corpus_path or '').split(os.sep)[-1]
         self.input_encoding = settings.get('file-encoding', 'utf-8')
-        self.output_encoding = settings.get('output-encoding', 'utf-8')
+        self.output_encoding = settings.get('outfile-encoding', 'utf-8')
         self.row_vocab = row_vocab
         self.row_max_df = row_max_df
         self.row_min_df = row_min_df
@@ -835,7 +835,7 @@ class TokenVectorizer(object):
         self.corpus_path = self.settings.get('corpus-path', None)
         self.corpus_name = corpus_name if corpus_name else (self.corpus_path or '').split(os.sep)[-1]
         self.input_encoding = settings.get('file-encoding', 'utf-8')
-        self.output_encoding = settings.get('output-encoding', 'utf-8')
+        self.output_encoding = settings.get('outfile-encoding', 'utf-8')
         self.concept_queries = concepts
 
     def get_settings(self):
@@ -915,7 +915,7 @@ class TypeToken(object):
         self.corpus_name = corpus_name if corpus_name else (self.corpus_path or '').split(os.sep)[-1]
         self.output_path = self.settings.get('output-path', homedir)
         self.input_encoding = settings['file-encoding']
-        self.output_encoding = settings['output-encoding']
+        self.output_encoding = settings['outfile-encoding']
         self.vocab = None
         self.freqmx = None
         self.measmx = None
-- 
2.43.0


From ad50da74a509b9ae1a743a669f605c6e4f578c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 30/57] fix: pass the marginal frequencies, which are required,
 to compute_association

---
 nephosem/models/typetoken.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 1501706..544366c 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -815,7 +815,8 @@ class TypeVectorizer(object):
         -------
         vectors : :class:`nephosem.core.matrix.TypeTokenMatrix`
         """
-        self.vectors = mxcalc.compute_association(self.freqmx, meas=meas)
+        nfreq, cfreq = Vocab(self.freqmx.sum(axis=1)), Vocab(self.freqmx.sum(axis=0))
+        self.vectors = mxcalc.compute_association(self.freqmx, nfreq=nfreq, cfreq=cfreq, meas=meas)
         return self.vectors
 
 
@@ -986,7 +987,8 @@ class TypeToken(object):
 
         """
         freqmx = freqmx if freqmx else self.freqmx
-        self.measmx = mxcalc.compute_association(freqmx, meas=meas)
+        nfreq, cfreq = Vocab(freqmx.sum(axis=1)), Vocab(freqmx.sum(axis=0))
+        self.measmx = mxcalc.compute_association(freqmx, nfreq=nfreq, cfreq=cfreq, meas=meas)
         return self.measmx
 
     def compute_similarity(self, measmx=None, metric='cosine', rank=False, axis=0):
-- 
2.43.0


From 984d8ed5a9112d3112b4db184f94b529972d0aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 31/57] fix: TokenVectorizer looked up the types in the token
 matrix

---
 nephosem/models/typetoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 544366c..53499ca 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -849,7 +849,8 @@ class TokenVectorizer(object):
             query_dict.update(queries)
 
         tokhan = TokenHandler(Vocab(query_dict), settings=self.settings)
-        typenodes = tokhan.retrieve_tokens(fnames=fnames)
+        tokhan.retrieve_tokens(fnames=fnames)  # returns the token matrix
+        typenodes = tokhan.type2toks
 
         self.concepts = dict()
         for concept, variants in self.concept_queries.items():
-- 
2.43.0


From 48ee5e5f39560f137c101c3706eb7ed913ad8d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 32/57] fix: CorpusFormatter changed the settings of the caller

---
 nephosem/core/terms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index ce1679a..45e50bc 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -573,6 +573,7 @@ class CorpusFormatter(object):
 
     def __init__(self, settings):
         self.match = None
+        settings = deepcopy(settings)  # do not change the settings of the caller
         if 'line-machine' in settings:
             self.line_machine = re.compile(settings['line-machine'])
         elif 'type-line-machine' in settings:
-- 
2.43.0


From 9718f14aa8d4f277f0d7cf56135a72871d5757b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 33/57] fix: look up the boundary machine that is in the
 settings

---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 45e50bc..bc424c4 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -587,9 +587,9 @@ class CorpusFormatter(object):
 
         self.bound_mech = settings['boundary-detection-mechanism']
         if self.bound_mech == 'single':
-            if 'single-boundary-machine' in settings:
+            if 'separator-line-machine' in settings:
                 self._single_bound_machine = re.compile(settings['separator-line-machine'])
-            elif 'separator-line-machine' in settings:
+            elif 'single-boundary-machine' in settings:
                 self._single_bound_machine = re.compile(settings['single-boundary-machine'])
             else:
                 raise KeyError("You have set single boundary mechanism, "
-- 
2.43.0


From a32238c21a91bc508576c79cf4b5751e259ad4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 34/57] fix: separator lines with the left-right boundary
 mechanism

---
 nephosem/core/terms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index bc424c4..4821aa6 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -603,6 +603,7 @@ class CorpusFormatter(object):
                                "but you did not set 'right-boundary-machine'!")
             self._left_bound_machine = re.compile(settings['left-boundary-machine'])
             self._right_bound_machine = re.compile(settings['right-boundary-machine'])
+            self._single_bound_machine = self._right_bound_machine  # a right boundary ends a segment
         else:
             raise ValueError('Please set boundary mechanism!')
 
-- 
2.43.0


From 215c177c027392be314abf7cdfd6393f39ecb85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 35/57] fix: sample tokens of a type node which was made from a
 type string

---
 nephosem/core/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 4821aa6..3984aca 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -258,7 +258,7 @@ class TypeNode(ItemNode):
         else:  # RETRIEVAL_METHOD_FIRST assumed
             sample_tokens = self.tokens[:n]
 
-        wn = TypeNode(type_str=self.type, type_fmt=self.type_fmt, tokens=sample_tokens)
+        wn = TypeNode(type_str=self.type, type_fmt=self.format, tokens=sample_tokens)
         return wn
 
     @classmethod
-- 
2.43.0


From 6288ce1b1a51bf1dd5f8c4320fe56d4eadbbc0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 36/57] fix: load the tokens of a type node which were saved to
 a file

---
 nephosem/core/terms.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 3984aca..55c227a 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -225,6 +225,8 @@ class TypeNode(ItemNode):
         data = dict()
         data['lemma'] = self.lemma
         data['pos'] = self.pos
+        data['type'] = self.type
+        data['format'] = self.format
         data['tokens'] = [tok.json_data for tok in self.tokens]
         with codecs.open(filename, 'w', encoding=encoding) as outf:
             json.dump(data, outf, indent=4)
@@ -236,7 +238,7 @@ class TypeNode(ItemNode):
         with codecs.open(filename, 'r', encoding=encoding) as inf:
             data = json.load(inf)
         tokens = [TokenNode.gen_token_from_json_data(tok) for tok in data['tokens']]
-        return cls(data['lemma'], data['pos'], tokens=tokens)
+        return cls(type_str=data['type'], type_fmt=data['format'], tokens=tokens)
 
     def sample(self, n=300, method='random'):
         """Select n tokens/appearances from all.
@@ -388,6 +390,7 @@ class TokenNode(ItemNode):
         data['lemma'] = self.lemma
         data['fid'] = self.fid
         data['lid'] = self.lid
+        data['format'] = self.format
         # data['token'] = self.connector.join([self.word, self.pos, self.fid, str(self.lid)])
         data['left-collocates'] = [str(it) for it in self.lcollocs]
         data['right-collocates'] = [str(it) for it in self.rcollocs]
@@ -400,9 +403,12 @@ class TokenNode(ItemNode):
         lemma = json_data['lemma']
         fid = json_data['fid']
         lid = json_data['lid']
-        lcollocs = [ItemNode(item=col.split('\t')) for col in json_data['left-collocates']]
-        rcollocs = [ItemNode(item=col.split('\t')) for col in json_data['right-collocates']]
-        return cls(word, pos, lemma, fid, lid, lcollocs=lcollocs, rcollocs=rcollocs)
+        lcollocs = [ItemNode(**dict(zip(('word', 'pos', 'lemma'), col.split('\t'))))
+                    for col in json_data['left-collocates']]
+        rcollocs = [ItemNode(**dict(zip(('word', 'pos', 'lemma'), col.split('\t'))))
+                    for col in json_data['right-collocates']]
+        return cls(word=word, pos=pos, lemma=lemma, fid=fid, lid=lid, token_fmt=json_data['format'],
+                   lcollocs=lcollocs, rcollocs=rcollocs)
 
     def __str__(self):
         return self.token
-- 
2.43.0


From 9f7a7484386706f4f8d71ec7788a5beb008aa106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 37/57] fix: undefined method in _reorder_verbose

---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index fc331cb..996cca4 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1074,7 +1074,7 @@ class TypeTokenMatrix(BaseMatrix):
             raise ValueError("Please provide item list!")
 
         matrix = deepcopy(self.matrix)
-        matrix = self._reorder_matrix(matrix, idx_list, axis=axis)
+        matrix = reorder_matrix(matrix, idx_list, axis=axis)
         if axis == 0:
             row_items = item_list
             col_items = self.col_items
-- 
2.43.0


From 4f9531cf5d8d9913f756033cb0efc59efffc9737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 38/57] fix: match every target when no targets are given to
 DepRelHandler

---
 nephosem/core/graph.py    | 2 +-
 nephosem/models/deprel.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index e09e67a..fb55f56 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -612,7 +612,7 @@ class MacroGraph(PatternGraph):
     """
     connector = '/'
 
-    def __init__(self, pattern, target_idx=-1, feature_idx=-1, target_filter={}, feature_filter={}):
+    def __init__(self, pattern, target_idx=-1, feature_idx=-1, target_filter=None, feature_filter={}):
         """
 
         Parameters
diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 0fa64e8..a6b7b43 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -54,7 +54,7 @@ class DepRelHandler(BaseHandler):
             else:
                 raise AttributeError("The `targets` should be a list of string or a `Vocab` object!")
         else:
-            self.targets = Vocab()
+            self.targets = None  # no filter: match every possible target
         self.mode = mode
         # normally, we don't set features previously
         self.macros = []
@@ -186,7 +186,7 @@ class DepRelHandler(BaseHandler):
             tally = self._do_process_job(job)
             # Vocab object cannot be pickled, so we have to delete it from macro attributes
             for macro in tally:
-                del macro.target_filter
+                macro.target_filter = None
             res_queue.put(tally)
 
         logger.debug("worker exiting")
-- 
2.43.0


From 84a389790c459cc9102a68e932cec7aaef24df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 39/57] fix: count the matches of an earlier build_dependency
 call only once

---
 nephosem/models/deprel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index a6b7b43..eff27ca 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -138,6 +138,9 @@ class DepRelHandler(BaseHandler):
         """
         fnames = self.prepare_fnames(fnames)
         logger.info("Building dependency features...")
+        for macro in self.macros:  # do not count the matches of a previous call again
+            macro.matched_nodes = []
+            macro.matched_edges = []
         _res = self.process(fnames)
 
         logger.info("Building matrix...")
-- 
2.43.0


From 6d3a8228d1bf07ee2b856990e8de3a158fa01057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 40/57] fix: empty sentences between consecutive separator
 lines

---
 nephosem/models/deprel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index eff27ca..4c1669a 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -304,7 +304,8 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
                 sentence.append((lid, line))  # add line index
             # if line.startswith(end_bound):  # end of a sentence
             if formatter.separator_line_machine(line):
-                yield sentence
+                if len(sentence) > 0:  # e.g. two consecutive separator lines
+                    yield sentence
                 sentence = []
         if len(sentence) > 0:  # if file does not end with a '</s' line
             yield sentence
-- 
2.43.0


From 27657e19b34d24930f7453683035cf75ef9d1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 41/57] fix: wrong argument name in MacroGraph.read_csv

---
 nephosem/core/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index fb55f56..37c79c0 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -893,7 +893,7 @@ class MacroGraph(PatternGraph):
         templates = PatternGraph.read_csv(fname, target_colname=target_colname, feature_colname=feature_colname,
                                           sep=sep, header=header, **kwargs)
         # target node index is always 1
-        features = [cls(tplt, target=1) for tplt in templates]
+        features = [cls(tplt, target_idx=1) for tplt in templates]
         return features
 
     @classmethod
-- 
2.43.0


From 90c7d92e88e52f679b20604fdb97de2f0b38649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 42/57] fix: use the given encoding when reading templates

---
 nephosem/models/deprel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 4c1669a..15ae85a 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -98,7 +98,7 @@ class DepRelHandler(BaseHandler):
                 macro.matched_nodes = []
                 macro.matched_edges = []
         elif fname:
-            self.macros = MacroGraph.read_csv(fname)  # TODO: use different encodings
+            self.macros = MacroGraph.read_csv(fname, encoding=encoding)
         else:
             raise ValueError("Please provide either fname or features!")
 
-- 
2.43.0


From d00607214cca3c7ad14ec661977f2acc8c622cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 43/57] fix: pass highest_score of CBC to the first step

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index beeff6c..e2c2c12 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -251,7 +251,7 @@ def major_steps(cbc, eles=None, multicore=True):
     kwargs = {
         'distmx': distmx, 'k': cbc.k,
         'prune_method': cbc.prune_method, 't': cbc.t,
-        'score_metric': cbc.score_metric,
+        'score_metric': cbc.score_metric, 'highest_score': cbc.highest_score,
     }
     if multicore and len(eles) > num_workers:
         # use multicore version when the number of elements is large ( > number of cpu cores)
-- 
2.43.0


From 02ba6ca4369b04eccb05604534f54b3e64ccc448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 44/57] fix: return value of cbc_step2 without clusters

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index e2c2c12..0379659 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -481,7 +481,7 @@ def cbc_step2(L, elements=None, freqmx=None, ppmimx=None, theta=0.35):
         A tuple of merged (with singletons) committees (element strings) and committee matrix.
     """
     if not L or len(L) <= 0:
-        return L
+        return [], None
 
     # clean clusters
     committees, singletons = clean_clusters(L)
-- 
2.43.0


From 221112a6a8c938c858c6ec8ac8ea743fc1335838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 45/57] fix: keep the elements as residues when a recursion of
 CBC fails

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 0379659..0a6aa8d 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -187,7 +187,7 @@ class CBC(object):
                 curC, curR = major_steps(self, eles=residues, multicore=multicore)
             except Exception as err:
                 logger.exception(err)
-                curC, curR = [], []
+                curC, curR = [], residues  # no element may get lost
 
             Cs.append(curC)
             Rs.append(curR)
-- 
2.43.0


From 7ae240ee3479e150f9c24fe6caa25987b7577110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 46/57] fix: clusters got lost when a process of the CBC pool
 executed several jobs or failed

---
 nephosem/models/cbc.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 0a6aa8d..db92e2e 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -314,6 +314,7 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
         data_group[idx].append(elements[i])
 
     pool = Pool(processes=num_cores)
+    results = []
     for i in range(num_cores):
         args = (data_group[i], tmpdir,)
         kwargs = {
@@ -322,21 +323,19 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
             'score_metric': score_metric, 'highest_score': highest_score,
         }
         try:
-            pool.apply_async(cbc_step1_call, args=args, kwds=kwargs)
+            results.append(pool.apply_async(cbc_step1_call, args=args, kwds=kwargs))
         except Exception as err:
             logger.exception("Error:", err)
     pool.close()
     pool.join()
 
     # merge results
+    # NOTE: a process can execute several jobs (and overwrite its json file), so use the returned results
     L = []
+    for res in results:
+        L.extend(res.get())  # raises the exception of a failed job
     for fname in os.listdir(L_tmpdir):
-        fname = os.path.join(L_tmpdir, fname)
-        # load json results of sub-processes L(s)
-        with codecs.open(fname, 'r') as inf:
-            procL = json.load(inf)
-        L.extend(procL)
-        os.remove(fname)
+        os.remove(os.path.join(L_tmpdir, fname))
     try:
         os.remove(distmx_fname + '.meta')
         os.remove(distmx_fname + '.npy')
@@ -357,8 +356,8 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
     try:
         distmx = TypeTokenMatrix.load(tmp_distmx_fname, pack=False)
     except Exception as err:
-        logger.exception("Matrix load error: ".format(err))
-        return []
+        logger.exception("Matrix load error: {}".format(err))
+        raise
     logger.info("Starting subprocess {}...".format(pid))
 
     L = []
-- 
2.43.0


From fb28e4548ad22487fffeddbd142a5097c3ed38dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 47/57] fix: use at least one process in the first step of CBC

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index db92e2e..705e82b 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -306,7 +306,7 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
-    num_cores = cpu_count() - 1
+    num_cores = max(cpu_count() - 1, 1)
     num_eles = len(elements)
     data_group = [[] for _ in range(num_cores)]
     for i in range(num_eles):
-- 
2.43.0


From de0d5cb8c5dbaf5ae0e50add8f866dfd0826d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 48/57] fix: processes which started in the same minute deleted
 the temporary files of each other

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 705e82b..bbef418 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -297,7 +297,7 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
                  /distmx.npy
     """
     homedir = os.path.expanduser('~')
-    tmpdir = os.path.join(homedir, '.cbc', '{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
+    tmpdir = os.path.join(homedir, '.cbc', '{}.{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M"), os.getpid()))
     make_dir(tmpdir)
     clean_dir(tmpdir)
     L_tmpdir = os.path.join(tmpdir, 'L')
-- 
2.43.0


From 9949b631f8e8a15e55e272e1eb7bbd841ddd281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 49/57] fix: write committees and residues of every language

---
 nephosem/models/cbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index bbef418..caa6200 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -1203,11 +1203,11 @@ def reverse(fcids, lid):
 
 def save_committees_json(tmpdir, comms):
     C_fname = os.path.join(tmpdir, 'Cs')
-    with codecs.open(C_fname, 'w') as fout:
+    with codecs.open(C_fname, 'w', encoding='utf-8') as fout:
         json.dump(comms, fout, ensure_ascii=False, indent=4)
 
 
 def save_residues_json(tmpdir, residues):
     R_fname = os.path.join(tmpdir, 'Rs')
-    with codecs.open(R_fname, 'w', encoding='latin1') as fout:
+    with codecs.open(R_fname, 'w', encoding='utf-8') as fout:
         json.dump(residues, fout, ensure_ascii=False, indent=4)
-- 
2.43.0


From fcd98bc64777b2be7386acde1aa1f27c1e53fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 50/57] fix: tokens of an earlier retrieve_tokens call were
 retrieved again by every worker

---
 nephosem/models/typetoken.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 53499ca..fb445a0 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -523,6 +523,9 @@ class TokenHandler(BaseHandler):
         """
         fnames = self.prepare_fnames(fnames)
         logger.info("Scanning tokens of queries in corpus...")
+        # do not merge the tokens of a previous call again
+        self.type2toks = {w: TypeNode(type_str=w, type_fmt=self.formatter.type_format)
+                          for w in self.type2toks}
         res = self.process(fnames)
         self.type2toks = res
         logger.info("Creating matrix...")
-- 
2.43.0


From 161407c5a7cf1d7dfd1b59ee761acda162f4ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:26 +0000
Subject: [PATCH 51/57] fix: items with leading or trailing white space were
 changed when a plain frequency list was loaded

---
 nephosem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 53a60a1..3eaf4cd 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -264,7 +264,7 @@ def load_dict_plain(filename, encoding='utf-8'):
     res_dict = dict()
     with codecs.open(filename, 'r', encoding) as fin:
         for line in fin:
-            pair = line.strip().split('\t')
+            pair = line.rstrip('\r\n').split('\t')
             if len(pair) < 2:
                 continue
             try:
-- 
2.43.0


From 7b3d7726826162d1fd73bbeb8af9bd41dbfa2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:14 +0000
Subject: [PATCH 52/57] fix: duplicate clusters that are not adjacent removed
 each other and the committee was lost

---
 nephosem/models/cbc.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index caa6200..0257f25 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -641,19 +641,13 @@ def clean_clusters(L):
 
 def remove_duplicate(clusters):
     """Remove duplicate clusters"""
-    if len(clusters) <= 0:
-        return clusters
-    prevs, prevc = clusters[0]  # -> previous score and cluster
-    diffL = [(prevs, set(prevc))]
-    for i in range(1, len(clusters)):
-        s, clust = clusters[i]
-        if abs(s - prevs) > 0.000000001 or sorted(clust) != sorted(prevc):
-            # if scores of two clusters are not close => they are not the same cluster
-            # if scores are very close => compare cluster elements
+    diffL, seen = [], set()
+    for s, clust in clusters:
+        # the same cluster can come back later, and with a slightly different score
+        eles = frozenset(clust)
+        if eles not in seen:
+            seen.add(eles)
             diffL.append((s, set(clust)))
-            prevs, prevc = s, clust
-        else:  # same cluster
-            continue
     return diffL
 
 
-- 
2.43.0


From 0eb153cf65ab3d18e34278014c9a8f90a6670cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:14 +0000
Subject: [PATCH 53/57] fix: the first clustering step failed on elements
 outside the platform encoding

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 0257f25..b0bff35 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -380,7 +380,7 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
         L.extend(clusters)
 
     tmp_proc_fname = os.path.join(tmpdir_proc, 'L', '{}'.format(pid))
-    with codecs.open(tmp_proc_fname, 'w') as outf:
+    with codecs.open(tmp_proc_fname, 'w', encoding='utf-8') as outf:
         json.dump(L, outf, ensure_ascii=False, indent=4)
 
     return L
-- 
2.43.0


From 756966418905c1b5cf97977a833874afcbd84682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:09 +0000
Subject: [PATCH 54/57] fix: a dense matrix saved over a sparse one was loaded
 as the old sparse matrix

---
 nephosem/core/matrix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 996cca4..7146380 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1352,6 +1352,11 @@ class TypeTokenMatrix(BaseMatrix):
             np.save(mx_fname, self.matrix)
         else:
             raise ValueError
+        if not pack:
+            # load() must not find the data of an earlier matrix that was saved in the other format
+            old_fname = basename + ('.npy' if mx_fname.endswith('.npz') else '.npz')
+            if os.path.exists(old_fname):
+                os.remove(old_fname)
 
         # package these two files into one named as filename
         if pack:
-- 
2.43.0


From 03807747353b3df3172b74e709b6f593eece363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:28 +0000
Subject: [PATCH 55/57] fix: packing and unpacking a matrix overwrote and
 deleted the files of an unpacked matrix of the same name

---
 nephosem/core/matrix.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 7146380..48eda47 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -38,6 +38,8 @@ import codecs
 import json
 import logging
 import os
+import shutil
+import tempfile
 import zipfile
 
 import random
@@ -1331,6 +1333,10 @@ class TypeTokenMatrix(BaseMatrix):
             # filename: '/xxx/BrownNouns.wcmx.freq'
             basename = filename
 
+        if pack:
+            # the members of the package are written aside, not over the files of an unpacked matrix
+            tmpdir = tempfile.mkdtemp()
+            basename = os.path.join(tmpdir, os.path.basename(basename))
         meta_fname = "{}.meta".format(basename)
         if verbose:
             logger.info("\nSaving matrix...")
@@ -1363,8 +1369,7 @@ class TypeTokenMatrix(BaseMatrix):
             with zipfile.ZipFile(filename, 'w', allowZip64=True) as inf:
                 inf.write(meta_fname, os.path.basename(meta_fname))
                 inf.write(mx_fname, os.path.basename(mx_fname))
-            os.remove(meta_fname)
-            os.remove(mx_fname)
+            shutil.rmtree(tmpdir)
             if verbose:
                 print("Stored in file:\n  {}".format(filename))
         else:
@@ -1392,9 +1397,10 @@ class TypeTokenMatrix(BaseMatrix):
             basename = filename
         if pack:
             zip_fname = "{}.pac".format(basename)
-            dest_dir = os.path.dirname(zip_fname)
+            tmpdir = tempfile.mkdtemp()
             with zipfile.ZipFile(zip_fname) as zf:
-                zf.extractall(dest_dir)
+                zf.extractall(tmpdir)
+            basename = os.path.join(tmpdir, os.path.basename(basename))
 
         meta_fname = "{}.meta".format(basename)
         sp_fname = "{}.npz".format(basename)
@@ -1422,8 +1428,7 @@ class TypeTokenMatrix(BaseMatrix):
 
         # clean files
         if pack:
-            os.remove(meta_fname)
-            os.remove(mx_fname)
+            shutil.rmtree(tmpdir)
 
         return TypeTokenMatrix(matrix, meta_data['row_items'], meta_data['col_items'], deep=False)
 
-- 
2.43.0


From ea6f9c456c6cc341b6891bc3b2109b552315f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:12 +0000
Subject: [PATCH 56/57] fix: elements that were merged to a committee in the
 last step were in no committee and no residue

---
 nephosem/models/cbc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index b0bff35..40a853e 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -284,7 +284,9 @@ def major_steps(cbc, eles=None, multicore=True):
     #       so the ids would be sub-matrix ids
     # id2item = freqmx.row_items
     # curC = [[id2item[i] for i in c] for c in curC]
-    return curC, R
+    # the committees after step 3, with the elements that were merged to their most similar committee:
+    # such an element is neither a residue nor in curC
+    return comms, R
 
 
 def cbc_step1_multicore(elements, distmx=None, k=100,
-- 
2.43.0


From 6b264d9b6a81b157bd89dfcc8801a952368c0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:26 +0000
Subject: [PATCH 57/57] fix: the committee clustering failed unless the
 association and distance matrices were given

---
 nephosem/models/cbc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 40a853e..d3b22e2 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -49,7 +49,7 @@ from sklearn.metrics.pairwise import cosine_similarity
 
 from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
-from nephosem.specutils.mxcalc import calc_association, calc_distance
+from nephosem.specutils.mxcalc import compute_ppmi, compute_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
 from nephosem.utils import make_dir, clean_dir
 
@@ -123,11 +123,11 @@ class CBC(object):
         # prepare matrices if not provided
         if measmx is None:
             print("calculating ppmi matrix...")
-            measmx = calc_association(freqmx, meas='ppmi')
+            measmx = compute_ppmi(freqmx)
             print("done.")
         if distmx is None:
             print("calculating distance matrix...")
-            distmx = calc_distance(measmx)
+            distmx = compute_distance(measmx)
             print("done.")
 
         self.elements = elements
-- 
2.43.0

