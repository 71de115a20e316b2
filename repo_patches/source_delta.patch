From 66f263b0def17f495c89e214453a162547d36fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 01/18] fix: encoding a word must not modify the cache of
 segmentations

---
 codeprep/bpepkg/bpe_encode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/bpe_encode.py b/codeprep/bpepkg/bpe_encode.py
index b253605..bdf6517 100644
--- a/codeprep/bpepkg/bpe_encode.py
+++ b/codeprep/bpepkg/bpe_encode.py
@@ -40,7 +40,8 @@ def unescape(parts: List[str]):
     if parts[-1][-1] != ESCAPE_CHAR:
         raise ValueError(f"There should be {ESCAPE_CHAR} at the end, however this is what was passed: {parts}")
 
-    parts[-1] = parts[-1][:-1]
+    # a copy is changed: `parts` can be an entry of the cache of segmentations
+    parts = parts[:-1] + [parts[-1][:-1]]
     return list(map(lambda p: p.replace(ESCAPE_CHAR + '@', ESCAPE_CHAR), parts))
 
 
-- 
2.43.0


From ec5d617bf4505a01f4a4ac5dbca63ec807ea8063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 02/18] fix: words keep their exact characters

A word starting with an upper-case letter was printed in lower case from the second letter on, and letters whose
upper case cannot be restored from the lower-case form (e.g. the Kelvin sign) were replaced by others.
---
 codeprep/tokens/word.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/codeprep/tokens/word.py b/codeprep/tokens/word.py
index 3319e61..fd8d1e9 100644
--- a/codeprep/tokens/word.py
+++ b/codeprep/tokens/word.py
@@ -51,7 +51,12 @@ class Word(ParsedSubtoken):
 
     @staticmethod
     def _is_strictly_upper(s) -> bool:
-        return s.isupper() and not s.lower().isupper()
+        return s.isupper() and not s.lower().isupper() and Word._is_restorable_from_lower(s)
+
+    @staticmethod
+    def _is_restorable_from_lower(s) -> bool:
+        # not the case, for example, for the Kelvin sign, whose lower-case form is an ordinary k
+        return s.lower().upper() == s
 
     @staticmethod
     def _check_canonic_form_is_valid(canonic_form) -> None:
@@ -86,7 +91,7 @@ class Word(ParsedSubtoken):
         if self.capitalization == Word.Capitalization.UNDEFINED or self.capitalization == Word.Capitalization.NONE:
             return self.canonic_form
         elif self.capitalization == Word.Capitalization.FIRST_LETTER:
-            return self.canonic_form.capitalize()
+            return self.canonic_form[0].upper() + self.canonic_form[1:]
         elif self.capitalization == Word.Capitalization.ALL:
             return self.canonic_form.upper()
         else:
@@ -109,9 +114,9 @@ class Word(ParsedSubtoken):
 
         if s.islower() or not s:
             return cls(s, Word.Capitalization.NONE)
-        elif s.isupper():
+        elif s.isupper() and Word._is_restorable_from_lower(s):
             return cls(s.lower(), Word.Capitalization.ALL)
-        elif s[0].isupper():
+        elif s[0].isupper() and Word._is_restorable_from_lower(s[0]):
             return cls(s[0].lower() + s[1:], Word.Capitalization.FIRST_LETTER)
         else:
             return cls(s, Word.Capitalization.UNDEFINED)
-- 
2.43.0


From 71d736c87545cff38cce898e7356941eab7d2448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 03/18] fix: keywords, numbers and operators reported with
 spaces become separate tokens

---
 codeprep/parse/matchers.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/codeprep/parse/matchers.py b/codeprep/parse/matchers.py
index 5bc5062..868fb62 100644
--- a/codeprep/parse/matchers.py
+++ b/codeprep/parse/matchers.py
@@ -76,7 +76,8 @@ class KeywordMatcher(object):
         return token in Token.Keyword
 
     def transform(self, value: str) -> List[KeyWord]:
-        return [KeyWord(value)]
+        # some lexers report several words separated with spaces as one keyword, e.g. `import static`
+        return [KeyWord(v) for v in value.split()]
 
 
 class NewLineMatcher(object):
@@ -108,12 +109,15 @@ class NumberMatchers(object):
         return token in Token.Literal.Number
 
     def transform(self, value: str) -> List[Number]:
+        return [self._to_number(v) for v in value.split()]
+
+    def _to_number(self, value: str) -> Number:
         if value == '0':
-            return [Zero()]
+            return Zero()
         elif value == '1':
-            return [One()]
+            return One()
         else:
-            return [Number(value)]
+            return Number(value)
 
 
 class OperatorMatcher(object):
@@ -121,18 +125,21 @@ class OperatorMatcher(object):
         return token is Token.Operator or token in Token.Punctuation
 
     def transform(self, value: str) -> List[Operator]:
+        return [self._to_operator(v) for v in value.split()]
+
+    def _to_operator(self, value: str) -> Operator:
         if value == ';':
-            return [Semicolon()]
+            return Semicolon()
         elif value == '{':
-            return [OpeningCurlyBracket()]
+            return OpeningCurlyBracket()
         elif value == '}':
-            return [ClosingCurlyBracket()]
+            return ClosingCurlyBracket()
         elif value == '(':
-            return [OpeningBracket()]
+            return OpeningBracket()
         elif value == ')':
-            return [ClosingBracket()]
+            return ClosingBracket()
         else:
-            return [Operator(value)]
+            return Operator(value)
 
 
 class WordOperatorMatcher(object):
-- 
2.43.0


From 83e351773ae303f9a75ab414f1647a6c9ccd4f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 04/18] fix: merges without frequency can be written and read
 back

---
 codeprep/bpepkg/merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/merge.py b/codeprep/bpepkg/merge.py
index 3a21c74..74bf14a 100644
--- a/codeprep/bpepkg/merge.py
+++ b/codeprep/bpepkg/merge.py
@@ -170,4 +170,5 @@ def read_merges(file: str, n_merges: Optional[int] = None) -> MergeList:
 def dump_merges(merges: MergeList, file: str):
     with open(file, 'w') as f:
         for merge in merges:
-            f.write(f"{to_literal_str(' '.join(merge.pair))} {merge.freq}\n")
\ No newline at end of file
+            freq = '' if merge.freq is None else f' {merge.freq}'
+            f.write(f"{to_literal_str(' '.join(merge.pair))}{freq}\n")
\ No newline at end of file
-- 
2.43.0


From ab8603e5f191d332a211c411eed366b935639dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 05/18] fix: limiting a vocabulary to its own size does not
 fail

---
 codeprep/pipeline/vocab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 0cdfa3d..b252994 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -86,7 +86,7 @@ class PartialVocab(object):
 
     def limit_max_vocab(self, vocab_size_threshold: int) -> None:
         sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: x[1], reverse=True)
-        if vocab_size_threshold > len(sorted_vocab):
+        if vocab_size_threshold >= len(sorted_vocab):
             return
         min_freq_excluded = sorted_vocab[vocab_size_threshold][1]
         adjusted_threshold = vocab_size_threshold - 1
-- 
2.43.0


From 07e24187abb19156ad4f8040d83ee0ad8ac4ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 06/18] fix: truncated partial vocabularies are recognized

---
 codeprep/pipeline/vocab.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index b252994..1ccd443 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -226,8 +226,8 @@ def create_and_dump_partial_vocab(param: Tuple[List[str], str, int]) -> PartialV
 def finish_file_dumping(path_to_new_file: str) -> None:
     try:
         pickle.load(open(path_to_new_file, 'rb'))
-    except EOFError:
-        # file has not been written properly
+    except Exception:
+        # file has not been written properly: depending on where it was cut, different exceptions are raised
         os.remove(path_to_new_file)
         return
 
-- 
2.43.0


From 8c7bf5eb9147dce93359234fa6f7cfb975446cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 07/18] fix: an incomplete vocabulary is never left under its
 final name

---
 codeprep/pipeline/vocab.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 1ccd443..a264fdf 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -31,6 +31,7 @@ queue_size = AtomicInteger()
 
 PARTVOCAB_EXT = 'partvocab'
 PARTIAL_VOCABS_READY_FILENAME = 'ready'
+NOT_FINISHED_VOCAB_EXT = 'part'
 
 VOCABSIZE_FILENAME = 'vocabsize'
 VOCAB_FILENAME = 'vocab'
@@ -180,8 +181,11 @@ class VocabMerger(multiprocessing.Process):
 
             self._log_merge_results(new_words, len(first.merged_word_counts), time.time() - start)
 
-        first.write_stats(self.vocav_size_file_path)
-        first.write_vocab(self.vocab_file_path)
+        # files under their final names have to be complete even if the process is killed
+        for write, path in [(first.write_stats, self.vocav_size_file_path), (first.write_vocab, self.vocab_file_path)]:
+            not_finished_path = f'{path}.{NOT_FINISHED_VOCAB_EXT}'
+            write(not_finished_path)
+            os.rename(not_finished_path, path)
         shutil.rmtree(self.path_to_dump)
 
     def _log_merge_results(self, new_words: List[str], resulting_vocab_size: int, time: float) -> None:
-- 
2.43.0


From 04640a5a55504f72ed85602ec453a5a9d7ddae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 08/18] fix: a new merge list id differs from all ids in use

---
 codeprep/pipeline/bperegistry.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index a9503ad..f9fc011 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -4,7 +4,7 @@
 
 import logging
 import os
-from typing import Optional, Dict, Callable, Tuple, List
+from typing import Optional, Dict, Callable, Tuple, List, Set
 
 import regex
 import sys
@@ -106,12 +106,12 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
         if id_suffix:
             name_parts.append(id_suffix)
         id_base = '_'.join(name_parts)
-        existing_ids = _get_all_custom_bpe_codes_and_max_merges().keys()
+        existing_ids = {*_get_all_custom_bpe_codes_and_max_merges(), *_get_all_assigned_bpe_codes()}
         if id_base not in existing_ids:
             return id_base
         else:
             def extract_number(full_id: str, id_base: str) -> int:
-                m = regex.fullmatch(f"{id_base}_([0-9]+)", full_id)
+                m = regex.fullmatch(f"{regex.escape(id_base)}_([0-9]+)", full_id)
                 return int(m[1]) if m else 0
 
             numbers = list(map(lambda d: extract_number(d, id_base), existing_ids))
@@ -232,6 +232,14 @@ def _get_all_custom_bpe_codes_and_max_merges() -> Dict[str, int]:
     return result
 
 
+def _get_all_assigned_bpe_codes() -> Set[str]:
+    # ids are assigned before merges are learned, so there can be ids without merges
+    if not os.path.exists(USER_BPE_DIR):
+        return set()
+    codes = [get_codes_id_by_bpe_path(os.path.join(USER_BPE_DIR, bpe_dir)) for bpe_dir in next(os.walk(USER_BPE_DIR))[1]]
+    return {code for code in codes if code}
+
+
 def _get_all_bpe_merges_dirs(dataset_bpe_dir: str) -> List[str]:
     if not os.path.exists(dataset_bpe_dir):
         raise FileNotFoundError(f'Directory {dataset_bpe_dir} does not exist!')
-- 
2.43.0


From 1f63b03ebc6ee29c65c83e56b7f138cc18821489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 09/18] fix: the base vocabulary is found for every dataset
 name

---
 codeprep/bpepkg/bpe_config.py    | 2 ++
 codeprep/pipeline/bperegistry.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/bpe_config.py b/codeprep/bpepkg/bpe_config.py
index e953590..168baf9 100644
--- a/codeprep/bpepkg/bpe_config.py
+++ b/codeprep/bpepkg/bpe_config.py
@@ -64,6 +64,8 @@ class BpeConfig(object):
     CASE_NO = 'nocase'
     CASE_PREFIX = 'prefix'
     WORD_END = 'we'
+    SUFFIX_PART_REGEX = f'(?:{CASE_NO}|{CASE_PREFIX}|{WORD_END}|{UNICODE_NO}|{UNICODE_BYTES})'
+    SUFFIX_REGEX = f'{SUFFIX_PART_REGEX}(?:_{SUFFIX_PART_REGEX})*'
 
     @staticmethod
     def from_suffix(suffix: str):
diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index f9fc011..59762af 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -154,7 +154,8 @@ def get_base_vocab_dir(bpe_list_id: str) -> str:
     dataset_bpe_dir = get_dataset_bpe_dir(bpe_list_id)
     prep_config_str = os.path.basename(dataset_bpe_dir)
     #TODO do not hard code date and dir format in general
-    m = regex.fullmatch(r'(.*?)((?:_-_.*)?)', prep_config_str)
+    # the name of the dataset can contain anything, only what a suffix can consist of is separated from it
+    m = regex.fullmatch(rf'(.*?)((?:_-_{BpeConfig.SUFFIX_REGEX})?)', prep_config_str, flags=regex.DOTALL)
     if not m:
         raise ValueError(f'Invalid dir format: {prep_config_str}')
     bpe_config = BpeConfig.from_suffix(m[2])
-- 
2.43.0


From 73031af1caa809e8ed507a277ade6bf0733c8bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 10/18] fix: entries removed from or renamed in the root of a
 directory are noticed

---
 codeprep/dirutils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index c4792e9..a6a7ac7 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -56,9 +56,8 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
 
     def walk_path(path):
         counter = 0
-        if os.path.isfile(path) or len(os.listdir(path)) == 0:
-            yield os.path.getmtime(path)
-        else:
+        yield os.path.getmtime(path)
+        if not os.path.isfile(path):
             for root, dirs, files in os.walk(path):
                 for dir in dirs:
                     if counter >= limit:
-- 
2.43.0


From b38acec758385650b881888a76057c96775e16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 11/18] fix: an incomplete non-BPE vocabulary is never left
 under its final name

---
 codeprep/pipeline/vocabloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index ac8306b..6c38978 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -8,7 +8,7 @@ import shutil
 from typing import Set, Dict
 
 from codeprep.pipeline.bperegistry import get_bpe_dir, get_base_vocab_dir, RESULTING_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME
+from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME, NOT_FINISHED_EXTENSION
 from codeprep.preprocess.placeholders import placeholders
 from codeprep.util import to_literal_str
 from codeprep.pipeline.vocab import _load_vocab_dict, _load_vocab_set, VOCAB_FILENAME
@@ -46,10 +46,14 @@ def gather_non_bpe_vocab(dataset: Dataset):
     for idx, file in enumerate(os.listdir(part_nonbpe_vocab_dir)):
         if idx % 569 == 0:
             print(f'Files processed: {idx}', end='\r')
+        if file.endswith(NOT_FINISHED_EXTENSION):
+            continue
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-    with open(dataset.path_to_nonbpe_vocab_file, 'w') as f:
+    not_finished_nonbpe_vocab_file = dataset.path_to_nonbpe_vocab_file + NOT_FINISHED_EXTENSION
+    with open(not_finished_nonbpe_vocab_file, 'w') as f:
         for token in non_bpe_tokens:
             f.write(f'{to_literal_str(token)}\n')
+    os.rename(not_finished_nonbpe_vocab_file, dataset.path_to_nonbpe_vocab_file)
     shutil.rmtree(part_nonbpe_vocab_dir)
\ No newline at end of file
-- 
2.43.0


From 8d0869ce46a8162f3c02839a31b235d319e66aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 12/18] fix: partly written metadata is not added to the
 non-BPE vocabulary

---
 codeprep/pipeline/to_repr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 24de466..faed1da 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -76,7 +76,9 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
         o.write(to_literal_str(to_token_str(repr)) + '\n')
 
     if part_nonbpe_vocab_folder:
-        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}'))
+        metadata_path = os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}')
+        save_metadata(metadata, metadata_path + NOT_FINISHED_EXTENSION)
+        os.rename(metadata_path + NOT_FINISHED_EXTENSION, metadata_path)
 
     os.rename(not_finished_dest_file_path, dest_file_path)
 
-- 
2.43.0


From f90981681b285748e51fc3dfbd44452df524fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 13/18] fix: an incomplete set of merges is never left under
 its final name

---
 codeprep/pipeline/bpelearner.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/codeprep/pipeline/bpelearner.py b/codeprep/pipeline/bpelearner.py
index b819945..b004a7b 100644
--- a/codeprep/pipeline/bpelearner.py
+++ b/codeprep/pipeline/bpelearner.py
@@ -14,7 +14,7 @@ from codeprep.bpepkg.merge import MergeList, read_merges, dump_merges
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import get_max_merges, MERGES_FILE_NAME, MERGES_CACHE_FILE_NAME, \
     RESULTING_VOCAB_FILE_NAME, BPE_REASSEMBLED_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset
+from codeprep.pipeline.dataset import Dataset, NOT_FINISHED_EXTENSION
 from codeprep.pipeline.vocab import _dump_vocab_dict, _load_vocab_dict
 from codeprep.util import to_non_literal_str
 
@@ -70,17 +70,20 @@ def get_dir_with_most_merges(dataset_bpe_path, n_merges) -> Optional[str]:
 
 def save_results(split_base_vocab, merges, new_bpe_dir):
 
-    os.makedirs(new_bpe_dir)
+    not_finished_bpe_dir = new_bpe_dir + NOT_FINISHED_EXTENSION
+    os.makedirs(not_finished_bpe_dir, exist_ok=True)
 
     resulting_vocab = create_resulting_vocab(split_base_vocab)
     resulting_vocab_sorted = sorted(resulting_vocab.items(), key=lambda x: x[1], reverse=True)
-    _dump_vocab_dict(resulting_vocab_sorted, os.path.join(new_bpe_dir, RESULTING_VOCAB_FILE_NAME))
+    _dump_vocab_dict(resulting_vocab_sorted, os.path.join(not_finished_bpe_dir, RESULTING_VOCAB_FILE_NAME))
 
     bpe_cache = create_bpe_cache(split_base_vocab)
-    dump_bpe_cache(bpe_cache, os.path.join(new_bpe_dir, MERGES_CACHE_FILE_NAME))
+    dump_bpe_cache(bpe_cache, os.path.join(not_finished_bpe_dir, MERGES_CACHE_FILE_NAME))
 
-    dump_merges(merges, os.path.join(new_bpe_dir, MERGES_FILE_NAME))
-    _dump_vocab_dict(split_base_vocab.items(), os.path.join(new_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
+    dump_merges(merges, os.path.join(not_finished_bpe_dir, MERGES_FILE_NAME))
+    _dump_vocab_dict(split_base_vocab.items(), os.path.join(not_finished_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
+
+    os.rename(not_finished_bpe_dir, new_bpe_dir)
     logger.info(f'Bpe output files are saved into {new_bpe_dir} folder')
 
 
-- 
2.43.0


From 5befc963d39bc868e0054a95d41e950c8b86f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 14/18] fix: outdated results of data sets without files can be
 made again

---
 codeprep/pipeline/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 59f8c7e..49d7a03 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -73,6 +73,7 @@ class SubDataset(object):
 
     def archive(self) -> None:
         archive_path(self.path)
+        os.makedirs(self.path)
 
     def __eq__(self, o: object) -> bool:
         if isinstance(o, SubDataset):
-- 
2.43.0


From 9613e1d454905279d81a785474bc232e2fc97368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 15/18] fix: partial vocabularies are closed once they are
 written

---
 codeprep/pipeline/vocab.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index a264fdf..a972b30 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -201,7 +201,8 @@ class VocabMerger(multiprocessing.Process):
 
         first.renew_id()
         path_to_new_file = os.path.join(self.path_to_dump, f'{first_id}_{second_id}_{first.id}.{PARTVOCAB_EXT}')
-        pickle.dump(first, open(path_to_new_file, 'wb'))
+        with open(path_to_new_file, 'wb') as f:
+            pickle.dump(first, f)
         finish_file_dumping(path_to_new_file)
 
         return first, new_words
@@ -223,13 +224,15 @@ def create_and_dump_partial_vocab(param: Tuple[List[str], str, int]) -> PartialV
     partial_vocab = PartialVocab(vocab, chunk)
     path = os.path.join(path_to_dump, f'{partial_vocab.id}.{PARTVOCAB_EXT}')
     logger.debug(f"Dumping part vocab to {path}")
-    pickle.dump(partial_vocab, open(path, 'wb'))
+    with open(path, 'wb') as f:
+        pickle.dump(partial_vocab, f)
     return partial_vocab
 
 
 def finish_file_dumping(path_to_new_file: str) -> None:
     try:
-        pickle.load(open(path_to_new_file, 'rb'))
+        with open(path_to_new_file, 'rb') as f:
+            pickle.load(f)
     except Exception:
         # file has not been written properly: depending on where it was cut, different exceptions are raised
         os.remove(path_to_new_file)
@@ -296,7 +299,8 @@ def load_partial_vocabs(path: str) -> List[PartialVocab]:
     task_list = []
     for file in os.listdir(path):
         if file.endswith(PARTVOCAB_EXT):
-            part_vocab = pickle.load(open(os.path.join(path, file), 'rb'))
+            with open(os.path.join(path, file), 'rb') as f:
+                part_vocab = pickle.load(f)
             if not isinstance(part_vocab, PartialVocab):
                 raise TypeError(f"Object {str(part_vocab)} must be VocabMerger version {part_vocab.VERSION}")
             task_list.append(part_vocab)
-- 
2.43.0


From 24066051ecd9c8301dc05de82c7b4e96dcbc5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 16/18] fix: extensions of file names that are not valid UTF-8
 no longer stop parsing of a dataset

---
 codeprep/pipeline/parse_projects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/parse_projects.py b/codeprep/pipeline/parse_projects.py
index 344bba6..84398de 100644
--- a/codeprep/pipeline/parse_projects.py
+++ b/codeprep/pipeline/parse_projects.py
@@ -38,7 +38,7 @@ def preprocess_and_write(params: Tuple[bytes, bytes]) -> None:
             logger.error(f"File was found when scanning the directory, but cannot be read: {src_file_path}. "
                          f"Invalid symlink? Ignoring ...")
             return
-        extension_bin = os.path.splitext(src_file_path)[1].decode()[1:]
+        extension_bin = os.path.splitext(src_file_path)[1].decode(errors='replace')[1:]
         parsed = [p for p in convert_text("\n".join(lines_from_file), extension_bin)]
         pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From 943d9fcd5f1e5a8133cd5eee2e92e289a6ac524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 17/18] fix: non-BPE tokens of files with the same name that
 are finished at the same time are no longer lost

---
 codeprep/pipeline/to_repr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index faed1da..276b9f9 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -11,7 +11,7 @@ from multiprocessing.pool import Pool
 from typing import List, Tuple
 from typing import Optional
 
-import time
+import uuid
 from tqdm import tqdm
 
 from codeprep.bpepkg.bpe_encode import read_merges, BpeData
@@ -76,7 +76,8 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
         o.write(to_literal_str(to_token_str(repr)) + '\n')
 
     if part_nonbpe_vocab_folder:
-        metadata_path = os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}')
+        # files in different dirs can have the same name and can be finished at the same time
+        metadata_path = os.path.join(part_nonbpe_vocab_folder, uuid.uuid4().hex)
         save_metadata(metadata, metadata_path + NOT_FINISHED_EXTENSION)
         os.rename(metadata_path + NOT_FINISHED_EXTENSION, metadata_path)
 
-- 
2.43.0


From 30d16549d67b9a2e378d25146202a83506a21fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 18/18] fix: an interrupted run leaves no incomplete corpus
 size behind

---
 codeprep/api/corpus.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codeprep/api/corpus.py b/codeprep/api/corpus.py
index b583a36..b28b3fb 100644
--- a/codeprep/api/corpus.py
+++ b/codeprep/api/corpus.py
@@ -16,7 +16,7 @@ from codeprep.config import CHUNKSIZE
 from codeprep.config import test_data_dir
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import CustomBpeConfig, is_predefined_id
-from codeprep.pipeline.dataset import Dataset, SubDataset
+from codeprep.pipeline.dataset import Dataset, SubDataset, NOT_FINISHED_EXTENSION
 from codeprep.pipeline.vocab import _load_vocab_dict
 from codeprep.prepconfig import PrepConfig
 
@@ -48,8 +48,11 @@ class PreprocessedCorpus(object):
     def get_corpus_size(self) -> int:
         if not os.path.exists(self._path_to_corpus_size_file):
             corpus_size = self._calc_corpus_size()
-            with open(self._path_to_corpus_size_file, 'w') as f:
+            # an interrupted run should not leave an incomplete file under the final name
+            not_finished_corpus_size_file = f'{self._path_to_corpus_size_file}{NOT_FINISHED_EXTENSION}'
+            with open(not_finished_corpus_size_file, 'w') as f:
                 f.write(f'{corpus_size}')
+            os.rename(not_finished_corpus_size_file, self._path_to_corpus_size_file)
         with open(self._path_to_corpus_size_file, 'r') as f:
             return int(f.read())
 
-- 
2.43.0

