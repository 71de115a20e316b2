import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
B='codeprep/bpepkg/'; T='codeprep/tokens/'; L='codeprep/pipeline/'
p('C01','BPE encoding loses no characters',
 'For every word (any Unicode text without the space character, including words made of or containing the escape character "@") and every merge list, the subwords produced by BPE encoding concatenate back to exactly the word, and only the last one may be empty (it then stands for an end-of-word mark that was not merged with its neighbour). It holds with an empty, partial or full cache of pre-computed segmentations.',
 ['inputs','configurations'],'all words, all merge lists, all consistent caches',
 'Tests encode a dozen fixed words with two fixed merge files; escape handling at arbitrary positions is untested.',
 [B+'bpe_encode.py'],[('escape/unescape','bpe_encode.escape, unescape'),('greedy merging','bpe_encode.encode, encode_word, to_char_list')],
 ['codeprep.bpepkg.bpe_encode.get_bpe_subwords','codeprep.api.text.bpe / chars'])
p('C02','BPE encoding follows the merge order exactly',
 'Encoding a word gives the segmentation obtained by repeatedly taking, among the adjacent pairs that are in the merge list, the one learned earliest and merging all its non-overlapping occurrences from left to right, until no adjacent pair is in the merge list. Words of any length follow the same rule.',
 ['inputs','configurations'],'all words, all merge lists (any pairs, any order)',
 'Tests compare a few words against literals; overlapping occurrences, ties and chains of merges have a combinatorial space.',
 [B+'bpe_encode.py',B+'merge.py'],[('merge rounds','bpe_encode.encode'),('priorities','merge.MergeList.get_priority')],
 ['codeprep.bpepkg.bpe_encode.encode_word','encode'])
p('C03','BPE results do not depend on caching or on what was encoded before',
 'Encoding a word gives the same subwords however many times it is encoded, whatever other words were encoded before, and whether its segmentation comes from the cache of pre-computed segmentations or is computed from the merges that produced that cache. Encoding never alters the cache or the merge list.',
 ['histories','inputs'],'all sequences of encode calls, cached and uncached words',
 'Tests encode each word once with an empty cache; a history of lookups is never exercised.',
 [B+'bpe_encode.py',L+'to_repr.py'],[('cache lookup','bpe_encode.get_bpe_subwords'),('cache loading','to_repr.init_bpe_data')],
 ['codeprep.bpepkg.bpe_encode.get_bpe_subwords'],[('merges_cache','word -> segmentation','bpe_encode.BpeData')])
p('C04','BPE learning always merges a most frequent pair',
 'When merges are learned from a vocabulary of split words with frequencies, at every step the chosen pair has the highest total frequency among all adjacent pairs of the current segmentation that are counted, and the frequency recorded with the merge is that total. Learning stops early only when no adjacent pair is left, merges are numbered consecutively from 0, and no word or word frequency is lost or changed other than by joining adjacent symbols.',
 ['inputs'],'all vocabularies (words ending in the end-of-word mark, positive frequencies), all numbers of merges',
 'Tests learn from three or four tiny fixed vocabularies; incremental count maintenance over overlapping and repeated symbols is where errors hide.',
 [B+'bpe_learn.py','codeprep/util.py'],[('pair statistics','bpe_learn.get_stats, merge_vocab'),('priority queue','util.PriorityCounter'),('merge loop','bpe_learn.do_merges')],
 ['codeprep.bpepkg.bpe_learn.do_merges'])
p('C05','BPE learning and BPE encoding agree',
 'For every training vocabulary, the segmentation that learning leaves for a training word is the one that encoding that word with the learned merges produces; the saved cache of segmentations maps each training word to exactly that segmentation, and the saved resulting vocabulary counts each subword as the sum of the frequencies of the words it occurs in, once per occurrence.',
 ['inputs'],'all training vocabularies and merge counts',
 'No test encodes with freshly learned merges; only fixed merge files are used.',
 [B+'bpe_learn.py',B+'bpe_encode.py',L+'bpelearner.py'],[('learning','bpe_learn.do_merges'),('cache','bpe_learn.create_bpe_cache'),('vocab','bpe_learn.create_resulting_vocab')],
 ['codeprep.bpepkg.bpe_learn.create_bpe_cache','create_resulting_vocab','codeprep.bpepkg.bpe_encode.encode_word'])
p('C06','Merge lists survive writing and reading and keep their order',
 'Writing a merge list to a file and reading it back gives an equal merge list (same pairs, frequencies, priorities) for any Unicode symbols without the space character; reading with a limit of n merges gives exactly the first n. Appending keeps priorities consecutive and rejects any other explicit priority, and joining two lists without common pairs keeps the first list, then the second renumbered, leaving both operands unchanged.',
 ['inputs'],'all merge lists, all symbols, all limits >= 1',
 'Tests read two ASCII merge files; non-ASCII, control and backslash characters in symbols are not covered.',
 [B+'merge.py','codeprep/util.py'],[('file format','merge.dump_merges, read_merges, Merge.parse_file_entry'),('order','merge.MergeList.append, __add__')],
 ['codeprep.bpepkg.merge.read_merges','dump_merges','MergeList'])
p('C07','Vocabulary and cache files survive writing and reading',
 'A vocabulary written to disk and loaded again, a cache of segmentations written and read again, and a set of unsplittable tokens written and read again are equal to what was written, for arbitrary tokens: tabs, newlines, backslashes, control and any non-ASCII characters included (a space only as the separator of subwords).',
 ['inputs'],'all vocabularies / caches / token sets over arbitrary Unicode',
 'One doctest round-trips a two-entry cache.',
 [B+'cache.py',L+'vocab.py',L+'vocabloader.py','codeprep/preprocess/metadata.py','codeprep/util.py'],
 [('escaping','util.to_literal_str / to_non_literal_str'),('vocab','vocab._dump_vocab_dict, _load_vocab_dict, _load_vocab_set'),('cache','cache.dump_bpe_cache, read_bpe_cache'),('non-bpe','metadata.save_metadata, vocabloader.gather_non_bpe_vocab')],
 ['codeprep.pipeline.vocab','codeprep.bpepkg.cache','codeprep.pipeline.vocabloader'])
p('C08','A preprocessed file is one line that splits back into the exact tokens',
 'Preprocessing a parsed file writes exactly one line of pure ASCII ending in a newline; splitting that line on single spaces and undoing the escaping yields exactly the list of tokens that preprocessing the same tokens in memory (with the end-of-file token appended) gives, for any token contents. The vocabulary and corpus size computed from such files count exactly these tokens.',
 ['inputs','configurations'],'all parsed token lists, all configurations',
 'Tests compare a handful of written files with literals.',
 [L+'to_repr.py',L+'vocab.py','codeprep/util.py','codeprep/api/corpus.py'],[('writing','to_repr.preprocess_and_write, to_token_str'),('escaping','util.to_literal_str'),('reading','vocab.get_vocab, corpus._calc_n_tokens')],
 ['codeprep.pipeline.to_repr.preprocess_and_write','codeprep.pipeline.vocab.get_vocab','PreprocessedCorpus.get_corpus_size'])
p('C09','Metadata describes the token list exactly',
 'For every list of parsed tokens and every valid configuration, the returned word boundaries start at 0, strictly increase and end at the number of subtokens; there is one token type per full token, and each slice between boundaries is the representation of one full token of that type. The set of unsplittable tokens contains only tokens that do occur in the output.',
 ['inputs','configurations'],'all parsed token lists x all valid configurations',
 'Tests check metadata for some thirty fixed token lists and a few configurations out of several thousand.',
 ['codeprep/preprocess/core.py','codeprep/preprocess/metadata.py',T+'containers.py',T+'rootclasses.py',T+'word.py',T+'numeric.py',T+'noneng.py'],
 [('metadata merge','metadata.PreprocessingMetadata.update'),('per-token metadata','rootclasses.ParsedToken.wrap_in_metadata_for_full_word'),('dispatch','core.torepr, to_repr_list')],
 ['codeprep.pipeline.to_repr.to_repr','codeprep.api.text.* with return_metadata'])
p('C10','End-of-word marks identify full tokens and only them',
 'With BPE or character splitting, a returned subtoken carries the end-of-token mark exactly at the last subtoken of each full token, so cutting after each mark and removing it gives back the full tokens that the same configuration without splitting produces for words, numbers, operators, keywords and string literals (merge lists that build the text of the mark itself aside). The validity check of metadata accepts every result and rejects a result whose list of boundaries was changed to any other increasing list or does not run from 0 to the number of subtokens.',
 ['inputs','configurations'],'all parsed token lists, merge lists, BPE-type configurations',
 'Tests check fixed samples; words containing mark-like text or the escape character are not covered.',
 [L+'to_repr.py','codeprep/preprocess/metadata.py','codeprep/subtokens.py'],[('marks','to_repr.insert_and_word_tokens'),('check','metadata.check_metadata_validity, subtokens.is_terminal_subtoken')],
 ['codeprep.pipeline.to_repr.to_repr'])
p('C11','Splitting an identifier loses nothing',
 'For every word made of word characters, the parts of the parsed identifier concatenate back to exactly that word, case included; so the no-split output contains the identifier verbatim and the basic-split output, with the word boundary tokens removed, concatenates to it. Multi-part identifiers are enclosed in one pair of word boundary tokens and single-part ones are not.',
 ['inputs'],'all Unicode words',
 'Tests split about twenty ASCII/German identifiers.',
 ['codeprep/parse/subtokens.py',T+'word.py',T+'containers.py'],[('split regex','subtokens.split_identifier'),('case','word.Word.from_, _Word__with_preserved_case'),('wrapping','containers.wrap_in_word_boundaries_if_necessary')],
 ['codeprep.parse.subtokens.split_identifier','codeprep.api.text.nosplit / basic'])
p('C12','Lowercasing keeps the case information',
 'With basic splitting and no_case, every part of an ASCII identifier is output in lower case, preceded by the capitals marker exactly when the whole part was upper case (a single upper-case letter included) and by the capital marker exactly when it has more letters and only the first was upper case, so the original identifier can be rebuilt from the output.',
 ['inputs'],'all ASCII identifiers',
 'Only a handful of identifiers are tested.',
 [T+'word.py',T+'containers.py','codeprep/prepconfig.py'],[('markers','word.Word.preprocessed_repr'),('classification','word.Word.from_')],
 ['codeprep.api.text.basic(no_case=True)'])
p('C13','Tokenising text keeps every visible character in order',
 'Breaking a piece of source text (identifier, comment or string literal contents) into tokens drops nothing but space characters: without spaces, the tokens concatenate in order to the text with its spaces removed (numbers up to letter case), runs of four spaces become tabs outside strings, and inside string literals the runs of spaces are kept with their exact length.',
 ['inputs'],'all Unicode texts',
 'Two doctests and a few unit tests over ASCII samples.',
 ['codeprep/parse/subtokens.py',T+'whitespace.py'],[('token regexes','subtokens.split_into_words, split_string'),('classification','subtokens.to_parsed_token')],
 ['codeprep.parse.subtokens.split_into_words','split_string'])
p('C14','Comment and string options change only comments and strings',
 'Replacing comments (no_com) or string literals (no_str, max_str_length) turns each such token into exactly its one placeholder (or the two-quote form when the literal, quotes included, is longer than the limit; a limit below 2 counts as 2 and one above 61 as none) and leaves the output of every other token identical to the output without the option. A literal not longer than the limit is output as without a limit.',
 ['inputs','configurations'],'all token lists, all limits, all splitting modes',
 'Tests use a few fixed limits and token lists.',
 [T+'containers.py','codeprep/prepconfig.py','codeprep/api/common.py'],[('string limit','containers.StringLiteral.non_preprocessed_repr'),('comments','containers.Comment'),('limit encoding','common.create_str_value, prepconfig.get_max_str_length')],
 ['codeprep.pipeline.to_repr.to_repr','codeprep.api.text.*'])
p('C15','no_spaces and no_unicode guarantees',
 'With no_spaces no full token of the output is a tab or a newline and everything else is unchanged. With no_unicode, every identifier or comment/string word containing a non-ASCII character is replaced (by the non-English placeholder, or under BPE by itself with each maximal run of non-ASCII characters replaced by one replacement character, letters and case otherwise kept; a string kept whole is replaced as a whole) and pure ASCII tokens are unchanged.',
 ['inputs','configurations'],'all token lists, all configurations',
 'Tests sample three words.',
 ['codeprep/noneng.py',T+'noneng.py',T+'whitespace.py',T+'containers.py'],[('replacement','noneng.replace_non_ascii_seqs'),('wrapping','noneng.NonEng.preprocessed_repr'),('whitespace','whitespace.NewLine/Tab.preprocessed_repr')],
 ['codeprep.pipeline.to_repr.to_repr','codeprep.noneng.replace_non_ascii_seqs'])
p('C16','Preprocessing configurations encode and decode faithfully',
 'Every accepted configuration is turned into a code string from which exactly the same configuration is rebuilt, different configurations have different codes, and codes of wrong length, with an unknown value, or combining lowercasing with no splitting or with byte-pair encoding are rejected. The representation settings derived from a configuration (what is split, replaced, lowercased, string limit) are those the options ask for.',
 ['configurations','inputs'],'all option combinations and all code strings',
 'Tests cover about ten combinations of several thousand.',
 ['codeprep/prepconfig.py','codeprep/api/common.py',B+'bpe_config.py'],[('codec','prepconfig.PrepConfig.from_encoded_string, __str__'),('invariants','PrepConfig.__check_invariants'),('derivation','PrepConfig.get_types_to_be_repr, get_max_str_length')],
 ['codeprep.prepconfig.PrepConfig','codeprep.api.common.create_prep_config'])
p('C17','Command line and Python API build the same configuration',
 'For every combination of options allowed on the command line, the preprocessing configuration, merge list id, extensions and paths passed on by the command equal those of the Python call with the corresponding arguments, for text and for corpora, for all splitting modes; no option is dropped or swapped. For BPE learning, the options given map to the corresponding learning configuration.',
 ['configurations'],'all option combinations',
 'CLI tests fix about 30 argument lists, one option at a time.',
 ['codeprep/cli/impl.py','codeprep/cli/spec.py','codeprep/api/text.py','codeprep/api/corpus.py','codeprep/api/common.py'],[('cli mapping','impl.create_prep_config_from_args, create_split_value_from_args'),('api mapping','common.create_prep_config'),('wrappers','api.text/corpus nosplit, chars, basic, bpe')],
 ['codeprep.cli.impl.handle_splitting','codeprep.api.text','codeprep.api.corpus'])
p('C18','Subtoken and full-token iteration agree',
 'For every list of subtokens and every list of word boundaries describing non-empty words, the subtoken iterator yields every subtoken once, in order, with the index of its word; the full-token iterator yields every word once, in order, formatted from exactly its subtokens; inconsistent boundaries are rejected.',
 ['inputs'],'all subtoken lists and boundary lists',
 'Doctests cover three small lists.',
 ['codeprep/subtokens.py'],[('iteration','subtokens.SubtokenIterator, FullTokenIterator'),('validation','TokenIterator.validate_word_boundaries')],
 ['codeprep.subtokens'])
p('C19','The vocabulary counts every token occurrence exactly once',
 'Whatever the number of files, how they are grouped, in which order the groups are merged and how the merging processes are scheduled, the resulting vocabulary maps each token to the number of its occurrences in all files, every merging process terminates, and exactly one of them writes the result.',
 ['schedules','inputs','configurations'],'all groupings, merge orders, process interleavings',
 'Tests run one schedule on a few files; the merging is concurrent.',
 [L+'vocab.py','codeprep/util.py'],[('grouping','util.groupify, create_chunk_generator'),('merging','vocab.PartialVocab.add_vocab, util.merge_dicts_'),('coordination','vocab.VocabMerger.run, create_chunk_queue, mapify_tasks, util.AtomicInteger')],
 ['codeprep.pipeline.vocab.calc_vocab'],[('process_counter','mergers still running','vocab.VocabMerger'),('tasks','queues of partial vocabularies','vocab.VocabMerger')])
p('C20','Vocabulary calculation survives being interrupted',
 'If the calculation of a vocabulary is killed at any point and started again on the same files, the vocabulary finally produced is the one an uninterrupted calculation produces: no partial result is lost or counted twice and an incomplete vocabulary file is never taken for a finished one.',
 ['crash_points','histories'],'all points between file system operations at which the process dies',
 'One test covers an interrupted merge with a hand-made directory.',
 [L+'vocab.py'],[('hand-over file names','vocab.VocabMerger._merge, finish_file_dumping'),('recovery','vocab.load_partial_vocabs, partial_vocabs_ready'),('final files','vocab.calc_vocab, _finish_merges')],
 ['codeprep.pipeline.vocab.calc_vocab'],[('part_vocab dir','dumped partial vocabularies','vocab.VocabMerger.path_to_dump')])
p('C21','Vocabulary statistics, ordering and size limits are right',
 'A written vocabulary lists every token with its count, in order of non-increasing count. Limiting a vocabulary to n entries never keeps more than n, keeps every token more frequent than the most frequent dropped one, drops all tokens of a frequency that does not fit completely, and leaves a vocabulary of at most n entries unchanged; the statistics file starts with the vocabulary size.',
 ['inputs'],'all vocabularies and limits n >= 0',
 'Tests use two fixed vocabularies.',
 [L+'vocab.py'],[('limit','vocab.PartialVocab.limit_max_vocab'),('write','PartialVocab.write_vocab, write_stats')],
 ['codeprep.pipeline.vocab.PartialVocab'])
p('C22','A merge list id selects the right merges',
 'An id of the form <list>-<n> (n without leading zeros, n >= 1) selects the trained list named <list>, uses exactly its first n merges, read from the trained set with the fewest merges that still has at least n, and fails with the invalid-id error if the list is unknown or fewer than n merges were trained. The largest and smallest trained sets within a limit are found correctly, ignoring directories that are not merge counts.',
 ['inputs','configurations','histories'],'all id strings, all sets of trained merge counts, all n',
 'Tests mock two or three directory layouts.',
 [L+'bperegistry.py',B+'merge.py',L+'to_repr.py'],[('parse','bperegistry.parse_merge_list_id'),('selection','bperegistry.CustomBpeConfig.create, get_min_merges, get_max_merges'),('lookup','bperegistry.get_dataset_bpe_dir')],
 ['codeprep.pipeline.bperegistry.CustomBpeConfig.from_id','load_bpe_merges'])
p('C23','New merge lists get fresh ids and ids lead back to their own data',
 'A merge list id assigned automatically differs from all ids in use, whatever characters the dataset name has (line breaks and white space at its ends aside) and whatever ids exist; a written id is read back. From an id, the base vocabulary directory found is the one the training of that dataset wrote to, for every dataset name, extension list (extensions without "_-_") and learning option.',
 ['inputs','configurations','histories'],'all dataset names, existing ids, extension lists, BPE options',
 'Tests use three alphabetic names.',
 [L+'bperegistry.py',L+'dataset.py',B+'bpe_config.py'],[('fresh id','bperegistry.create_new_id_from'),('path derivation','bperegistry.get_base_vocab_dir, dataset.Dataset.bpe_path, base_bpe_vocab_path'),('suffix codec','bpe_config.BpeConfig.to_suffix, from_suffix')],
 ['codeprep.pipeline.bperegistry','codeprep.pipeline.dataset.Dataset'])
p('C24','Every selected file is processed once under its own output name',
 'For every directory tree and extension list, the files selected are exactly the regular files whose name ends in "." plus one of the extensions (all files if none are given), including those below symbolic links to directories but not symbolic links to files, each once; the list read back from the saved file list equals the list from scanning, for arbitrary file name bytes; and the mapping from original file to parsed to preprocessed name is one-to-one, stays inside the target directory and can be inverted.',
 ['inputs','configurations'],'all directory trees, all file names as byte strings, all extension lists',
 'Tests use a fixed directory tree with simple names.',
 ['codeprep/dirutils.py','codeprep/fileutils.py',L+'dataset.py'],[('scan','dirutils.walk_and_save, fileutils.has_one_of_extensions'),('saved list','dataset.Dataset.get_all_files'),('mapping','dataset.SubDataset.get_new_file_name, file_iterator')],
 ['codeprep.pipeline.dataset.Dataset.get_all_files','SubDataset.file_iterator','get_new_file_name'])
p('C25','Changed data is noticed, unchanged data is reused',
 'A directory marked as ready is reported ready and up to date as long as nothing in it changes, and is reported outdated after any file or directory in it (up to the documented scan limit) is added, removed, renamed or modified at a time later (in whole seconds) than every timestamp in it. The timestamp of a directory is the latest modification time among the directory itself and the files and directories in it (a symbolic link to a file does not count). A data set that changed in this way gets new names for its file list, parsed and preprocessed data and merges, an unchanged one keeps them. Setting an outdated directory aside keeps its contents and leaves neither the directory nor its mark.',
 ['histories','inputs'],'all trees, all modification times, all single changes',
 'One test touches one file.',
 ['codeprep/dirutils.py',L+'dataset.py'],[('fingerprint','dirutils.get_dir_last_modification, get_timestamp'),('marker','dataset.set_path_ready, is_path_ready, is_path_outdated, archive_path')],
 ['codeprep.pipeline.dataset.is_path_outdated','is_path_ready'])
p('C26','Interrupted processing never leaves a truncated result under its final name',
 'While a source file is parsed or preprocessed, a file under the final output name exists only once it is complete: dying at any point leaves either no final file or the complete one, and running again then produces the same complete file. The same holds for the non-BPE vocabulary gathered while preprocessing and for the saved size of the corpus. Stopping by an error (disk full) or an interrupt instead of dying makes no difference. A stage is marked ready only after all its files were written.',
 ['crash_points','fault_sequences'],'all points between file system operations',
 'No test interrupts a run.',
 [L+'to_repr.py',L+'parse_projects.py',L+'stages.py',L+'vocabloader.py'],[('temp name + rename','to_repr.preprocess_and_write, parse_projects.preprocess_and_write'),('ready marker','to_repr.run, parse_projects.run')],
 ['codeprep.pipeline.to_repr.preprocess_and_write','codeprep.pipeline.parse_projects.preprocess_and_write'])
p('C27','The pair queue always returns the pair with the highest count',
 'After any sequence of additions (positive or negative), removals and pops, popping returns a pair whose accumulated count is the highest of those present (earliest added first among equals when updated once), together with that count; pairs whose count became zero are not returned, each pair is returned at most once per insertion, and an empty queue raises the key error.',
 ['histories','inputs'],'all sequences of operations',
 'Tests run three fixed sequences.',
 ['codeprep/util.py'],[('lazy deletion heap','util.PriorityCounter.add, remove_task, pop_pair')],['codeprep.util.PriorityCounter'])
p('C28','Continuing BPE learning extends the earlier result',
 'Learning more merges when a smaller set was already learned for the dataset keeps the earlier merges unchanged as the first ones, continues from the segmentation they produced, never splits tokens marked as unsplittable, and saves merges, cache and vocabularies that agree with each other; a result already learned is not overwritten. Dying while results are saved leaves no partial result to be used later, and learning again then succeeds.',
 ['histories','inputs'],'all training vocabularies, all splits of the merge count into two runs',
 'Tests mock the dataset and check one vocabulary.',
 [L+'bpelearner.py',B+'bpe_learn.py'],[('continuation','bpelearner.run, prepare_vocabs, get_dir_with_most_merges'),('saving','bpelearner.save_results'),('exclusion','bpe_learn.separate_vocabs')],
 ['codeprep.pipeline.bpelearner.run'])
p('C29','Numbers are recognised by one grammar and split without loss',
 'A word is treated as a number exactly when it is a decimal, hexadecimal (0x) or binary (0b) integer literal with optional underscores between digit groups and optional type suffix, or a decimal floating-point literal with digits, optional point, exponent and suffix, written in ASCII. Splitting a number into digits yields its characters in order, enclosed in word boundary tokens when there is more than one, and in lower case.',
 ['inputs'],'all words',
 'Doctests list twenty literals.',
 ['codeprep/parse/subtokens.py',T+'numeric.py'],[('grammar','subtokens.is_number, NUMBER_PATTERN'),('splitting','numeric.Number.preprocessed_repr')],
 ['codeprep.parse.subtokens.is_number','codeprep.tokens.numeric.Number'])
p('C30','Whatever the lexer reports is converted completely',
 'For every sequence of lexer tokens (any token type, any text), conversion succeeds and classifies by type: the visible characters of each lexer token appear, in order, in the parsed tokens; comments, strings, names, numbers, operators, keywords and line breaks (a lexer token that is exactly one line break) get their kind of parsed token; and no parsed token other than inside a string literal prints a plain space.',
 ['inputs'],'all lexer token streams',
 'Tests parse a few source samples in few languages.',
 ['codeprep/parse/core.py','codeprep/parse/matchers.py'],[('matcher table','parse.core.matchers, _convert'),('matchers','parse.matchers.*')],
 ['codeprep.parse.core.convert_text'])
p('C31','Stages run exactly when their results are missing or outdated',
 'Asking for preprocessed data or a vocabulary runs parsing before preprocessing before vocabulary calculation, parses or preprocesses if the result of that stage is missing or marked outdated (setting the outdated result aside first, and succeeding for data sets without files too), does not rerun a stage whose result is ready and up to date, and calculates a vocabulary, from the preprocessed data, exactly if it is not there yet.',
 ['histories','configurations'],'all combinations of stage states',
 'No test covers the stage logic.',
 [L+'stages.py',L+'dataset.py'],[('stage logic','stages.run_parsing, run_until_preprocessing, run_until_base_bpe_vocab, run_until_vocab')],
 ['codeprep.pipeline.stages'])
p('C32','Source files are read completely and in the right encoding',
 'The text taken from a source file is its contents decoded as UTF-8 if they are valid UTF-8 and as ISO-8859-1 otherwise, with "\\r\\n" and "\\r" read as line breaks and at most one line break at the very end left out; nothing else is dropped, added or replaced and reading never fails, whatever bytes the file consists of. Parsing a data set converts exactly this text of each file, with the lexer its extension names (Java if there is no extension, guessing if there is no lexer of that name), for files with any name.',
 ['inputs'],'all file contents, all file names and extensions',
 'Tests read two files; encodings, truncated multi-byte sequences, unusual line separators and names that are not valid UTF-8 are not covered.',
 ['codeprep/fileutils.py',L+'parse_projects.py','codeprep/parse/core.py'],[('reading','fileutils.read_file_contents'),('converting','parse_projects.preprocess_and_write'),('lexer','parse.core.convert_text')],
 ['codeprep.fileutils.read_file_contents','codeprep.pipeline.parse_projects.preprocess_and_write'])
p('C33','Text functions do not depend on history; extras only add what they say',
 'The result of a text function (nosplit, basic, chars, bpe with any predefined or learned merge list) depends only on its arguments, not on which functions with which merge lists were called before in the same process. Asking for metadata returns the same tokens and adds their metadata, appending the end-of-file token adds that one token at the end, one line break at the end of the text is ignored, and not reloading the data of the same merge list changes nothing. Preprocessing a directory, with any number of processes working in any order, gives for each file the tokens that the text function with the same options gives for its text and extension, apart from keeping the line break at its end and adding the end-of-file token.',
 ['histories','inputs','configurations'],'all sequences of calls, all texts, all merge lists',
 'Tests call every function once on a fixed text in a fixed order.',
 ['codeprep/api/text.py','codeprep/api/common.py','codeprep/api/corpus.py',L+'to_repr.py','codeprep/preprocess/core.py'],[('options','api.text.preprocess, remove_trailing_newline'),('global data','to_repr.init_bpe_data, get_global_bpe_data_if_available'),('directories','to_repr.preprocess_and_write')],
 ['codeprep.api.text','codeprep.api.corpus'])
p('C34','The vocabularies of a merge list are complete',
 'After preprocessing a data set for learning, the stored set of tokens that must not be split consists of exactly the unsplittable tokens of all its files and the placeholder tokens, however many processes ran, in whichever order and however close together files were finished, also if files have the same name or the run was stopped and repeated. The vocabularies looked up by the id of a merge list are those of its data set: all tokens with their counts, the tokens that must not be split, all tokens but these, and the vocabulary resulting from the given number of merges; unknown ids and numbers of merges are reported.',
 ['inputs','schedules','histories'],'all data sets, all orders of finishing, all vocabularies',
 'One test gathers three files with distinct names; no test looks up vocabularies by id.',
 [L+'to_repr.py',L+'vocabloader.py','codeprep/preprocess/metadata.py'],[('partial sets','to_repr.preprocess_and_write, metadata.save_metadata'),('union','vocabloader.gather_non_bpe_vocab'),('lookup','vocabloader.all, base, nonbpe, bpe')],
 ['codeprep.pipeline.vocabloader','codeprep.pipeline.stages.run_until_base_bpe_vocab'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P), [ (d['id'],len(d['title'])) for d in P if len(d['title'])>80])
