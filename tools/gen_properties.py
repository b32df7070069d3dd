"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": observe_at,
                "hook_needed": None,
            },
        }
    )


IDX = "hyperreal/index.py"
SCH = "hyperreal/_index_schema.py"
UTL = "hyperreal/utilities.py"
DBU = "hyperreal/db_utilities.py"
COR = "hyperreal/corpus.py"
CLI = "hyperreal/cli.py"
SRV = "hyperreal/server.py"

prop(
    "P01",
    "A feature lookup returns exactly the documents that carry the feature",
    "After indexing a corpus, looking up any (field, value) pair, or the numeric id of that feature, returns exactly the documents whose corpus-declared values for that field contain that value, and the empty set for anything never indexed. Feature ids and (field, value) pairs translate into each other one to one. This holds for every corpus, document batch size, number and completion order of background batches, working directory, and with or without positional indexing.",
    ["inputs", "configurations", "schedules"],
    "all corpora (any fields, set or sequence valued, int or text values, duplicates, None entries, empty or missing fields, empty corpora), all batch sizes, all orders in which background batches finish",
    "test_indexing checks two aggregate counts (total docs and total postings) on one text at batch sizes 10 and 1; no document set is ever compared with the corpus, and one scheduling is observed per run.",
    [IDX, DBU],
    [
        ("batching and dispatch in Index.index", IDX),
        ("_index_docs builds per batch postings", IDX),
        ("merge by replace into inverted_index ... roaring_union", IDX),
        ("Index.__getitem__, lookup_feature, lookup_feature_id", IDX),
    ],
    ["idx[(field, value)]", "idx[feature_id]", "lookup_feature", "lookup_feature_id"],
    [("inverted_index", "feature id, field, value and the set of documents", SCH)],
)
prop(
    "P02",
    "Retrieving a query's documents yields each exactly once under its own key",
    "Every document of the corpus is given exactly one document id, and ids and corpus keys correspond one to one. For any set of document ids, retrieving the documents, rendering them as HTML or as table rows returns each of those documents exactly once with its own id, key and content, and nothing else. With a random sample size n, exactly min(n, matches) distinct members of the query are returned and the query itself is left unchanged.",
    ["inputs", "configurations"],
    "all corpora and key types, all subsets of documents, all sample sizes",
    "test_querying compares only the lengths of the results for a single query and one sample size.",
    [IDX, COR],
    [
        ("Index.convert_query_to_keys, docs, render_docs_html, render_docs_table, sample_bitmap", IDX),
        ("doc_key table filled from corpus.keys()", IDX),
        ("PlainTextSqliteCorpus.docs/render_docs_html/render_docs_table", COR),
    ],
    ["convert_query_to_keys", "docs", "render_docs_html", "render_docs_table"],
    [("doc_key", "document id to corpus key", SCH)],
)
prop(
    "P03",
    "Reindexing equals indexing from scratch, with stable ids and the model kept",
    "After the corpus changes in any way and is indexed again into the same index, every lookup, document mapping, positional query and field summary equals that of a fresh index built from the current corpus. Every feature known before keeps its numeric id. The cluster a feature is assigned to and all pins survive, with feature and cluster document counts and document sets recomputed for the new contents.",
    ["histories", "inputs"],
    "all sequences of corpus contents and index settings (positions on/off, batch size), interleaved with model edits",
    "test_indexing reindexes an unchanged corpus and only compares feature ids; no test changes the corpus, and none reindexes with a model present.",
    [IDX, SCH],
    [
        ("zeroing of old postings, deletion of positions and doc keys in Index.index", IDX),
        ("feature_id subselect in the merge statement", IDX),
        ("feature_cluster.docs_count refresh, changed_cluster, field_summary rewrite", IDX),
    ],
    ["all query methods", "cluster_features", "cluster_docs", "indexed_field_summary"],
)
prop(
    "P04",
    "Indexing replaces the index contents all or nothing",
    "If indexing is interrupted at any point, by an error from the corpus, a background batch or the database, or by the process being killed, the index afterwards answers every query exactly as before the run or exactly as after a complete run, and it can be indexed again successfully. A reader on another connection at any moment of a run likewise sees only the complete old or the complete new contents. No temporary files are left behind by a run that returns or raises, and a caller-supplied working directory itself is kept.",
    ["crash_points", "fault_sequences", "schedules"],
    "every database statement of the run as a failure, kill or read point, every document or batch as the failing one, prior index empty or populated with a model",
    "No test makes indexing fail, kills it or reads during it.",
    [IDX],
    [
        ("single transaction around the rebuild, rollback on exception", IDX),
        ("temporary segment database attached for the merge", IDX),
        ("finally block: detach, foreign_keys pragma, tempdir cleanup", IDX),
    ],
    ["Index reopened on the same path", "second connection during the run", "the working directory"],
)
prop(
    "P05",
    "Passage search finds exactly the passages that match within a document",
    "A passage search (every clause an OR of features, all clauses of a field required) reports, per document, runs of matching positions of one field of that document in which neighbouring matches are at most the window apart, with start, end and number of matches relative to that document's own sequence. A document holding a match of every clause pairwise within the window is always reported and a document lacking any clause never is; for one or two clauses the reported passages are exactly those in which each clause has a match within the window. Neither the neighbouring documents nor the batching used when indexing influence the result for one or two clauses.",
    ["inputs", "configurations"],
    "all documents (including empty sequences and single tokens), clause lists, window sizes, batch sizes",
    "test_indexing runs one query with a window larger than any document, and only compares the number of documents.",
    [IDX, UTL],
    [
        ("score_passages_dnf and its per-partition worker", IDX),
        ("expand_positions_window", UTL),
        ("positions and document boundaries recorded while indexing", IDX),
    ],
    ["score_passages_dnf"],
    [
        ("position_index", "per batch positions of each feature", SCH),
        ("position_doc_map", "per batch document boundaries of each field", SCH),
    ],
)
prop(
    "P06",
    "Collocation counts are exact",
    "Counting collocations around a set of features of one field reports, for every other feature of that same field, exactly the number of its occurrences lying within the window of an occurrence of the set in the same document, together with its total number of occurrences. It also reports the exact total number of occurrences of the set and of positions covered by their windows. The counts never mix documents or fields and do not depend on how documents were batched at indexing.",
    ["inputs", "configurations"],
    "all documents with one or more sequence fields, feature sets, window sizes, batch sizes",
    "No test calls it.",
    [IDX, UTL],
    [
        ("count_collocations and its per-partition worker", IDX),
        ("expand_positions_window", UTL),
    ],
    ["count_collocations"],
)
prop(
    "P07",
    "Concordance windows and passage texts quote the documents exactly",
    "For a query and a list of features, window extraction returns every document of the query once, in key order, with, for every listed feature, one window per occurrence holding exactly the tokens from window_size before to window_size after that occurrence, clipped at the document's ends; values of set fields are listed without windows, and concordances are these windows joined to text. Rendered passages contain, for each scored passage, exactly the tokens from overhang before its start to overhang after its end. Random sampling returns min(n, available) distinct documents, each with its complete result.",
    ["inputs"],
    "all documents, queries, feature lists by id or by (field, value), window sizes and overhangs including 0",
    "test_indexing checks that each window holds one of two words and is not too long for one query.",
    [IDX],
    [
        ("extract_matching_feature_windows, concordances", IDX),
        ("render_passages_table, _construct_passages", IDX),
    ],
    ["extract_matching_feature_windows", "concordances", "render_passages_table"],
)
prop(
    "P08",
    "Cluster edits do exactly what they say and keep the model a partition",
    "Through any history of creating a model, deleting features or clusters, merging, creating clusters from features and pinning, each feature is in at most one cluster and the model equals the one obtained by applying the same edits to a plain feature-to-cluster mapping. The listed clusters are exactly those with at least one feature, a newly created cluster gets an id higher than every existing one, and pins change only where asked. Creating a model assigns every feature of the chosen fields with at least min_docs documents, and no other, to n clusters of equal size up to one.",
    ["histories", "inputs"],
    "all interleavings of model operations with arbitrary arguments, including repeated, overlapping, unknown and empty id lists",
    "test_model_editing applies one fixed sequence of edits to one index.",
    [IDX, SCH],
    [
        ("initialise_clusters, delete_clusters, delete_features, merge_clusters, create_cluster_from_features, pin_*", IDX),
        ("feature_cluster triggers and foreign keys", SCH),
        ("_update_changed_clusters removing empty clusters", IDX),
    ],
    ["cluster_ids", "cluster_features", "top_cluster_features", "pinned_cluster_ids", "next_cluster_id"],
    [
        ("feature_cluster", "cluster and pin of each feature", SCH),
        ("cluster", "one row per cluster with pin and summary", SCH),
    ],
)
prop(
    "P09",
    "Stored cluster summaries always match the features in the cluster",
    "After every model operation and after every indexing run, the stored document set of each cluster is exactly the union of the documents of its features, and its stored document count is the size of that set. Each feature is listed in its cluster with its current document count. Cluster and feature listings are ordered by descending document count, and a limit k returns only the k most frequent.",
    ["histories"],
    "all histories of model edits, refinements, nested or failed operations, reindexing and reopening",
    "Tests look at summaries only indirectly (number of clusters); a stale or missing summary would pass.",
    [IDX, SCH],
    [
        ("_update_changed_clusters run when the outermost writing operation ends", IDX),
        ("insert/update/delete triggers filling changed_cluster", SCH),
        ("_union_query background union", IDX),
        ("cluster_docs, cluster_features, top_cluster_features", IDX),
    ],
    ["cluster_docs", "cluster_features", "top_cluster_features"],
    [("changed_cluster", "clusters whose summary must be refreshed", SCH)],
)
prop(
    "P10",
    "Refinement only rearranges the features it is allowed to move",
    "Refining a model never adds, drops or duplicates a feature, and never changes the cluster of a pinned feature, of any feature in a pinned cluster, or of any feature in a cluster outside the selected ones; new clusters get ids not in use. With a minimum cluster size of one, the number of clusters within the selection afterwards equals the requested target (or stays the same if none is given) whenever there are enough movable features for that and the target is not below the number of clusters that are pinned or hold pinned features. A cluster with at least the minimum number of features is not shrunk below it by moves, unless it is being split or dissolved, and refinement completes for every model, selection, pinning and target of at least one.",
    ["inputs", "histories", "configurations"],
    "all models, selections, pins, targets above or below the current size, iteration counts, group testing settings, probe queries and seeds",
    "test_pinning/test_splitting/test_dissolving run single configurations over one index, always with all clusters selected or the target 2, and never with everything in a cluster pinned.",
    [IDX],
    [
        ("refine_clusters selection and id remapping", IDX),
        ("_refine_feature_groups split, dissolve and move loop", IDX),
        ("_find_best_moves, _score_proposed_moves", IDX),
    ],
    ["refine_clusters followed by cluster_features / cluster_ids"],
)
prop(
    "P11",
    "Refinement moves features to the cluster where they contribute most",
    "The contribution used to compare clusters is the exact change of the objective, sum of hits/(covered docs + features) - hits/(hits + features), caused by adding a feature to a cluster or having it there, within any probe query; a feature not overlapping the cluster scores worst, one alone in its cluster zero. If every move is accepted and every cluster (or group) is compared, a pass puts each movable feature in a cluster of maximal contribution, unless its own is at the minimum size. Clusters of least objective are dissolved first, a new cluster takes half of the largest, with group testing each feature is compared with the clusters of its best groups, and passes are repeated as often as asked unless fewer features than the tolerance still move (one above one ends after one pass).",
    ["inputs"],
    "all assignments of features with arbitrary document sets to clusters, probe queries, minimum sizes",
    "No test compares a score or a move with the definition; tests only count clusters.",
    [IDX],
    [
        ("measure_feature_contribution_to_cluster", IDX),
        ("_score_proposed_moves keeps the best scoring cluster", IDX),
        ("move loop of _refine_feature_groups", IDX),
    ],
    ["refine_clusters with move_acceptance_probability=1, group_test_batches=0", "measure_feature_contribution_to_cluster"],
)
prop(
    "P12",
    "Model edits are all or nothing and serialisable",
    "A model operation that fails at any point, or whose process is killed, leaves the stored model exactly as it was before the operation or exactly as after it, and the index stays usable afterwards. When two connections edit the same index at once, in any interleaving, every edit that reports success has taken effect and the result equals running the successful edits one after the other; an edit that reports an error has had no effect.",
    ["schedules", "fault_sequences", "crash_points"],
    "every database statement of every model operation as a failure or kill point, and as the point where another connection performs a complete edit",
    "No test injects a failure or uses two writers.",
    [IDX, SCH],
    [
        ("atomic decorator: nested savepoints, rollback to, release", IDX),
        ("WAL journal and snapshot isolation of SQLite connections", DBU),
    ],
    ["model state read through a fresh connection"],
)
prop(
    "P13",
    "A fixed random seed reproduces the result whatever the scheduling",
    "Two indexes with identical contents, opened with the same random seed and given the same sequence of operations (model creation, refinement, sampling), end with identical models and samples. This does not depend on the number of workers, on the order in which background work completes, or on whether the index was built in one batch or many.",
    ["schedules", "configurations", "inputs"],
    "all models and operation sequences, all worker counts and completion orders",
    "test_fixed_seed repeats one sequence on one pool with the same number of workers, so an order dependence shows only by luck.",
    [IDX],
    [
        ("Index.random used for every random choice", IDX),
        ("futures consumed in submission order, sorted keys before dispatch", IDX),
    ],
    ["cluster_features", "structured_doc_sample", "sample_bitmap"],
)
prop(
    "P14",
    "Pivoting and the cluster graph report exact similarities",
    "Pivoting the model by any set of documents returns each (selected) cluster sharing a document with it exactly once, in descending order of Jaccard similarity, with its exact similarity, and for each the k features most similar to the query with exact Jaccard similarities in descending order, leaving out features without any shared document. The cluster graph has exactly one node per cluster with its document count and top features, and an edge between exactly those pairs of clusters that share documents, weighted by their Jaccard similarity.",
    ["inputs", "histories"],
    "all models and query sets (single features, cluster sets, arbitrary, empty), all k >= 1, any cluster selection",
    "test_pivoting looks for one feature at the top of some cluster; test_graph_creation counts nodes.",
    [IDX],
    [
        ("pivot_clusters_by_query and its early termination threshold", IDX),
        ("_calculate_query_cluster_cooccurrence", IDX),
        ("create_cluster_cooccurrence_graph", IDX),
    ],
    ["pivot_clusters_by_query", "create_cluster_cooccurrence_graph"],
)
prop(
    "P15",
    "Ranking by number of matching features is exact",
    "For any list of features or any cluster, the accumulated ranking structure gives every document precisely the number of those features it contains, and the matching set is exactly the documents containing at least one. Asking for the top k returns every matching document if there are at most k, and otherwise exactly the documents whose count is at least the k-th largest count.",
    ["inputs"],
    "all lists of document sets (including empty, repeated and very large ones), all k >= 1",
    "test_querying checks k=5 for sixteen clusters of one index and takes the expected size from the result itself.",
    [UTL, IDX],
    [
        ("compute_bitslice, bstm, weight_bitslice", UTL),
        ("cluster_query, union_bitslice", IDX),
    ],
    ["cluster_query", "union_bitslice", "utilities.bstm", "utilities.weight_bitslice"],
)
prop(
    "P16",
    "Structured samples and their CSV export are faithful",
    "A structured sample takes from every selected cluster, from the least to the most frequent, min(docs_per_cluster, remaining) documents of that cluster that were not sampled before (all remaining ones for 0), so that no document is sampled twice. The accompanying cluster map lists for every cluster exactly the sampled documents it covers. The exported CSV holds exactly one row per sampled document with its own key, table fields, sampled cluster and a mark in the column of exactly those clusters that cover it, and reading it back yields the original field values.",
    ["inputs", "histories"],
    "all models, selections, sample sizes including 0, and document texts including quotes, commas, newlines and any Unicode",
    "test_model_structured_sampling checks total counts for one model and never reads the CSV back.",
    [IDX],
    [
        ("structured_doc_sample, sample_bitmap", IDX),
        ("export_document_sample", IDX),
    ],
    ["structured_doc_sample", "export_document_sample output file"],
)
prop(
    "P17",
    "Field summaries and field intersections are exact",
    "The field summary lists exactly the fields present with their number of distinct values, minimum and maximum value and number of recorded positions. Iterating a field yields its values in ascending order, each with its document count and documents, leaving out values below the requested minimum. Intersecting queries with a field gives, for every value in that order, its document count and for every query the exact number of documents shared.",
    ["inputs"],
    "all corpora, fields (also absent ones), queries and minimum counts, before and after reindexing",
    "The only test (test_field_intersection) needs missing data and fails in the baseline; it checks signs of counts.",
    [IDX],
    [
        ("field_summary written at the end of indexing", IDX),
        ("iter_field_docs, intersect_queries_with_field, indexed_field_summary", IDX),
    ],
    ["indexed_field_summary", "iter_field_docs", "intersect_queries_with_field"],
)
prop(
    "P18",
    "Opening upgrades old indexes, and refuses and preserves other files",
    "Opening an index written by any supported older version upgrades it once and then answers every query, and holds the same model with correct cluster summaries, as an index written by the current version would. This also holds if opening (or creating) an index fails or is killed at any point and is repeated, and if other connections open the file meanwhile. Opening a database that is not an index, or an index of an unknown version, raises a migration error and leaves its tables and rows as they were. The test whether a path is an index is true exactly for index databases and false, without raising, changing the file or creating a database, for every other file, directory or missing path.",
    ["inputs", "histories", "configurations", "crash_points", "schedules"],
    "all index contents at every supported schema version 4-9, every statement of opening as a failure, kill or concurrent-open point, all unrelated databases and files, all path names",
    "All tests use current-version indexes with plain path names.",
    [SCH, IDX],
    [
        ("migrate() and the migrations table", SCH),
        ("Index.__init__ refreshing clusters after a migration", IDX),
        ("Index.is_index_db", IDX),
    ],
    ["hyperreal.index.Index(path)", "Index.is_index_db(path)"],
)
prop(
    "P19",
    "A plain text corpus stores and returns the given documents verbatim",
    "Replacing the documents of a plain text corpus leaves exactly the given texts in the given order, each retrievable verbatim by its key, both directly and after pickling or reopening; if the source of texts fails, the error is reported and the previous documents are all kept. Creating a corpus from a text file on the command line yields one document per line that is not just whitespace, with the complete text of the line, where a line that is a quoted JSON string is decoded.",
    ["inputs", "fault_sequences", "histories"],
    "all sequences of texts (any Unicode, quotes, commas), all sequences of replacements, a failure after any number of texts, all text files",
    "test_plaintext_corpus only checks the exit code for one file, and no test reads a stored document back.",
    [COR, CLI],
    [
        ("PlainTextSqliteCorpus.replace_docs, docs, keys", COR),
        ("plaintext_corpus_create", CLI),
    ],
    ["PlainTextSqliteCorpus.keys/docs", "hyperreal plaintext-corpus create"],
)
prop(
    "P20",
    "Tokenising normalises text without losing content",
    "Tokenising any text yields non-blank tokens that, joined, are the lower-cased text with curly quotes straightened, apart from white space and apostrophes; letters, digits and symbols are never lost, reordered or duplicated. Texts differing only in the case of ASCII letters or in curly versus straight quotes tokenise identically, words separated by white space tokenise independently of each other, and plain words, numbers and contractions are kept whole and split from punctuation. Social media tokenising gives the tokens of the text with every URL, @mention and #hashtag (up to the next white space) removed and everything else kept.",
    ["inputs"],
    "all Unicode strings",
    "Tokenisers are only used by tests as their own oracle.",
    [UTL],
    [
        ("tokens, social_media_tokens, word_tokenizer, curly_quote_translator", UTL),
    ],
    ["utilities.tokens", "utilities.social_media_tokens"],
)
prop(
    "P21",
    "A Stack Exchange corpus reflects the loaded site dumps exactly",
    "After loading any sequence of site dumps, the corpus holds exactly one document per question or answer and site, with the latest loaded attributes, keeping its key when a site is loaded again; documents, tags (of the root question for an answer), comments and user names of different sites never mix, and users missing from the dump appear as deleted. A load that fails part way leaves the corpus as it was. The fields declared for indexing are exactly those of the document: author, title and body text tokens outside code blocks, code tokens, tags, commenters, comment tokens, site, type and creation day, month and year. In rendered posts titles, tags, names and comments are shown as text, never interpreted as markup.",
    ["inputs", "histories", "fault_sequences"],
    "all site dumps, orders of loading and reloading, and malformed files",
    "The Stack Exchange tests need data that is not in the repository and fail in the baseline.",
    [COR],
    [
        ("StackExchangeCorpus.add_site_data, docs, index, render_docs_html, render_docs_table", COR),
    ],
    ["docs", "keys", "index", "render_docs_table", "render_docs_html"],
)
prop(
    "P22",
    "The web interface shows and edits the model exactly as the library does",
    "Every edit made through the web interface leaves the index in the same state as the corresponding library call, GET requests never change it, and edits are refused by any other method than POST. Pages and the cluster export show exactly the clusters, features, counts, matching documents and field summaries the library reports for the same query. Pages requested at the same time each show what they show alone, and of edits requested at the same time those reported as successful take effect as if made one after the other. Text of plain text documents, field names and feature values are always shown as text, never interpreted as markup.",
    ["histories", "schedules", "inputs"],
    "all sequences of page views and edits, and sets of them at the same time, all models, all document texts and feature values",
    "test_server fetches five pages of one index and checks the status codes.",
    [SRV, "hyperreal/templates/macros.html"],
    [
        ("request handlers and ensure_list/lookup_index tools", SRV),
        ("templates with autoescape", "hyperreal/templates"),
    ],
    ["HTTP responses", "index state after each request"],
)
prop(
    "P23",
    "The command line does the same as the library calls",
    "Indexing, modelling, sampling and exporting from the command line leave the same index contents, model and files as the corresponding library calls with the same settings and random seed. The exported cluster table and graph, read back, hold exactly the clusters, features, counts and similarities of the model. A file that is not an index is refused by the export, sample and serve commands without being changed or creating output, and an existing model is only replaced after confirmation. Serving answers from and edits the given index until the command is terminated, and then ends.",
    ["inputs", "configurations", "histories"],
    "all corpora, options and sequences of commands",
    "test_plaintext_corpus only checks exit codes of one sequence of commands.",
    [CLI],
    [
        ("model, export graph, export clusters, make_two_file_indexer, make_csv_exporter, serve commands", CLI),
    ],
    ["hyperreal CLI commands", "written files"],
)
prop(
    "P24",
    "Everything observable survives reopening, pickling and storage",
    "The path of the index is its only necessary state: closing and reopening it, or sending it to another process, at any point of any history gives an object that answers every query identically and reaches the same corpus. Any set of document ids stored in the database is read back equal, whatever its size, density or representation, and the database-side union of any stored sets equals their union.",
    ["histories", "inputs"],
    "all histories of indexing and modelling, all sets of 32 bit ids",
    "Tests never reopen an index they changed, and only store the small dense sets of one text.",
    [IDX, DBU],
    [
        ("Index.__getstate__/__setstate__", IDX),
        ("save_bitmap, load_bitmap, RoaringUnion adapters", DBU),
    ],
    ["Index reopened or unpickled", "db_utilities.connect_sqlite"],
)

prop(
    "P25",
    "A Twittersphere corpus reflects the collected tweets exactly",
    "The documents of a Twittersphere database are exactly the tweets that were collected directly, each once, in its latest collected version with the latest profile of its author. An original tweet is indexed by its text tokens, lower case hashtags and mentions, conversation, author, links that do not lead to Twitter itself and their domains, the tweets it quotes and replies to and their authors where these were collected, the labels of the collections that hold it directly, and its creation time rounded to minute, hour, day, month and year; a retweet only by author, creation time, the retweeted tweet and its author. Missing references are left out, and any such database can be indexed with and without positions, by the library and the command. Databases without a schema version of at least 15 are refused.",
    ["inputs", "configurations"],
    "all contents of a Twittersphere database: tweets, users and links in several versions, references to present and absent tweets, all batch sizes",
    "The Twitter test is skipped, as it needs data that is not in the repository.",
    [COR, CLI],
    [
        ("TwittersphereCorpus.__init__, docs, index, keys, render_docs_html", COR),
        ("make_two_file_indexer", CLI),
    ],
    ["docs", "keys", "index", "an index built from the corpus"],
)
prop(
    "P26",
    "A query is answered from a single state of the index, the next from the newest",
    "A query of an index (looking up or combining features, the features of clusters, the union of a cluster, a sample of documents over clusters, turning documents into keys, iterating over or intersecting with a field) which is made while other connections edit the clusters or reindex the corpus is answered completely from the state before an edit or completely from the state after it, never from a mixture such as features of a cluster that is listed no longer; it does not hold up the edit and leaves no transaction open. The next query on the same object, including those with background processes, is answered from the newest state: nothing about an index is remembered from before.",
    ["schedules", "histories"],
    "all indexes, all edits (including refinement and reindexing) by other connections at every statement of every query",
    "No test uses two connections at once.",
    [IDX],
    [
        ("atomic (the read methods it decorates)", IDX),
        ("top_cluster_features, cluster_query, structured_doc_sample, convert_query_to_keys, union_bitslice, intersect_queries_with_field, iter_field_docs, __getitem__", IDX),
        ("pivot_clusters_by_query, create_cluster_cooccurrence_graph, score_passages_dnf, count_collocations, indexed_field_summary", IDX),
    ],
    ["the answers of queries", "db.in_transaction"],
)
prop(
    "P27",
    "What needs documents is refused without a fitting corpus, all else works",
    "An index opened without a corpus, or with one that lacks some of the abilities of a corpus (giving documents and keys, indexing documents, rendering pages, rendering table rows with a list of their columns), refuses exactly the operations that need a missing ability: with CorpusMissingError without any corpus and UnsupportedCorpusOperation otherwise, before anything is changed in the index or in an output file. Every other query, edit, sample and computation gives the same answer as on the same index with a full corpus. A corpus is recognised by what it provides, whether or not it is derived from the base classes, and one that is empty or of length 0 is not a missing one.",
    ["inputs", "configurations", "histories"],
    "all indexes and models, all combinations of abilities, all sequences of operations",
    "test_require_corpus only retrieves documents without a corpus; every other test has a full one.",
    [IDX, COR],
    [
        ("requires_corpus and the methods it decorates", IDX),
        ("BaseCorpus, WebRenderableCorpus, TableRenderableCorpus", COR),
    ],
    ["exceptions of the operations", "their answers", "index content", "written files"],
)
prop(
    "P28",
    "Random samples, assignments, splits and moves are fair and independent",
    "Whenever documents are sampled (ids, pages, table rows, windows, passages, or over clusters), each document that could be chosen is chosen with the same probability, pairs included, and independently of earlier samples, whether draws are repeated on one index object, made with successive seeds, or by newly opened objects without a seed. A new model assigns the features to clusters at random in the same sense, a new cluster takes a random half of the one that is split, a feature whose best cluster is dissolved together with its own goes to any remaining cluster with the same probability, and each move considered by refinement is made with the given acceptance probability, independently of the others.",
    ["inputs", "configurations"],
    "all sets, sample sizes, models and seeds",
    "Fairness is a property of the distribution over all seeds; the tests check one result of a random operation, or its size only.",
    [IDX],
    [
        ("sample_bitmap, render_passages_table, structured_doc_sample", IDX),
        ("initialise_clusters, _refine_feature_groups", IDX),
    ],
    ["samples", "the model after an operation"],
)
prop(
    "P29",
    "Documents are streamed in bounded batches, each once, and only those needed",
    "Indexing lists the keys of the corpus once, requests the documents in batches of at most the given size and indexes each exactly once; while more keys are listed, no more than one batch per worker and one more are under way, so the number of documents waiting does not grow with the collection. Retrieving documents, windows and concordances reads documents from the corpus as the answer is read: at most one document more than the part of the answer that was taken. Rendering and sampling request each document of the answer once and no others, passages in batches of at most the given size.",
    ["inputs", "configurations", "schedules"],
    "all corpora, batch sizes, numbers of workers and orders in which tasks complete",
    "Tests compare answers, which do not depend on how and when documents are read.",
    [IDX],
    [
        ("index (batches), _index_docs", IDX),
        ("docs, extract_matching_feature_windows, render_docs_html, render_docs_table, render_passages_table, _construct_passages", IDX),
    ],
    ["the corpus: keys, docs, index, render_docs_html, render_docs_table", "tasks submitted to the pool"],
)
prop(
    "P30",
    "Edits made inside an enclosing transaction are nested in it",
    "When the caller has begun a transaction, or savepoints within it, on the connection of an index, model edits and refinement made inside have the same effect as outside, are seen by further calls on the same object with up-to-date cluster summaries, and by other connections only, and all together, after the commit; rolling back a savepoint or the transaction undoes exactly the edits made since it began. An edit that fails inside undoes itself only: earlier edits and the transaction remain. Indexing inside a transaction is refused with an IndexingError, without an effect on contents or transaction.",
    ["histories", "fault_sequences"],
    "all histories of edits, begins, commits, rollbacks and failures up to three levels deep",
    "No test begins a transaction of its own.",
    [IDX],
    [
        ("atomic", IDX),
        ("index (IndexingError), _update_changed_clusters, all model edits", IDX),
    ],
    ["index contents on the same and on another connection", "db.in_transaction", "answers of queries"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
