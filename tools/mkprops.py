"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))
S = "src/valor_lite/"
CE, CP, CC = S+"cache/ephemeral.py", S+"cache/persistent.py", S+"cache/compute.py"

prop("C01", "A cache returns exactly the rows written to it, in write order",
 "Whatever mixture of row, column, batch and table writes and explicit flushes is made, reading a cache (in memory or on disk, and on disk also after loading it again) returns every written row once, in write order, with the values and types of the schema, and the row count agrees. Data whose columns or values do not fit the schema is refused as a whole, by every kind of write, and leaves no trace; columns in another order and convertible types are accepted and stored as the schema says. None of this depends on the name of the location, absolute or relative, or on what the caller does afterwards with the lists and arrays it wrote. Reading a selection of columns or with a filter returns exactly those columns of exactly the matching rows, in the same order. The two back-ends are indistinguishable in this respect, for every batch size, rows-per-file and compression setting.",
 ["histories","configurations","inputs"], "all sequences of writer calls and reads, both back-ends, all batch sizes, rows-per-file and compression settings",
 "Tests write one or two fixed batches; buffering, roll-over, table writes and flushes interact only in longer mixed histories and at boundary sizes.",
 [CE, CP], [("write buffering and roll-over","FileCacheWriter.write_batch/write_table/flush"),("in-memory buffering","MemoryCacheWriter.write_batch/write_table/flush"),("ordered reading","FileCacheReader.iterate_ordered_fragments/iterate_tables")],
 ["FileCacheReader.iterate_tables","MemoryCacheReader.iterate_tables","count_rows"],
 [("buffer","rows accepted and not yet in a file or table","_buffer in both writers"),("current file","open parquet file and its row count","FileCacheWriter._writer/_count")])
prop("C02", "On-disk files are aligned with write calls and roll over at the configured size",
 "All rows handed to the cache in one write call are stored in one file, so in the data as added (and as filtered) no datum is ever spread over two files. A file is closed as soon as it holds at least the configured rows per file and the next write goes to a new, higher-numbered file; so no file exceeds the configured rows per file by more than one batch plus one write call, and no file is closed early except by an explicit flush or a table write. Every file uses the configured compression, and the cache lists exactly the files of its directory, however that is named.",
 ["histories","configurations"], "all histories of writes and flushes, all batch sizes, rows-per-file values and compressions",
 "Tests check a few file counts for fixed sizes; alignment is an invariant of every prefix of every history and is what per-file processing silently depends on.",
 [CP, S+"classification/loader.py", S+"object_detection/loader.py"], [("roll-over","FileCacheWriter.write_batch"),("one write per datum","Loader.add_data/_add_data")],
 ["parquet files in the cache directory"])
prop("C03", "Loaders and caches follow their lifecycle and never destroy existing data",
 "Creating a cache or loader at a location that already holds one fails and leaves what is there unchanged, unless deletion was requested explicitly; files of somebody else at the location are never overwritten, and creation refused for unusable metadata fields (a taken name, an unknown type) leaves nothing behind. Deleting removes the cache and never a foreign non-parquet file beside it. Finalizing a loader that holds no rows raises EmptyCacheError, and a classification or object detection loader can be finalized only once and takes no data afterwards: a second attempt, or data offered afterwards, raises and changes neither the stored data nor the evaluator already returned. Loading a missing path, a plain file, a foreign directory or a saved evaluator of which a part is missing raises, and filtering a persistent evaluator without a path, or into an occupied path, raises and leaves the evaluator's own data unchanged.",
 ["histories"], "all orders of create, add, flush, finalize, filter, load and delete on a set of paths",
 "Tests take single wrong steps from fresh objects; the guarantee is about every order of steps and about what is left behind on disk after a refused one.",
 [CP, S+"classification/evaluator.py", S+"object_detection/evaluator.py", S+"semantic_segmentation/evaluator.py"], [("exclusive creation","FileCacheWriter.create/delete"),("finalize guards","Builder.finalize"),("path guards","Evaluator.load/filter")],
 ["files on disk","exceptions","metrics of the surviving evaluator"])
prop("C04", "Sorting a cache yields every row once, in global order",
 "For any division of the source into files, any merge batch size and any sort columns and directions, the sorted cache holds exactly the rows of the source (restricted to the selected columns) and they are globally ordered by the sort keys across all files of the sink. Rows whose sort value is not a number come after all numbers and rows without a value last, in either direction. This holds for file and in-memory sinks, with duplicate keys, empty files and a single file.",
 ["inputs","configurations"], "all row multisets, all divisions into files, all merge batch sizes, sort orders, source and sink kinds",
 "Tests sort a few fixed tables; loss, duplication or disorder appears only at particular file and batch boundaries and with ties.",
 [CC], [("k-way heap merge over locally sorted fragments","_merge/sort")], ["sink.to_reader().iterate_tables()"])
prop("C05", "Pages tile the datum index: nothing skipped, repeated or out of range",
 "A page with offset o and limit n returns complete rows of exactly the datums at positions o to o+n-1 of the (filtered) datum index; so consecutive pages of any size partition the full listing. No limit means everything from the offset on, a limit of zero or an offset past the end means nothing. The examples of classification and object detection, paged, therefore equal the corresponding slice of the unpaged examples.",
 ["inputs","configurations"], "all limits and offsets, all divisions of the index into files, all datum filters",
 "Tests use one layout and a few limits; errors sit where a page border meets a file border or a filtered index.",
 [CC, S+"classification/evaluator.py", S+"object_detection/evaluator.py"], [("index pagination over fragments","paginate_index")], ["paginate_index","Evaluator.compute_examples"])
prop("C06", "Classification counts, precision, recall, F1, accuracy follow their definition",
 "At every score threshold a prediction is positive when its score is greater than zero (beyond 1e-9) and at least the threshold and, with hardmax, it is the datum's first highest-scoring prediction; true and false positives count positive predictions whose label is or is not the datum's ground truth, a ground truth is a false negative when its own prediction is not positive or another label is, and true negatives count the remaining non-positive predictions of other labels. Precision, recall and F1 are the usual ratios of these counts (zero when undefined) and accuracy is the number of true positives divided by the number of evaluated datums. The reported numbers of datums and labels match the data.",
 ["inputs","configurations"], "all datasets, all threshold lists, hardmax on and off, with or without a datum filter",
 "Tests fix a few tables of numbers; thresholds equal to scores, zero scores, tied scores, labels never predicted and chunk borders need every combination.",
 [S+"classification/computation.py", S+"classification/evaluator.py", S+"classification/loader.py", S+"classification/utilities.py"], [("count masks","compute_counts"),("ratios","compute_precision/recall/f1_score/accuracy"),("winner flag","Loader.add_data")], ["Evaluator.compute_precision_recall","Evaluator.info"])
prop("C07", "Classification confusion matrices and examples account for every datum",
 "At every score threshold the confusion matrix counts, for each ground truth label and predicted label, the datums with a positive prediction of that label (as defined for the counts), and the unmatched ground truths are exactly the datums without any positive prediction; with hardmax the cells and unmatched ground truths of a label therefore add up to its ground truths. Examples list for each datum its true positive, false positive and false negative labels, and the matrix with examples lists exactly the datums, with their scores, behind every cell. All three agree with each other.",
 ["inputs","configurations"], "all datasets, threshold lists (in any order), hardmax on and off",
 "Tests compare fixed matrices for one or two thresholds; agreement between three separately computed outputs must hold for every dataset and threshold order.",
 [S+"classification/computation.py", S+"classification/utilities.py"], [("pair classification","compute_pair_classifications"),("unpacking","unpack_examples/unpack_confusion_matrix_with_examples")], ["Evaluator.compute_confusion_matrix","Evaluator.compute_examples","Evaluator.compute_confusion_matrix_with_examples"])
prop("C08", "ROC AUC equals the probability that a positive outranks a negative",
 "The ROC AUC of a label is the fraction of pairs of a positive datum (its ground truth is the label) and a negative one that scores the label in which the positive one has the higher score for the label, ties counting one half; a positive datum that does not score the label outranks nothing, and the value is zero if there are no positives or no such negatives. mROCAUC is the mean over all labels. The value does not depend on the order of the datums or on how the data is divided into batches and files.",
 ["inputs","configurations"], "all datasets, fully scored or not, including tied, zero and negative scores, and all storage layouts",
 "Tests fix a few score tables without ties across chunk borders; the running curve is carried across batches and files and can go wrong at any border.",
 [S+"classification/computation.py", S+"classification/evaluator.py"], [("running ROC curve","Builder._create_rocauc_intermediate"),("chunked trapezoid sum","compute_rocauc")], ["Evaluator.compute_rocauc"])
prop("C09", "Overlap is geometric and independent of how a shape is represented",
 "The overlap used to pair a ground truth with a prediction is area of intersection over area of union: symmetric, between 0 and 1, 1 exactly for identical shapes, 0 for disjoint or merely touching ones, unchanged by translation and uniform scaling. The same scene given as bounding boxes, as polygons or as bitmasks yields the same detection metrics.",
 ["inputs"], "all pairs and scenes of axis-aligned boxes, expressed in the three annotation kinds",
 "Tests check a handful of pairs per kind and never the same scene in all kinds.",
 [S+"object_detection/computation.py", S+"object_detection/annotation.py", S+"object_detection/loader.py"], [("IOU per kind","compute_bbox_iou/compute_polygon_iou/compute_bitmask_iou")], ["Evaluator.compute_precision_recall at chosen IOU thresholds","compute_*_iou"])
prop("C10", "Detection counts give each ground truth at most one true positive",
 "For every positive IOU threshold t and score threshold s: each prediction is assigned, per label, to its best-overlapping ground truth of that label in its own image; a ground truth yields one true positive exactly when the highest-scoring prediction assigned to it with overlap at least t scores at least s, and every other prediction of non-zero score at least s is a false positive (a prediction with one correct label is not also charged for its other labels). False negatives are the remaining ground truths, so true positives plus false negatives equal the ground truths of the label; precision, recall and F1 are the usual ratios, zero when undefined. The reported numbers of datums, annotations and labels match the data.",
 ["inputs","configurations"], "all scenes with several overlapping, multi-label predictions and ground truths, all threshold lists",
 "Tests use small hand-made scenes; competition between predictions for one ground truth across thresholds has many more configurations.",
 [S+"object_detection/computation.py", S+"object_detection/evaluator.py", S+"object_detection/loader.py"], [("ranking and pruning","rank_pairs"),("per-threshold winner","calculate_ranking_boundaries"),("count masks","compute_counts")], ["Evaluator.compute_precision_recall","Evaluator.info"])
prop("C11", "Average precision, average recall and PR curves follow 101-point interpolation",
 "For each label and IOU threshold the precision-recall curve at recall r is the maximum precision, over the predictions of that label ranked by descending score, at any true positive where recall is at least r, for the 101 recalls 0, 0.01, ..., 1, and zero where that recall is never reached; its score is the highest score reaching that recall. Average precision is the mean of the 101 values, average recall is the mean recall over the IOU thresholds at each score threshold, and mAP, mAR and the averaged variants are plain means over labels and IOU thresholds.",
 ["inputs","configurations"], "all scenes without equal-ranked predictions, all IOU threshold lists, any number of ground truths",
 "Tests compare a few known curves; running counts cross file borders and recall bins depend on the exact number of ground truths.",
 [S+"object_detection/computation.py", S+"object_detection/evaluator.py", S+"object_detection/utilities.py"], [("running precision and recall","compute_counts"),("interpolation","compute_average_precision"),("means","compute_average_recall, unpack_precision_recall_into_metric_lists")], ["Evaluator.compute_precision_recall"])
prop("C12", "Detection confusion matrices match annotations one to one and account for all",
 "The confusion matrix is based on a one-to-one matching of ground truths and predictions within an image, taken greedily by descending score, then overlap, regardless of label; at thresholds (t, s) a matched pair counts in the cell of its two labels when overlap and score reach them, otherwise its ground truth is unmatched and its prediction unmatched if its score reaches s; a matched pair counts in one cell per label of the prediction that reaches s. So with one label per prediction, the matched cells plus unmatched ground truths of a label equal its ground truths, and matched cells plus unmatched predictions equal its predictions scoring at least s. Examples, and the matrix with examples, list exactly the annotations and pairs behind these numbers.",
 ["inputs","configurations"], "all scenes of single- and multi-label predictions, all threshold lists",
 "Tests use fixed scenes; conservation and one-to-one matching are invariants over all competitions, and three outputs have to agree.",
 [S+"object_detection/computation.py", S+"object_detection/utilities.py"], [("greedy one-to-one matching","mask_pairs_greedily"),("classification per threshold","compute_pair_classifications"),("unpacking","unpack_examples/unpack_confusion_matrix_with_examples")], ["Evaluator.compute_confusion_matrix","Evaluator.compute_examples","Evaluator.compute_confusion_matrix_with_examples"])
prop("C13", "Segmentation metrics account for every pixel exactly once",
 "Every pixel of every image falls into exactly one pair (ground truth label or background, predicted label or background), also when masks of one image overlap (the first mask keeps the pixel), share a label or are absent; so pixel totals are conserved. Precision, recall, F1, IOU, mean IOU, accuracy, the IOU confusion matrix and the unmatched ratios are the usual ratios of these totals over all images, zero when undefined, and the reported pixel, datum and label numbers match the data.",
 ["inputs","configurations"], "all lists of images with any masks, labels and shapes",
 "Tests use a few small masks without repeated labels or chains of overlaps; conservation is universal over mask configurations.",
 [S+"semantic_segmentation/annotation.py", S+"semantic_segmentation/computation.py", S+"semantic_segmentation/loader.py", S+"semantic_segmentation/evaluator.py"], [("overlap trimming","Segmentation._validate_bitmasks"),("pixel pair counts","compute_intermediates"),("ratios","compute_metrics")], ["Evaluator.compute_precision_recall_iou","Evaluator.info"])
prop("C14", "Metrics do not depend on where and how the data is stored",
 "For classification, object detection and semantic segmentation, every metric, confusion matrix, example list and dataset number is the same (for data without tied ranks) for in-memory and on-disk loaders, for every batch size, rows-per-file, compression and finalize batch size, and however the datums are divided over calls that add data.",
 ["configurations","inputs"], "all storage configurations and call divisions for every dataset",
 "Tests run two chunk sizes on fixed data; chunk-border effects need borders everywhere and data that spans them.",
 [S+"classification/evaluator.py", S+"object_detection/evaluator.py", S+"semantic_segmentation/evaluator.py", CE, CP, CC], [("per-chunk accumulation","compute_* loops in the evaluators"),("sorted and ranked caches","Builder.finalize")], ["all compute_* outputs"])
prop("C15", "Filtering equals rebuilding from the data that passes the filter",
 "Filtering an evaluator by datum, ground truth or prediction conditions gives the metrics of an evaluator built only from the data that passes (same label set): in detection and segmentation removed annotations vanish (their pixels become background), in classification a datum keeps only its remaining predictions (and, for hardmax, its original winner) and disappears without a ground truth or prediction. Passing a datum condition to a query equals querying the evaluator filtered by it, filters compose, and neither changes the evaluator they start from.",
 ["inputs","histories","configurations"], "all datasets, all conditions on identifiers, labels, scores and metadata, chains of filters, both storage kinds",
 "Tests filter fixed data once; equivalence with rebuilding has to hold for every condition, storage layout and chain.",
 [S+"classification/evaluator.py", S+"object_detection/evaluator.py", S+"semantic_segmentation/evaluator.py"], [("row rewriting and re-finalizing","Evaluator.filter"),("datums argument","Evaluator.compute_*/get_info")], ["all compute_* outputs of filtered evaluators"])
prop("C16", "An evaluator loaded from disk is the evaluator that was saved",
 "Loading the directory of a finalized or filtered persistent evaluator, in place or after copying it elsewhere, gives an evaluator with the same labels, dataset numbers, metadata fields and results for every query and filter (given the label map, for a filtered cache). Loading does not modify the directory.",
 ["histories","configurations","inputs"], "all datasets and storage layouts, all queries and filters before and after loading",
 "Tests load one or two fixed caches and compare a few metrics; anything held only in memory shows up only in particular later queries.",
 [S+"classification/evaluator.py", S+"object_detection/evaluator.py", S+"semantic_segmentation/evaluator.py", S+"classification/shared.py", S+"object_detection/shared.py", S+"semantic_segmentation/shared.py", CP], [("reload","Evaluator.load, FileCacheReader.load"),("label recovery","extract_labels"),("metadata","encode_metadata_fields/decode_metadata_fields")], ["Evaluator.load(...)"])
prop("C17", "Queries are pure and thresholds are evaluated independently",
 "Computing a metric never changes an evaluator: any query gives the same answer whatever queries were made before it and however often it is repeated. The result for one threshold (or pair of thresholds) is the same whether it is requested alone or within any list, in any order, and every requested threshold is reported once under its own value. A query of the classification or detection evaluator without any threshold is refused with ValueError and changes nothing.",
 ["histories","inputs"], "all sequences of queries, all threshold lists and orders",
 "Tests ask each question once with sorted thresholds.",
 [S+"classification/computation.py", S+"classification/evaluator.py", S+"object_detection/computation.py", S+"object_detection/evaluator.py", S+"semantic_segmentation/evaluator.py"], [("per-threshold masks","compute_counts/compute_pair_classifications"),("result arrays created per query","Evaluator.compute_*")], ["all compute_* outputs"])
prop("C18", "LLM-guided metrics retry malformed replies exactly as often as configured",
 "With r retries, a metric makes at most r+1 attempts, starts each attempt from scratch, and stops at the first attempt in which all replies are well formed, whose value it returns; only if all fail it returns an error metric naming the error, the model and the number of retries. Errors raised by the client itself, a missing client or a missing model name are never retried nor turned into a metric.",
 ["fault_sequences","histories"], "all sequences of good, malformed and failing replies, all retry settings, all metrics",
 "Tests script one or two reply sequences for one metric.",
 [S+"text_generation/manager.py"], [("retry decorator","llm_guided_metric")], ["number and order of client calls","returned Metric or exception"])
prop("C19", "No reply of the evaluating LLM is scored unless it has the required form",
 "Whatever text the LLM returns, a metric either gets a reply of the required form (a JSON object, possibly surrounded by other text, with the required lists, allowed verdict values and exact numbers of entries; for coherence an integer from 1 to 5) or treats it as malformed; it never raises another error and never scores a reply with missing, extra or out-of-range entries. Consequently every successful score lies in its documented range.",
 ["inputs","fault_sequences"], "all reply texts at every position of every metric's conversation",
 "Tests try a few malformed replies per validator, not at every step of every metric.",
 [S+"text_generation/llm/utilities.py", S+"text_generation/llm/validators.py", S+"text_generation/llm/generation.py"], [("extraction","trim_and_load_json/find_first_signed_integer"),("validation","validate_statements/validate_verdicts"),("cross checks","generate_answer_correctness_verdicts/generate_summary_coherence")], ["returned Metric or exception"])
prop("C20", "LLM-guided scores are the documented functions of the verdicts",
 "Given well-formed replies, answer correctness is the best F1 over the ground truths, answer relevance, bias, toxicity, context relevance, faithfulness and hallucination are the fraction of 'yes' verdicts, context recall is the best such fraction over the ground truths, context precision is the mean precision at k over the relevant positions where a context is relevant if it is for any ground truth, and summary coherence is the reported integer. The documented values for empty inputs hold (no opinions, claims, statements or contexts), each step of the conversation is about the statements, opinions or claims obtained in the previous step and quotes every text it is about in full, and verdicts on opinions or claims are asked for only if there are any. Computing all metrics at once gives, per type, what the single computations give.",
 ["inputs","histories"], "all verdict combinations, numbers of statements, contexts and ground truths, including none",
 "Tests check one or two conversations per metric.",
 [S+"text_generation/computation.py", S+"text_generation/manager.py"], [("score formulas","calculate_*"),("arguments passed on","Evaluator.compute_*")], ["returned Metric","prompts sent to the client"])
prop("C21", "A rejected datum leaves no trace in the loader",
 "When adding a datum raises (no predictions, mismatching mask shapes or dtypes, metadata that does not fit the declared fields), datums added before it remain, and after any number of such failures interleaved with successful additions the loader finalizes to the evaluator it would have given had only the accepted datums been offered: same labels, numbers and metrics.",
 ["histories","inputs"], "all interleavings of accepted and rejected datums, for the three loaders and both storage kinds",
 "Tests check that an invalid datum raises, not what the loader does afterwards.",
 [S+"classification/loader.py", S+"object_detection/loader.py", S+"semantic_segmentation/loader.py"], [("validate and convert before committing","Loader.add_data/_add_data, write_rows")], ["metrics after later finalize"])
prop("C22", "Results depend on the data only, not on its order or naming",
 "Reordering the datums, or the annotations or predictions within a datum, leaves every metric unchanged (for data without tied ranks or overlapping masks), and consistently renaming labels or identifiers only renames the results. Labels and identifiers are opaque: any string works, including empty, non-ASCII and numeric-looking ones.",
 ["inputs"], "all datasets, permutations and renamings",
 "Tests use one order and plain names; label indices, sort orders and dictionary order all follow insertion order internally.",
 [S+"classification/loader.py", S+"object_detection/loader.py", S+"semantic_segmentation/loader.py", S+"classification/shared.py"], [("label index","Loader._add_label"),("sorting before ranking","Builder.finalize, rank_table")], ["all compute_* outputs"])
prop("C23", "Text-overlap scores (BLEU, ROUGE) follow their definitions",
 "For every prediction and set of references, sentence BLEU with equal weights on a choice of n-gram orders is the brevity penalty (closest reference length) times the geometric mean of the clipped n-gram precisions over words as written (periods and white space separate words), and exactly 0 without a common word or without a common n-gram of one of the orders; each requested ROUGE type is reported once, in the order requested, as the F-measure of common n-grams or of the longest common subsequence against the best reference, regardless of case and, with stemming, of inflection. All scores lie between 0 and 1, carry the parameters they were computed with, and a response without context or an empty list of weights is refused with ValueError.",
 ["inputs","configurations"], "all texts, sets of references, n-gram orders, ROUGE types and stemming settings",
 "Tests compare a few English sentences with stored numbers.",
 [S+"text_generation/computation.py", S+"text_generation/manager.py"], [("tokenisation, weights and library calls","calculate_sentence_bleu/calculate_rouge_scores"),("parameters and refusals","Evaluator.compute_rouge/compute_sentence_bleu")], ["returned Metric"])
prop("C24", "LLM clients send what they were given and never pass on a truncated answer",
 "A client sends each well-formed list of messages (dictionaries with textual role and content) in exactly one request, unchanged, with its model (and, for OpenAI, its seed), and refuses any other messages without a request. It returns the text of the first answer, an empty text if there is none; an answer cut off at the token limit, blocked by the content filter (OpenAI) or not textual (Mistral) is refused with an error; an error of the service reaches the caller unchanged and unretried. An OpenAI client counts the prompt and completion tokens of every answer that reports them, also of refused ones, separately per client. An evaluator with a client retries only answers that came back as text, and a seed together with retries is refused.",
 ["histories","fault_sequences","inputs"], "all sequences of calls on several clients, all answers of the services including missing parts, all messages",
 "Tests mock two or three answers each; totals, refusals and retries interact over histories.",
 [S+"text_generation/llm/integrations.py", S+"text_generation/manager.py"], [("message validation","_validate_messages"),("answers and token counts","OpenAIWrapper.__call__/MistralWrapper.__call__"),("construction","Evaluator.openai/Evaluator.mistral")], ["requests sent","returned text or exception","total_prompt_tokens/total_completion_tokens"])
prop("C25", "Annotations that cannot be evaluated are refused, the others kept as given",
 "Constructing an annotation or datum raises ValueError or TypeError exactly when it is unusable: a detection annotation with neither one label and no scores nor one score per label, an empty or non-polygon shape, a mask that is not a boolean array or sets no pixel, a detection with a prediction lacking scores, a classification without a textual ground truth or with differing numbers of predictions and scores, a segmentation that is not two-dimensional and non-empty or has something other than boolean bitmasks of its shape. Otherwise the object holds what it was given; of overlapping masks of a segmentation each pixel stays with the first, the caller's arrays are left as they were, and the size is the number of pixels.",
 ["inputs"], "all combinations of labels, scores, geometries, dtypes, shapes and overlapping masks",
 "Tests try one bad example per rule and one pair of overlapping masks.",
 [S+"classification/annotation.py", S+"object_detection/annotation.py", S+"semantic_segmentation/annotation.py"], [("validation","__post_init__ of the annotation classes"),("overlap trimming","Segmentation._validate_bitmasks")], ["constructed object or exception"])
prop("C26", "Every result is plain data of the documented form, complete and JSON-safe",
 "Each metric of each task is a type, a value and parameters made of text, integers, finite numbers, truth values, lists and dictionaries with text keys only (no array or library scalars, no missing or non-finite numbers), so that its to_dict() survives a round trip through JSON unchanged. Its value and its parameters have the form documented for its type: counts are non-negative integers, rates lie in [0, 1], matrices and per-label tables have exactly the labels of the data, curves have 101 points, thresholds, hardmax, weights, model and retries are those asked for (lists in the order asked for). Dataset numbers are plain integers too, and a metric cannot be made by hand from a type that is not text, a value that is not a number, truth value or dictionary, or parameters that are not a dictionary with text keys. A result contains each metric of the query once, listed under its own type, for every combination of requested thresholds and labels.",
 ["inputs","configurations"], "all datasets, names, thresholds, filters and replies, all queries of all four tasks",
 "Tests compare values with ==, for which numpy scalars and Python numbers are the same, on data without unusual labels or empty selections.",
 [S+"schemas.py", S+"classification/metric.py", S+"object_detection/metric.py", S+"semantic_segmentation/metric.py", S+"text_generation/metric.py"], [("metric constructors","Metric.* class methods"),("unpacking of counts into metrics","*/computation.py and */evaluator.py")], ["all compute_* outputs, to_dict()"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
