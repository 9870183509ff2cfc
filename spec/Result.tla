------------------------------- MODULE Result -------------------------------
(***************************************************************************)
(* The documented form of every metric of the four tasks (C26).  A value   *)
(* is a tree of records [t, v, z, k, xs]: kind t ("s" text, "i" integer,   *)
(* "f" finite number, "b" truth value, "l" list, "d" dictionary with text  *)
(* keys k, "x" anything else), printed value v, z = -1/0/1 when a number   *)
(* is below/inside/above [0,1], and the members xs.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

(* forms *)
Unit == <<"unit">>
Natl == <<"nat">>
Score == <<"score">>             (* of a positive prediction: a positive number *)
Text == <<"text">>
Label == <<"label">>
One(dom) == <<"one", dom>>       (* one of the values asked for *)
All(dom) == <<"all", dom>>       (* the list of values asked for *)
Grade == <<"grade">>
Lst(f) == <<"list", f>>
Curve == <<"curve">>
Pair(f) == <<"pair", f>>
ByLabel(f) == <<"bylabel", f>>
Dict(fs) == <<"dict", fs>>       (* fs: sequence of <<key, form>> *)

Cells(f) == ByLabel(ByLabel(f))
ExOf(fs) == Dict(<<<<"count", Natl>>, <<"examples", Lst(Dict(fs))>>>>)
D == <<"datum_id", Text>>
G == <<"ground_truth_id", Text>>
P == <<"prediction_id", Text>>
SH == <<<<"score_threshold", One("ss")>>, <<"hardmax", One("hm")>>>>
IS == <<<<"iou_threshold", One("ts")>>, <<"score_threshold", One("ss")>>>>
LB == <<<<"label", Label>>>>
EvR == <<<<"evaluator", One("model")>>, <<"retries", One("retries")>>>>

(* per task: sequences of <<query, type, form of the value, parameters>> *)
ClfForms == <<
  <<"pr", "Counts", Dict(<<<<"tp", Natl>>, <<"fp", Natl>>, <<"fn", Natl>>, <<"tn", Natl>>>>), SH \o LB>>,
  <<"pr", "Precision", Unit, SH \o LB>>, <<"pr", "Recall", Unit, SH \o LB>>, <<"pr", "F1", Unit, SH \o LB>>, <<"pr", "Accuracy", Unit, SH>>,
  <<"roc", "ROCAUC", Unit, LB>>, <<"roc", "mROCAUC", Unit, <<>>>>,
  <<"cm", "ConfusionMatrix", Dict(<<<<"confusion_matrix", Cells(Natl)>>, <<"unmatched_ground_truths", ByLabel(Natl)>>>>), SH>>,
  <<"ex", "Examples", Dict(<<D, <<"true_positives", Lst(Label)>>, <<"false_positives", Lst(Label)>>, <<"false_negatives", Lst(Label)>>>>), SH>>,
  <<"cmx", "ConfusionMatrixWithExamples", Dict(<<<<"confusion_matrix", Cells(ExOf(<<D, <<"score", Score>>>>))>>,
                                                 <<"unmatched_ground_truths", ByLabel(ExOf(<<D>>))>>>>), SH>> >>
AllT == <<<<"iou_thresholds", All("ts")>>>>
AllS == <<<<"score_thresholds", All("ss")>>>>
OneT == <<<<"iou_threshold", One("ts")>>>>
OneS == <<<<"score_threshold", One("ss")>>>>
DetForms == <<
  <<"pr", "Counts", Dict(<<<<"tp", Natl>>, <<"fp", Natl>>, <<"fn", Natl>>>>), IS \o LB>>,
  <<"pr", "Precision", Unit, IS \o LB>>, <<"pr", "Recall", Unit, IS \o LB>>, <<"pr", "F1", Unit, IS \o LB>>,
  <<"pr", "AP", Unit, OneT \o LB>>, <<"pr", "mAP", Unit, OneT>>, <<"pr", "APAveragedOverIOUs", Unit, AllT \o LB>>, <<"pr", "mAPAveragedOverIOUs", Unit, AllT>>,
  <<"pr", "AR", Unit, AllT \o OneS \o LB>>, <<"pr", "mAR", Unit, AllT \o OneS>>,
  <<"pr", "ARAveragedOverScores", Unit, AllT \o AllS \o LB>>, <<"pr", "mARAveragedOverScores", Unit, AllT \o AllS>>,
  <<"pr", "PrecisionRecallCurve", Dict(<<<<"precisions", Curve>>, <<"scores", Curve>>>>), OneT \o LB>>,
  <<"cm", "ConfusionMatrix", Dict(<<<<"confusion_matrix", Cells(Natl)>>, <<"unmatched_predictions", ByLabel(Natl)>>, <<"unmatched_ground_truths", ByLabel(Natl)>>>>), IS>>,
  <<"ex", "Examples", Dict(<<D, <<"true_positives", Lst(Pair(Text))>>, <<"false_positives", Lst(Text)>>, <<"false_negatives", Lst(Text)>>>>), IS>>,
  <<"cmx", "ConfusionMatrixWithExamples", Dict(<<<<"confusion_matrix", Cells(ExOf(<<D, G, P>>))>>, <<"unmatched_predictions", ByLabel(ExOf(<<D, P>>))>>,
                                                 <<"unmatched_ground_truths", ByLabel(ExOf(<<D, G>>))>>>>), IS>> >>
Ratio1 == Dict(<<<<"ratio", Unit>>>>)
SegForms == <<
  <<"pr", "Precision", Unit, LB>>, <<"pr", "Recall", Unit, LB>>, <<"pr", "F1", Unit, LB>>, <<"pr", "IOU", Unit, LB>>, <<"pr", "Accuracy", Unit, <<>>>>, <<"pr", "mIOU", Unit, <<>>>>,
  <<"pr", "ConfusionMatrix", Dict(<<<<"confusion_matrix", Cells(Dict(<<<<"iou", Unit>>>>))>>, <<"unmatched_predictions", ByLabel(Ratio1)>>, <<"unmatched_ground_truths", ByLabel(Ratio1)>>>>), <<>>>> >>
Guided == <<"AnswerCorrectness", "AnswerRelevance", "Bias", "ContextPrecision", "ContextRecall", "ContextRelevance", "Faithfulness", "Hallucination", "Toxicity">>
TextForms == [i \in 1..Len(Guided) |-> <<Guided[i], Guided[i], Unit, EvR>>] \o <<
  <<"SummaryCoherence", "SummaryCoherence", Grade, EvR>>,
  <<"BLEU", "BLEU", Unit, <<<<"weights", All("weights")>>>>>>,
  <<"ROUGE", "ROUGE", Unit, <<<<"rouge_type", One("types")>>, <<"use_stemmer", One("stem")>>>>>> >>
ErrorForm == <<"error", "Error", Dict(<<<<"type", Text>>, <<"message", Text>>>>), EvR>>
(* dataset numbers of an evaluator *)
Numbers(ks) == <<<<"info", "Info", Dict([i \in 1..Len(ks) |-> <<"number_of_" \o ks[i], Natl>>]), <<>>>>>>
InfoForms(task) == CASE task = "clf" -> Numbers(<<"rows", "datums", "labels">>)
                     [] task = "det" -> Numbers(<<"rows", "datums", "labels", "groundtruth_annotations", "prediction_annotations">>)
                     [] task = "seg" -> Numbers(<<"rows", "datums", "labels", "pixels", "groundtruth_pixels", "prediction_pixels">>)
                     [] OTHER -> <<>>
FormsOf(task) == InfoForms(task) \o ( CASE task = "clf" -> ClfForms [] task = "det" -> DetForms [] task = "seg" -> SegForms [] OTHER -> TextForms)
Entries(task, q) == {e \in ToSet(FormsOf(task)) : e[1] = q}

-----------------------------------------------------------------------------
(* env: [labels: set of printed labels, dom: function from domain names to sequences of values] *)
RECURSIVE Plain(_)
Plain(v) == /\ v.t \in {"s", "i", "f", "b", "l", "d"}
            /\ \A i \in 1..Len(v.xs) : Plain(v.xs[i])
            /\ v.t = "d" => Len(v.k) = Len(v.xs) /\ Cardinality(ToSet(v.k)) = Len(v.k)
RECURSIVE Fits(_, _, _)
Member(v, key) == v.xs[CHOOSE i \in 1..Len(v.k) : v.k[i] = key]
Fits(f, v, env) ==
  CASE f[1] = "unit" -> v.t \in {"f", "i"} /\ v.z = 0
    [] f[1] = "score" -> v.t \in {"f", "i"} /\ v.z >= 0
    [] f[1] = "nat" -> v.t = "i" /\ v.z >= 0
    [] f[1] = "text" -> v.t = "s"
    [] f[1] = "label" -> v.t = "s" /\ v.v \in env.labels
    [] f[1] = "grade" -> v.t = "i" /\ v.v \in {"1", "2", "3", "4", "5"}
    [] f[1] = "one" -> v \in ToSet(env.dom[f[2]])
    [] f[1] = "all" -> v.t = "l" /\ v.xs = env.dom[f[2]]
    [] f[1] = "list" -> v.t = "l" /\ \A i \in 1..Len(v.xs) : Fits(f[2], v.xs[i], env)
    [] f[1] = "pair" -> v.t = "l" /\ Len(v.xs) = 2 /\ \A i \in 1..2 : Fits(f[2], v.xs[i], env)
    [] f[1] = "curve" -> v.t = "l" /\ Len(v.xs) = 101 /\ \A i \in 1..101 : Fits(Unit, v.xs[i], env)
    [] f[1] = "bylabel" -> v.t = "d" /\ Len(v.k) = Cardinality(env.labels) /\ ToSet(v.k) = env.labels /\ \A i \in 1..Len(v.xs) : Fits(f[2], v.xs[i], env)
    [] f[1] = "dict" -> /\ v.t = "d" /\ Len(v.k) = Len(f[2]) /\ ToSet(v.k) = {f[2][i][1] : i \in 1..Len(f[2])}
                        /\ \A i \in 1..Len(f[2]) : Fits(f[2][i][2], Member(v, f[2][i][1]), env)
    [] OTHER -> FALSE
(* how many metrics of an entry a complete result has: the product over its parameters *)
Ways(f, env) == CASE f[1] = "one" -> Cardinality(ToSet(env.dom[f[2]])) [] f[1] = "label" -> Cardinality(env.labels) [] OTHER -> 1
Count(params, env) == FoldLeft(LAMBDA a, p : a * Ways(p[2], env), 1, params)
(* a metric as [type, value, parameters]; its JSON form must be the same tree *)
MetricOk(m, e, env) == /\ m.type = e[2] /\ Fits(e[3], m.value, env) /\ Fits(Dict(e[4]), m.params, env)
(* a metric can be made of a text, a number, truth value or dictionary, and a dictionary with text keys *)
Makeable(ty, v, ps) == ty.t = "s" /\ v.t \in {"i", "f", "b", "d"} /\ ps.t = "d"
=============================================================================
