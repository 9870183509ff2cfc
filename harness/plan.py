"""Which models and which conformance families decide which property."""
CACHE_GEN = dict(spec="CacheGen", cfg="CacheGen", quick=250, thorough=4000, depth=40)


def mc(spec):
    return dict(spec=spec, quick=spec, thorough=spec + "Thorough")


CLF = dict(family="clffam", trace="ClfTrace")
DET = dict(family="detfam", trace="DetTrace")
SEG = dict(family="segfam", trace="SegTrace")
SEGMC = [mc("SegMC"), dict(spec="SegMC", quick="SegTwoMC", thorough="SegTwoMCThorough")]
NBEH = {"C03": 180, "C14": 220, "C15": 200, "C16": 240, "C17": 240, "C21": 240, "C22": 220}


def rel(prop):
    return dict(family="relfam", trace="SessionTrace", gen=dict(spec="SessionGen", cfg="SessionGen" + prop, quick=NBEH[prop], thorough=NBEH[prop] * 12, depth=60))


SESSION = [mc("SessionMC"), mc("LabelMC")]
DETMC = [mc("DetMC"), dict(spec="DetMC", quick="DetMultiMC", thorough="DetMultiMCThorough")]


def text(prop):
    return dict(family="textfam", trace="TextGenTrace", gen=dict(spec="TextGenGen", cfg="TextGenGen" + prop, quick=600, thorough=8000, depth=70))


TEXTMC = [mc("TextGenMC"), dict(spec="TextGenMC", quick="TextGenAcMC", thorough="TextGenAcMCThorough")]

PLAN = {
    "C01": dict(mc=[mc("CacheMC")], conf=[dict(family="cachefam", trace="CacheTrace", gen=CACHE_GEN)]),
    "C02": dict(mc=[mc("CacheMC")], conf=[dict(family="loadfam", trace="CacheTrace"), dict(family="cachefam", trace="CacheTrace", gen=CACHE_GEN)]),
    "C03": dict(mc=[*SESSION, mc("CacheDirMC")], conf=[rel("C03"), dict(family="dirfam", trace="CacheDirTrace", gen=dict(spec="CacheDirGen", cfg="CacheDirGen", quick=200, thorough=3000, depth=20))]),
    "C04": dict(mc=[mc("MergeSortMC")], conf=[dict(family="sortfam", trace="SortTrace")]),
    "C05": dict(mc=[mc("PaginateMC")], conf=[dict(family="sortfam", trace="SortTrace"), CLF, DET]),
    "C06": dict(mc=[mc("ClfMC")], conf=[CLF]),
    "C07": dict(mc=[mc("ClfMC")], conf=[CLF]),
    "C08": dict(mc=[mc("RocMC")], conf=[CLF]),
    "C09": dict(mc=[mc("IouMC")], conf=[DET]),
    "C10": dict(mc=[*DETMC], conf=[DET]),
    "C11": dict(mc=[*DETMC], conf=[DET]),
    "C12": dict(mc=[*DETMC], conf=[DET]),
    "C13": dict(mc=[*SEGMC], conf=[SEG]),
    "C15": dict(mc=[mc("ClfMC"), *SEGMC], conf=[CLF, DET, SEG, rel("C15")]),
    "C14": dict(mc=[*SESSION], conf=[rel("C14")]),
    "C16": dict(mc=[*SESSION], conf=[rel("C16")]),
    "C17": dict(mc=[*SESSION], conf=[rel("C17")]),
    "C18": dict(mc=[*TEXTMC], conf=[text("C18")]),
    "C19": dict(mc=[*TEXTMC], conf=[text("C19")]),
    "C20": dict(mc=[*TEXTMC], conf=[text("C20")]),
    "C21": dict(mc=[*SESSION], conf=[rel("C21")]),
    "C23": dict(mc=[mc("TextOverlapMC")], conf=[dict(family="overfam", trace="TextOverlapTrace")]),
    "C24": dict(mc=[mc("ClientMC")], conf=[dict(family="clientfam", trace="ClientTrace", gen=dict(spec="ClientGen", cfg="ClientGen", quick=500, thorough=8000, depth=60))]),
    "C25": dict(mc=[mc("AnnotationMC")], conf=[dict(family="annfam", trace="AnnotationTrace")]),
    "C26": dict(mc=[mc("ResultMC")], conf=[dict(family="formfam", trace="ResultTrace")]),
    "C22": dict(mc=[*SESSION, mc("ClfMC"), *SEGMC], conf=[rel("C22")]),
}
