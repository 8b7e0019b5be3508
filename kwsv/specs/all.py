"""All contracts of the code base."""
import importlib

MODULES = ["geom", "core", "assess", "group", "curve", "boot", "match", "mapper", "stream", "reader", "cmdline", "parser", "tool"]

TRUSTED = [
    "z3 5.3.2 and cvc5 1.1.2 (back ends)",
    "clang 18 front end (parsing, overload resolution, template instantiation)",
    "extract/extract.cc: mechanical extraction of the instantiated bodies from clang's AST",
    "kwsv/engine.py: symbolic execution and verification-condition generation",
    "kwsv/std.py: models (assumed contracts) of the C++ standard library",
]

_REAL = "float and double arithmetic is treated as arithmetic on real numbers (values are finite or, for scores, infinite; never NaN); the bounded audit compares with the real arithmetic"
_ALLOC = "memory allocation succeeds"
_FUNC = "%s: a deterministic, terminating function of its arguments without effects on the program's state"
_IO = ["a file that is read keeps its contents while it is read",
       "stream state is observed only through the operations modelled in kwsv/streams.py; locale 'C'"]
# what each property takes for granted besides what the verifier notes while it works
ASSUME = {
    "C01": [_REAL, "the coordinates satisfy the property's condition: edges, areas and sums of areas fit in the type"],
    "C02": [_REAL, "scores are not NaN"],
    "C03": [_REAL, "thresholds whose product with the areas is exact in float arithmetic"],
    "C04": ["iteration of std::set is in increasing order of the events"],
    "C05": [_FUNC % "the scorer", "the index behind SimpleMatcher is the reference index of C04"],
    "C06": [_FUNC % "the scorer", "the index behind SimpleMatcher is the reference index of C04"],
    "C07": [_REAL],
    "C08": [_REAL, "32-bit counts do not overflow (fewer than 2^32 matches)"],
    "C09": [_REAL],
    "C10": [_REAL],
    "C11": [_REAL, "log2 is positive above 1, strictly increasing, exp2(r)-1 lies in [0,r] for r in [0,1] (lemma instances)"],
    "C12": [_REAL, "std::sort yields the same permutation for the same sequence and order"],
    "C13": [],
    "C14": [_REAL, "printing a number is a function of the number, the format and the precision"],
    "C15": ["the random engine and distributions return values of their range; nothing else is known of them"],
    "C16": [_REAL, _FUNC % "the statistic", "the sampler's draws are a sequence fixed by its state"],
    "C17": _IO + [_FUNC % "the event mapper other than IdentityMapper"],
    "C18": ["reading a printed number with enough digits returns the number (printf/strtod round trip)"] + _IO[1:],
    "C19": [],
    "C20": [_FUNC % "acceptance of a word by an option's target"],
    "C21": ["reading a number from a stream takes the number at the start of the text (grammar of kwsv/streams.py, range of the type); texts contain no NUL character"] + _IO[1:],
    "C22": [_REAL] + _IO,
}


def assumptions_of(prop):
    return [_ALLOC] + ASSUME.get(prop, [])


def load(tu, S):
    specs, theorems = [], []
    for m in MODULES:
        mod = importlib.import_module("kwsv.specs." + m)
        specs += mod.specs(tu, S)
        theorems += mod.theorems(tu, S)
    return specs, theorems


def props_of(spec):
    p = spec.prop
    return () if p is None else (p,) if isinstance(p, str) else tuple(p)
