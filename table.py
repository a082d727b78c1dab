"""What each check runs."""
MTL = ["mtl-any", "mtl-statements", "mtl-materials", "mtl-repeat", "mtl-tree"]
REP = ["obj-repeat-0", "obj-repeat-1", "obj-repeat-2", "obj-repeat-3"]
TREE = ["obj-tree-objects", "obj-tree-data", "obj-tree-layout", "obj-tree-shapes", "obj-general"]
OBJ = ["obj-any", "obj-vertex", "obj-index", "obj-face", "obj-shapes", "obj-objects", "obj-lines"] + REP + TREE

PRODUCT = ("Abstract interpretation of the compiler's MIR of the public entry points, in product with a reference semantics of the file format that is stepped by the same "
           "abstract tokens: states are partitioned by control point and shape, integers are linear expressions under linear facts, words are symbolic with facts about their syntax. "
           "Whenever the code returns, the result (every field, by name) is compared with the one prescribed for the words read.")
ASSUME = [
    "the compiler's MIR is what is built (debug assertions and overflow checks on)",
    "the models of the standard library's leaf functions (engine/src/native.rs, engine/models) describe what those functions do",
    "the exploration is cut off at the stated number of abstract states; what lies beyond is not covered",
]


NOTE = ("Static: the sources are analysed, not run. An alarm is raised only for an abstract state that was never approximated and comes with a concrete input, so alarms are exact; "
        "where the analysis meets a construct it has no model for, it says so and gives no verdict for that path. Coverage is over symbolic words and numbers, but bounded in the number of abstract states.")


LEX = ("Tokenization is analysed apart, on a text of symbolic bytes of symbolic length (jobs lex-obj, lex-mtl): the function that delivers words is interpreted abstractly in product with a reference tokenizer "
       "that reads the same bytes; each delivered word must be the same piece of the text, at character boundaries; bytes are sets of values, split only where the code or the reference distinguishes them.")


def lexers(plans):
    return [("lex", f) for f in ("obj", "mtl") if any(p.startswith(f) for p in plans)]


def product(plans, rule, more=()):
    return {"jobs": [("plan", p) for p in plans] + lexers(plans) + list(more), "explanation": PRODUCT + " " + LEX, "rule": rule, "assumptions": ASSUME, "technique": "abstract interpretation of MIR in product with a reference semantics", "note": NOTE}

DIRECT = ("Abstract interpretation of the compiler's MIR of single public functions, on arguments that stand for all values of their types: integers, floats and strings are symbols, "
          "every variant of every enumeration is taken, lists have unknown length. On every path the result (or the text written, decoded from the compiled format templates) is compared with what is prescribed for those arguments.")
EFFECTS = ("Effect analysis over the call graph of the crate (every function, closures included): every call that leaves the crate is classified by what it reads or writes besides its arguments; "
           "every use of a static or thread local and every conversion of an address to a number is looked at.")


def direct(job, rule):
    return {"jobs": [("direct", job)], "explanation": DIRECT, "rule": rule, "technique": "abstract interpretation of MIR on symbolic arguments, compared with a reference rendering",
            "assumptions": ASSUME[:2] + ["integers in the arguments (positions, numbers) are below 2^62, as those of any value the parser can return are", "the text of a single number or string is that of the standard library's formatting with the recorded options"],
            "note": "Static: proved for all values of the argument types, without running them. Exception: the display of an object set is decided for up to three objects with short lists."}


NA = {
    "C19": "Correct rounding is a numerical fact about the standard library's decimal conversion, outside this repository; what the repository contributes (the value is the standard conversion of the unchanged word) is decided under C06 and C14.",
    "C20": "A bound on time and memory is about runtime quantities (allocation growth, iterator costs); no sound static cost argument is within reach here. Termination is decided under C02.",
}


CHECKS = {
    "C01": product(MTL + OBJ, "no path of the product reaches a panic, a failed assertion (overflow, bounds, division) or an aborting call"),
    "C02": product(MTL + OBJ, "no path of the product comes back to the same state at the head of a loop without having consumed a token"),
    "C03": dict(product(MTL + OBJ, "every operation of the crate that skips a check is listed; wherever the analysis meets one, its condition holds (a string is made only from a piece of the text between characters, an unchecked index lies inside, code marked unreachable is not reached)", [("unsafe", "_"), ("direct", "lookup"), ("direct", "display")]), technique="abstract interpretation of MIR with undefined-behaviour obligations, and an inventory of unsafe operations"),
    "C04": {"jobs": [("lex", "obj"), ("lex", "mtl")], "explanation": LEX, "technique": "abstract interpretation of MIR on symbolic bytes in product with a reference tokenizer",
            "rule": "every word or line end delivered is the one the reference tokenizer finds next in the same bytes, at the same positions, and the end of the text is reported when, and only when, the reference tokenizer is at the end",
            "assumptions": ASSUME[:2] + ["texts up to the stated length in all ways, longer ones in the listed shapes; states that differ only in bytes more than two positions back are merged"], "note": NOTE},
    "C05": product(OBJ, "Ok or Err and the error kind of the result are those of the reference semantics for the words read"),
    "C06": product(["obj-any", "obj-vertex", "obj-objects", "obj-lines"] + REP + ["obj-tree-objects", "obj-tree-data", "obj-general"], "the vertex, texture vertex and normal lists of the result equal those of the reference semantics"),
    "C07": product(["obj-any", "obj-index", "obj-face", "obj-shapes", "obj-lines"] + REP + ["obj-tree-objects", "obj-tree-data", "obj-tree-shapes", "obj-general"], "the element list of the result equals that of the reference semantics"),
    "C08": product(["obj-any", "obj-index", "obj-face", "obj-objects", "obj-lines"] + REP + ["obj-tree-objects", "obj-tree-data", "obj-general"], "every stored index, as a linear expression over the numbers in the text, equals that of the reference semantics; out-of-range numbers lead to the out-of-range error"),
    "C09": product(["obj-any", "obj-index", "obj-face", "obj-lines"] + REP + ["obj-tree-data", "obj-general"], "the form of every stored index, and the rejection of mixed forms, are those of the reference semantics"),
    "C10": product(["obj-any", "obj-shapes", "obj-objects", "obj-lines"] + REP + ["obj-tree-objects", "obj-tree-layout", "obj-tree-shapes", "obj-general"], "group, smoothing group and shape lists of the result equal those of the reference semantics"),
    "C11": product(["obj-any", "obj-shapes", "obj-objects", "obj-lines"] + REP + ["obj-tree-objects", "obj-tree-layout", "obj-tree-shapes", "obj-general"], "the geometry list of the result equals that of the reference semantics"),
    "C12": product(["obj-any", "obj-objects", "obj-shapes", "obj-vertex", "obj-lines"] + REP + ["obj-tree-objects", "obj-tree-data", "obj-tree-shapes", "obj-general"], "names, libraries and number of objects, and every list of every object after the first, equal those of the reference semantics"),
    "C13": product(MTL, "Ok or Err and the error kind of the result are those of the reference semantics for the words read"),
    "C14": product(MTL, "every field of every material of the result equals that of the reference semantics"),
    "C15": product(MTL + ["obj-any", "obj-lines", "obj-objects", "obj-index"] + REP + ["obj-tree-objects", "obj-tree-layout", "obj-general"], "the line number of the error equals the number of line ends before the offending word, plus one"),
    "C21": product(MTL + ["obj-any", "obj-index", "obj-vertex", "obj-lines", "obj-objects"] + REP + ["obj-tree-objects", "obj-tree-layout", "obj-general"], "the message of an error that a word causes contains that word (or the bounds of the range it is outside of)"),
    "C16": direct("display", "on every path the text written equals the prescribed rendering of the argument, piece by piece, and the result is Ok"),
    "C17": direct("lookup", "on every path the result equals the entries at the positions named by the index, or nothing when one of them does not exist; same type means same variant"),
    "C22": direct("compare", "on every path the answer of a comparison is true exactly when every part of the two values is equal, the answer of an ordering is that of the parts in order, and a copy has the parts of the original"),
    "C18": {"jobs": [("effects", "_")], "explanation": EFFECTS, "technique": "interprocedural effect analysis over MIR",
            "rule": "no function of the crate calls into clock, environment, file system, input/output, threads, randomness or addresses, touches a static or thread local that can change, or depends on the order of an unordered container",
            "assumptions": ["the classification of the standard library's functions in engine/src/effects.rs", "no effects are hidden in the bodies of functions of other crates (the parser depends on none)"],
            "note": "Static and complete for the crate's code: every function and every call that leaves the crate is classified on every run."},
}
