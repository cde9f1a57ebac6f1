"""What the manifest says about each check."""
NOTES = ("TLA+ (spec/), checked with TLC; no hooks in /repo. run.py CHECK: models, builds the library from /repo's working tree with harness/, "
         "runs generated and systematic sessions, and lets TLC decide whether each recorded session is a behaviour of the specification. See DESIGN.md.")
G = "TLC: models of the design, and trace validation of the real code against the TLA+ specification"
S = G + " (every word pair over small alphabets, and random near-miss dictionaries)"
B = "Bounded: models within the constants in the evidence; the code on the executions listed there (large runs are screened by a filter that only selects what TLC judges)."
TECH = {
    "C01": (S, B), "C02": (S, B), "C03": (S, B), "C04": (S, B),
    "C05": (G + "; one test per transition of the iteration specification (IterGen)", B),
    "C06": (G + "; one test per transition of two interleaved iterations (IterGen)", B),
    "C07": (G + "; every dictionary over small alphabets", B),
    "C08": (G + "; every dictionary over small alphabets; iterator tours generated by TLC", B),
    "C09": (G + "; every sequence of terms over small alphabets; histories generated by TLC (LibGen)", B),
    "C10": (G + "; node graphs of every dictionary over small alphabets", B),
    "C11": (G + "; every pair of dictionaries over {a,b}^2; histories generated by TLC", B),
    "C12": (G + "; every round trip over small alphabets; histories generated by TLC", B),
    "C13": (G + "; every file of every small dictionary cut at every byte", B),
    "C14": (G + "; a write failure at every byte of every small dictionary", B),
    "C15": (G + "; every pair of words over small alphabets, and long histories of one object", B),
    "C16": (G + "; every triple of words over {a,b}^2 and random ones", B),
    "C17": ("TLC: all interleavings of the memo's model; replay of TLC's schedules and trace validation of threads, with and without ThreadSanitizer",
            "The model is exhaustive within its constants; the schedules of the real threads are those that occurred."),
    "C18": ("TLC: models of searches; trace validation of concurrent readers, with and without ThreadSanitizer",
            "The schedules of the real threads are those that occurred; ThreadSanitizer extends each to the races it contains."),
    "C19": ("TLC: model of node ownership; trace validation of histories under AddressSanitizer with the heap balance as part of the trace",
            "Memory errors are observed, not modelled byte by byte: AddressSanitizer and the heap balance are the sensors, the specification the judge."),
    "C20": (G + "; limits up to the largest value, long terms, large dictionaries", B),
    "C21": (G + "; every byte value in every role", B),
    "C22": (G + "; one test per transition of the list specification (PosListGen)", B),
    "C23": ("TLC: the subsumption relation of the model; the complete relation of the code validated against it, and searches", B),
    "C24": (G + "; one test per transition of the node specification (NodesGen)", B),
    "C25": ("TLC: specification of the demo as a system of runs and files; a test per transition (DemoGen), executed by the real program and validated as traces", B),
    "C27": (G + "; every small graph made by hand (FormatGen) and every part of small dictionaries", B),
    "C28": (G + "; one test per transition of two iterations and their copies (IterGen), also under AddressSanitizer", B),
    "C29": (G + "; the nodes that searches and look-ups touch, observed through page protection", B),
    "C26": (G + "; bytes read and written by an independent codec; every small message graph (FormatGen) in many encodings", B),
}
