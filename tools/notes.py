"""Technique and level note of every check."""
R = "TLA+ model solved exactly by TLC (residue arithmetic), answers replayed on the real classes"
T = "TLA+ trace validation: recorded episodes of the real classes judged by TLC against the meaning of each answer"
RT = "TLA+ trace validation of recorded episodes, and exact model answers from TLC replayed on the real classes"
RN = "Exact rational solutions of the kriging system for every generated scenario; bounded to small integer layouts with at most a dozen data and variograms whose values are rational there."
TN = "Every answer of every recorded episode is judged by TLC; the episodes are sampled (seeded), 6-12 data each, tolerance 4e-5 of the data's size."
L = "TLA+ life-cycle model of kriging objects checked by TLC (with fault injection); its walks are replayed on the real classes and recorded episodes are judged by TLC"
LN = "All states of the bounded life-cycle model; the walks and episodes on the real classes are sampled (seeded), every object compared with a fresh one after every step."
Q = "TLA+ decision tables and shape tests enumerated by TLC and put to the real classes"
NOTES = {
    "C01": (RT, TN),
    "C02": (R, RN),
    "C03": (RT, TN),
    "C04": (RT, TN),
    "C05": (RT, TN),
    "C06": (L, LN),
    "C07": (L, LN),
    "C08": (L, LN),
    "C09": (T, TN),
    "C10": (RT, TN),
    "C11": (T, TN),
    "C12": (RT, TN),
    "C13": (RT + "; exact spherical distances enumerated by TLC", TN),
    "C14": (Q + "; recorded episodes judged by TLC", "Exhaustive over models, key sets, list lengths, classes and call paths; the values of the parameters are one set per table plus sampled episodes."),
    "C15": ("TLA+ enumeration by TLC of every variogram model, parameter and distance class with exact rational terms, replayed on all entry points",
            "Exhaustive over the models, the parameter grid and distances of spec/VarioTerm.tla; transcendental factors are evaluated in double precision by the harness."),
    "C16": ("TLA+ binning specification evaluated exactly by TLC on generated data sets, compared with the recorded experimental variogram",
            "Integer data sets with exact squared distances, where class membership on edges is decided exactly; sampled (seeded)."),
    "C17": ("TLA+ trace validation of recorded automatic fits: admissibility and optimality against enumerated neighbours",
            "Sampled fits; optimal up to 1 % of the cost against a neighbourhood and restarts, the accuracy of the bounded optimiser."),
    "C18": (R, RN),
    "C19": ("TLA+ model of the grid files on disk (tokens, header forms, refused writes), histories from TLC replayed on the real writers and readers",
            "Seeded histories of up to a dozen operations on two files; expected values with exact decimal rounding; grids of up to 11 x 11 cells."),
    "C20": ("TLA+ model of the grid files on disk (tokens, header forms, refused writes), histories from TLC replayed on the real writers and readers",
            "Seeded histories of up to a dozen operations on two files; expected values with exact decimal rounding; grids of up to 11 x 11 cells."),
    "C21": ("TLA+ model of the estimator (parameters, clones, fits, routing of parameters per method); recorded estimator histories judged by TLC", TN),
    "C22": ("TLA+ model of regression plus kriged residual; recorded histories judged by TLC", TN + " The regression is a stub with exact values."),
    "C23": ("TLA+ enumeration of compositions with exact Aitchison geometry replayed on the transforms; recorded classification histories judged by TLC",
            "Exhaustive over compositions of powers of two up to the bounds; the episodes are sampled (seeded); residuals per class are kriged with the real kriging classes."),
    "C24": (R + "; coverage table", RN),
    "C25": (RT + "; life-cycle walks with the pseudo-inverse", TN),
    "C26": (Q, "Exhaustive over all array shapes on grids up to 3 cells a side and over the constructor, scikit-learn and parameter tables; combined requests and drift settings are sampled (seeded). Arguments the documentation says nothing of are left open."),
    "C27": (T + "; decision table of refusals enumerated by TLC", TN),
    "C28": ("TLA+ model of interleaved and nested requests checked by TLC (with fault injection); its schedules are forced on the real classes in threads", "All schedules of the bounded model at the granularity of user functions (2-3 threads, up to 2 nested requests), plus slices of two threads at line granularity with at most three interruptions; objects and requests are sampled (seeded)."),
}
NOT_APPLICABLE = {}
