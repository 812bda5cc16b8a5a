"""What each property's check runs."""
import os
from runner import scale

SEED = os.environ.get("VERIF_SEED", "1")

RAT = {"module": "RatCheck", "what": "the exact-number operators against integer definitions, exhaustive"}

CHECKS = {
    "C01": lambda tier: {
        "models": [RAT,
                   {"module": "MC_IA", "cfg": scale("MC_IA.cfg", "MC_IA_deep.cfg"), "what": "laws of exact interval arithmetic, all small intervals"},
                   {"module": "MC_Machine", "cfg": scale("MC_Machine.cfg", "MC_Machine_deep.cfg"), "what": "all short programs with outward rounding keep their witnesses"}],
        "traces": [{"driver": "arith", "spec": "Arith", "cfg": "Arith_sound.cfg",
                    "require": ["load", "add", "sub", "mul", "div", "neg", "abs", "pow"]}],
    },
    "C02": lambda tier: {
        "models": [RAT],
        "traces": [{"driver": "arith", "spec": "Arith", "cfg": "Arith_tight.cfg",
                    "require": ["add", "sub", "mul", "div", "neg", "abs", "pow"]}],
    },
    "C03": lambda tier: {
        "models": [RAT, {"module": "MC_IA", "cfg": scale("MC_IA.cfg", "MC_IA_deep.cfg"), "what": "Kaucher's definition, Lakeyev's formulas and the group laws, all small intervals"}],
        "traces": [{"driver": "arith", "args": ["kaucher"], "spec": "Arith", "cfg": "Arith_kaucher.cfg",
                    "require": ["add", "sub", "mul", "div", "neg", "dual", "pro", "opp", "inv", "xopp", "xinv", "pow"]}],
    },
    "C04": lambda tier: {
        "models": [RAT, {"module": "ElemCheck", "what": "functional equations and known constants tie the rational enclosures to exp, log, sin, cos"}],
        "traces": [{"driver": "elem", "spec": "ElemTrace", "require": ["sqrt", "exp", "log", "sin", "cos", "sign", "rpow"]}],
    },
    "C05": lambda tier: {
        "models": [RAT],
        "traces": [{"driver": "setops", "spec": "SetOps",
                    "require": ["lt", "le", "gt", "ge", "eq", "ne", "in", "subset", "superset", "psubset", "psuperset", "contain", "supercontain", "meet"]}],
    },
    "C06": lambda tier: {
        "models": [RAT],
        "traces": [{"driver": "build", "spec": "Build", "require": ["make", "keep", "conv", "mixed", "refuse"]}],
    },
    "C07": lambda tier: {
        "models": [RAT],
        "traces": [{"driver": "chars", "spec": "Chars", "require": ["char", "parts", "nums", "dist", "compmat", "vertex", "isnan"]}],
    },
    "C08": lambda tier: {
        "models": [RAT],
        "traces": [{"driver": "arrays", "spec": "ArrayOps",
                    "require": ["add", "sub", "mul", "div", "neg", "abs", "pow", "matmul", "T", "reversed", "sum", "reshape", "diag"]}],
    },
    "C09": lambda tier: {
        "models": [RAT, {"module": "MC_Arrays", "what": "laws of indexing, assignment and deletion for every key on small shapes"}],
        "generate": [{"env": "ARRAYS", "module": "ArrayGen", "workers": 1, "extra": ["-simulate", "num=%d" % scale(600, 12000), "-depth", "30", "-seed", SEED],
                      "what": "random behaviours of the machine, invariants checked in every state"}],
        "traces": [{"driver": "mutate", "spec": "ArrayTrace", "max_runs": 6000,
                    "require": ["get", "set", "del", "iadd", "isub", "imul", "idiv", "T", "reshape", "copy", "deepcopy", "list", "rev"]}],
    },
    "C10": lambda tier: {
        "models": [RAT, {"module": "MC_Fenv", "what": "nested calls, contexts, call-backs and exceptions restore the mode"}],
        "traces": [{"driver": "fenv", "spec": "FenvTrace", "require": ["call"]}],
    },
    "C11": lambda tier: {
        "models": [RAT, {"module": "MC_LinSys", "what": "the functionals are non-negative exactly on the solution sets, all small equations"}],
        "traces": [{"driver": "functionals", "spec": "FuncTrace", "require": ["Tol", "Uni", "Uss", "Cheb"]}],
    },
    "C12": lambda tier: {
        "models": [RAT, {"module": "MC_LinSys", "what": "the functionals on all small equations"},
                   {"module": "MC_Optim", "what": "weak duality of the certificates, all small systems"}],
        "traces": [{"driver": "maximize", "spec": "MaxTrace", "require": ["Tol", "Uni", "Uss", "Cheb", "step"]}],
    },
    "C13": lambda tier: {
        "models": [RAT, {"module": "MC_Ralg", "cfg": scale("MC_Ralg.cfg", "MC_Ralg_deep.cfg"), "what": "the protocol with every small objective"}],
        "traces": [{"driver": "ralg", "spec": "RalgTrace", "require": ["call", "return", "raise"]}],
    },
    "C14": lambda tier: {
        "models": [RAT, {"module": "MC_Contract", "cfg": scale("MC_Contract.cfg", "MC_Contract_deep.cfg"), "what": "interval iteration in any order loses no solution, all small systems"}],
        "traces": [{"driver": "outer", "args": ["outer"], "spec": "OuterTrace", "require": ["Gauss", "Gauss_Seidel", "HBR", "Rohn"]}],
    },
    "C15": lambda tier: {
        "models": [RAT, {"module": "MC_BnB", "cfg": scale("MC_BnB.cfg", "MC_BnB_deep.cfg"), "what": "branch and bound with any valid bounds: any-time validity and convergence"}],
        "traces": [{"driver": "outer", "args": ["split"], "spec": "OuterTrace", "require": ["PSS", "PPS"]}],
    },
    "C16": lambda tier: {
        "models": [RAT, {"module": "MC_LinSys", "what": "the functionals on all small equations"},
                   {"module": "MC_Tol", "cfg": scale("MC_Tol.cfg", "MC_Tol_deep.cfg"), "what": "the inner box and the linear program describe tolerable points, all small systems"}],
        "traces": [{"driver": "tolset", "spec": "TolTrace", "require": ["inner", "hull"]}],
    },
    "C17": lambda tier: {
        "models": [RAT, {"module": "MC_Newton", "cfg": scale("MC_Newton.cfg", "MC_Newton_deep.cfg"), "what": "the Newton machine halts at the formal solution, all small dominant systems"}],
        "traces": [{"driver": "subdiff", "spec": "SubTrace", "require": ["Subdiff"]}],
    },
    "C18": lambda tier: {
        "models": [RAT, {"module": "MC_Zeros", "cfg": scale("MC_Zeros.cfg", "MC_Zeros_deep.cfg"), "what": "Krawczyk and Newton steps in any order lose no zero, all small quadratics"}],
        "traces": [{"driver": "roots", "spec": "RootTrace", "require": ["start", "J", "func", "stop"]}],
    },
    "C19": lambda tier: {
        "models": [RAT, {"module": "MC_BnB", "cfg": scale("MC_BnB.cfg", "MC_BnB_deep.cfg"), "what": "branch and bound with any valid bounds: any-time validity and convergence"}],
        "traces": [{"driver": "globmin", "spec": "MinTrace", "require": ["start", "func", "stop"]}],
    },
    "C20": lambda tier: {
        "models": [RAT,
                   {"module": "MC_Polygon", "cfg": scale("MC_Polygon.cfg", "MC_Polygon_deep.cfg"), "extra": scale((), ("-simulate", "num=8000", "-depth", "120", "-seed", SEED)),
                    "what": "the boundary interval method walks once around the corners, all small systems of rows"},
                   {"module": "MC_Orthant", "cfg": scale("MC_Orthant.cfg", "MC_Orthant_deep.cfg"), "what": "the rows of an orthant describe the solution set there"}],
        "traces": [{"driver": "draw", "args": ["2"], "spec": "DrawTrace", "require": ["rows", "ils", "again", "fail"]}],
    },
    "C21": lambda tier: {
        "models": [RAT, {"module": "MC_Orthant", "cfg": scale("MC_Orthant.cfg", "MC_Orthant_deep.cfg"), "what": "the rows of an orthant describe the solution set there"}],
        "traces": [{"driver": "draw", "args": ["3"], "spec": "DrawTrace", "require": ["rows", "ils", "again", "fail"]}],
    },
    "C22": lambda tier: {
        "models": [RAT, {"module": "MC_Fit", "cfg": scale("MC_Fit.cfg", "MC_Fit_deep.cfg"), "what": "bases, ranges of polynomials, smoothing, weak duality: all small models"}],
        "traces": [{"driver": "fit", "spec": "FitTrace", "require": ["new", "fit", "badfit", "predict", "step"]}],
    },
    "C23": lambda tier: {
        "models": [{"module": "MC_Pure", "cfg": scale("MC_Pure.cfg", "MC_Pure_deep.cfg"), "what": "libraries with every small defect: pure ones are never blamed, all others are after some short history"}],
        "traces": [{"driver": "pure", "spec": "PureTrace", "max_runs": 2000, "require": ["start", "call", "write", "renew", "spoil"]}],
    },
    "C24": lambda tier: {
        "models": [RAT, {"module": "MC_Systems", "cfg": scale("MC_Systems.cfg", "MC_Systems_deep.cfg"), "what": "the documented regularity of the test systems, from exact determinants of all vertex matrices"}],
        "traces": [{"driver": "systems", "spec": "SysTrace", "require": ["zeros", "full", "eye", "diag", "neumaier", "shary", "toft"]}],
    },
    "C25": lambda tier: {
        "models": [RAT, {"module": "MC_Picture", "cfg": scale("MC_Picture.cfg", "MC_Picture_deep.cfg"), "what": "paths drawn the same have the same edges, all small paths"},
                   {"module": "MC_Draw", "cfg": scale("MC_Draw.cfg", "MC_Draw_deep.cfg"), "what": "drawing programs with every small defect: correct ones are never blamed, all others are after some short history"}],
        "traces": [{"driver": "pictures", "spec": "PictureTrace", "require": ["canvas", "add", "show"]}],
    },
    "C26": lambda tier: {
        "models": [RAT, {"module": "MC_Variability", "cfg": scale("MC_Variability.cfg", "MC_Variability_deep.cfg"), "what": "signatures are those of the quotient of the singular values, all small matrices U S V"}],
        "traces": [{"driver": "variab", "spec": "VarTrace", "require": ["ive", "stream"]}],
    },
    "C27": lambda tier: {
        "models": [RAT, {"module": "MC_Rows", "cfg": scale("MC_Rows.cfg", "MC_Rows_deep.cfg"), "what": "row preparation and the normal form change no set, exact penalties: all small systems of two rows"}],
        "traces": [{"driver": "rows", "spec": "RowsTrace", "require": ["unique", "pairs", "clear", "shape", "new", "at", "weight"]}],
    },
    "C28": lambda tier: {
        "models": [RAT, {"module": "MC_Shown", "cfg": scale("MC_Shown.cfg", "MC_Shown_deep.cfg"), "what": "showing with n digits keeps order and sign and is stable: all small fractions, all pairs"}],
        "traces": [{"driver": "shown", "spec": "ShownTrace", "require": ["show", "export", "ranges"]}],
    },
    "C29": lambda tier: {
        "models": [RAT, {"module": "MC_Calls", "cfg": scale("MC_Calls.cfg", "MC_Calls_deep.cfg"), "what": "which shapes, options and numbers make a call well formed: definitions agree with index sets and with each other, all small shapes"}],
        "traces": [{"driver": "calls", "spec": "CallsTrace",
                    "require": ["Gauss", "Gauss_Seidel", "HBR", "PPS", "Subdiff", "Rohn", "Neumaier", "maximize", "WILS", "lineqs", "IntLinIncR2", "lineqs3D",
                                "IntLinIncR3", "matmul", "intersection", "vertex", "dist", "ufunc", "order", "asinterval", "get_shape", "pow", "div", "root"]}],
    },
    "C30": lambda tier: {
        "models": [{"module": "MC_Overlap", "cfg": scale("MC_Overlap.cfg", "MC_Overlap_deep.cfg"), "what": "libraries with every small defect of concurrency under every interleaving of two threads and call-backs: the one without shared state is never blamed, all others are"}],
        "generate": [{"env": "TURNS", "module": "OverlapGen", "workers": 1, "extra": ["-simulate", "num=%d" % scale(900, 9000), "-depth", "40", "-seed", SEED],
                      "what": "schedules: who runs, and for how many lines"}],
        "traces": [{"driver": "overlap", "spec": "OverlapTrace", "max_runs": 9000, "require": ["alone", "begin", "turn", "end", "after"]}],
    },
}

TRACE = "TLA+ specification checked with TLC; trace validation of the real library"
TRUST = (" Trusted: TLC, the BigInteger rational primitives in java/Rat.java (compared exhaustively with pure TLA+ on small "
         "fractions by RatCheck in this check's models), and the recorder's exact encoding of doubles.")
NOTES = {
    "C01": (TRACE + " (evaluation machine with witnesses, exact rational ranges)",
            "Every recorded operation of random and enumerated histories is compared with the exact range; the machine's invariant (witnesses stay inside) "
            "is model-checked exhaustively on small values. Sampled, not exhaustive, over doubles." + TRUST),
    "C02": (TRACE + " (exact endpoints, ulp budget)",
            "Same histories as C01; every endpoint is compared with the exact endpoint in exact arithmetic." + TRUST),
    "C03": (TRACE + " (Kaucher's join/meet definition)",
            "Every sign/direction pattern on a grid of endpoints and random doubles; the exact result is computed from the definition. Sampled over doubles." + TRUST),
    "C04": (TRACE + " (rational enclosures of exp, log, sin, cos)",
            "Arguments next to extrema, zeros, overflow and domain borders, and random ones; true ranges are enclosed to 2^-80 in exact arithmetic. Sampled over doubles." + TRUST),
    "C05": (TRACE + " (set semantics of relations and intersection)",
            "Operands share, touch or are one double apart at their ends by construction; scalars, arrays, numbers and broadcasting. Sampled." + TRUST),
    "C06": (TRACE + " (construction as a function of the arguments)",
            "All argument forms, flag combinations and number types, random values. Sampled." + TRUST),
    "C07": (TRACE + " (definitions of the characteristics)",
            "Scalars, arrays of up to three dimensions, mixed lists and numbers; properties and module functions. Sampled." + TRUST),
    "C08": (TRACE + " (shape rules and elementwise exact results)",
            "Every operand form and order, broadcast and incompatible shapes up to three dimensions, matrix products. Sampled." + TRUST),
    "C09": ("TLA+ specification checked with TLC; behaviours generated by TLC replayed in the real library and validated (ArrayMachine)",
            "Random behaviours of up to 14 operations over a pool of three arrays; every array is observed after every operation. Sampled." + TRUST),
    "C10": (TRACE + " (rounding mode machine)",
            "Histories of successful and failing calls and user call-backs that raise; the mode is read from the processor and probed with sums whose result depends on it. Sampled." + TRUST),
    "C11": (TRACE + " (exact functionals and solution sets)",
            "Points inside, on the border of and next to the solution sets by construction; on dyadic data the answers are compared exactly. Sampled." + TRUST),
    "C12": (TRACE + " (exact functionals, checked dual certificates of the global maximum)",
            "Random small systems, start points, weights, options and constraint objects reused between systems; each optimum is compared with an exact upper bound that the specification verifies. Sampled." + TRUST),
    "C13": ("TLA+ specification checked with TLC (optimizer protocol machine); recorded executions validated call by call",
            "Executions on objectives of eleven kinds (convex, not convex, plateaus, arbitrary answers, NaN, errors) with varied options; the machine follows every call and decides records, counters and exit codes. Sampled." + TRUST),
    "C14": (TRACE + " (exact solution sets; contraction machine)",
            "Systems of one to three unknowns, square and overdetermined; every exact extreme point of the solution set (checked by the specification) has to be in the box. Sampled over systems." + TRUST),
    "C15": (TRACE + " (exact solution sets; branch-and-bound machine)",
            "Systems of one to three unknowns, all iteration limits; the bounds must contain every exact extreme point and reach it at convergence. Sampled over systems." + TRUST),
    "C16": (TRACE + " (exact tolerable sets)",
            "Systems of one to three unknowns of any shape; every vertex of inner boxes is checked for tolerance, hulls against exact extreme points, emptiness against a verified certificate. Sampled over systems." + TRUST),
    "C17": ("TLA+ specification checked with TLC (exact Newton machine in the immersion space); trace validation of the real library",
            "Systems of one to four unknowns with proper, improper and mixed elements of every sign class; answers are substituted in exact Kaucher arithmetic. Sampled over systems." + TRUST),
    "C18": ("TLA+ specification checked with TLC (contraction machine over iterates); recorded call-back histories validated iterate by iterate",
            "Polynomial systems of one to three unknowns with all or some zeros known exactly, boxes around, touching and beside them; every iterate the call-backs see is checked. Sampled." + TRUST),
    "C19": ("TLA+ specification checked with TLC (branch-and-bound machine); recorded call-back histories and results validated",
            "Polynomials of one to three unknowns whose global minimum has an exact certificate that the specification checks, all iteration limits. Sampled." + TRUST),
    "C20": ("TLA+ specification checked with TLC (boundary interval machine over exact rows); trace validation of the real library",
            "Rows in general and special position (concurrent, parallel, repeated, thin, empty, unbounded) and interval systems, in histories of several calls. Sampled." + TRUST),
    "C21": ("TLA+ specification checked with TLC (exact polyhedra); trace validation of the real library",
            "As C20 with three unknowns; every face is compared with the exact one. Sampled." + TRUST),
    "C22": ("TLA+ specification checked with TLC (life of model objects, exact functionals, checked dual certificates); trace validation of the real library",
            "Histories of one or two model objects: valid, repeated and impossible fits, predictions; all bases, norms, functionals, containers. Sampled." + TRUST),
    "C23": ("TLA+ specification checked with TLC (process machine: objects, results kept, world, memo; library defects enumerated); trace validation of the real library",
            "Histories of calls (successful and failing, with raising call-backs) over about forty shared objects, between which the user writes into objects and results; a library of 144 defect combinations shows the verdicts complete for small histories. Sampled." + TRUST),
    "C24": (TRACE + " (exact entries of the constructors)",
            "All sizes up to six, parameters inside, on the border of and outside the documented domain, positional and named. Sampled." + TRUST),
    "C25": ("TLA+ specification checked with TLC (canvases and drawing programs); recorded histories of drawing calls validated canvas by canvas",
            "Histories of up to six calls over several canvases; everything on every canvas is read after every call. Inequalities and interval systems of two and three unknowns, all options. Sampled." + TRUST),
    "C26": (TRACE + " (exact squares of condition numbers)",
            "Systems of one and two unknowns and orthogonal ones of three, with few and with enough random corner matrices. The maximum of Tol is the library's own (C12). Sampled." + TRUST),
    "C27": (TRACE + " (rows as half-spaces)",
            "Rows with repetitions, near repetitions and zero rows in several memory layouts; constraints with absent and infinite limits, judged at points inside, outside, on and next to every border. Sampled." + TRUST),
    "C28": (TRACE + " (rounding to significant digits)",
            "Texts are read back by the driver; every number in them is compared in exact arithmetic with the end it stands for. Sampled over magnitudes, half-way cases and shapes." + TRUST),
    "C29": (TRACE + " (which calls are well formed)",
            "Shapes, options and values of every call are judged by the specification, and the library's answer or refusal compared with it. Sampled over sizes up to 5 and the entry points listed." + TRUST),
    "C30": ("TLA+ specification checked with TLC (threads, call-backs, every interleaving; defects enumerated); schedules generated by TLC replayed in the real library, traces validated",
            "Two or three threads take turns at every source line of the library's Python code as the generated schedule says; calls are also made from call-backs of others. Compiled code runs without interruption, as under the interpreter lock. Sampled over schedules and calls. Trusted: TLC and the recorder's digests."),
}
NOT_APPLICABLE = {}
