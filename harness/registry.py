"""Property id -> check, and how each is described in MANIFEST.json."""
from . import est

CHECKS, TECHNIQUE, NOTE = {}, {}, {}
NOT_APPLICABLE = {}

EST_T = ("TLA+/TLC: state machine of the estimator (Estimators.tla, exact real arithmetic by module override), "
         "trace validation of recorded runs of the real code (EstTrace.tla)")
EST_N = ("Every reading of every recorded run is compared by TLC with the exact value the specification's transition "
         "relation gives for the rows fed; parameters, dimensions, streams and feeding modes are sampled with a seed, "
         "small streams exhaustively. Assumes readings depend only on the rows fed (decided separately by P01-P06); "
         "trusts the 50-digit arithmetic overrides (checked against their TLA+ definitions by SelfTest.tla) and a "
         "stated rounding tolerance; a step through a numerically singular inverse is left unconstrained and counted.")


def add(pid, fn, technique, note):
    CHECKS[pid], TECHNIQUE[pid], NOTE[pid] = fn, technique, note


for _i in range(9, 20):
    add("P%02d" % _i, est.deep(getattr(est, "p%02d" % _i), 12), EST_T, EST_N)

from . import stream
STREAM_T = ("TLA+/TLC: abstract state machine of a population of estimators (Stream.tla); behaviours enumerated and "
            "simulated by TLC from StreamGen.tla are replayed on the real classes and the recorded calls and readings "
            "are trace-validated (StreamTrace.tla)")
STREAM_N = ("The model's behaviours are exhaustive up to a stated length and simulated beyond; replayed on 17 estimator "
            "classes and the composed one with short warm-ups (so streams cross them). A reading is compared by TLC with "
            "a reading of a fresh object with the same history; rows are small dyadic numbers.")
for _i in range(1, 7):
    add("P%02d" % _i, getattr(stream, "p%02d" % _i), STREAM_T, STREAM_N)

from . import keyed
add("P23", keyed.p23, "TLA+/TLC: FixedUniverse.tla model-checked over all dictionary streams to a bound (FixedGen.tla), its "
    "behaviours replayed on the real adapter and trace-validated together with the wrapped estimator's state machine "
    "(FixedTrace.tla)", "Exhaustive for 2-3 names and short streams, simulated for longer ones; 14 wrapped estimators, "
    "three spellings of names, both constructors.")
add("P24", keyed.p24, "TLA+/TLC: DynamicUniverse.tla model-checked over all sequences of name sets to a bound (DynGen.tla); "
    "behaviours replayed with a recording estimator and trace-validated (DynTrace.tla)",
    "What each tracked set is fed is observed through a recording subclass of a real estimator passed as the prototype. "
    "After a tie between eviction victims (which the property leaves open) the rest of the run is not judged.")
add("P25", keyed.p25, "TLA+/TLC: matrix assembly specified over DynamicUniverse.tla and Estimators.tla, recorded queries "
    "trace-validated (DynTrace.tla)", "Queries of seen and unseen names in any order after TLC-generated sequences of name "
    "sets; entries whose best source ties are not judged.")
add("P26", keyed.p26, "TLA+/TLC: behaviours of two adapters sharing a prototype generated by KeyedGen.tla, replayed and "
    "trace-validated (KeyedTrace.tla)", "Every view is compared with every other view of the same history, including those "
    "of a reference adapter fed one dictionary at a time.")

from . import valid
add("P07", valid.p07, "TLA+/TLC: histories over awkward row kinds enumerated and simulated from RowGen.tla, run on the real code, "
    "every reading judged by the predicate Valid of Reading.tla in exact arithmetic (ReadingTrace.tla)",
    "Exhaustive over kinds for short histories, simulated beyond; scales 1e-60..1e60; rounding allowance 1e-9 relative.")
add("P08", valid.p08, "TLA+/TLC: recorded precision, distances and scores judged against the reported covariance by the "
    "predicate Coherent of Reading.tla in exact arithmetic (ReadingTrace.tla)",
    "Only readings whose covariance has condition number up to 1e6 are judged; the others are counted.")

from . import cond
add("P20", cond.p20, "TLA+/TLC: composition of estimator state machines (Conditional.tla over Estimators.tla), recorded runs of the real "
    "composition - what each sub-model is fed and what is read - trace-validated (CondTrace.tla)",
    "Every estimator class in both roles, a scripted univariate forecaster, nested compositions; sub-models observed through "
    "recording subclasses passed as prototypes. Runs through numerically singular inverses are unconstrained and counted.")

from . import equiv
add("P21", equiv.p21, "TLA+/TLC: Equivariance.tla - the specification's own equivariance model-checked over all short streams (EquivMC.tla), "
    "and recorded pairs of runs of the real code judged by the same definitions (EquivTrace.tla)",
    "Every class the property promises it for; random transformations; readings after a numerically singular inverse unconstrained and counted.")

from . import memory
add("P22", memory.p22, "TLA+/TLC: storage bound per method (Memory.tla), sizes recorded along long runs of the real code judged by MemTrace.tla",
    "Scalars in get_state, size of the pickle and everything reachable from the object, to 900-2000 (quick) or 20000 (thorough) "
    "observations; dimensions to 20-30; live trained estimators of keyed adapters counted.")

from . import linalg
add("P27", linalg.p27, "TLA+/TLC: contracts of the matrix helpers as predicates over argument and result in exact arithmetic (Repair.tla); "
    "arguments enumerated by TLC (MatGen.tla: every small integer symmetric matrix) and random ones, recorded calls judged by RepairTrace.tla",
    "Exhaustive for order 1-3 and small integers; random matrices to order 6 over 60 orders of magnitude; inverses judged up to condition 1e9.")

from . import assess
_A = ("TLA+/TLC: the scores and their laws defined in Assess.tla, the laws model-checked over all small matrices and held-out rows "
      "(AssessMC.tla), recorded calls of the real assessors judged by AssessTrace.tla")
add("P28", assess.p28, _A, "Random covariances (condition up to 1e6 where inverted) and held-out samples, dimensions 1-6, all parameters.")
add("P29", assess.p29, _A, "Random problems and competitors; strict optimality judged at perturbations of 5%.")

from . import recommend
add("P30", recommend.p30, "TLA+/TLC: the features defined in Recommend.tla (eigenvalues in exact arithmetic), their invariances model-checked over all "
    "small windows (RecommendMC.tla), recorded calls judged by RecommendTrace.tla",
    "Random windows including one row, one column, constant and dependent columns, several scales; the condition number is judged where "
    "the smallest eigenvalue is resolved.")
add("P31", recommend.p31, "TLA+/TLC: the frozen tree and the rules in Recommend.tla, every leaf under every rule outcome model-checked (RecommendMC.tla), "
    "recorded rankings judged by RecommendTrace.tla, the exported model by ExportTrace.tla",
    "The ranking is judged from the features the code reports for the same window (P30 decides those). Leaves reached are listed in the evidence. "
    "The training script is run on a small problem set in a scratch copy.")

from . import params
add("P32", params.p32, "TLA+/TLC: construction, set_params, clone, copy, learning and fitting as a state machine (Params.tla), model-checked and its "
    "behaviours generated by ParamGen.tla, replayed on every class and trace-validated (ParamTrace.tla); the registry judged by the same module",
    "Every behaviour of length 3 of one object, simulated ones of two objects; three values per parameter, parameters randomly grouped. "
    "Readings are judged whenever the parameters have not changed since the last reset.")

from . import research
add("P33", research.p33, "TLA+/TLC: the walk over windows as a state machine (Rolling.tla), its schedule model-checked for all small sizes (RollingMC.tla), "
    "recorded evaluations re-computed in exact arithmetic and judged (RollingTrace.tla)",
    "Covariances of the training rows and the recommendation are taken from the code (decided by P09-P19, P31). Runs with a numerically "
    "singular covariance are judged by the laws that need no inverse.")
add("P34", research.p34, "TLA+/TLC: ranks and averages over score tables (Board.tla), model-checked over every small table (BoardMC.tla); printed "
    "leaderboards, winners and summaries, and event traces of the validation protocol, judged by BoardTrace.tla",
    "Synthetic tables with missing and infinite scores; the protocol observed through recording ensembles, a scripted assessor and a scripted recommender.")
add("P35", research.p35, "TLA+/TLC: the Schur score, its maximiser and its limits defined in SchurTheory.tla, the identities model-checked over every small "
    "positive definite integer matrix, partition and coupling (SchurMC.tla), recorded calls judged by SchurTrace.tla",
    "Random positive definite matrices (condition up to 1e3), ordered partitions and couplings, dimensions 2-5. Simulated quantities are judged "
    "within eight standard errors; candidates on the boundary of the cone are not judged.")
add("P36", research.p36, "TLA+/TLC: the judges defined in Judges.tla, the bridges between them model-checked (JudgesMC.tla), recorded scores and event "
    "traces of the power experiment judged by JudgesTrace.tla",
    "Random covariances (condition up to 100), 2-5 variables; every power experiment of the module observed through recording judges and "
    "random generators, each judged by its own measure of which candidate is better (private judges skipped when renamed).")

from . import elo
add("P37", elo.p37, "TLA+/TLC: Elo.tla - the replay of recorded results as a nondeterministic state machine, every order of every small collection "
    "model-checked with its mirror image (EloMC.tla); recorded tables judged by reachability under some replay order, frequencies of tables, "
    "rating changes and whole reports by EloTrace.tla",
    "Legacy modules loaded from their files with stand-ins for the removed packages they import. Reachability is decided for up to 5 results, "
    "larger collections by the laws; frequencies within seven standard deviations of 400 replays.")

from . import ensembles
add("P38", ensembles.p38, "TLA+/TLC: the families of truths and the law of their rows in Ensembles.tla, every family model-checked over its extreme "
    "parameters and every single wrong entry (EnsMC.tla), recorded truths, samples, scenario suites and candidates judged by EnsTrace.tla",
    "Truths of 3-12 (40) variables, samples of 300-1000 rows of 3-6 variables (12 in the default suite); every statistic within eight standard errors. "
    "Contamination is pooled over suites. Private samplers and candidate makers are skipped when renamed.")

from . import process
add("P39", process.p39, "TLA+/TLC: processes and the objects that outlive them as a state machine (Processes.tla), its laws model-checked and histories "
    "generated by ProcGen.tla, replayed in real interpreters and trace-validated by ProcTrace.tla against answers recorded each in a process of its own",
    "Missing packages are simulated by refusing their import; hash seed, global random state, error state, print options, -O, working directory and "
    "two-thread use vary. Interleavings of the threads are the scheduler's (switch interval 1e-6 s).")

from . import battles
add("P40", battles.p40, "TLA+/TLC: rounds of battles and backtests as a state machine (Battles.tla), every short history model-checked (BattlesMC.tla); "
    "recorded battles trace-validated round by round against the counts the specification keeps, recorded backtests, leaderboards, rankings, "
    "simulated comparisons and data sources judged by BattlesTrace.tla",
    "Legacy modules loaded from their files; the packages they import that no longer exist (data, managers, portfolios, momentum) are stood in for by "
    "recorders, and a battle is ended by its data source. Who plays is random: frequencies within six standard deviations.")

from . import webtex
add("P41", webtex.p41, "TLA+/TLC: the reader and writer of equation numbers as a two-pass state machine (WebTex.tla), its laws model-checked over every "
    "document of up to five pieces (WebTexMC.tla); every small document and random longer ones converted by the real script, and the built pages, "
    "judged by WebTexTrace.tla",
    "Documents are sequences of equation environments, labels, references and other text; text that spells a label or environment in pieces is not generated.")
