"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": list(files),
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why, "anchors": a})

DE, POP, IND = "ade/de.py", "ade/population.py", "ade/individual.py"
REP, HIS, UTIL = "ade/report.py", "ade/history.py", "ade/util.py"

p("C01", "A member is replaced only by a strictly better evaluated challenger",
  "During evolution the individual in a population slot is replaced only by the challenger of a challenge aimed at that very slot, only after the challenger's evaluation has completed without a fatal error, and only if the challenger's SSE is strictly lower than that of the individual in the slot. A challenger that is strictly better does take the slot. So the SSE held by each slot never rises during a run, other than for a member demoted after a callback complaint.",
  ["schedules", "inputs", "histories"],
  "every interleaving of concurrent challenges, every evaluation result (finite, infinite, None, negative, failure), every run length",
  "The tests run a few seeded challenges with well-behaved functions in one completion order; they never see equal, infinite or fatal results arriving in other orders, and look only at the final best.",
  [DE, POP, IND],
  [("tournament", "ade/de.py DifferentialEvolution.challenge"), ("slot assignment", "ade/population.py Population.__setitem__"), ("SSE comparison", "ade/individual.py Individual.__lt__")],
  [("slots", "the individuals, one per index", "ade/population.py Population.iList")],
  ["population contents after each generation"])

p("C02", "A challenge reads settled slots and holds its target until it is decided",
  "A challenge looks at the individuals it works with (target, base and the two others) only after it has been granted exclusive access to all four slots. It keeps exclusive access to the target slot without interruption until the winner of the tournament is in the slot (unless aborted, after which nothing is replaced). So no challenge compares itself against, or overwrites, an individual that another challenge is still about to replace.",
  ["schedules"],
  "every order in which concurrent evaluations finish, for every choice of the four slots",
  "The order of completions in the tests is fixed by their simple evaluation functions; a read before the grant or an early release only shows in particular interleavings.",
  [DE, POP],
  [("lock, read, release order", "ade/de.py DifferentialEvolution.challenge"), ("one lock per slot", "ade/population.py Population.lock, Population.release")],
  [("slot locks", "one lock per slot index", "ade/population.py Population.dLocks")])

p("C03", "Exclusive slot access is always given back and never waited for in a cycle",
  "However a challenge ends (winner stored, challenger lost, constraint violated, fatal evaluation, shutdown while waiting), it has given back exclusive access to every slot it asked for. It asks for all its slots in one go, each slot once, and never asks for another slot while holding one, so challenges cannot deadlock one another. Aborting gives back every slot that is still held.",
  ["schedules", "fault_sequences", "inputs"],
  "every exit path of a challenge and every point at which shutdown or abort can happen",
  "A lock kept on a rare exit only shows as a hang in a later generation; the tests do not reach most of the exits.",
  [DE, POP],
  [("release on each exit", "ade/de.py DifferentialEvolution.challenge"), ("atomic request, duplicate check", "ade/population.py Population.lock"), ("release all", "ade/population.py Population.release, Population.abort")])

p("C04", "Every vector handed to the evaluation function lies within the bounds",
  "Each parameter vector that the optimiser passes to the user's evaluation function lies within the lower and upper bound given for every parameter, for initial individuals and for challengers alike. The same goes for the members of a population loaded with new bounds.",
  ["inputs", "histories", "configurations"],
  "every bounds specification, every combination of members, mutation weight and crossover outcome, however far out of range a mutant lands",
  "Tests sample a few random vectors; a mutant that lands more than a full range outside a bound, or a path that evaluates without limiting, is rare or absent there.",
  [DE, POP, IND],
  [("reflection and final limiting", "ade/population.py ParameterManager.limit"), ("limit before evaluate", "ade/de.py DifferentialEvolution.challenge, ade/population.py Population.setup"), ("bounds on load", "ade/population.py Population.load")],
  (), ["arguments of the evaluation function"])

p("C05", "No individual that violates a constraint is evaluated or admitted",
  "A parameter vector is evaluated, or admitted to the population, only if every one of the user's constraint callables accepted exactly those parameter values. The combined verdict is positive if and only if every constraint callable, called with the complete name-to-value mapping, returned a true value. If no conforming initial individual can be found, setup stops without evaluating or admitting a nonconforming one.",
  ["inputs", "configurations"],
  "every set of constraints (none, one, many, unsatisfiable) and every vector",
  "Tests use one or two easy constraints; exhausted retries and a constraint skipped in some position are not reached.",
  [POP, DE],
  [("constraint check", "ade/population.py ParameterManager.passesConstraints"), ("check before evaluate", "ade/de.py DifferentialEvolution.challenge, ade/population.py Population.setup")],
  (), ["arguments of the evaluation function", "population contents"])

p("C06", "A challenger is base + F*(one - other), crossed over with its target",
  "Before limiting, each parameter of a challenger is either the base individual's value plus the mutation weight times the difference of two other individuals' values for that parameter, or the target's own value for that parameter. At least one randomly chosen parameter always keeps the mutated value, and each other parameter keeps it with the crossover probability. The base, the two others and the target come from the slots chosen for the challenge.",
  ["inputs", "configurations"],
  "every choice of slots, mutation weight, crossover rate and random outcome",
  "The result of one challenge is random and the tests only check rough statistics of crossover and eventual convergence; a swapped operand or a dropped guaranteed parameter still converges on the test functions.",
  [DE, IND],
  [("mutation", "ade/de.py DifferentialEvolution.challenge"), ("crossover", "ade/de.py DifferentialEvolution.crossover"), ("vector arithmetic", "ade/individual.py Individual.__add__, __sub__, __mul__")])

p("C07", "Making and judging a challenger never alters the existing members",
  "Building, crossing over, limiting and evaluating a challenger changes no parameter value and no SSE of any individual already in the population. A challenger shares no storage with the individuals it was made from. The one exception is the demotion to infinite SSE of an individual that a report callback complained about.",
  ["inputs", "histories"],
  "every challenge, for every choice of the individuals involved",
  "Silent changes to a shared array look like ordinary evolution in the tests, which never compare all members before and after a failed challenge.",
  [DE, IND, POP],
  [("fresh arrays from arithmetic", "ade/individual.py Individual.spawn and operators"), ("in-place crossover only on the mutant", "ade/de.py DifferentialEvolution.crossover"), ("limit replaces the array", "ade/population.py ParameterManager.limit, Population.limit")])

p("C08", "A fatal evaluation stops the run and its individual is never kept",
  "If the evaluation function fails or returns a negative value, the run (or the population setup) shuts down. The individual concerned is never put in the population, recorded in the history or reported as a best individual. Its failure never escapes as an unhandled error that leaves the run hanging.",
  ["fault_sequences", "schedules"],
  "a fatal result at any evaluation, in setup or in any challenge, whatever else is pending",
  "Tests inject a fatal error at one point only and check that things stop, not that nothing of the failed individual stays behind.",
  [DE, POP, IND],
  [("failure to fatal SSE", "ade/individual.py Individual.evaluate"), ("truth value of an individual", "ade/individual.py Individual.__bool__"), ("handling of fatal results", "ade/de.py DifferentialEvolution.challenge, ade/population.py Population.setup")])

p("C09", "After an abort nothing is evaluated or replaced and nothing hangs",
  "Once the population has been aborted, the evaluation function is never again called with parameter values (only with None), no member is replaced, and no further generation starts. Every operation that was waiting (a run, a setup, exclusive access, report callbacks) is released and its Deferred fires. An aborted or never-started setup does not report success.",
  ["schedules", "crash_points", "fault_sequences"],
  "an abort at any suspension point of setup, of any challenge or between generations, from the keyboard, a failing callback or a shutdown",
  "Tests abort at a handful of moments; an abort between the evaluation and the tournament or while locks are awaited is a matter of timing.",
  [DE, POP, REP],
  [("running flags", "ade/population.py Population.abort, Population.evalFunc; ade/de.py DifferentialEvolution.shutdown, challenge, _run"), ("waiters released", "ade/population.py Population.release; ade/report.py Reporter.abort")],
  [("running", "None before setup, True after, False when aborted", "ade/population.py Population.running")])

p("C10", "Each generation challenges every slot once and ends before the next starts",
  "In every completed generation each slot of the population is the target of exactly one challenge. The next generation starts only after all those challenges have finished and pending reports have been dealt with, and at most the configured maximum number of generations is run. The user's generation function is called once after each generation that does not end the run, with that generation's number, and the run's Deferred fires with the population object.",
  ["schedules", "configurations"],
  "every population size, iteration limit and completion order",
  "Tests check that some runs end well; a slot skipped, or a generation started early, still converges on the test problems.",
  [DE],
  [("generation loop", "ade/de.py DifferentialEvolution._run"), ("start", "ade/de.py DifferentialEvolution.__call__")])

p("C11", "A run stops early only for its goal, a lack of progress or a shutdown",
  "If a goal SSE is set and the best individual is better than the goal at the end of a generation, no further generation is run. Without the bitter-end option the run stops once more than the configured number of generations, counted since the last sufficiently successful one, have passed with the mutation weight at its limit; with the option it never stops for lack of progress. Nothing else but a shutdown or the iteration limit ends a run.",
  ["configurations", "histories"],
  "every setting of goal, bitter-end and dwell options and every history of generations",
  "No test sets a goal SSE, and the options are exercised in one combination each.",
  [DE],
  [("stopping tests", "ade/de.py DifferentialEvolution._run"), ("limit detection", "ade/de.py FManager.down, FManager.up")],
  [("dwell count", "generations without progress at the limit", "ade/de.py DifferentialEvolution.dwellCount")])

p("C12", "The mutation weight adapts only within the configured range",
  "Adaptation never raises the mutation weight (or either end of its range) above the configured value and never lowers the weight (or the lower end of its range) to or below the critical value, and the upper end of a range always stays above the lower end. Without adaptation the weight never changes. The weight is adapted downward exactly after generations without enough improvement and upward after the others, and each value drawn for a challenge lies within the current range.",
  ["inputs", "histories"],
  "every initial weight or range, crossover rate and population size, and every sequence of upward and downward adaptations",
  "Tests drive two fixed sequences from default settings.",
  [DE],
  [("adaptation", "ade/de.py FManager.up, FManager.down and the lowest/highest setters"), ("use", "ade/de.py DifferentialEvolution._run")])

p("C13", "Sampled slots are distinct from one another and from the excluded ones",
  "Whenever slots are sampled from the population, all the slots returned are different from each other and none is one of the slots excluded by the caller, whatever the randomness setting. So the target, the base and the two other individuals of a challenge are four different members. Asking for a purely best-based sample of one slot returns the best slot that is not excluded.",
  ["inputs", "configurations"],
  "every population size, sample size, set of exclusions and randomness setting",
  "The tests draw some hundreds of random samples at three settings; distinctness is required of every draw.",
  [POP, DE],
  [("sampling", "ade/population.py Population.sample"), ("call sites", "ade/de.py DifferentialEvolution.challenge, _run")])

p("C14", "Setup fills the population with exactly its size of usable individuals",
  "When setup reports success the population holds exactly its intended number of individuals, each evaluated with a finite SSE (or, for a blank setup, given an infinite placeholder without evaluation). Individuals whose SSE is infinite, not a number or missing are not admitted, and never more than the allowed number of evaluations is started beyond those finished. A fatal evaluation or an abort ends setup without success.",
  ["schedules", "inputs", "fault_sequences"],
  "every order in which initial evaluations finish and every mix of finite, infinite, NaN, None and fatal results",
  "Tests use quick, always finite functions, so over-filling by late completions and non-finite results are not reached.",
  [POP],
  [("population filling", "ade/population.py Population.setup")],
  [("member list", "individuals and their locks", "ade/population.py Population.iList, dLocks")])

p("C15", "Individuals are ordered by SSE, with unusable results ranked worst",
  "An individual without a result, or with a fatal (negative), infinite or not-a-number result counts as infinitely bad in every comparison: it is never better than anything, and any individual with a finite SSE is better than it. Between finite results exactly the lower SSE is better. An individual is true in a boolean sense unless its evaluation was fatal.",
  ["inputs"],
  "every pair of evaluation results, including None, negative, infinite and NaN, and plain floats compared with individuals",
  "Tests compare a few finite values; the special values are exercised singly if at all.",
  [IND],
  [("comparison", "ade/individual.py Individual.SSE, __float__, __lt__, __gt__, __bool__")])

p("C16", "The ranking and the best individual always reflect the current members",
  "Whenever the ranking of the members, or the best individual, is asked for, the answer accounts for every change made to the population so far: each replacement, addition, demotion and clearing. The ranking is in order of increasing SSE and contains each member once.",
  ["histories"],
  "every sequence of replacements, additions, demotions, clearings and queries",
  "A stale cached ranking only shows when a query falls between a change and the next invalidation; tests query after one kind of change.",
  [POP, IND],
  [("cached ranking", "ade/population.py Population.KS, iSorted, kBest, best"), ("invalidation", "ade/population.py Population.__setitem__, push, clear, initialize, setup; ade/individual.py Individual.blacklist")],
  [("cached ranking", "sorted indices and individuals or None", "ade/population.py Population._KS, _iSorted")])

p("C17", "History keeps the record of every current member until it leaves",
  "A finite-SSE individual entering the population gets a history record that is protected from removal, and the record becomes expendable when, and only when, the individual is withdrawn from the population. Replacing a member withdraws the protection of the old individual and records the new one. A record removed to make room is gone for good: it is not counted, reported or handed out as anybody's record afterwards, and no protected record is ever chosen.",
  ["histories", "schedules"],
  "every sequence of additions, replacements, removals and clearings, with the roster full or not",
  "Tests follow short sequences with a tiny roster; the bookkeeping has to agree after every sequence.",
  [HIS, POP],
  [("bookkeeping", "ade/history.py History.add, notInPop, purge, purgePop, clear"), ("expendable set", "ade/history.py ClosestPairFinder.setRow, clearRow"), ("replacement", "ade/population.py Population.__setitem__")],
  [("roster", "row order, protected rows, never-member rows, member-to-row map", "ade/history.py History.K, Kp, Kn, kr")])

p("C18", "History operations are serialised and never leave the history blocked",
  "Every operation that changes the history does so only while holding the history's exclusive access, from before it looks at the roster until its change is complete, even if it has to wait in the middle. Each operation gives exclusive access back however it ends, also when it fails. So waiting for the history to settle always terminates.",
  ["schedules", "fault_sequences"],
  "every interleaving of concurrent additions, removals and clearings, and an error at any step",
  "Tests perform operations one after another and without failures.",
  [HIS],
  [("lock", "ade/history.py History.add, notInPop, purgePop, clear, value_vs_SSE, shutdown")])

p("C19", "A saved population comes back complete and ready to use",
  "Loading a saved population gives back every member with its parameter values and SSE, the bounds, names and constraints, the configuration and the history, each under the same meaning as saved, with one free lock per member. What the original keeps that cannot be saved (evaluation function, report callbacks, cached rankings) is re-created so that every operation works on the loaded object.",
  ["inputs", "histories"],
  "every state a population can be saved in, including during or after an aborted run, or before setup",
  "Tests save one freshly set up population and compare a few attributes.",
  [POP, HIS, IND],
  [("saved state", "ade/population.py Population.__getstate__, __setstate__, load, save; ParameterManager.__getstate__; ade/history.py History.__getstate__, __setstate__; ade/individual.py Individual.__getstate__")])

p("C20", "An individual's identity depends only on its SSE and values, in any process",
  "Two individuals with equal SSE and equal parameter values have the same identity, whatever number type or process produced them. The identity is the same after saving and loading in another process, so a resumed run can still find the history record of each of its members. Computing it works for every SSE value.",
  ["inputs", "configurations"],
  "every SSE (including huge, infinite, None) and every array of values; any two interpreter processes",
  "Tests save and load within one process, where a per-process salt does not show.",
  [IND, HIS],
  [("identity", "ade/individual.py Individual.__hash__"), ("saved identity map", "ade/history.py History.__getstate__")])

p("C21", "The reported best individual is the best one seen, less any complained about",
  "The reporter's best individual is replaced only by an individual with a strictly lower SSE (or set when there is none yet), and every usable individual that is reported and is strictly better does become the best. When a callback complains about an individual, that individual is demoted to infinite SSE and the previous best individual becomes the best again if it is better than the demoted one. An individual with a fatal evaluation is never reported as the best.",
  ["histories", "schedules"],
  "every sequence of reports and complaints, with callbacks finishing at any time",
  "Tests report a few individuals in one order and never check the best after a complaint.",
  [REP, IND],
  [("best tracking", "ade/report.py Reporter.newBest, __call__"), ("complaints", "ade/report.py Reporter.runCallbacks; ade/individual.py Individual.blacklist")])

p("C22", "Report callbacks run one run at a time, for the latest best, and can abort",
  "At most one run of the report callbacks is in progress at any time; a new best reported meanwhile is handled when that run finishes, so the latest new best (unless practically as good as the one reported before) is always eventually passed, with its own SSE, to every callback in order of registration. A callback that fails stops the callbacks and aborts the population. Once aborted no further callback is started, and waiting for the callbacks terminates.",
  ["schedules", "fault_sequences"],
  "every order of reports and callback completions, and a failure in any callback",
  "Tests use one or two callbacks with fixed delays.",
  [REP],
  [("callback runs", "ade/report.py Reporter.runCallbacks, newBest, waitForCallbacks, abort")],
  [("in-progress flag and slot for the next individual", "single-flight control", "ade/report.py Reporter.cbrInProgress, cbrScheduled")])

p("C23", "The early-exit SSE passed to an evaluation is that of the challenge's target",
  "With the early-exit option on, every evaluation of a challenger is told the SSE of the very target it challenges, as it stands while the target slot is exclusively held; with the option off, and for initial individuals, the evaluation function never gets that keyword. Losing challengers are recorded in the history as never having been members exactly when the option is off.",
  ["configurations", "inputs"],
  "both settings of the option, every target SSE including zero and infinity",
  "One test switches the option on for a single function and does not look at the values passed.",
  [DE, IND, POP],
  [("keyword passing", "ade/de.py DifferentialEvolution.challenge; ade/individual.py Individual.evaluate; ade/population.py Population.evalFunc")])

p("C24", "A log destination that fails never disturbs the program",
  "If writing to or flushing the current log destination fails, logging is switched off; neither that error nor one on closing a destination reaches the caller. With no destination nothing is written, otherwise messages go to the current one only. Switching destinations closes the previous one unless it is the standard output, and a call that does nothing else returns the previous one.",
  ["fault_sequences"],
  "a failure at any write, flush or close, for any kind of message",
  "No test makes a log handle fail.",
  [UTIL],
  [("messenger", "ade/util.py Messenger.writeLine, writeChar, _fhSet, __call__")])

p("C25", "Extracting the examples never overwrites an existing file",
  "Extraction of the example files writes only inside the examples directory in the user's home and only to paths found not to exist; existing files and directories are left as they are. Each example file that is not there yet is extracted.",
  ["inputs", "histories"],
  "every previous content of the home directory",
  "There is no test of the extraction.",
  ["ade/scripts/examples.py", "ade/__init__.py"],
  [("existence check before copy", "ade/scripts/examples.py extract; ade/__init__.py extract_examples")],
  (), ["file system writes"])

p("C26", "A specification file is read completely or rejected",
  "Every line of a specification file that is not blank, a comment or a delimiter contributes its name and value to the loaded specification (in the dict under definition, if any; given again, the last counts), or loading fails with an explicit error. In particular a dict region that is never closed, or a name or key without a value where one is needed, is not silently dropped, and a file without any lines loads as an empty specification.",
  ["inputs"],
  "every sequence of line kinds in a file",
  "The tests load one well-formed file.",
  ["ade/specs.py"],
  [("line parser", "ade/specs.py SpecsLoader.read"), ("dict building", "ade/specs.py Specs.dict_start, dict_add, dict_done; DictStacker")])

p("C27", "Every documented run option takes effect",
  "Each option of a differential evolution run is taken from the caller if given and from the documented default otherwise, and its value influences the run. No option is accepted and then ignored.",
  ["configurations"],
  "every option, given or not",
  "Tests set a few options and do not compare with and without.",
  [DE],
  [("options", "ade/de.py DifferentialEvolution.attributes, __init__")])

p("C28", "Each abort action runs exactly once, also when registered late",
  "When the user aborts, every registered abort action is run exactly once, in the order of registration, no matter how much input arrives. An action registered after an abort is still run, once. Registering something that cannot be called is refused, and ignoring the keyboard suppresses all of them.",
  ["histories", "schedules"],
  "every sequence of registrations, key presses and shutdowns",
  "The tests replace the keyboard handling.",
  ["ade/abort.py"],
  [("callback list", "ade/abort.py Keyboard.addCallback, dataReceived, shutdown; KeyboardHolder.callOnAbort")])

p("C29", "Each wrapped constraint checks its own function and its own parameters",
  "Iterating over a constraints object gives one checker per registered or appended constraint. Each checker, whenever it is called, calls its own constraint function with the linear values and the powers of ten of the log-space values of exactly the parameter names registered for it, as given in that call, and returns that function's verdict; if one of the names is missing it accepts.",
  ["inputs", "programs"],
  "every registry of constraints, whether the checkers are used one by one or collected first, called once or many times",
  "There is no test of this class.",
  ["ade/constraints.py"],
  [("wrappers", "ade/constraints.py Constraints.__iter__"), ("relations", "ade/constraints.py RelationsChecker.__call__")])

p("C30", "A new history record never overwrites a live one and fits the roster",
  "A record is written only to a row that no other record of the roster uses and that lies within the roster's capacity. The number of records never exceeds the capacity; when the roster is full either an unprotected record is removed first or the new one is not recorded. The roster lists records in order of increasing SSE.",
  ["histories"],
  "every pattern of used rows that additions and removals can produce, for every capacity",
  "Tests build one pattern by hand and a short random history.",
  [HIS],
  [("row choice", "ade/history.py History.kkr, History.add"), ("capacity", "ade/history.py History.N_max")])

p("C31", "Improvement is scored for won challenges and judged once per generation",
  "A won challenge adds to the generation's improvement score, more for a greater improvement, and a lost one adds nothing. Asking whether improvement was sufficient resets the score, is answered yes the first time and whenever the score exceeds the required one, so that no improvement counts for two generations.",
  ["histories", "schedules"],
  "every sequence of won and lost challenges and inquiries",
  "Tests follow one sequence of scores.",
  [POP, REP],
  [("score", "ade/population.py Population.replacement, _keepStatusQuo, report"), ("ratio", "ade/report.py Reporter.msgRatio, __call__")])

p("C32", "The improvement ratio is classified correctly for every pair of results",
  "Comparing a target with its challenger gives no ratio if the challenger is worse or either evaluation was fatal, a very high ratio if only the target's result is unusable or the challenger's is zero, zero if the challenger's or both results are unusable or if the two are equivalent, and the rounded quotient of the two SSEs otherwise. The comparison never fails, whatever the two results are.",
  ["inputs"],
  "every pair of kinds of result: missing, fatal, infinite, NaN, zero, finite and better, equivalent or worse",
  "Tests cover some of the pairs of kinds.",
  [REP],
  [("ratio", "ade/report.py Reporter.msgRatio, isEquivSSE")])

p("C33", "Piecewise timing ranks parts by their average elapsed time",
  "The timer for piecewise evaluation accumulates, for each part, the time that elapsed between the call and its completion (successful or not), counts the completions, and passes the result or failure on unchanged. Iterating gives each timed part once, in increasing order of its average elapsed time.",
  ["inputs", "schedules"],
  "every sequence of calls and completions",
  "There is no test of this class.",
  [UTIL],
  [("timer", "ade/util.py EvalTimer.__call__, __iter__")])

p("C34", "History analysis returns only records that meet the requested filter",
  "Asking for parameter values versus SSE gives, in increasing order of SSE, exactly the recorded rows that meet the requested restriction: only current members, only former members or only those that never were members, and only those with an SSE within the requested ratio of the lowest recorded. The columns returned are the SSE and the named parameters in the order asked for.",
  ["inputs", "histories"],
  "every roster and every combination of restrictions",
  "Tests ask for one or two combinations on one roster.",
  [HIS],
  [("selection", "ade/history.py Analysis.value_vs_SSE, Kf12, Kp12, K_maxRatio")])

p("C35", "A worse-than-random start: the optimiser converges to the global optimum",
  "Given enough generations the best individual approaches the global minimum of the evaluation function within the bounds.",
  ["inputs", "configurations"],
  "every evaluation function",
  "Tests look at three benchmark functions.",
  [DE, POP],
  [("the algorithm", "ade/de.py DifferentialEvolution")])

p("C36", "Initial individuals are spread as a Latin hypercube",
  "Unless uniform sampling is asked for, the initial vectors before constraint filtering hit each of the equal-width intervals of every parameter exactly once.",
  ["inputs"],
  "every number of parameters and population size",
  "Tests only check the spread roughly.",
  [POP],
  [("sampling", "ade/population.py Population.setup")])

p("C37", "The record dropped from a full history is the most redundant one",
  "When a record has to be dropped it is one of the two whose scaled distance (weighted by SSE and membership) is the smallest among the examined pairs.",
  ["inputs", "histories"],
  "every roster",
  "Tests compare with hand-computed distances for one small array.",
  [HIS],
  [("pair finder", "ade/history.py ClosestPairFinder.calcerator")])

p("C38", "Evaluations keep all workers busy",
  "While there are at least as many pending challenges as workers, no worker is idle because of lock contention for longer than one evaluation.",
  ["schedules"],
  "every distribution of evaluation times",
  "Timing is not tested.",
  [DE, POP],
  [("locks per slot", "ade/population.py Population.lock")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
print(len(P))
