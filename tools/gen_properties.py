#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Thread pool runs every task exactly once and never hangs",
     "Every task handed to the thread pool runs exactly once and its completion handle becomes ready with the task's result or exception (a task not yet begun when the pool is stopped is dropped and its handle reports that); waiting on handles, helping or blocking, always terminates. "
     "Stopping, restarting or resizing the pool always returns, leaves no worker running and leaves a pool that runs new tasks; tasks running at the same time on different threads never see the same worker number (one outside thread helping), and worker numbers are below the reported number of threads. "
     "No schedule lets two threads access shared pool state without synchronisation.",
     ["schedules", "histories"], "every interleaving of 2-4 threads (preemption bound stated in the evidence) of short submit/wait/stop/restart histories",
     "The tests run the pool under whatever schedule the OS picks; lost wake-ups, double execution and shutdown races need particular interleavings of push, pop, wait and stop.",
     ["dal/concurrency/threadpool.hpp", "dal/concurrency/threadpool.cpp", "dal/concurrency/concurrentqueue.hpp"],
     [("task queue + worker loop", "dal/concurrency/threadpool.cpp ThreadFunc/Start/Stop/ActiveWait")], ["task side effects", "future readiness", "return of Start/Stop/ActiveWait"])
prop("C02", "Concurrent queue is a linearizable FIFO with reliable interruption",
     "Under every interleaving the concurrent queue behaves like a sequential first-in-first-out queue: each element pushed is delivered to exactly one popper, in push order, and non-blocking pop and emptiness checks agree with the queue's contents. "
     "A blocked pop returns as soon as there is an element for it or the queue is interrupted; after interruption every blocked and later pop returns without an element until the interruption is reset, and no access to the queue is a data race.",
     ["schedules", "histories"], "all interleavings (preemption bounded) of 2-3 threads doing 1-3 queue operations each, all sequential operation sequences to a depth",
     "There is no test that runs two threads against one queue under a chosen schedule.",
     ["dal/concurrency/concurrentqueue.hpp"], [("mutex + condition variable", "dal/concurrency/concurrentqueue.hpp Push/Pop/TryPop/Interrupt")])
prop("C03", "Simulation results are independent of threads, scheduling and history",
     "For a fixed product, model, path count and generator, the simulated value and every reported risk are the same (to rounding) for any number of worker threads, any assignment of batches to threads, and any earlier simulations in the process, and equal the plain one-thread average over the same paths. "
     "An error raised while simulating any batch is reported to the caller instead of being folded into the result.",
     ["schedules", "configurations", "histories"], "all batch-to-thread assignments reachable under the scheduler, thread counts 1-4, path counts around the batch boundaries, engine x generator x bridge combinations, sequences of two simulations",
     "Tests compare one simulation with loose statistical tolerances under one thread count; overlap or loss of paths between batches and stale per-thread state stay inside those tolerances.",
     ["dal/script/simulation.hpp", "dal/concurrency/threadpool.cpp", "dal/math/random/pseudorandom.cpp", "dal/math/aad/tape.cpp"],
     [("per-task random stream positioning", "dal/script/simulation.hpp MCSimulation"), ("per-thread tapes and evaluators", "dal/script/simulation.hpp")])
prop("C04", "Adjoint derivatives equal the true derivatives of every computation",
     "For every program built from the differentiable number type's operators and functions (including mixed constant operands, assignments, self-references and reused sub-results), values equal the same program on plain doubles and the propagated adjoint of each input equals the exact derivative of the output wherever it exists. "
     "Seeding, several outputs, multi-output mode and derivatives accumulated over several propagations follow the same rule.",
     ["programs", "inputs"], "all expression programs up to a size over all operators, operand kinds and a grid of input values",
     "Tests differentiate a handful of formulas at one point; a wrong partial for one operand order, one constant position or one shared sub-expression is not exercised.",
     ["dal/math/aad/expr.hpp", "dal/math/aad/node.hpp", "dal/math/aad/tape.hpp", "dal/math/aad/sample.hpp", "dal/math/aad/aad.hpp"],
     [("expression templates recording partials", "dal/math/aad/expr.hpp"), ("reverse sweep", "dal/math/aad/expr.hpp Propagate*")])
prop("C05", "Tape histories never corrupt recorded computations",
     "Whatever the sequence of recording, marking, rewinding to the mark, full rewinding, clearing and adjoint resetting, and however the recordings fall on memory-block boundaries, what is on the tape is exactly the operations recorded since the position rewound to, in order. "
     "Derivatives computed after any such history equal those computed on a fresh tape, and every iteration and reset visits each recorded entry exactly once; rewinding makes the memory available again.",
     ["histories"], "all operation sequences up to a depth with recording lengths that hit and straddle block boundaries",
     "Tests record far fewer entries than a block and use mark and rewind in one fixed order.",
     ["dal/math/aad/blocklist.hpp", "dal/math/aad/tape.hpp", "dal/math/aad/tape.cpp"], [("block list with mark", "dal/math/aad/blocklist.hpp"), ("tape", "dal/math/aad/tape.cpp")])
prop("C06", "Every script engine computes the meaning of the script",
     "For every well-formed script and every scenario, the interpreted, the pre-processed and the compiled evaluation, on plain and on differentiable numbers, give every variable and payoff the value the script's text denotes (arithmetic precedence and associativity, comparison and logic, assignment, branches, aggregated discounted payments). "
     "Evaluation of one path leaves nothing behind that changes the next one.",
     ["programs", "inputs", "histories"], "all scripts of the event grammar up to a size, on grids of scenario values chosen to hit every branch and tie, evaluated repeatedly and through every engine",
     "Tests value a few products; a constant-folding, peephole or nested-branch error in one engine needs a particular expression shape.",
     ["dal/script/parser.cpp", "dal/script/visitor/evaluator.hpp", "dal/script/visitor/compiler.hpp", "dal/script/visitor/constprocessor.hpp", "dal/script/visitor/constcondprocessor.hpp", "dal/script/visitor/domainproc.hpp", "dal/script/visitor/ifprocessor.hpp", "dal/script/visitor/varindexer.hpp", "dal/script/event.cpp"],
     [("tree interpreter", "dal/script/visitor/evaluator.hpp"), ("stream compiler and interpreter", "dal/script/visitor/compiler.hpp"), ("static analysis", "dal/script/visitor/domainproc.hpp")])
prop("C07", "Smoothed evaluation agrees with sharp evaluation away from discontinuities",
     "Smoothed (fuzzy) evaluation of any script gives exactly the sharp result whenever every tested quantity is further from its threshold than half the smoothing width, for every comparison and logical connective. "
     "Within the smoothing band the result of a branch is a weighted average of the results of its two branches with weight between 0 and 1, continuous and monotone in the tested quantity; logical connectives combine weights as independent probabilities.",
     ["programs", "inputs"], "all conditions up to a size over all comparison and logical operators and branch shapes, on grids inside, at the edge of and outside the band",
     "Tests smooth one barrier product; negated, equality and nested conditions and band edges are not reached.",
     ["dal/script/visitor/fuzzy.hpp", "dal/script/visitor/domainproc.hpp", "dal/script/visitor/ifprocessor.hpp"], [("fuzzy evaluator", "dal/script/visitor/fuzzy.hpp")])
prop("C08", "Script text is either understood in full or rejected",
     "For any event text, parsing either produces a script that uses every token with its documented meaning or raises an error; it never crashes, hangs, reads past the text, or silently ignores part of it. "
     "Case and spacing do not matter, and the printed form of a parsed script describes the same script.",
     ["inputs"], "all token sequences up to a length over the whole token alphabet; all texts of the grammar up to a size",
     "Tests feed well-formed scripts and three malformed ones.",
     ["dal/script/parser.cpp", "dal/script/parser.hpp", "dal/script/visitor/debugger.hpp"], [("tokenizer and recursive descent parser", "dal/script/parser.cpp")])
prop("C09", "Products schedule, macro and past/future splits keep the contract",
     "However a product's event table is written (macros, generated schedules, several rows per date, rows in any order), it means the same as the fully expanded table: the same future event dates in order, each event's statements executed once in table order on its own date with its own fixing. "
     "Events before the evaluation date set the initial state exactly once, future ones are simulated, and pre-processing, copying or storing the product does not change its value.",
     ["inputs", "configurations", "histories"], "all small event tables over dates, macros and schedule rows x evaluation dates x preprocessing orders",
     "Tests use a single table per feature and never move the evaluation date across every event.",
     ["dal/script/event.cpp", "dal/script/event.hpp", "dal/script/event/schedule.cpp", "dal/script/visitor/pastevaluator.hpp"], [("event table expansion", "dal/script/event.cpp"), ("schedule rows", "dal/script/event/schedule.cpp")])
prop("C10", "Calendar arithmetic is exact over the whole supported date range",
     "Every supported date has one serial, one year/month/day, one weekday and one text form, and conversions between them invert each other; adding days or months, end of month, month lengths, ordering and differences agree with the Gregorian calendar. "
     "Times of day are exact to the second (milliseconds where stated), print and read back unchanged, and text that is not a date or time is rejected.",
     ["inputs"], "every supported date (1970-01-01 to 2149-05-22), every month offset in a range, every second of the day, all short strings",
     "Tests sample about a dozen dates; formula errors show up in particular years, month ends or seconds.",
     ["dal/time/date.cpp", "dal/time/date.hpp", "dal/time/dateutils.cpp", "dal/time/datetime.cpp", "dal/time/datetimeutils.cpp"], [("serial/ymd formulas", "dal/time/date.cpp"), ("fraction of day", "dal/time/datetime.cpp")])
prop("C11", "Business-day logic follows the calendars' definition on every date",
     "A date is a business day exactly when it is a working weekend day of one of the named centers or a weekday that is a holiday in none of them; next/previous business day return the nearest such date and business-day counts equal the number of business days in the half-open interval. "
     "This holds for every calendar and combination of calendars, whatever was queried before, and ill-formed or duplicate calendars are rejected leaving the existing ones unchanged.",
     ["inputs", "histories", "schedules"], "all small holiday/working-weekend sets over several weeks, all date pairs, all combinations of up to three centers, query histories, concurrent registration and lookup",
     "Tests ask for a few dates of the shipped calendar.",
     ["dal/time/holidays.cpp", "dal/time/holidaydata.cpp", "dal/time/calendars/china.hpp"], [("combined calendars cache", "dal/time/holidays.cpp"), ("copy-on-write calendar data", "dal/time/holidaydata.cpp")])
prop("C12", "Date increments and schedules step exactly, in order and terminate",
     "Each increment moves strictly in its direction to the date its name denotes (days, business days, weeks, months, years with optional calendar adjustment; next or previous quarterly/monthly IMM, CDS or month-end date), and compound increments apply their parts in sequence. "
     "A generated schedule is strictly increasing, starts and ends at the given dates (after adjustment), has every interior date one step from its neighbour, adjusts every date by the stated convention, and always terminates or is rejected.",
     ["inputs"], "every date of several years x every increment; all start/end pairs in a window x tenors x generation rule x convention",
     "Tests step from a few dates with few tenors.",
     ["dal/time/dateincrement.cpp", "dal/time/schedules.cpp", "dal/time/periodlength.cpp"], [("special days", "dal/time/dateincrement.cpp ToIMM/ToCDS"), ("schedule loop", "dal/time/schedules.cpp")])
prop("C13", "Day-count fractions follow their conventions for all date pairs",
     "For every ordered pair of dates each day-count basis returns the fraction its convention defines: actual days over 360 or 365, actual/actual by calendar year, actual/365L by the leap rule, and 30/360 bond basis. "
     "Actual/actual is additive over any split of the period, and every basis returns zero for an empty period, without hanging for any dates.",
     ["inputs"], "all pairs of dates in windows covering leap and non-leap years, month ends and year ends",
     "Tests check one pair per basis.",
     ["dal/time/daybasis.cpp"], [("basis formulas", "dal/time/daybasis.cpp")])
prop("C14", "Stored objects read back from JSON identical",
     "Every storable object (yield and volatility data, models, interpolators, random-source descriptions, fixings, products, boxes, bags, reports, controls) written as JSON text and read back is equal in every observable respect, for all contents: any characters in names, any numbers at full precision, empty collections, dates, times to the second, and shared or nested objects. "
     "Text that is not a valid stored object is rejected with an error and never crashes, and a file that cannot be written or read is reported.",
     ["inputs", "histories"], "all storable types x all small contents from an adversarial alphabet of values; all truncations and single-character mutations of stored texts",
     "Tests round-trip a few objects with plain names and short decimals.",
     ["dal/storage/json.cpp", "dal/storage/archive.cpp", "dal/auto"], [("JSON writer and reader", "dal/storage/json.cpp"), ("generated readers/writers", "dal/auto/*.inc")])
prop("C15", "Stored objects read back from spreadsheet tables identical",
     "Every storable object laid out as a table of cells, in memory or in a comma-separated file, and read back is equal in every observable respect (up to blank cells at the end of a row, which a sheet cannot show), including shared and nested objects, empty or ragged collections, texts with separators or quotes and cells of every type; a text with a line break, which a file cannot hold, is refused with an error. "
     "A table that is not a stored object is rejected with an error and never crashes.",
     ["inputs"], "all storable types x all small contents; all single-cell corruptions and row/column truncations of stored tables",
     "Tests round-trip a few objects.",
     ["dal/storage/splat.cpp", "dal/storage/archive.cpp"], [("table writer and reader", "dal/storage/splat.cpp")])
prop("C16", "Object repository behaves as a map of live handles for all histories",
     "After any sequence of adding (with any overwrite rule), fetching, searching and erasing, the repository holds exactly the objects a simple tagged map would hold; a tag returned for an object keeps fetching that very object until it is erased, and never another one. "
     "Overwrite rules erase exactly the objects they name and nothing else, and unknown or ambiguous requests raise errors without changing the repository.",
     ["histories", "schedules"], "all operation sequences up to a depth over objects with colliding, nested-prefix, empty and same-type names and all overwrite rules",
     "Tests add and fetch a couple of objects.",
     ["dal/storage/_repository.cpp", "dal/storage/_repository.hpp", "public/src/repository.cpp"], [("tagged object map", "dal/storage/_repository.cpp")])
prop("C17", "Global dates and overrides nest and restore exactly",
     "After any sequence of setting global dates and of opening, nesting, moving and closing scoped overrides, the value read equals that of a stack model: an override is visible while open and closing it restores precisely what was there before. "
     "Environment lookups see decorations innermost first and only while they are in scope, stored fixings are read back exactly for the date-time asked, and concurrent readers and writers never see a torn or freed value.",
     ["histories", "schedules"], "all set/override/close/move sequences to a depth; all interleavings of small reader/writer programs",
     "Tests set one date once.",
     ["dal/storage/globals.cpp", "dal/storage/globals.hpp", "dal/utilities/environment.hpp", "dal/indice/fixings.cpp"], [("scoped override", "dal/storage/globals.hpp"), ("environment decoration", "dal/utilities/environment.hpp")])
prop("C18", "Cells, strings and dictionaries convert without loss or confusion",
     "A cell holds exactly the type and value put in it through any sequence of copies and assignments, conversions out of it succeed exactly for the documented source types and return the value, and wrong types are rejected. "
     "Number/text/boolean/enumeration conversions invert each other, case-insensitive comparison, ordering and lookup agree, every documented name of an enumeration value (and no other text) stands for that value, and a dictionary printed and read back has the same keys and values, or is refused when a text contains a separator.",
     ["inputs", "histories"], "all cell kinds x all conversions x adversarial values; all short strings over an adversarial alphabet; all enumeration names",
     "Tests convert typical values.",
     ["dal/math/cell.cpp", "dal/math/cell.hpp", "dal/math/cellutils.cpp", "dal/string/strings.cpp", "dal/string/stringutils.cpp", "dal/utilities/dictionary.cpp"], [("tagged union", "dal/math/cell.hpp"), ("dictionary text form", "dal/utilities/dictionary.cpp")])
prop("C19", "Random streams are reproducible, skippable and correctly distributed over time",
     "For every generator and seed and each kind of draw (uniform or normal), position n is the same whether reached by drawing n times or by skipping, in any order of skips and draws; a clone continues exactly as its source and independently of it; numbers lie in the open unit interval and normals are their inverse-normal image. "
     "A Brownian bridge turns independent normals into increments that are again independent with unit variance, for every number of steps.",
     ["histories", "configurations"], "all draw/skip/clone sequences to a depth x dimensions x generators; bridge sizes 1-64 (the whole linear map is checked)",
     "Tests check moments of long runs.",
     ["dal/math/random/pseudorandom.cpp", "dal/math/random/brownianbridge.cpp"], [("generator recurrences and jump-ahead", "dal/math/random/pseudorandom.cpp"), ("bridge weights", "dal/math/random/brownianbridge.cpp")])
prop("C20", "Matrix solves and multiplications are consistent for every structure",
     "For every dense symmetric, triangular, diagonal, tridiagonal and banded matrix supported, multiplication equals the dense product, a solve multiplied back gives the right-hand side from the left and from the right, decompositions reproduce the matrix, and quadratic forms match their definition. "
     "Iterative solvers return a solution of any regular system to the requested tolerance or report failure, and for definite matrices succeed from every starting point, including the exact solution; the direct triangular, tridiagonal and banded solvers reject singular matrices rather than solve them.",
     ["inputs", "configurations"], "all matrices of small sizes with entries from a small set for every structure and band shape",
     "Tests solve a few matrices of one shape.",
     ["dal/math/matrix/banded.cpp", "dal/math/matrix/bcg.cpp", "dal/math/matrix/cholesky.cpp", "dal/math/matrix/decompositions.cpp", "dal/math/matrix/decompositionsmisc.cpp", "dal/math/matrix/matrixarithmetic.cpp", "dal/math/matrix/matrixutils.cpp", "dal/math/matrix/sparse.cpp"],
     [("decompositions", "dal/math/matrix/*.cpp")])
prop("C21", "Containers keep their contents through every sequence of operations",
     "Matrices, square matrices, multi-dimensional arrays, vectors and fixed stacks behave as the mathematical container of the same shape after any sequence of construction, copying, moving, swapping, resizing, filling and element or row/column access: kept elements keep their values and nothing outside is read or written. "
     "Report tables return for every coordinate exactly the value stored there, and formatted tables lay out their arguments as the format says.",
     ["histories"], "all operation sequences to a depth over small shapes, against plain nested vectors",
     "Tests build one container per feature.",
     ["dal/math/matrix/matrixs.hpp", "dal/math/matrix/squarematrix.hpp", "dal/math/ndarray.hpp", "dal/math/ndarray.cpp", "dal/math/vectors.hpp", "dal/math/stacks.hpp", "dal/risk/report.cpp"],
     [("row index and storage", "dal/math/matrix/matrixs.hpp"), ("strides", "dal/math/ndarray.hpp")])
prop("C22", "Root search keeps its bracket and converges for every answer sequence",
     "For every sequence of function values the caller returns, the root searches ask for points inside the bracket once a sign change is known, keep a bracket that contains a sign change, never widen it, and reach the requested width in a bounded number of steps for every continuous function. "
     "The calibration solver returns a point satisfying its constraints to tolerance or reports failure; for linear constraints it is the point nearest to the guess in the given weights, and mildly curved ones are solved.",
     ["histories", "inputs"], "all answer sequences to a depth over a small set of function values; all functions from an adversarial family",
     "Tests find roots of two smooth functions.",
     ["dal/math/rootfind.cpp", "dal/math/optimization/underdetermined.cpp"], [("Brent step selection", "dal/math/rootfind.cpp")])
prop("C23", "Interpolation and curves reproduce their data everywhere",
     "Linear, bilinear and cubic interpolation pass through every node, stay continuous, extrapolate flat (linear) or by the end piece (cubic) and agree with the piecewise definition between nodes, with the right slopes on differentiable numbers; smoothing minimises its penalised misfit; piecewise-constant and piecewise-linear functions integrate to the exact area and discount curves multiply along any chain of dates and start at one. "
     "Decreasing (linear) or not strictly increasing (cubic, curves) nodes, missing nodes and mismatched sizes are rejected.",
     ["inputs"], "all node sets up to 6 points on a small grid with values from a small set, evaluated on a fine grid including nodes and both outsides",
     "Tests evaluate a few points of one data set.",
     ["dal/math/interp/interp.hpp", "dal/math/interp/interp.cpp", "dal/math/interp/interp2d.hpp", "dal/math/interp/interp2d.cpp", "dal/math/interp/interpcubic.cpp", "dal/curve/piecewiseconstant.cpp", "dal/curve/piecewiselinear.cpp", "dal/curve/ycimp.cpp"],
     [("interpolators", "dal/math/interp"), ("curves", "dal/curve")])
prop("C24", "Option formulas satisfy no-arbitrage identities and invert",
     "Black and Bachelier prices equal the expectation they stand for at every forward, strike, volatility and option type: intrinsic bounds, put-call parity, monotonicity, convexity and the zero-volatility limit; quoted sensitivities equal derivatives of the price. "
     "An implied volatility fed back gives the price it was implied from, normal distribution functions invert each other and are monotone, and inputs with no solution are rejected.",
     ["inputs"], "full grids of forward x strike x volatility x type including extremes",
     "Tests check a few at- and near-the-money values.",
     ["dal/math/distribution/black.hpp", "dal/math/distribution/black.cpp", "dal/math/analytics/vanilla.hpp", "dal/math/specialfunctions.cpp"], [("closed forms", "dal/math/distribution/black.hpp")])
prop("C25", "Model paths obey their dynamics for every draw and timeline",
     "For every timeline, parameter set and draw of normals, simulated Black-Scholes and local-volatility paths equal the recurrence the model defines step by step: spots on each sample date, discount factors, forwards and the measure's numeraire as requested by the product. "
     "The same path on differentiable numbers has the same values, its parameter derivatives equal the derivatives of that recurrence, and a cloned model behaves as its source and independently of it.",
     ["inputs", "configurations", "histories"], "all timelines of up to 4 dates with/without the evaluation date, data requests, parameter grids and draw grids",
     "Tests compare simulated averages to closed forms with wide tolerances.",
     ["dal/model/blackscholes.hpp", "dal/model/dupire.hpp", "dal/model/base.hpp", "dal/model/utilities.hpp", "dal/model/ivs.hpp"], [("path generation", "dal/model/*.hpp")])
prop("C26", "Script value ranges used by static analysis always contain the values",
     "The value ranges computed for script variables and conditions contain every value the script can give them on any scenario; set operations on ranges (union, intersection, sum, product, minimum, maximum, comparison, constant tests) are sound for every combination of points, open, closed and infinite intervals. "
     "A condition reported as always true or always false is so on every scenario.",
     ["inputs", "programs"], "all domains with up to two intervals over a small set of bounds x all operations; all small scripts",
     "Tests check a handful of intervals.",
     ["dal/script/visitor/domain.hpp", "dal/script/visitor/domainproc.hpp"], [("interval arithmetic", "dal/script/visitor/domain.hpp"), ("domain processor", "dal/script/visitor/domainproc.hpp")])
prop("C27", "Finite-difference solver reproduces its scheme on every mesh",
     "Meshes start and end at the requested bounds, are strictly increasing and concentrate around the requested point; difference operators are exact for polynomials up to their order on any mesh, and rolling back applies exactly the theta scheme, with the end values held, so that linear payoffs without drift are unchanged and discounting is exact; coordinate maps invert each other, and meshes of fewer than two points or coefficients of another size are rejected.",
     ["inputs", "configurations"], "all small meshes, theta values, step counts and boundary wind modes",
     "Tests price one option on one mesh.",
     ["dal/math/pde/fd1d.cpp", "dal/math/pde/finitedifference.cpp", "dal/math/pde/pde.cpp", "dal/math/pde/meshers"], [("theta scheme", "dal/math/pde/fd1d.cpp"), ("difference operators", "dal/math/pde/finitedifference.cpp")])
prop("C28", "Index names, fixings and path lookups identify the right observation",
     "Every equity and FX index name parses to the index that prints it, different indices (interest-rate ones included) have different names, malformed names are rejected; an index observed on or before the evaluation time returns exactly the stored fixing for its own name and date-time and missing fixings raise an error or a missing value as asked. "
     "Historical path quantities (collared value and extremes, range probabilities with ramps) equal their definition on the stored fixings that lie a whole number of monitoring intervals after the start and before the end. FX indices fall back to the inverse of the opposite fixing.",
     ["inputs", "histories"], "all short index names over an adversarial alphabet, all small fixing histories",
     "Tests parse a few well-formed names.",
     ["dal/indice/index.cpp", "dal/indice/indexparse.cpp", "dal/indice/indexpath.cpp", "dal/indice/parser", "dal/indice/index", "dal/indice/fixings.cpp"], [("index parsers registry", "dal/indice/indexparse.cpp")])
prop("C29", "Conventions, periods and deal descriptions hold what was said of each term",
     "A convention of a currency is the value last written for it, otherwise the last default, otherwise refused, and writing one convention or currency never changes another; Libor start and fixing dates count exactly the fixing lag in business days of the currency's calendar and are inverse on business days; a traded rate's period and clearer identify it; nominal maturities keep the day of the month or take its last day. "
     "An accrual period's fraction is its day count's between its dates and context and payments keep their terms; a description of underlyings holds the latest date of every currency, index and credit included, in whatever order descriptions are built and merged.",
     ["inputs", "histories"], "all holiday patterns over a window, all short sequences of writes and inclusions, all dates of years",
     "Tests write one fact and include one underlying.",
     ["dal/protocol/conventions.cpp", "dal/protocol/couponrate.cpp", "dal/protocol/accrualperiod.cpp", "dal/protocol/underlying.cpp", "dal/protocol/payment.cpp", "dal/protocol/assetvalue.hpp", "dal/currency/currencydata.cpp", "dal/currency/init.cpp", "dal/time/periodlength.cpp"], [("currency facts", "dal/currency/currencydata.cpp"), ("Libor dates", "dal/protocol/conventions.cpp")])
prop("C30", "Errors tell their context, audits replay, and utilities compute their definition",
     "An error shows exactly the notes that are open in its own thread when it is raised, outermost first with their current values, however scopes were left before, and leaves none behind; an auditor hands back exactly what was reported to it while reading (the last report of a key when exclusive), nothing when not asked to show, and refuses conflicting recollections. "
     "Collection helpers, statistics and integer conversions equal their element-wise definitions and reject mismatched sizes and values out of range; smoothed values minimise the penalised distance to the data; text files read back the lines written.",
     ["inputs", "histories", "interleavings"], "all nests of notes, scope exits and throws up to a depth, all interleavings of two threads, all short report sequences, all small vectors and meshes",
     "Tests raise single errors and transform single vectors.",
     ["dal/utilities/exceptions.cpp", "dal/utilities/exceptions.hpp", "dal/storage/audit.cpp", "dal/storage/audit.hpp", "dal/utilities/algorithms.hpp", "dal/utilities/numerics.hpp", "dal/utilities/numerics.cpp", "dal/utilities/maps.hpp", "dal/utilities/file.cpp", "dal/math/smooth.cpp"], [("note stack", "dal/utilities/exceptions.cpp"), ("auditor", "dal/storage/audit.cpp")])

prop("C31", "Public interface returns the simulation's meaning under the right names",
     "Valuing a product by simulation through the public interface returns, under PV, the average of its payoff over exactly the requested number of paths and, when risks are asked for, under d_ and each parameter's and constant's name the derivative of that average to that very input; with no volatility these equal the closed forms of spot, rate, dividend and strike, so that public constructors pass every argument to its own place. "
     "A valuation never depends on earlier valuations, failures, prints or evaluation dates; unknown models and generators, broken scripts, mismatched tables and path counts that are not positive are refused; statements in the past count. Generator rows are the successive points however they are asked for, and repository counts and lists match the live objects.",
     ["inputs", "histories", "configurations"], "all products, models, generators and path counts of a grid, all short histories of public calls on shared handles",
     "No test goes through the public interface.",
     ["public/src/value.cpp", "public/src/models.hpp", "public/src/random.hpp", "public/src/script.hpp", "public/src/repository.cpp", "public/src/globals.cpp", "public/src/interp.cpp", "dal/script/simulation.hpp"], [("valuation", "public/src/value.cpp"), ("generator rows", "public/src/random.hpp")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
