"""Registry: which harness binaries decide which property."""


def H(name, variant="asan", extra=(), **kw):
    return dict(name=name, variant=variant, src=["harness/%s.cpp" % name, "lib/mc.cpp"] + list(extra), **kw)


def S(name, **kw):
    return dict(name=name, variant="sched", src=["harness/%s.cpp" % name, "lib/mc.cpp", "lib/sched.cpp"], **kw)


SCHED = "stateless model checking of the real code: a controlled scheduler enumerates all thread interleavings within a preemption bound, with a vector-clock data-race detector and a sequential oracle"
ENUM = "explicit enumeration of all inputs/operation sequences within the bound, executed on the real code (ASan build), compared step by step with a reference model"
NOT_APPLICABLE = {}

CHECKS = {
    "C01": dict(bins=[S("c01_pool", lib="^dal/concurrency/")], technique=SCHED, note="Sequentially consistent interleavings at every lock, condition variable, future, thread and atomic operation; hardware concurrency fixed at 4."),
    "C02": dict(bins=[S("c02_queue", lib="^$")], technique=SCHED, note="Linearizability against a sequential queue on every explored interleaving."),
    "C03": dict(bins=[H("c03_sim"), S("c03_sched")], technique=SCHED + "; plus explicit enumeration of configurations and histories on the ASan build", note="Oracle: one generator drawn in order, a fresh evaluator and a fresh tape per path, in one thread."),
    "C04": dict(bins=[H("c04_aad", extra=["harness/c04_part%d.cpp" % k for k in range(6)])], technique=ENUM, note="Oracle: forward-mode dual numbers and plain doubles. Points where the derivative does not exist (ties of max/min, |0|) are outside the property."),
    "C05": dict(bins=[H("c05_tape")], technique=ENUM, note="The real block list is instantiated with block sizes 1..5 and the real tape is driven across its own block boundaries."),
    "C06": dict(bins=[H("c06_script")], technique=ENUM, note="The reference meaning is an interpreter of the abstract syntax the text was printed from; derivatives by forward-mode numbers."),
    "C07": dict(bins=[H("c07_fuzzy")], technique=ENUM, note="Sharp results from the reference meaning of C06; branch weights are measured on single conditions and checked for range, monotonicity and continuity, then every nest of branches must be their weighted average."),
    "C08": dict(bins=[H("c08_parser")], technique=ENUM, note="An independent recogniser of the grammar decides which texts are scripts; what an accepted text was understood as is read from the library's printed form. Printed numbers have six decimals, compared to that precision."),
    "C09": dict(bins=[H("c09_product")], technique=ENUM, note="The reference expands tables by whole words and splits them at the evaluation date; schedule dates come from MakeSchedule, which C12 checks."),
    "C10": dict(bins=[H("c10_dates")], technique=ENUM,
                note="Exhaustive over every supported date and every second of the day; month offsets -60..60 (quick) or the whole range (thorough). Trusts the reference civil-calendar tables in the harness."),
    "C11": dict(bins=[H("c11_holidays")], technique=ENUM, note="All calendars over a 9-day window, pairs and triples of them, shipped calendars over 26 years; naive day-by-day oracle."),
    "C12": dict(bins=[H("c12_schedules")], technique=ENUM, note="Every date of more than three years x every increment; all start/end pairs of a window; naive day-by-day oracle."),
    "C13": dict(bins=[H("c13_daybasis")], technique=ENUM, note="All ordered pairs in windows covering leap, common and century years; oracle written from the conventions' definitions."),
    "C14": dict(bins=[H("c14_json")], technique=ENUM, note="Oracle: a description of everything that can be observed of an object (public members, evaluations, and what it asks an archive to store) before and after. Times are stored to the second, the documented resolution."),
    "C15": dict(bins=[H("c15_splat")], technique=ENUM, note="Same objects and description as C14. A sheet does not show blank cells at the end of a row, so these are not compared; a file cannot hold line breaks, so such texts must be refused."),
    "C16": dict(bins=[H("c16_repo"), S("c16_sched")], technique=ENUM + "; plus all interleavings of two clients under a controlled scheduler", note="Oracle: a list of tag/object pairs; linearizability of concurrent histories against it. Objects stay alive during a history, so tags are unique."),
    "C17": dict(bins=[H("c17_globals"), S("c17_sched")], technique=ENUM + "; plus all interleavings of two clients under a controlled scheduler", note="Oracle: a stack of saved values, a list of decorations, a map of fixings. Overrides are closed innermost first; assigning to an override that is still open is outside the property."),
    "C18": dict(bins=[H("c18_cells")], technique=ENUM, note="Oracle: tagged values with the documented conversions; number grammars as regular expressions; the names in the enumerations' headers."),
    "C19": dict(bins=[H("c19_random")], technique=ENUM, note="Reference recurrences in integer arithmetic; the bridge's linear map is extracted exactly with unit-vector inputs."),
    "C20": dict(bins=[H("c20_linalg")], technique=ENUM, note="Oracle: exact integer products and determinants (Bareiss); a solution must multiply back. A decomposition may reject matrices it does not support, never solve a singular one; positive definite (band, dense) and regular-minor (tridiagonal) matrices must be solved."),
    "C21": dict(bins=[H("c21_containers")], technique=ENUM, note="Oracle: plain vectors and maps of coordinates; memory errors by ASan. What a moved-from container holds is only required to be a valid container."),
    "C22": dict(bins=[H("c22_rootfind")], technique=ENUM, note="The caller's function is the environment: every answer sequence of the stated depth over an adversarial alphabet, so every function restricted to the points asked. Oracle: the evaluated points themselves (some pair with a sign change as wide as reported, containing the next point). Function values whose products underflow (below 1e-154) are outside the bounds."),
    "C23": dict(bins=[H("c23_curves")], technique=ENUM, note="Oracle: the piecewise definitions written out independently; cubics are reconstructed from four values per interval and checked for continuity and boundary conditions."),
    "C24": dict(bins=[H("c24_options")], technique=ENUM, note="Oracle: payoff expectations integrated numerically and closed forms in extended precision; derivatives by fourth-order differences of those. Implied volatilities are compared with the originating volatility only where the rounded price still determines it; prices always have to be reproduced."),
    "C25": dict(bins=[H("c25_models")], technique=ENUM, note="Oracle: the step-by-step recurrences in extended precision over a timeline built independently; derivatives by differences of it, where a kink of the interpolated volatility allows either one-sided slope."),
    "C27": dict(bins=[H("c27_pde")], technique=ENUM, note="Oracle: three-point parabola weights, a dense theta step solved with pivoting in extended precision, and the stretched coordinate of the meshes. End values are held by the solver (the caller sets them)."),
    "C28": dict(bins=[H("c28_indices")], technique=ENUM, note="Oracle: a recogniser of the documented forms, a map of fixings, and the definitions of the path quantities over the stored fixings a whole number of intervals after the start. Interest-rate indices have names but no parser. Blanks inside dates, increments and currencies may be accepted or not."),
    "C29": dict(bins=[H("c29_conventions")], technique=ENUM, note="Oracle: day-by-day stepping over explicit holiday patterns, the last value written, maps of latest dates; day-count values come from the day counts C13 checks."),
    "C30": dict(bins=[H("c30_utilities"), S("c30_sched")], technique=ENUM + "; plus all interleavings of two threads raising errors under a controlled scheduler", note="Oracle: the list of open notes, a multimap of reports, element-by-element definitions, the vanishing gradient of the smoothing objective. An auditor that is not reading refuses reports."),
    "C31": dict(bins=[H("c31_public")], technique=ENUM, note="Oracle: the plain average of C03 over the same paths, closed forms at zero volatility, successive draws of the generators, sets of live objects."),
    "C26": dict(bins=[H("c26_domain")], technique=ENUM, note="Ranges are closed intervals; membership is tested at a grid of points that includes every bound, points between and beyond them, huge and tiny values. Undefined (NaN) results are outside the property."),
}
