#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = "pyslope/pyslope.py"; U = "pyslope/utilities.py"; D = "pyslope/data_validation.py"
V = "slope/views.py"; F = "slope/forms.py"; M = "slope/models.py"
OUT = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    OUT.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Editing the model discards earlier analysis results",
  "After any call that changes the slope geometry, materials, loads, water table or water option, analysis options, search limits or individually added planes, nothing computed for the earlier model is reported any more: minimum factor of safety, critical circle, end points and failure-plane plots are unavailable until the slope is analysed again. Nothing remembered from an earlier analysis influences a later one.",
  ["histories", "inputs"], "every public editing method, every path through it that changes the model, in every history of edits and analyses",
  "Tests edit and re-analyse in a handful of orders; a stale result needs an edit-then-query order no test performs.",
  [P], [("_reset_results called by every editing method", P), ("analyse_slope replaces the result list", P)],
  [("_search", "planes of the last analysis with their FOS", "Slope")], ["get_min_FOS", "get_min_FOS_circle", "get_min_FOS_end_points", "plot_critical", "plot_all_planes"])
p("C02", "Loads, layers and water follow the current geometry",
  "Whatever order a model is built or edited in, uniform and line loads sit at their offset from the current crest, each material layer ends at its depth below the current top of the model, the water table is at its depth below the current top, and the automatic water factor is the squared cosine of the current slope angle.",
  ["histories"], "every public editing method in every order, at every normal exit",
  "Tests build models in one order (materials, loads, then options) and never change the boundary afterwards.",
  [P], [("_update_udl_coordinates / _update_ll_coordinates on boundary change", P), ("reference levels of materials and water", P)],
  [("Udl.left/right, LineLoad.coord, Material.RL, _water_RL, _water_analysis_H", "coordinates derived from the boundary", "Slope")], ["analyse_slope", "plot_boundary"])
p("C03", "A rejected edit leaves the model unchanged",
  "If an editing call raises an error because its input is invalid, the model is exactly as it was before the call: geometry, boundary, materials, loads, water table, limits and options are untouched.",
  ["inputs", "histories"], "every public editing method, every path that ends in an error",
  "No test passes invalid input to an editing method, let alone inspects the model afterwards.",
  [P, D], [("validation before assignment in set_* / update_* / add_*", P)], (), ["all public Slope methods"])
p("C04", "Inputs are accepted exactly within their documented ranges",
  "Invalid input is refused with an error and valid input is accepted: unit weight 1 to 50, friction angle >= 0, slope height > 0, slope angle above 0 up to 90, slope length >= 0, water depth >= 0, boundary minimums > 0, limits >= 0 (left edge) or > 0 (the others), and numbers (not text or None) for cohesion, layer depth, load magnitude and offset. Negative cohesion, layer depth, load magnitude, load offset and load length are taken by absolute value; a load length of 0 or None means continuous; a slope given neither angle nor length, objects that are not materials, duplicate layer depths and limits out of order are refused.",
  ["inputs"], "every parameter of every public constructor and setter, every ordering of the value against its bounds, every type class",
  "The tests only use valid values; every boundary value, sign and type is a separate case.",
  [P, D], [("assert_* validators", D), ("__post_init__ of Material, Udl, LineLoad; set_external_boundary; set_water_table; set_materials; set_analysis_limits; update_boundary_options", P)], (), ["ValueError"])
p("C05", "Analysis options always stay within their limits",
  "After any sequence of calls the number of slices is between 10 and 500, the number of iterations between 500 and 100000, the water factor between 0 and 1, and the minimum failure distance at most 90% of the model length; a value inside its range is stored as given, and an option not given keeps its value.",
  ["histories", "inputs"], "every value passed to the option setters, every history",
  "Tests pass a few in-range values and never read the stored option back.",
  [P], [("clamping in update_analysis_options and update_water_analysis_options", P)],
  [("_slices, _iterations, _water_analysis_H, _min_failure_distance", "analysis options", "Slope")], [])
p("C06", "The slope cross-section is geometrically consistent",
  "For every accepted height, angle and length: the crest is height above the toe and length before it (length = height / tan(angle) when no length is given, never below 0.001 m), crest and toe lie strictly inside the model with equal margins left and right, the model is at least its configured minimum size, and the outline polygon is closed and runs through the corners, crest and toe. Every load accepted on the slope fits between the left edge of the model and the crest, and the model is deepened to hold every layer added; both stay so when the geometry is changed afterwards.",
  ["inputs", "histories"], "all heights, angles, lengths, minimum sizes and load offsets",
  "Tests check three fixed boundary sizes by doctest only.",
  [P], [("set_external_boundary", P), ("set_udls/set_lls enlarge the boundary", P)],
  [("_top_coord, _bot_coord, _external_length, _external_height, _external_boundary, _gradient", "cross-section", "Slope")], ["get_top_coordinates", "get_bottom_coordinates"])
p("C07", "One ground profile is used everywhere",
  "The ground surface is level at crest height up to the crest, falls linearly to the toe, and is level beyond it: looking up the height at an x, the x at a height, and the slice tops used in both factor-of-safety calculations all describe this same profile, the two lookups are inverse on the slope face, and a lookup outside the model returns nothing.",
  ["inputs"], "every x, every y, every slice and every geometry",
  "Tests never call the lookups directly; the profile is written out three times and the copies can diverge.",
  [P], [("get_external_y_intersection, get_external_x_intersection, slice tops in the two analyses", P)], (), ["get_external_y_intersection", "get_external_x_intersection"])
p("C08", "Soil layers are ordered by depth and fill the ground",
  "Materials are kept ordered by depth with no two at the same depth, whatever order they were added or removed in. A slice weighs, per layer, unit weight times the thickness of that layer inside the slice times slice width, where each layer reaches from the bottom of the layer above (the model top for the first) to its own bottom and the last extends downwards without limit; the strength at a slice base is that of the layer containing the base.",
  ["inputs", "histories"], "any set of layers, any slice position, any history of adding and removing materials",
  "Tests use three or four layers on a few circles; a misassigned boundary or a gap moves the result within their 1% tolerance or not at all.",
  [P], [("set_materials sorting and uniqueness check", P), ("_calculate_strip_weights, _get_material_at_depth, material assignment in both analyses", P)],
  [("_materials", "layers ordered top to bottom", "Slope")], [])
p("C09", "Every surface load acts exactly once",
  "In both factor-of-safety calculations a slice carries, on top of its own weight, each uniform load's pressure times the width of the overlap between the slice and the load, and each line load in full if the load's position falls in the slice, left edge included and right edge excluded, so that no load is lost, counted twice or applied outside its extent.",
  ["inputs"], "any loads, any slice edges, including loads exactly on a slice edge",
  "A load on a slice edge or partly over a slice does not occur in the validation examples beyond one instance.",
  [P], [("load loops of _analyse_circular_failure_bishop and _analyse_circular_failure_ordinary", P)], (), [])
p("C10", "The factor of safety follows Bishop's method of slices",
  "For a circle and its two ground intersections, equal-width slices are taken between them; the starting value is the ordinary method's sum of (cohesion x base length + max(0, W cos a - U) tan phi) over sum of W sin a; each iteration is the sum of (cohesion x width + (W - U) tan phi) / (cos a + sin a tan phi / F) over sum of W sin a; the value is returned when it changes by less than the tolerance or the iteration limit is reached. Water pressure on a slice base is 9.81 times the height of water in the slice, reduced by the water factor only on slices between where the water table meets the slope face and the toe.",
  ["inputs"], "all geometries, layers, loads, water tables, circles and slice counts",
  "The validation examples compare about twenty circles within 1%; sign, term and factor errors that vanish there (no water, symmetric load, single layer) pass.",
  [P], [("_analyse_circular_failure_ordinary, _analyse_circular_failure_bishop", P)], (), [])
p("C11", "A factor of safety is a finite non-negative number or absent",
  "Analysing a plane gives either no value or a number that is never negative, infinite or not-a-number: circles that do not cross the ground twice, slices outside the circle, zero or negative driving force and negative resistance give no value, and no division by zero occurs on the way.",
  ["inputs"], "all circles, all accepted materials including frictionless and cohesionless ones, all load and water combinations",
  "Tests only analyse planes with a well-behaved result.",
  [P], [("guards in the two analyses", P), ("None filter in analyse_slope", P)], (), [])
p("C12", "Results are complete, sorted and agree with each other",
  "After an analysis the result list holds every analysed plane that has a factor of safety (and, when a maximum is requested, only those not above it), each with the value computed for its own circle, in ascending order; the minimum, its circle, its end points and the critical plot all describe the first of these. If planes were added individually exactly those are analysed, otherwise the generated search planes.",
  ["inputs", "histories"], "every model and every analysis in a history",
  "Tests never check ordering, the maximum filter or the agreement of the getters.",
  [P], [("analyse_slope filter and sort", P), ("get_min_FOS, get_min_FOS_circle, get_min_FOS_end_points, plot_critical", P)],
  [("_search", "result list", "Slope")], ["get_min_FOS", "get_min_FOS_circle", "get_min_FOS_end_points"])
p("C13", "Querying and plotting never change the model or results",
  "Reading results, looking up the ground profile, printing and plotting leave geometry, materials, loads, water, limits, options and analysis results exactly as they were; running an analysis changes nothing but the results (a dynamic analysis also moves the loads marked dynamic, as documented).",
  ["histories"], "every query, lookup and plot method, every path, at any point of a history",
  "Tests call each plot once at the end and do not compare the model before and after.",
  [P, U], [("plot_*, get_*, print_dynamic_results, analyse_slope", P)], (), [])
p("C14", "Models are independent of each other",
  "Building, editing, analysing or plotting one slope never changes another slope or the behaviour of slopes created later; nothing is kept at module or class level between calls, and the material and load objects the caller passed in are not altered.",
  ["histories"], "any interleaving of operations on several slopes sharing caller objects",
  "Every test uses one slope with its own objects.",
  [P, U, D], [("all state in instance attributes; no mutable defaults or module state", P)], (), [])
p("C15", "The search stays inside the analysis limits",
  "Every plane analysed by the default search enters the ground between the left and inner-left limits and leaves it between the inner-right and right limits (to within 0.01 m), also when loads are present, and the limits always satisfy 0 <= left < inner-left <= crest <= inner-right < right <= model length. Planes whose ends are not further apart than the minimum failure distance are not generated.",
  ["inputs", "histories"], "all limits, loads, iteration counts and geometries",
  "The only test with limits never looks at where the planes are.",
  [P], [("_set_entry_exit_planes, set_analysis_limits", P)], [("_limits", "search limits", "Slope")], [])
p("C16", "Every trial plane is a circle through its end points",
  "A plane generated for an entry and an exit point is an arc of a circle that passes exactly through both points with its centre above the chord; the requested number of different circles is tried for each pair; and intersection points of a circle with a ground segment lie on both the circle and the segment's line.",
  ["inputs"], "all entry and exit points, radii, centres and segments",
  "Tests never check a generated circle against its end points; only the number of planes is bounded.",
  [P, U], [("_generate_planes", P), ("cirle_line_intersection, circle_radius_from_abcd, circle_centre, mid_coord, dist_points", U)], (), [])
p("C17", "Dynamic analysis moves only dynamic loads and pairs offsets with FOS",
  "Dynamic analysis records for each tried offset the factor of safety of the model with the dynamic loads at exactly that offset; loads not marked dynamic keep their offset, and no load is lost, duplicated or otherwise altered. If the slope is safe with the loads at the crest, or unsafe with them furthest away, it stops after recording those positions.",
  ["inputs", "histories"], "any mix of dynamic and static loads (continuous ones included) and any target",
  "One test runs one dynamic line load and only checks the result is not empty.",
  [P], [("analyse_dynamic, _set_dynamic_offset", P)], [("_dynamic_results", "offset to FOS", "Slope")], ["get_dynamic_results"])
p("C18", "Removal takes out exactly what was asked for",
  "Removing loads takes out every load with the same offset and magnitude (and length for uniform loads) and no other; removing a material takes out exactly the one at that depth, depth 0 included; removing all leaves none; removing something absent changes nothing; whatever is left still analyses and plots.",
  ["inputs", "histories"], "any list of loads or materials including duplicates, any removal",
  "Tests remove one object from a list of one or two distinct ones.",
  [P], [("remove_udls, remove_lls, remove_material, remove_individual_planes", P)], (), [])
p("C19", "Plots show the whole model with a colour for every FOS",
  "For a model with materials, the boundary plot shows every material, every load, the water table if there is one above the bottom of the model, and the limits; the critical plot adds the critical plane, and the all-planes plot exactly the planes below the requested factor of safety, however many there are, with a scale of the colours. Every factor of safety from 0 upwards has a colour: values are rounded to one decimal, capped at the top of the scale and looked up in a table that has every step.",
  ["inputs"], "all models and all factors of safety",
  "Tests only check that three plots do not raise.",
  [P, U], [("plot_boundary, plot_critical, plot_all_planes, _plot_failure_plane, _plot_annotate_FOS", P), ("create_fos_color_dictionary", U)], (), [])
p("C20", "Web form values reach the engine unchanged",
  "Each value entered in the web form is used for the engine parameter of the same meaning, as a plain number, with blank rows replaced by the form defaults; conditional inputs (slope by length or angle, water table, limits, inner limits, dynamic analysis) are used exactly when selected; and every option range offered is inside the range the engine accepts.",
  ["inputs", "configurations"], "all valid form submissions",
  "There are no tests of the web application.",
  [V, F, M], [("create_slope", V), ("forms and models", F)], (), ["POST /"])
p("C21", "Every web request is answered and session data stay in step",
  "Every request to the pages (first visit, after reset, valid or invalid submission, PDF link with or without an earlier analysis or with a malformed limit) gets a page, document or redirect rather than a server error, and the stored form, plot and search results are always written and cleared together, so that a page or PDF never mixes two analyses.",
  ["histories", "inputs"], "any sequence of requests in a session",
  "There are no tests of the web application.",
  [V], [("index, pdf, reset", V)], [("session forms / plot_json / search", "last analysis of the visitor", V)], ["GET /", "POST /", "GET /reset", "GET /pdf/<max_fos>"])
p("C22", "The migrations produce exactly the declared database schema",
  "Applying all migrations in order yields a database whose tables, columns, types, lengths, nullability and defaults (everything that reaches the database or the saved objects; labels and help texts excepted) are exactly those the models declare, and the migrations form a single gap-free chain.",
  ["configurations"], "the whole migration history against the whole model set",
  "No test creates a database.",
  [M, "slope/migrations"], [("migration operations", "slope/migrations"), ("model fields", M)], (), [])
p("C23", "The deployment is safe by default",
  "With no special environment the site runs with debugging off, no built-in secret key, a host list without wildcards, and CSRF, session, clickjacking and security middleware active; debugging turns on only for the documented setting; no request, form or session data is ever executed as code, passed to a shell, or put into a page as markup.",
  ["configurations", "inputs"], "every combination of environment variables and every view",
  "No test loads the settings.",
  ["engineering/settings.py", V, "pyslope/cli.py"], [("settings", "engineering/settings.py"), ("views", V)], (), [])
p("C24", "All engineering quantities combine in consistent units",
  "Throughout the engine (geometry, loads, water, trial circles, search, both methods, analysis, dynamic analysis and plot coordinates), lengths, angles, pressures, unit weights, line loads and forces are only added to, compared with or assigned over quantities of the same dimension (plain numbers such as tolerances aside), degrees are converted before they enter a trigonometric function, coordinates are lengths and the factor of safety is dimensionless.",
  ["inputs"], "every arithmetic operation of the analysis and geometry code",
  "A dimension slip (a width left out, a load treated as pressure) is invisible when the quantity happens to be 1 or the term is small.",
  [P, U], [("analysis and geometry arithmetic", P)], (), [])
p("C25", "Accepted models never crash on absent values or zero divisors",
  "For every model accepted by the constructors and setters, in any combination (continuous loads, no water table, no loads, many loads, vertical slopes, zero-strength soils), building, analysing, dynamic analysis and plotting never perform arithmetic on an absent value, divide by zero, look up an entry that does not exist, or use a value of the wrong kind. (Reading the minimum, its circle and the plots of planes needs an analysis with at least one value; what a reader raises without one is not meant.)",
  ["inputs", "histories"], "all accepted models and operation orders",
  "The tests use loads with a length, few loads and ordinary soils.",
  [P, U], [("None checks and guards", P)], (), [])
p("C26", "Analysis is deterministic and free of side channels",
  "The same model always gives the same results: analysis and plotting use no randomness, clock, environment, file, network or process access, and no iteration order of unordered collections reaches a result.",
  ["histories", "configurations"], "every function reachable from the public engine API",
  "A test run cannot show that two runs always agree.",
  [P, U, D], [("pure computation over instance state", P)], (), [])
p("C27", "Documented calls keep working",
  "Every call of the public API shown in the README, the documentation pages, the example notebooks, the docstrings and the benchmark script is accepted: the names exist, the keywords exist, positional arguments have the documented meaning, no required argument is missing, and the sequences shown run to their end; documented defaults of constructors, methods and analysis options are the actual ones.",
  ["programs"], "every documented call",
  "Only the docstring examples are executed by the tests.",
  [P, "README.md", "pyslope/docs", "pyslope/speed_benchmark.py"], [("public signatures", P)], (), [])
p("C28", "A slope holds exactly what it was given",
  "Whatever the order of calls, a slope holds each load of non-zero magnitude and each material it was given, once per time given, until it is removed, with the magnitude, offset, length, strength and depth it was made with. Removing takes away the loads equal in magnitude, offset and length to the one given and the material at the given depth, whether or not it is the same object, and nothing else; remove_all takes away all of its kind and nothing of another kind. Loads of magnitude 0 and objects of another kind are not held. Individual circles that meet the ground are held with their centre and radius next to those given before, the others are not.",
  ["inputs", "histories"], "all sequences of adding and removing calls",
  "The docstring tests add two objects and count them.",
  [P], [("set_udls, set_lls, set_materials and the remove methods", P), ("individual planes", P)], (), [])
# ---- stated but not claimed (see MANIFEST not_applicable)
p("N01", "Factors of safety agree with reference software within 1%",
  "For every model within the documented scope, factors of safety agree with Slide and Hyrcan to within 1%.",
  ["inputs"], "all models", "Six example models are compared.", [P], [("numerical method", P)])
p("N02", "The search finds the critical plane",
  "The minimum factor of safety reported is within the search resolution of the true minimum over all circular planes inside the limits.",
  ["inputs"], "all models", "No test compares with an exhaustive search.", [P], [("_set_entry_exit_planes", P)])
p("N03", "Bishop iteration converges",
  "For every plane with a factor of safety the iteration reaches the tolerance within the iteration limit.",
  ["inputs"], "all planes", "Tests do not look at convergence.", [P], [("Bishop loop", P)])
p("N04", "Dynamic analysis converges to the critical offset",
  "Dynamic analysis ends within 0.01 of the target factor of safety whenever the target lies between the two extreme positions.",
  ["inputs"], "all models", "One model is run.", [P], [("analyse_dynamic", P)])
p("N05", "More load or water never raises the factor of safety",
  "For a fixed model, raising the water table or adding load above the driving part never raises the minimum factor of safety, and raising cohesion or friction never lowers it.",
  ["inputs"], "all models", "One test compares one model with and without water.", [P], [("analysis", P)])
p("N06", "Analysis time is proportional to slices times planes",
  "Analysis time grows linearly with slices and planes and needs no more memory than the result list.",
  ["inputs"], "all models", "No benchmark is asserted.", [P], [("vectorised slices", P)])
p("N07", "The browser front end shows the analysed model",
  "The page's scripts redraw planes, tables and the PDF link consistently with the last analysis for every sequence of user actions.",
  ["histories"], "all user action sequences", "There are no front-end tests.", ["static/slope/charting.js", "static/slope/button_control.js", "static/slope/update_pdf_link.js"], [("scripts", "static/slope")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for o in OUT: f.write(json.dumps(o, ensure_ascii=False) + "\n")
