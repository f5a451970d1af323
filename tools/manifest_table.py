AI = "interprocedural abstract interpretation (gated value numbers) of the source"
TRUST = ("Decided from /repo's source by abstract interpretation; nothing of /repo is executed. Trusted: the engine in sa/ (Python semantics of the subset used, "
         "models of math/numpy/plotly calls), real arithmetic in place of floating point, and the container shapes enumerated (listed in the evidence). "
         "An obligation that is neither proved nor refuted is counted as 'agrees' or 'undecided' in the evidence and raises no alarm.")
TECH = {
 "C01": (AI + "; typestate of the results and comparison of edit histories", "Results are proved empty after every editing call, and analysing after an edit is proved to use the same values as a model that was never analysed."),
 "C02": (AI + "; class invariant after every edit", "The placement invariant is proved for each public edit from a symbolic model, so for any order of edits over the shapes covered."),
 "C03": (AI + "; effect analysis of raising paths", "At every raise outcome of every editing call the heap is compared with the heap at entry."),
 "C04": (AI + "; acceptance conditions of constructors and setters against the documented ranges", "The extracted condition of acceptance is compared with the documented one for numbers and for every other kind of value."),
 "C05": (AI + "; class invariant on option fields", "The clamping of each option is proved equal to the documented range for symbolic input."),
 "C06": (AI + "; geometry obligations in linear arithmetic", "Cross-section relations proved for symbolic height, length, angle, minimum size and loads."),
 "C07": (AI + "; equality of sibling implementations of the ground profile", "All readers of the ground surface are compared with one profile over symbolic coordinates."),
 "C08": (AI + "; slice weight and base strength against the layer model", "Weights and strengths are compared with the layer model for symbolic layers and slices."),
 "C09": (AI + "; differential slice weight with and without each load", "The contribution of each load to each slice is compared with the overlap rule, symbolic slice count."),
 "C10": (AI + "; both factor-of-safety methods against the published formulas", "The extracted expression for the factor of safety is compared with Bishop's formula per guard region."),
 "C11": (AI + "; sign and absence analysis of returned factors of safety", "Return sites are analysed for sign, absence guards and division guards."),
 "C12": (AI + "; list typestate of the result list", "Analysis of exact small plane lists with symbolic factors of safety: membership, order, filter and getters."),
 "C13": ("interprocedural effect analysis of all query and plot functions", "Heap before and after every query and plot is compared; write effects of the call graph are enumerated."),
 "C14": ("interprocedural effect and ownership analysis (module, class and caller-owned state)", "Writes to module-level, class-level and caller-owned objects are enumerated over the call graph."),
 "C15": (AI + "; bounds of generated search planes", "Bounds on limits and on generated planes for symbolic geometry and fixed iteration counts."),
 "C16": (AI + "; algebraic identities of generated circles", "Trial circles and intersections are compared with the circle equations for symbolic end points."),
 "C17": (AI + "; history of offsets and recorded results", "Dynamic analysis is interpreted with the search abstracted; offsets at each analysis are compared with the recorded keys."),
 "C18": (AI + "; list effects of removal", "The lists after each removal are compared with the specification for symbolic loads and layers."),
 "C19": (AI + "; figure events against the model, finite enumeration of the colour table", "Every element of the model is looked up in the figure's construction; colour lookups are enumerated over the whole table."),
 "C20": (AI + "; dataflow from form fields to engine parameters", "Each form field is traced to the engine parameter of its meaning for every combination of conditional inputs."),
 "C21": (AI + "; exception escape analysis of the views and session typestate", "No exception escapes a view; the session triple is written and cleared together."),
 "C22": ("schema comparison by interpreting migration operations and model declarations", "The state after all migrations is compared field by field with the models."),
 "C23": ("abstract evaluation of the settings over environments plus taint of dangerous calls", "Settings are evaluated over the environment variables; dangerous sinks are enumerated."),
 "C24": ("dimension inference over the extracted expressions", "Every sum, comparison and assignment of dimensioned quantities is checked."),
 "C25": (AI + "; absent-value and zero-divisor analysis of all engine paths", "Every implicit raise outcome of accepted models is shown infeasible or reported."),
 "C26": ("effect analysis against a list of nondeterministic sources, unordered-iteration flow", "External calls reachable from the engine are enumerated; set iteration orders are flipped and outcomes compared."),
 "C27": ("call binding of documented examples against the current signatures; " + AI + " of the documented sequences; omitted against documented default arguments", "Every documented call is bound to the current signature and every documented statement is followed through the source."),
 "C28": (AI + " of adding and removing histories; membership conditions", "The condition under which each object is a member of the model's lists is extracted and compared with the one given by the calls."),
}
NA = {
 "N01": "Agreement with other programs to 1% is a numerical accuracy statement about floating point results of whole searches; no static bound in reach relates the code to Slide or Hyrcan.",
 "N02": "Distance of the sampled minimum from the true minimum over a continuum of circles depends on the values of a non-convex function; no static argument bounds it.",
 "N03": "Convergence of the fixed-point iteration depends on runtime magnitudes (contraction of the map); no sound static bound in reach.",
 "N04": "Convergence of the secant search depends on runtime factors of safety; only the pairing and stopping clauses are static and are claimed as C17.",
 "N05": "Monotonicity of a minimum over a changing set of circles of an implicitly defined value is not true for every input and not visible in the code's shape.",
 "N06": "Run time and memory are measurements; a static cost bound of numpy and plotly internals is out of reach.",
 "N07": "The browser scripts are interleaved with page state and third-party libraries (jQuery, Plotly); no JavaScript analysis with DOM models is available here that would decide the statement.",
}
NOTES = "One static analysis engine (sa/, Python standard library only) with one rule module per property (sa/checks). See DESIGN.md."
