AI = "static analysis: abstract interpretation of the sources over a symbolic value-flow domain; "
NOTE = ("Every analysed configuration, all input values; trusts the engine's transfer functions of numpy/xarray/scipy; "
        "constructs it cannot model are reported as undecided, not as violations.")
CHECKS = {
 "C01": (AI + "dependence and order-permutation equality of canonical terms",
         "Covers all class lists of the analysed configurations for every input value; trusts the engine's transfer functions of numpy/xarray/scipy; constructs it cannot model are reported as undecided, not as violations."),
 "C02": (AI + "leaf dependence of every field on its cloud type, and presence of both cloud types in combined fields", "Every analysed configuration, all input values; trusts the engine's transfer functions of numpy/xarray/scipy; constructs it cannot model are reported as undecided, not as violations."),
 "C05": (AI + "two-call interpretation with opaque stale leaves; canonical term equality", "Every analysed configuration, all input values; trusts the engine's transfer functions of numpy/xarray/scipy; constructs it cannot model are reported as undecided, not as violations."),
 "C06": (AI + "canonical term equality between processing modes; index-recurrence analysis of chunk loops", "Every analysed configuration, all input values; trusts the engine's transfer functions of numpy/xarray/scipy; constructs it cannot model are reported as undecided, not as violations."),
 "C07": (AI + "class labels of all leaves and tables a class's field depends on", "Every analysed configuration, all input values; trusts the engine's transfer functions of numpy/xarray/scipy; constructs it cannot model are reported as undecided, not as violations."),
 "C19": (AI + "definite missing-name/key/field/attribute events; scope analysis of all modules",
         "Every listed model x instrument x option configuration is interpreted to its end; definite failures only; input files are assumed to hold the fields a model definition reads."),
 "C08": (AI + "mutation-effect analysis of input, table and configuration objects; term equality before and after", NOTE),
 "C09": (AI + "constant propagation of an absent hydrometeor through the value-flow terms", NOTE),
 "C22": (AI + "classification of table and size leaves of every per-class term; driver/direct-call term equality", NOTE),
 "C04": (AI + "vertical-orientation inference (flips, running sums, one-level shifts) and label agreement", NOTE),
 "C03": (AI + "linear/decibel scale inference over terms", NOTE),
 "C15": (AI + 'option-leaf tracking and two-value term comparison; call-graph fixpoint for dead parameters', NOTE),
 "C14": (AI + 'abstract interpretation: fields written vs fields that reach to_netcdf / come back / are dropped', NOTE),
 "C20": (AI + 'effect and liveness rules over the syntax tree (discarded pure results, stores into copies, unread corrections)', NOTE),
 "C21": (AI + 'abstract interpretation of every public step on unsuitable instruments/missing prerequisites; typestate: abstract state at the raise equals state at entry', NOTE),
 "C10": (AI + 'interpretation of every model constructor; completeness and consistency of class-keyed tables', NOTE),
 "C11": (AI + "interpretation of every instrument constructor; table selection checked against the table files' own columns", NOTE),
 "C25": (AI + 'attribute dataflow of every stored output; descriptions and units compared with the provenance of the value', NOTE),
 "C18": (AI + 'decision tables of the mask value-flow terms over all signal states, compared with the legend; signal and phase-ratio operand analysis', NOTE),
 "C12": (AI + 'symbolic column tracking through table readers, Mie calculators and P3 loading; conversion factor vs. label', NOTE),
 "C28": (AI + 'symbolic derivation of each output term by abstract interpretation of the source, then formula identification against independently written published relations (global value numbering by fingerprints over the reals)', NOTE),
 "C30": (AI + 'symbolic derivation of each generated field by abstract interpretation, then formula identification against the in-cloud-mean relation; structural conservation argument over the gamma-draw assignment', NOTE),
 "C31": (AI + "Constructors run by an abstract interpreter on symbolic files; each prepared field's formula compared with its definition by evaluating both formulas' values on fingerprints; reversals of each field along each dimension counted on its term.", NOTE),
 "C13": (AI + "value flow of each unit-bearing field through unit conversions on abstractly interpreted terms (raw uses, declared-unit source, dimension); the conversion's target checked against the unit under which the term is identical to the published relation", NOTE),
 "C24": (AI + 'static effect analysis: abstract interpretation of every figure with view/buffer aliasing, state compared before and after', NOTE),
 "C23": (AI + "random-interpretation equality of extracted array formulas with the statistics' definitions; one-step (inductive) obligations on the regridding walk", NOTE),
 "C16": (AI + 'abstract interpretation of array layout: symbolic elements followed through stack, transpose, reshape, rename and squeeze', NOTE),
 "C17": (AI + 'element-wise dependence analysis: sets of input elements propagated through the extracted array terms over a small grid', NOTE),
 "C29": (AI + 'dimension inference over value-flow terms', NOTE),
 "C32": (AI + 'Abstract interpretation of every display method and statistics figure on datasets with named dimensions and symbolic elements; the array terms and settings that reach matplotlib are compared element by element with the selection named by the arguments', NOTE),
 "C33": (AI + 'abstract interpretation of the subcolumn generator; provenance of each occupancy term (fraction and mixing ratio leaves by class, cloud type and logic), smallest meeting subterms, substitution of absent cloud classes, constant propagation of zero fractions', NOTE),
 "C34": (AI + "abstract interpretation of the readers with symbolic requests; the selectors' terms are evaluated on small coordinate axes", NOTE),
}
NA = {
 "C26": "Numerical agreement with scattering integrals to a stated accuracy quantifies over runtime values and table contents; no sound static argument in reach bounds it.",
 "C27": "Counts of cloudy subcolumns depend on runtime cloud fractions and random draws; no sound static bound in reach.",
}
