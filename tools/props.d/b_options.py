prop("P06", "Option values select what they name",
     "Documented synonyms of an option (IP and IP1, ISS and ISS1, scale_restoration=True and \"projection_back\", permutation_alignment=True and the "
     "documented default method, normalization=True and \"power\") compute exactly the same thing. Different option values compute different things, "
     "so no documented algorithm silently falls back to another. A value outside the documented set is rejected with an exception rather than ignored.",
     ["configurations"],
     "every separation class, every option value and every combination of algorithm choices",
     "Tests run the options but compare no results between them, so a row that dispatches to the wrong algorithm passes.",
     BSS, [("if/elif dispatch on option strings", "ssspy/bss/*.py __init__, update_once, solve_permutation, restore_scale")],
     "value-graph fingerprint equality across all option rows; reachability of an explicit raise")
prop("P07", "Every constructor option takes effect",
     "Each numerical or callable option of a separation class (step sizes, relaxation, penalty weights, domain, degree of freedom, shape parameter, "
     "reference channel, numbers of inner iterations, flooring, contrast, score, penalty, proximal and mask functions) influences the result in every algorithm row that takes it. "
     "Contrast and penalty functions determine the reported loss; no user-given value is dropped or replaced by a default.",
     ["configurations", "inputs"],
     "every class, algorithm choice and option, all values",
     "Tests check shapes; dropping an option along one row leaves shapes alone.",
     BSS, [("attribute use in update methods", "ssspy/bss/*.py"), ("super().__init__ forwarding", "ssspy/bss/*.py __init__")],
     "dependence (backward reachability) analysis in the interprocedural value graph")
prop("P10", "Real and complex quantities are kept apart",
     "Time-domain separation of a real mixture stays real: filters, estimates and loss are real. In the frequency domain demixing filters, covariances and estimates keep "
     "their imaginary part on every path, while losses, model variances, basis, activation, weights and posteriors are real. "
     "No ordering, maximum, logarithm or square root is taken of a value that is not provably real, and no complex value is stored into a real array.",
     ["inputs", "configurations"],
     "all inputs, all classes and option rows, all linear-algebra and transform functions for real and complex arguments",
     "numpy drops imaginary parts with a warning at most, or orders complex numbers lexicographically; test data and shape checks do not reveal it.",
     BSS + ALG + LIN + SPE + TRA, [("np.real / np.abs / dtype of allocated buffers", "ssspy/**")],
     "dtype (real/complex) inference over the value graph")
prop("P11", "Every configuration is dimensionally consistent",
     "For all numbers of channels, sources, bases, frequency bins and frames (no two of them tied unless documented), every class and "
     "option combination runs without an implicit shape, index or type error. The estimate, the model parameters, the loss and the results of the public functions have the documented shapes. "
     "No axis is reduced, broadcast or paired with an axis of a different meaning.",
     ["inputs", "configurations"],
     "all sizes, all classes and option rows, n_sources given or inferred",
     "Tests use a few sizes where different axes often coincide (2 channels, 2 sources, 2 bases), so a mix-up of axes goes unnoticed.",
     BSS + ALG + LIN + SPE + TRA + [B + "_update_spatial_model.py", B + "_select_pair.py"],
     [("array code of all updates", "ssspy/bss/*.py")],
     "symbolic shape inference with pairwise distinct dimension symbols")
prop("P16", "Randomness comes only from the caller's generator",
     "All random numbers a separation method uses are drawn from the generator the caller passed in (or, without one, from a fresh unseeded default), and only to initialise parameters, "
     "never during the iterations. No public function uses global random state, time or other hidden nondeterminism. "
     "Equal generators therefore give equal results.",
     ["histories", "configurations"],
     "every class and option row, first and later calls, every public function",
     "Tests never compare two runs with equal generators along all rows.",
     BSS + ALG + LIN + SPE + TRA, [("rng attribute", "ssspy/bss/*.py"), ("_init_instant", "ssspy/bss/*.py")],
     "effect analysis of random draws in the event tree")
prop("P18", "Deprecated names behave as the current ones",
     "Each deprecated module, function and keyword (ssspy.bss._flooring, _psd, _solve_permutation, _select_pair; alpha for relaxation; aux1/aux2 for auxiliary1/auxiliary2) "
     "still works, issues a warning and computes exactly what its replacement computes, passing every argument on. "
     "Giving both an old and the new name of one option is rejected.",
     ["configurations", "inputs"],
     "all deprecated names, all arguments and classes that accept them",
     "Tests call a few deprecated names and look at shapes or not at all.",
     BSS + ["ssspy/bss/_flooring.py", "ssspy/bss/_psd.py", "ssspy/bss/_solve_permutation.py", "ssspy/bss/_select_pair.py"],
     [("forwarding wrappers", "ssspy/bss/_flooring.py, _psd.py, _solve_permutation.py, _select_pair.py")],
     "value-graph equivalence of the deprecated and the current spelling, plus warning/raise reachability")
prop("P20", "repr works at any time and names the configuration truthfully",
     "repr() of every separation object works under every configuration, before and after calls. "
     "Each option it shows is labelled with that option's own name and shows the value in force.",
     ["configurations", "histories"],
     "every class, option row, before the first and after each call",
     "Tests print a few objects; a missing attribute on another row, or a mislabelled field, is not seen.",
     BSS, [("__repr__ templates", "ssspy/bss/*.py")],
     "format-template analysis: every placeholder of every reachable template is resolved against the abstract object state")
