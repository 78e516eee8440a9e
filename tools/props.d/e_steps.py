"""single steps, algebra of the updates"""
prop("P17", "Update steps use the right flooring function",
     "Every public update step of a separation object (update_once, update_basis*, update_activation*, update_latent*, update_spatial_model*, update_source_model, ...) called by itself on a prepared object works, and by default applies the flooring function the object was constructed with, exactly as if it had been passed; "
     "when another flooring function is passed to the step, that function is used everywhere in place of the object's own one, and neither the object's nor the library's default flooring is applied in addition. Public methods that offer no flooring_fn parameter are not meant.",
     ["inputs", "configurations", "histories"],
     "all classes with a flooring_fn, all algorithm choices, any flooring function, every public step with a flooring_fn parameter",
     "Tests run whole separations with the default flooring, for which all choices coincide.",
     BSS + ["ssspy/utils/flooring.py"], [("choose_flooring_fn(flooring_fn, method=self) in every step", "ssspy/bss/*.py"), ("choose_flooring_fn", "ssspy/utils/flooring.py")],
     "value-graph comparison of steps under uninterpreted flooring functions")
prop("P25", "Parameter updates are derived from the reported loss",
     "For every ILRMA, multichannel NMF, fast multichannel NMF and IPSDTA variant, each multiplicative update of a basis, activation, latent or (fast MNMF) spatial parameter is param * (numerator / denominator) ** e (up to flooring and normalisation), where denominator - numerator is, up to a positive factor, the derivative of the value compute_loss reports, "
     "and e is the exponent of the majoriser chosen (1/(1+q) for MM, 1/q for ME, q the power of the model in the loss). Hence the stationary points of the updates are those of the reported loss, for all data, parameters and hyperparameters (domain, dof, beta, number of bases, with or without partitioning).",
     ["inputs", "configurations"],
     "all input arrays and parameter values (symbolic tensors), generic domain/dof/beta, all classes and algorithm choices with such updates; matrix-valued updates (MNMF spatial covariance, IPSDTA basis) are not meant",
     "Tests run a few iterations and check shapes; an update with a wrong exponent or a missing factor still runs.",
     ["ssspy/bss/ilrma.py", "ssspy/bss/mnmf.py", "ssspy/bss/ipsdta.py"],
     [("update_basis_*, update_activation_*, update_latent_*, update_spatial_mm, compute_loss", "ssspy/bss/ilrma.py, mnmf.py, ipsdta.py")],
     "tensor normal forms of the value graph: symbolic differentiation of the loss's source expression compared with the update's",
     note="Algebraic identity of source expressions (no numeric evaluation, no solver); flooring and projection to positive definite matrices are read as the identity.")
prop("P22", "Filter updates descend the reported loss",
     "For Grad*/NaturalGrad* ICA, FDICA and IVA, auxiliary-function FDICA and IVA (IP, IP1, IP2, ISS, ISS1, ISS2, IPA), Gauss/t/GGD ILRMA and the diagonalizer of FastGaussMNMF, each update of the demixing (diagonalising) filter is the one the reported loss calls for: "
     "the gradient methods step along the negative (natural; without the diagonal if not holonomic) gradient of the value compute_loss reports; the weighted covariances given to iterative projection and the weights given to iterative source steering and IPA form, together with the log-determinant, a surrogate that has the same derivative as the reported loss at the current filter. "
     "This holds for all mixtures, filters, source models and hyperparameters (domain, dof, beta), with or without partitioning; flooring aside.",
     ["inputs", "configurations"],
     "symbolic tensors of any size, generic domain/dof/beta, all listed classes and algorithm choices; the library's Laplace/Gauss/t/GGD models (for user contrast functions the relation between contrast and its derivative is the user's)",
     "A wrong exponent, a missing factor 1/2, a conjugate or a mean over the wrong axis still gives finite output of the right shape.",
     ["ssspy/bss/ica.py", "ssspy/bss/fdica.py", "ssspy/bss/iva.py", "ssspy/bss/ilrma.py", "ssspy/bss/mnmf.py"],
     [("update_once*, update_spatial_model_*, update_diagonalizer_*, compute_loss", "ssspy/bss/*.py"), ("update_by_ip1/ip2/iss1/iss2/ipa call sites", "ssspy/bss/*.py")],
     "tensor normal forms of the value graph: symbolic differentiation of the loss's source expression compared with the arguments of the filter updates",
     note="Algebraic identity of source expressions (no numeric evaluation, no solver). The filter update functions themselves are the subject of P24.")
