prop("P24", "Spatial update steps solve their sub-problem",
     "For any demixing filters, separated signals, positive weights, positive definite weighted covariances and pair selector, and any number of sources, bins and frames: every inner step of update_by_ip1, update_by_ip2, update_by_iss1, update_by_iss2, update_by_ipa and update_by_block_decomposition_vcd yields the stationary point of the majorised objective (weighted quadratic form minus log-determinant of the demixing filters) in the coordinates the step updates, evaluated at the current values of the other coordinates, which it leaves as they are: w_n^H U_n w_n = 1 and w_m^H U_n w_n = 0 (IP1, ISS1); both conditions and their mixed terms for the pair, in the order given by the selector (IP2, ISS2, also for descending and negative indices); for IPA the filter p_n and the adjustment q_n built from the minimiser of the penalised quadratic whose matrix, vector and constant are those of the adjusted problem, whether or not it is normalised; for the block decomposition the stationarity equation with the couplings to the neighbouring bins, also in its uncoupled branch. Every source (and neighbour, and by default every source through the pairs) is updated in one call.",
     ["inputs", "configurations", "histories"],
     "6 update functions x real/complex x option values x ascending/descending/negative pairs at symbolic arguments of symbolic size (exact arithmetic; flooring read as the identity; optimality among the stationary points and rounding are not decided)",
     "A step taken from stale filters, a swapped weight in a descending pair, a wrong normaliser or a transposed coupling still lowers the loss on average data and separates plausibly; the monotone descent the auxiliary-function methods promise is then lost on some inputs only.",
     ["ssspy/bss/_update_spatial_model.py", "ssspy/utils/select_pair.py"],
     [("update_by_ip1, update_by_ip2, update_by_ip2_one_pair, update_by_iss1, update_by_iss2, update_by_ipa, update_by_block_decomposition_vcd", "ssspy/bss/_update_spatial_model.py"), ("sequential_pair_selector, combination_pair_selector", "ssspy/utils/select_pair.py")],
     "symbolic form of one loop step over loop-carried leaves (tensor normal forms with inverse-cancellation and eigenvector rules) substituted into the stationarity equations of the sub-problem, plus coverage of the loop range",
     note="The generalised eigensolver and the penalised quadratic minimiser are used through their own equations, decided by P26.")
