prop("P30", "Permutation alignment only reorders sources, everything together, by the best candidate",
     "For any input, any number of additional arrays and either value of overwrite, the permutation solvers return every array with, in every frequency bin, its sources reordered by one permutation that is the same for the spectrogram and all additional arrays (in place with overwrite=True); every bin is visited (all but the anchor once in the correlation-based solver, all of them in every global and local pass of the score-based one), at any number of bins and sources. All n_sources! permutations are candidates and the one of the largest score is taken; the score is evaluated for the permutation that is applied. Correlation-based: amplitudes divided by their norm over the sources, bins in ascending order of the correlation between their sources, compared with the sum of the bins aligned so far in their aligned order. Score-based: sequences of zero mean and unit deviation in their current order, sum of the correlations (divided by the deviation of what is compared with) of equal sources minus those of different ones, against the centroid of all bins and then against the neighbouring bins. FDICA aligns by the estimate and keeps the reordered filter and estimate; CACGMM aligns by the posterior or the amplitude, as its option says, and keeps mixing weights, covariances, posteriors and estimate in one common order.",
     ["inputs", "configurations", "sizes"],
     "both solvers with 0, 1 and 3 additional arrays, overwrite on and off, one and two global and local passes, 3 sources and 4 bins (symbolic frames and channels) plus the sizes on both sides of every decision on a size; any decision on a size beyond 4 sources or 8 bins counts as a violation; all FDICA classes and all four options of CACGMM at unconstrained state of symbolic size. Exact arithmetic; ties are not decided.",
     "A filter that is permuted by the inverse permutation, one bin or one parameter left out, or a candidate too few agrees with the right result for two sources or for the few bins of a test; tests look at shapes and one toy mixture.",
     ["ssspy/algorithm/permutation_alignment.py", "ssspy/bss/fdica.py", "ssspy/bss/cacgmm.py"],
     [("correlation_based_permutation_solver, score_based_permutation_solver", "ssspy/algorithm/permutation_alignment.py"), ("FDICABase.solve_permutation", "ssspy/bss/fdica.py"), ("CACGMMBase.solve_permutation", "ssspy/bss/cacgmm.py")],
     "normal form of every returned array as a sequence of (bin, permutation) moves; decision-tree evaluation of the choice; tensor normal form of the scores",
     note="Which neighbours the local pass looks at and the treatment of ties are not part of the property; the deprecated wrapper is P18.")
