prop("P12", "Results do not depend on units",
     "Scaling the whole mixture by a constant (with the initial filter scaled back) scales the estimates of the auxiliary-function, fixed-point, natural-gradient, NMF-based and clustering methods by that constant and changes nothing else; "
     "moving a factor between a basis vector and its activation, or between a source's filter row and its variance model (ILRMA without partitioning), changes no estimate, filter or loss, and normalisation removes that factor exactly. "
     "Repeating every frame leaves filters and loss unchanged, except for the proximal (PDS, ADMM) methods.",
     ["inputs", "configurations", "histories"],
     "all positive factors, all inputs, all classes and algorithm choices, all values of domain, dof and beta, any number of iterations (flooring constants aside)",
     "A wrong exponent, a sum in place of a mean, or a factor applied to one of two coupled parameters still converges to plausible outputs of the right shape.",
     BSS, [("multiplicative and closed-form updates", "ssspy/bss/{ica,fdica,iva,ilrma,ipsdta,mnmf,cacgmm}.py"), ("normalize*", "ssspy/bss/ilrma.py, mnmf.py, ipsdta.py"),
           ("spatial updates", "ssspy/bss/_update_spatial_model.py")],
     "scaling-dimension (gauge) type inference with fixpoint over loops in the value graph")
prop("P13", "Results do not depend on phase or microphone basis",
     "Multiplying each row of the initial demixing filter by a unit-modulus number (a sign for real data) per source and bin, or each basis vector of the mixture space by a unitary change of coordinates, transforms filters, covariances and estimates accordingly and leaves losses, model variances, weights, masks and posteriors unchanged. "
     "Every Hermitian form, covariance and inverse in the updates is therefore built with the conjugate transpose in the right place.",
     ["inputs", "configurations", "histories"],
     "all phases and unitary matrices, all complex inputs, all classes and algorithm choices, any number of iterations",
     "A missing conjugate or a transpose in its place is invisible to shape checks and to real test data and still returns plausible complex output.",
     BSS + LIN + [B + "_update_spatial_model.py", B + "_select_pair.py"], [("covariances, inverses, Hermitian forms", "ssspy/bss/*.py"), ("update_by_*", "ssspy/bss/_update_spatial_model.py"), ("eigh, quadratic, inv2, lqpqm2", "ssspy/linalg")],
     "gauge (covariance) type inference with fixpoint over loops in the value graph")
prop("P14", "All frames and bins are treated alike",
     "Reordering the frames (samples) of a mixture reorders the estimates and frame-wise parameters and leaves filters and losses unchanged; reordering the frequency bins likewise, for every method without a bin-order model (all but IPSDTA and HVA) and with permutation alignment off. "
     "No frame or bin is skipped, singled out or weighted by its position, and in the bin-wise FDICA methods the result of a bin depends on that bin alone.",
     ["inputs", "configurations"],
     "all permutations, sizes, classes and algorithm choices",
     "Dropping the first or last frame, or letting one bin leak into another, changes results slightly and passes shape-only tests.",
     BSS, [("array code of all updates", "ssspy/bss/*.py"), ("spatial updates", "ssspy/bss/_update_spatial_model.py")],
     "axis-discipline analysis (selection, ordering, accumulation along symbolic axes) over the value graph")
prop("P15", "Scale restoration yields the reference-microphone image",
     "After scale restoration (projection back or minimal distortion) the estimate and the filter no longer depend on the scale or phase of the filter rows in any bin, and scale with the gain of the reference microphone alone. "
     "projection_back (from a filter or from data) and minimal_distortion_principle behave the same way, for every reference and for all references at once.",
     ["inputs", "configurations"],
     "all complex scales per source and bin, all microphone gains, every class with scale_restoration and every reference",
     "Tests check only the shape after restoration; a missing conjugate or transposed inverse leaves the scale ambiguity in.",
     BSS + ALG, [("projection_back", "ssspy/algorithm/projection_back.py"), ("minimal_distortion_principle", "ssspy/algorithm/minimal_distortion_principle.py"),
                 ("restore_scale, apply_projection_back, apply_minimal_distortion_principle", "ssspy/bss/*.py")],
     "gauge type inference with per-source, per-bin and per-microphone charges")
