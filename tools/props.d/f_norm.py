prop("P23", "Normalisation does not change the model",
     "The normalisation applied between iterations (power and projection-back normalisation of ILRMA, power normalisation of fast multichannel NMF, trace normalisation of multichannel NMF without partitioning, of the IPSDTA bases and of the CACGMM covariances) only moves scale between parameters: the value compute_loss reports is exactly the same before and after it, "
     "for all data, parameters and hyperparameters, and normalising twice is the same as normalising once.",
     ["inputs", "configurations"],
     "symbolic tensors of any size, generic domain/dof/beta, every class with a normalisation option, filter-holding and filter-less (ISS, IPA) states, with and without partitioning (GaussMNMF with partitioning is documented to change the loss; flooring aside)",
     "Tests only run with the option on; a wrong power of the scale still gives finite output of the right shape.",
     ["ssspy/bss/ilrma.py", "ssspy/bss/mnmf.py", "ssspy/bss/ipsdta.py", "ssspy/bss/cacgmm.py"],
     [("normalize, normalize_by_power, normalize_by_projection_back, normalize_psdtf, normalize_block_decomposition_psdtf, normalize_covariance", "ssspy/bss/*.py")],
     "tensor normal forms of the reported loss before and after the step, compared as expressions",
     note="Algebraic identity of source expressions (no numeric evaluation, no solver).")
