prop("P27", "Matrix-valued parameters, mixtures and estimates follow the model",
     "For any observation, parameters and options: (a) the multichannel NMF and PSDTF updates of Hermitian matrix parameters (GaussMNMF spatial covariances, GaussIPSDTA and TIPSDTA bases, with blocks of equal or unequal size) give a Hermitian matrix G that solves the Riccati equation G P G = H Q H of the surrogate whose derivative P - Q is that of the reported loss at the old value H, with P and Q formed from the current values of all other parameters; (b) the posterior of CACGMM is the model's posterior given its mixing weights and covariances, its loss is the negative log-likelihood per frame summed over bins (up to a constant), and its parameter step is the maximisation step for that posterior; (c) the weighted covariances GaussIPSDTA and TIPSDTA hand to the block filter update are those whose quadratic form has the derivative of the reported loss apart from the log-determinant term; (d) the estimates of GaussMNMF and FastGaussMNMF are the multichannel Wiener filter of the current model, R_n R^-1 x, read at the reference channel, and those of CACGMM are the posterior times the reference channel, so the estimates of all sources add up to the reference channel of the mixture (positive semidefinite flooring apart).",
     ["inputs", "configurations", "histories"],
     "GaussMNMF, FastGaussMNMF (partitioning on/off), CACGMM, GaussIPSDTA and TIPSDTA (even and uneven blocks) at symbolic parameters of symbolic size (exact arithmetic; flooring and PSD repair read as the identity; eigen-decomposition based roots used through their equations, decided by P26)",
     "A transposed covariance, a missing conjugate, a weight formed from half of the blocks or a stale factor gives a matrix of the right shape that is still Hermitian and positive; the loss falls on average and the separated signals sound plausible, but the algorithm is no longer the one named.",
     ["ssspy/bss/mnmf.py", "ssspy/bss/cacgmm.py", "ssspy/bss/ipsdta.py"],
     [("GaussMNMF.update_spatial, GaussMNMF.separate, FastGaussMNMF.separate", "ssspy/bss/mnmf.py"), ("CACGMM.update_posterior, CACGMM.update_parameters, CACGMM.compute_loss, CACGMM.separate", "ssspy/bss/cacgmm.py"), ("update_basis_mm, update_spatial_model_vcd, compute_loss of GaussIPSDTA and TIPSDTA", "ssspy/bss/ipsdta.py")],
     "tensor normal forms of the value-flow graph: symbolic derivative of the loss with respect to the matrix parameter compared with the coefficients of the update; equation checks with inverse, log-determinant and matrix-root rules",
     note="The updates that are not derived from a stationarity condition in one parameter (flooring, normalisation) are decided by P08, P12 and P23.")
