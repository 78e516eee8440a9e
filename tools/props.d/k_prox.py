prop("P29", "Proximal methods iterate the splitting scheme of the reported loss",
     "For any mixture, filters, duals, step sizes, relaxation and any one or several penalties (or a mask in place of the proximal operator): the loss PDS- and ADMM-based methods report is the sum of all penalties of the current estimate minus the log-determinants of the filters of all bins, and one iteration is that of the named splitting scheme for this loss. PDS: the log-determinant step (step size mu1) is taken at W - mu1 mu2 (sum of duals) X^H, every penalty (step size 1/mu2) at its dual plus the estimate of the extrapolated filter 2 P - W, and filter and duals are relaxed by the same factor. ADMM: the filter solves W (Q X X^H + I) = (V - Y) + sum of (V~ - Y~) X^H for Q penalties, the log-determinant and every penalty (step size 1/rho) are taken at the relaxed values plus their duals, with the new filter, and each dual grows by the relaxed value minus the new auxiliary. Every penalty is used exactly once per iteration. The default penalty of PDSIVA and ADMMIVA is the norm over the frequency bins both in the loss and in the proximal operator.",
     ["inputs", "configurations", "histories"],
     "PDSBSS and ADMMBSS with one and two penalties, MaskingPDSBSS, MaskingADMMBSS, PDSIVA, ADMMIVA (user-given and default penalty), MaskingPDSHVA, MaskingADMMHVA, HVA at unconstrained filters, auxiliaries and duals of symbolic size and symbolic step sizes (exact arithmetic; the proximal operators themselves are decided by P26; convergence is not decided)",
     "A step taken at the old filter, a dual that is not relaxed or a step size that lacks a factor gives an iteration with the same fixed point or a slightly different one; with the default step sizes and relaxation of 1 that the tests use, most of these changes have no effect at all.",
     ["ssspy/bss/pdsbss.py", "ssspy/bss/admmbss.py", "ssspy/bss/proxbss.py", "ssspy/bss/iva.py"],
     [("PDSBSS.update_once, MaskingPDSBSS.update_once", "ssspy/bss/pdsbss.py"), ("ADMMBSS.update_once, MaskingADMMBSS.update_once", "ssspy/bss/admmbss.py"), ("ProxBSSBase.compute_loss", "ssspy/bss/proxbss.py"), ("PDSIVA, ADMMIVA", "ssspy/bss/iva.py")],
     "tensor normal forms of every argument and result of one iteration, proximal operators and masks as unknown functions, against the equations of the scheme",
     note="MaskingADMM with several masks does not exist; the mask is read as z -> mask(z) * z.")
