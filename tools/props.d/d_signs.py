"""sign analysis"""
prop("P08", "Silent frames are harmless",
     "When some frames of the mixture are exactly zero (digital silence), no separation class, under any algorithm choice, divides by, takes the logarithm or a negative power of, or inverts a quantity that vanishes in those frames: every such frame-wise quantity (source powers, norms, variances, NMF reconstructions, quadratic forms) is floored first, in the updates, the loss and the masks alike, in the first iteration and later ones. "
     "The permutation solvers give finite scores also when a whole frequency bin is silent.",
     ["inputs", "configurations", "histories"],
     "any set of silent frames, all classes and algorithm choices, default flooring, any number of iterations",
     "Tests use noise-like mixtures without exact zeros; recordings padded with zeros then yield NaN or inf in the loss, the filter and all outputs.",
     BSS + ALG + LIN, [("flooring of frame-wise norms, variances and reconstructions", "ssspy/bss/*.py"), ("score_based_permutation_solver", "ssspy/algorithm/permutation_alignment.py")],
     "sign/zero abstract interpretation of the value graph with a distinguished silent slice of the frame axis",
     note="Judges values that are exactly zero by structure; a value that underflows only for particular data is out of reach.")
prop("P09", "Source model factors stay strictly positive",
     "After initialisation and after every iteration of ILRMA and multichannel NMF, every entry of the basis and of the activation, and every variance of Gaussian IVA, is strictly positive, whatever the mixture: each update ends with flooring, and what follows (normalisation) multiplies by positive factors only. "
     "(With partitioning and normalisation the basis also absorbs the latent variables, which may vanish.)",
     ["inputs", "configurations", "histories"],
     "all mixtures, all algorithm choices, partitioning and normalisation on or off, any number of iterations, default flooring",
     "A factor that reaches zero stays zero forever under multiplicative updates, or makes a later division fail; random test data never produce zeros.",
     ["ssspy/bss/ilrma.py", "ssspy/bss/mnmf.py", "ssspy/bss/iva.py", "ssspy/special/psd.py"],
     [("update_basis*, update_activation*, _init_nmf, normalize*", "ssspy/bss/ilrma.py, mnmf.py"), ("update_source_model", "ssspy/bss/iva.py")],
     "sign abstract interpretation of the value graph (with definiteness of Hermitian matrices) to a fixpoint over loops")
