na("N01", "Objective does not increase under MM updates",
   "For majorisation-minimisation based methods (AuxIVA, ILRMA, MNMF, IPSDTA, CACGMM) the loss never increases from one iteration to the next, up to rounding and flooring.",
   ["inputs", "histories"], "all mixtures, initial values, iteration counts",
   "Tests check finiteness or decrease on one random mixture at most.",
   BSS, [("update_once", "ssspy/bss/*.py")],
   "Needs an inequality proof over real-valued tensors (majorisation); a source analysis can compare the update's algebraic form with the loss, "
   "but cannot bound the runtime values, and flooring breaks the algebra.")
na("N02", "Separation quality",
   "Given sufficiently long determined mixtures of independent sources, the methods recover the sources up to permutation and scale.",
   ["inputs"], "all mixtures of independent sources", "Statistical, not decided by tests either.",
   BSS, [("whole algorithm", "ssspy/bss/*.py")], "Statistical property of runtime data; no static argument can bound it.")
na("N03", "PCM round trip",
   "Writing a signal with wavwrite and reading it with wavread returns the same samples up to quantisation.",
   ["inputs"], "all signals and sample formats", "Tests read and write one short file per format.",
   ["ssspy/io/__init__.py"], [("wavread, wavwrite", "ssspy/io/__init__.py")],
   "The numeric round-trip error is a runtime quantity (dtype casts, byte layouts of numpy); the structural part (header fields, saturation) is claimed as P28.")
