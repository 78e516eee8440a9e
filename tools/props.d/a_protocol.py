prop("P01", "Arguments given by the caller are never modified",
     "No public separation method, update function, linear-algebra routine, transform or permutation solver writes into an "
     "array its caller passed in (the mixture, initial filters or model parameters, matrices), nor into an array it already handed "
     "back, unless the caller asked for it with an in-place option (overwrite=True). With that option the result is written into "
     "the caller's array.",
     ["inputs", "configurations"],
     "all arrays (any shape, values, dtype) and all documented algorithm/option combinations, on every code path",
     "The tests pass freshly generated arrays and never look at them afterwards; aliasing depends on which option combination and "
     "branch runs.",
     BSS + ALG + LIN + TRA + SPE + [B + "_update_spatial_model.py"],
     [("defensive copies in _reset/__call__", B + "base.py"), ("overwrite flag", B + "_update_spatial_model.py")],
     "interprocedural buffer-ownership (escape/alias) analysis",
     "Every in-place store in every scenario is traced to the buffer it hits; buffers reachable from caller arguments must not be hit.")
prop("P02", "Loss and callback protocol",
     "A call with n iterations reports the loss of the model and runs every callback once before the first update and exactly once "
     "after each update, so the recorded loss has n+1 entries in order (n+1 more on a further call), and none are recorded when record_loss is "
     "false. The loss and the state a callback sees are those of the parameters at that moment, already updated and consistent with each other, and "
     "initial_call=False suppresses only the initial loss and callbacks. Computing the loss has no effect on the estimate.",
     ["histories", "configurations"],
     "every separation class, every algorithm choice, every number of iterations and callbacks, record_loss/initial_call on or off, first and later calls",
     "Tests run few iterations of some configurations and check lengths of a few; staleness of what the callback sees is not checked at all.",
     BSS, [("iteration loop", B + "base.py IterativeMethodBase.__call__"), ("compute_loss overrides", "ssspy/bss/*.py")],
     "typestate/event-order analysis over the interprocedural event tree, plus value-graph freshness comparison")
prop("P03", "Post-processing happens once, in order, with the right reference",
     "After the iterations, and only then, the enabled post-processing is applied exactly once: permutation alignment first (where the method has it), "
     "then scale restoration; disabled steps have no effect, and scale_restoration=True means projection back. Both rescale the final estimate to "
     "the mixture the caller passed, at the configured reference channel, also when the algorithm itself works on whitened or "
     "transformed data.",
     ["configurations", "inputs"],
     "every class with scale restoration or permutation alignment, all option values, all algorithm choices, all reference channels, any number of iterations including zero",
     "The tests only check output shapes for one or two settings; they do not see a doubled, missing, misordered or wrongly referenced rescaling.",
     BSS + ALG, [("restore_scale / solve_permutation call order", "ssspy/bss/*.py __call__"),
                 ("apply_projection_back, apply_minimal_distortion_principle", "ssspy/bss/*.py")],
     "event-order analysis and value-graph matching over all option rows")
prop("P04", "The returned estimate is the stored filter applied to the mixture",
     "What a method returns is its own final demixing filter (or final posterior or model) applied to the mixture passed to that call, and "
     "equals the estimate stored on the object; no stale filter, intermediate estimate, whitened or normalised mixture is returned in its place.",
     ["configurations", "histories"],
     "every separation class, algorithm choice, post-processing choice, first and later calls",
     "Tests check the shape of the return value; whether it is consistent with the final filter depends on the option path.",
     BSS, [("separate()", B + "base.py and overrides"), ("final assignment in __call__", "ssspy/bss/*.py")],
     "value-flow graph matching of the return value against final state")
prop("P05", "Starting values are honoured and a second call continues",
     "Initial values the caller supplies (demixing filter, basis, activation, latent, diagonalizer, spatial, dual variables) are the ones the iterations start "
     "from, and nothing is drawn at random for a supplied one. A further call on the same object without initial values starts exactly "
     "from the parameters the previous call ended with.",
     ["histories", "configurations"],
     "every class, algorithm choice and subset of initial values, repeated calls",
     "Tests never compare a resumed run to a continued one, and initial values are given in a handful of tests only.",
     BSS, [("_reset / _init_instant methods, hasattr guards", "ssspy/bss/*.py")],
     "value-graph comparison of state across calls",
     "Known findings: methods without an explicit demixing filter (ISS/IPA) raise TypeError on the second call.")
