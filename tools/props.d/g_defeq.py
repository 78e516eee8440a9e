prop("P26", "Numerical building blocks satisfy their defining equations",
     "Every function of ssspy.linalg, ssspy.special and ssspy.transform that computes a solution of an equation returns one, for every admissible argument (real or complex, any batch shape, any option value): eigh and eigh2 of type 1/2/3 solve A z = lambda B z / A B z = lambda z / B A z = lambda z with z normalised by B (types 1, 2) or B^-1 (type 3); gmeanmh of type 1/2/3 is the Hermitian geometric mean A#B / A^-1#B / A#B^-1, i.e. the solution of G A^-1 G = B / G A G = B / G A^-1 G = B^-1; sqrtmh and invsqrtmh return the Hermitian square root and its inverse; inv2 is the inverse of a 2x2 matrix; quadratic is x^H A x; solve solves a x = b for vector and matrix right-hand sides; cbrt is a cube root; the three values of solve_cubic are the three roots of the polynomial (also when the depressed cubic has no linear term); the prox functions satisfy the optimality condition of their penalty (soft threshold, y - x - mu / y = 0, Y - X - mu Y^-H = 0); softmax and logsumexp equal their definitions over the chosen axis; to_psd keeps a Hermitian positive definite matrix and otherwise takes the Hermitian part; whiten has identity output covariance; pca has uncorrelated outputs with the largest variance first (ascend=True) or last; lqpqm2 returns y with lambda y = H (y + v) for the lambda of its scalar equation, which does not depend on the normalization flag and is solved with its own derivative.",
     ["inputs", "configurations"],
     "every function in scope x real/complex x type/axis/option value x input rank, at symbolic arguments of symbolic size (exact arithmetic; floorings read as the identity; rounding, convergence of the Newton iteration and its starting point are not decided)",
     "A wrong conjugate or transposed factor in one type of a generalised eigenproblem, a root that only fails in the degenerate branch or a normalisation undone incompletely gives plausible numbers; the tests sample a few random matrices of a few types.",
     ["ssspy/linalg/eigh.py", "ssspy/linalg/mean.py", "ssspy/linalg/sqrtm.py", "ssspy/linalg/inv.py", "ssspy/linalg/polynomial.py", "ssspy/linalg/cubic.py", "ssspy/linalg/quadratic.py", "ssspy/linalg/prox.py", "ssspy/linalg/lqpqm.py", "ssspy/linalg/_solve.py", "ssspy/special/psd.py", "ssspy/special/softmax.py", "ssspy/special/logsumexp.py", "ssspy/transform/whiten.py", "ssspy/transform/pca.py"],
     [("eigh, eigh2, gmeanmh, sqrtmh, invsqrtmh, inv2, quadratic, solve, cbrt, solve_cubic, l1, l21, neg_log, neg_logdet, lqpqm2", "ssspy/linalg/*.py"), ("softmax, logsumexp, to_psd, whiten, pca", "ssspy/special/*.py, ssspy/transform/*.py")],
     "tensor normal forms of the returned value, with matrix-inverse, unitarity and spectral cancellation rules, substituted into the defining equation",
     note="Arguments are written in terms of the factors their decompositions give (Cholesky factor, eigenvectors, singular vectors as leaves with cancellation rules); a decomposition of any other matrix is reported with its line.")
