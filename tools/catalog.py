"""Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), claim=True, reason=None, note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=mech, claim=claim, reason=reason, note=note, technique=technique))


prop("C01", "Exact OT returns a feasible optimal plan with certifying dual potentials",
     "For every pair of non-negative weight vectors of equal total mass and every finite cost matrix, the exact solver returns a non-negative plan whose row and column sums are the given weights. Its dual potentials satisfy alpha_i + beta_j <= M_ij and their dual value equals the reported cost, which is the cost of the returned plan, so the plan is optimal. Negative weights or different total masses are refused, and empty weights mean uniform ones.",
     "all costs and all weights (symbolic) of problems up to 3x4, every pivot sequence the simplex can take on them",
     "tests compare a handful of random Gaussian clouds; degenerate bases, ties, zero weights and the pivot order they trigger are not covered",
     ["ot/lp/_network_simplex.py", "ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/emd_wrap.pyx"],
     [("network simplex", "ot/lp/network_simplex_simple.h: NetworkSimplexSimple::run"), ("dual estimation", "ot/lp/_network_simplex.py: estimate_dual_null_weights"), ("front end", "ot/lp/_network_simplex.py: emd")])

prop("C02", "Exact OT loss equals the plan cost and its gradients are the dual potentials",
     "The loss returned by the exact solver equals the minimum transport cost for every admissible input, for one or several target histograms alike, and the plan it can return attains it. The gradients it propagates are the plan for the cost and zero-mean dual potentials for the weights. Each column of a multi-histogram problem gives the loss of the separate problem.",
     "all costs and weights up to 2x3, one and two target histograms, dense and sparse costs",
     "the tests check gradients numerically at a few random points of one shape",
     ["ot/lp/_network_simplex.py", "ot/backend.py"],
     [("loss and gradients", "ot/lp/_network_simplex.py: emd2"), ("multi histograms", "ot/lp/_network_simplex.py: emd2 / parmap")])

prop("C03", "Warm starts and thread counts never change the exact OT value",
     "Starting the exact solver from any dual potentials, or asking for several threads, yields a feasible optimal plan and the same optimal cost as a cold single-threaded start, for every input. The potentials returned by a first solve can be fed back to it.",
     "all costs and all starting potentials on 2x2 and 2x3 problems; every thread count in the bounds with every partition of the arc search it produces",
     "tests try a few potentials (optimal or random) on one random problem",
     ["ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h", "ot/lp/_network_simplex.py"],
     [("warm start", "ot/lp/network_simplex_simple.h: setWarmstartPotentials"), ("block search", "ot/lp/network_simplex_simple_omp.h: findEnteringArc")],
     over=("inputs", "schedules", "configurations"))

prop("C04", "Sparse and lazy exact solvers agree with the dense one",
     "Solving with a sparse cost restricted to the allowed edges returns a feasible plan supported on them with the minimal cost among such plans, and with all edges allowed it gives the dense optimum. Solving directly from samples without a cost matrix gives the cost, plan and potentials of the dense problem with the corresponding pairwise cost, for each supported metric.",
     "all edge costs and weights of small bipartite graphs (all edge sets up to 2x3), all sample coordinates up to 2x2 points in dimension 1 and 2",
     "the tests compare sparse with dense on a few k-nearest-neighbour graphs",
     ["ot/lp/_network_simplex.py", "ot/lp/EMD_wrapper.cpp", "ot/lp/sparse_bipartitegraph.h", "ot/lp/emd_wrap.pyx"],
     [("sparse wrapper", "ot/lp/EMD_wrapper.cpp: EMD_wrap_sparse"), ("lazy wrapper", "ot/lp/EMD_wrapper.cpp: EMD_wrap_lazy"), ("front end", "ot/lp/_network_simplex.py: emd2_lazy")])

prop("C05", "One-dimensional exact OT is the optimal monotone coupling",
     "For any real positions and weights (unsorted, with ties, of different sizes), the 1D solvers return a plan with the given marginals whose cost is the minimum over all couplings, for the supported convex costs, and the cost they report is the cost of that plan. The quantile-based distances return the same value as the plan-based ones for every p >= 1, independently for each column.",
     "all positions and weights up to 3x3 points, all orderings and ties",
     "the tests use random samples, where ties, zero weights and equal quantile levels never happen",
     ["ot/lp/solver_1d.py", "ot/lp/emd_wrap.pyx"],
     [("monotone coupling", "ot/lp/emd_wrap.pyx: emd_1d_sorted"), ("quantiles", "ot/lp/solver_1d.py: quantile_function, wasserstein_1d")])

prop("C06", "Optimal transport on the circle",
     "For any points of the circle and any weights, the circular transport costs are non-negative, are zero between equal measures, do not change when both measures are rotated or represented modulo the period, and equal the minimum over cuts of the line transport cost. The semi-discrete cost against the uniform measure equals its closed form.",
     "all positions and weights of up to 3 points per measure",
     "the tests evaluate a few sampled circular distributions",
     ["ot/lp/solver_circle.py"],
     [("binary search", "ot/lp/solver_circle.py: binary_search_circle"), ("level median", "ot/lp/solver_circle.py: wasserstein1_circle")])

prop("C07", "All balanced Sinkhorn variants compute the same scaling iteration",
     "For every weights, cost and regularisation, the standard, log-domain and stabilised Sinkhorn solvers return after a given number of iterations the same plan diag(u) exp(-M/reg) diag(v), with the column marginal satisfied and scalings or potentials that reproduce the plan. The reported error is the true marginal violation of the returned iterate, stopping happens exactly when it drops below the threshold, and absorbing potentials, warm starts, epsilon scaling and several histograms at once change nothing.",
     "all kernels and weights up to 2x3, one to four iterations, every point at which potentials are absorbed",
     "the tests compare converged solutions of one random problem: wrong intermediate iterates, error values or absorption steps converge to the same answer",
     ["ot/bregman/_sinkhorn.py"],
     [("scaling iterations", "ot/bregman/_sinkhorn.py: sinkhorn_knopp, sinkhorn_log, sinkhorn_stabilized, sinkhorn_epsilon_scaling")],
     over=("inputs", "histories"))

prop("C08", "Greedy, screened, factored-kernel and sample-based Sinkhorn solve the same OT",
     "The greedy solver exactly projects the most violated marginal at each step, the screened solver with a full budget solves the entropic problem, and the solver with a factored kernel performs the Sinkhorn iteration of the product kernel. The solvers that take samples return the plan and losses of the problem with the pairwise cost, lazily or not, whatever the batch size, and the Sinkhorn divergence is the debiased combination of three such losses.",
     "all kernels up to 2x3 and up to three iterations, all batch sizes",
     "the tests compare converged values on one random problem with one batch size",
     ["ot/bregman/_sinkhorn.py", "ot/bregman/_screenkhorn.py", "ot/bregman/_empirical.py", "ot/lowrank.py"],
     [("greedy step", "ot/bregman/_sinkhorn.py: greenkhorn"), ("screening", "ot/bregman/_screenkhorn.py: screenkhorn"), ("samples", "ot/bregman/_empirical.py: empirical_sinkhorn, empirical_sinkhorn2, empirical_sinkhorn_divergence")])

prop("C11", "Unbalanced Sinkhorn performs the scaling iteration of its penalised problem",
     "For every positive kernel, weights, regularisation and marginal penalties (scalar, per side, infinite), the unbalanced Sinkhorn solvers (standard, stabilised, translation invariant, with entropy or KL regularisation and any reference) return the plan of the generalised scaling iteration, whose fixed points satisfy the optimality conditions of the penalised problem. Several targets at once, warm starts and absorption of large scalings change nothing, an infinite penalty enforces the marginal, and the unbalanced barycenter iterates its own scaling rule.",
     "all kernels and weights up to 2x3, one to three iterations, every absorption point",
     "the tests compare converged solutions with one penalty, where wrong exponents or lost iterates disappear",
     ["ot/unbalanced/_sinkhorn.py"],
     [("scaling", "ot/unbalanced/_sinkhorn.py: sinkhorn_knopp_unbalanced"), ("absorption", "ot/unbalanced/_sinkhorn.py: sinkhorn_stabilized_unbalanced"), ("translation invariance", "ot/unbalanced/_sinkhorn.py: sinkhorn_unbalanced_translation_invariant")],
     over=("inputs", "histories"))

prop("C12", "Unbalanced OT by MM and L-BFGS-B optimises the documented objective",
     "The majorisation-minimisation solver keeps plans non-negative and each of its steps is the exact minimiser of the majorant, so the documented objective never increases and its fixed points are stationary. The L-BFGS-B solver hands its optimiser the documented objective with its exact gradient, for every combination of divergence and regulariser, and the returned losses are the documented terms at the returned plan.",
     "all costs, plans, weights and penalties on 1x2, 2x2 and 2x3 problems",
     "tests check convergence on one random problem; a wrong term of gradient or loss only shows for particular penalties",
     ["ot/unbalanced/_mm.py", "ot/unbalanced/_lbfgs.py"],
     [("MM step", "ot/unbalanced/_mm.py: mm_unbalanced"), ("objective and gradient", "ot/unbalanced/_lbfgs.py: _get_loss_unbalanced")])

prop("C13", "Partial OT transports exactly the requested mass at minimal cost",
     "For all weights, costs and admissible masses, the partial solver returns a non-negative plan with row and column sums not above the weights, with exactly the requested total mass and with minimal cost among such plans; the penalised form is optimal for its penalty. Masses that are negative or larger than either total are refused. The entropic form performs Dykstra iterations of its three projections, and the 1D solver selects for each number of points the cheapest matching.",
     "all costs and weights up to 2x3, all masses, one and two dummy points; all orders of up to 3+3 points on the line",
     "tests use one random problem per function with positive costs and half of the mass",
     ["ot/partial/partial_solvers.py", "ot/partial/partial_cython.pyx"],
     [("extended problem", "ot/partial/partial_solvers.py: partial_wasserstein"), ("penalised", "ot/partial/partial_solvers.py: partial_wasserstein_lagrange"), ("Dykstra", "ot/partial/partial_solvers.py: entropic_partial_wasserstein"), ("1D", "ot/partial/partial_cython.pyx")])

prop("C14", "Exact Gromov-Wasserstein solvers optimise the documented objective",
     "For every structure matrices, feature cost, weights and loss, the (fused) Gromov-Wasserstein solvers evaluate the documented quadratic objective and its exact gradient at every feasible plan. Each step goes to a coupling that minimises the linearised objective, the plan returned is feasible and never worse than the starting plan, and the values, gradients, potentials and log entries returned belong to that plan.",
     "all structure matrices and feature costs up to 3x3 (symmetric or not), both losses, one and two conditional-gradient steps from any starting vertex",
     "the tests check a handful of random problems where the plan is a permutation; a wrong constant, a missing transpose for asymmetric structures or a value of another plan still passes",
     ["ot/gromov/_gw.py", "ot/gromov/_utils.py", "ot/optim.py"],
     [("objective and gradient", "ot/gromov/_utils.py: init_matrix, gwloss, gwggrad"), ("solver", "ot/gromov/_gw.py: gromov_wasserstein, fused_gromov_wasserstein"), ("values and gradients", "ot/gromov/_gw.py: gromov_wasserstein2, fused_gromov_wasserstein2")])

prop("C15", "Conditional-gradient solvers take exact, monotone, feasible steps",
     "The generic, generalised, semi-relaxed and partial conditional-gradient solvers minimise the regularised linear cost they document: each direction minimises the linearised objective over the solver's feasible set, each step length comes from the line search on that direction, the iterates stay feasible, and the recorded losses are the objective at the recorded iterates. The Armijo search returns a step of sufficient decrease and the quadratic search the exact minimiser on [0,1].",
     "all costs, quadratic regularisers and starting plans on 2x2 problems, one and two iterations, every quadratic and every decrease pattern of the line searches",
     "tests run the solvers to convergence on one smooth random problem where wrong step lengths or stale costs still converge",
     ["ot/optim.py"],
     [("generic solver", "ot/optim.py: generic_conditional_gradient"), ("variants", "ot/optim.py: cg, gcg, semirelaxed_cg, partial_cg"), ("line searches", "ot/optim.py: line_search_armijo, solve_1d_linesearch_quad")],
     over=("inputs", "histories"))

prop("C16", "Semi-relaxed and partial Gromov-Wasserstein optimise their objective",
     "For every structure matrices, feature cost, loss and mass, the semi-relaxed and partial (fused) Gromov-Wasserstein solvers return plans satisfying their own constraints (given first marginal; marginals not exceeded and exactly the requested mass). Each step goes to a minimiser of the linearised objective with the best step length, losses never increase, the entropic variants linearise the same objective, and the values, parts and gradients returned are those of the returned plan.",
     "all structure matrices and feature costs of 2x2 (2x3) problems, symmetric or not, both losses, one and two steps",
     "the tests check a handful of random symmetric problems at convergence",
     ["ot/gromov/_semirelaxed.py", "ot/gromov/_partial.py", "ot/optim.py"],
     [("semi-relaxed", "ot/gromov/_semirelaxed.py: semirelaxed_gromov_wasserstein, semirelaxed_fused_gromov_wasserstein"), ("partial", "ot/gromov/_partial.py: partial_gromov_wasserstein, partial_fused_gromov_wasserstein"), ("entropic", "ot/gromov/_semirelaxed.py, _partial.py: entropic_*")])

prop("C17", "Co-optimal transport and unbalanced cross-space OT follow their blocks",
     "For every data matrices, weights and penalties, (fused, unbalanced) co-optimal transport and unbalanced Gromov-Wasserstein alternate exact blocks: each sample or feature plan solves the problem whose cost is the documented linearisation at the other plan, with the documented marginal weights and scaled penalties. The values, parts and gradients returned are the documented objective and its derivatives at the returned plans.",
     "all entries of 2x2 and 2x3 data matrices, plans returned by the inner solvers, one and two outer iterations, every divergence and regularisation type",
     "the tests check symmetric random problems at convergence, where wrong block costs, penalties or value terms disappear",
     ["ot/coot.py", "ot/gromov/_unbalanced.py", "ot/unbalanced/_mm.py"],
     [("block descent", "ot/coot.py: co_optimal_transport"), ("unbalanced", "ot/gromov/_unbalanced.py: fused_unbalanced_across_spaces_divergence"), ("values", "ot/coot.py: co_optimal_transport2")],
     over=("inputs", "histories"))

prop("C18", "ot.solve, solve_gromov and solve_sample describe the problem they solved",
     "For every input and option combination, the unified solvers return a result whose plan is the one of the documented problem (default uniform weights included), whose value, linear and quadratic parts are the documented objective evaluated at that plan, whose potentials reproduce or certify the plan, and whose marginals and lazy views agree with it. Options (reference measures, initial plans and potentials, penalties per side, gradient modes, iteration limits) reach the solver, and solving from samples is solving with the pairwise cost.",
     "all costs and kernels of 2x2 and 2x3 problems for every combination of regularisation, marginal penalty and gradient mode offered, one and two iterations",
     "the tests compare converged plans of one random problem with uniform weights; values with asymmetric options, references or penalties are not compared with the documented objective",
     ["ot/solvers.py", "ot/utils.py"],
     [("dispatch and values", "ot/solvers.py: solve"), ("quadratic problems", "ot/solvers.py: solve_gromov"), ("samples", "ot/solvers.py: solve_sample"), ("results", "ot/utils.py: OTResult")],
     over=("inputs", "configurations"))

prop("C19", "Entropic Gromov-Wasserstein solves the documented subproblem at each step",
     "For every structures, features, weights, loss and regularisation, each iteration of the entropic (fused) Gromov-Wasserstein solvers is the Sinkhorn problem whose cost is the gradient of the documented objective at the current plan (with the proximal term for the proximal point variant, the projection step for the alternating projections), with the given weights, warm starts and options. The losses, values, parts and gradients returned are the objective at the returned plan, and the stopping error is the distance between iterates.",
     "all structures and features on 2x2 and 2x3 problems (symmetric or not), both losses, every plan the Sinkhorn solver may return, one to three iterations",
     "the tests check marginals and losses of converged symmetric problems",
     ["ot/gromov/_bregman.py", "ot/gromov/_utils.py"],
     [("projected gradient and proximal point", "ot/gromov/_bregman.py: entropic_gromov_wasserstein, entropic_fused_gromov_wasserstein"), ("alternating projections", "ot/gromov/_bregman.py: BAPG_gromov_wasserstein, BAPG_fused_gromov_wasserstein")],
     over=("inputs", "histories"))

prop("C20", "Gromov-Wasserstein barycenters take exact block updates",
     "For every structures, features, weights and loss, each update of the (fused, entropic, semi-relaxed, kept-fixed) Gromov-Wasserstein barycenters is the exact minimiser of the barycenter objective in that block for the current plans: the structure and feature formulas are stationary for the documented loss, fixed blocks stay as given, inner solvers receive the current barycenter and the given weights and options. The reported losses and errors are those of the returned iterate.",
     "all structures, features and inner plans of two measures with two or three nodes, one to three outer iterations, both losses, both stopping criteria",
     "the tests only check the shapes and finite values of barycenters of random graphs",
     ["ot/gromov/_gw.py", "ot/gromov/_bregman.py", "ot/gromov/_semirelaxed.py", "ot/gromov/_utils.py"],
     [("update formulas", "ot/gromov/_utils.py: update_barycenter_structure, update_barycenter_feature"), ("barycenters", "ot/gromov/_gw.py: gromov_barycenters, fgw_barycenters"), ("entropic", "ot/gromov/_bregman.py: entropic_gromov_barycenters, entropic_fused_gromov_barycenters")],
     over=("inputs", "histories"))

prop("C21", "Smooth and sparsity-constrained OT optimise their documented duals",
     "For every cost, weights, regularisation type and sparsity level, the smooth OT solvers give their optimiser the documented dual or semi-dual objective and its exact gradient, started at zero with the requested method and tolerance. The plan they return is the one associated with the dual point: its marginal violation is the gradient, it attains the convex conjugate, respects the sparsity limit, and has no duality gap at a stationary point.",
     "all costs and dual points of 2x2, 2x3 and 3x2 problems, every sparsity level, every regulariser offered",
     "the tests compare the converged plans of one random problem with those of another solver to three digits",
     ["ot/smooth.py", "ot/utils.py"],
     [("dual", "ot/smooth.py: dual_obj_grad, get_plan_from_dual"), ("semi-dual", "ot/smooth.py: semi_dual_obj_grad, get_plan_from_semi_dual"), ("regularisers", "ot/smooth.py: NegEntropy, SquaredL2, SparsityConstrained")])

prop("C22", "Cost matrices, normalisations, projections and lazy tensors are exact",
     "For every samples, the pairwise costs equal the documented metric (also computed by tensor or per-feature, for one set of samples with itself, or only on given pairs, whatever the batch size), normalisation divides once by the documented statistic and leaves its input unchanged. Projections on the simplex, the sparse simplex and the positive semidefinite cone return the closest point, lazy tensors and their reductions agree with the dense ones for every batch size, label masks and data scalers follow their definition.",
     "all coordinates (two per cloud) of two or three points in dimension two and three, all vectors up to dimension 3, every batch size",
     "the tests compare with scipy on one random cloud: ties, equal points, projections on faces and batch boundaries are not covered",
     ["ot/utils.py", "ot/smooth.py"],
     [("metrics", "ot/utils.py: dist, euclidean_distances, sparse_ot_dist"), ("projections", "ot/utils.py: proj_simplex, projection_sparse_simplex, proj_SDP"), ("lazy tensors", "ot/utils.py: LazyTensor, reduce_lazytensor")],
     over=("inputs", "configurations"))

prop("C23", "Entropic barycenters are the iterates of the Bregman projections",
     "For every histograms, kernel and barycenter weights, each entropic barycenter algorithm (plain, log-domain, stabilised with any absorption threshold, debiased, convolutional on images, class proportions for multi-source adaptation, dictionary unmixing) returns the documented iterate of the weighted iterative Bregman projections, and its reported error is the spread of the marginals of that iterate. Free-support barycenters move each point to the weighted mean of the barycentric projections. Inputs stay unchanged.",
     "all kernels and masses of two or three bins and two or three histograms (uniform and non-uniform weights), 2x2 and 3x2 images, one to three iterations, every absorption threshold",
     "the tests compare converged barycenters with uniform weights; non-uniform weights, absorption and the class proportions of several domains are not compared with a reference",
     ["ot/bregman/_barycenter.py", "ot/bregman/_convolutional.py", "ot/bregman/_dictionary.py", "ot/bregman/_utils.py"],
     [("barycenters", "ot/bregman/_barycenter.py: barycenter_sinkhorn, _barycenter_sinkhorn_log, barycenter_stabilized, barycenter_debiased"), ("images", "ot/bregman/_convolutional.py"), ("unmixing and proportions", "ot/bregman/_dictionary.py: unmix, ot/bregman/_barycenter.py: jcpot_barycenter")],
     over=("inputs", "histories"))

prop("C24", "Exact barycenters and multi-marginal plans are optimal and consistent",
     "For every histograms, costs, supports and weights, the linear-programming barycenter solves the documented linear program (whatever solver is asked) and returns its solution. The free-support, generalised and generic-cost barycenters move each point to the exact minimiser for the optimal plans computed at the current points with the given weights. Gluing plans yields a joint plan with the given pairwise marginals, and the Monge multi-marginal solver returns the objective and dual-feasible gradients of its iterate.",
     "all costs, points and weights of two or three measures with one to three points, one and two iterations, every mass pattern of the multi-marginal problem up to 3 marginals and 4 bins",
     "the tests run converged random problems and check shapes or means; unequal weights, supports of different sizes, empty bins and stopping are not compared with a reference",
     ["ot/lp/_barycenter_solvers.py", "ot/lp/dmmot.py"],
     [("linear program", "ot/lp/_barycenter_solvers.py: barycenter"), ("free supports", "ot/lp/_barycenter_solvers.py: free_support_barycenter, generalized_free_support_barycenter, free_support_barycenter_generic_costs, gluing"), ("multi-marginal", "ot/lp/dmmot.py: dmmot_monge_1dgrid_loss, dmmot_monge_1dgrid_optimize")],
     over=("inputs", "histories"))

prop("C25", "Gaussian and mixture OT follow the closed forms for every parameter",
     "For every means, covariances and mixture weights, the Bures-Wasserstein mapping pushes the source Gaussian on the target one, the distances (single, paired, all pairs, mixtures, empirical with any weights and bias) equal the closed form, Gaussian barycenter algorithms take the documented step and are stationary exactly at barycenters, and the Gaussian Gromov-Wasserstein value and map are the closed forms. Gaussian mixture densities, distances, plans, maps and barycenters are those of the discrete problem between components.",
     "all symmetric positive definite covariances with a known root in dimension one and two, all means, weights and points, mixtures with up to three components",
     "the tests check one random problem per function with uniform weights, often only against the same code in another backend",
     ["ot/gaussian.py", "ot/gmm.py"],
     [("Bures-Wasserstein", "ot/gaussian.py: bures_wasserstein_mapping, bures_wasserstein_distance, bures_wasserstein_barycenter"), ("empirical", "ot/gaussian.py: empirical_bures_wasserstein_mapping, empirical_bures_wasserstein_distance"), ("Gaussian GW", "ot/gaussian.py: gaussian_gromov_wasserstein_distance, gaussian_gromov_wasserstein_mapping"), ("mixtures", "ot/gmm.py")],
     over=("inputs", "configurations"))

prop("C26", "Batched solvers give every problem of the batch its own solution",
     "For every batch of costs or samples, weights, regularisation and options, each slice of the result of the batched Sinkhorn, log-domain Sinkhorn and Gromov-Wasserstein solvers (plan, potentials, values, iteration count) is the documented iterate of that problem alone, with uniform weights by default, and iterations end only when every problem of the batch meets the tolerance. Batched distances equal the documented metric on each pair, tensor products and losses equal the four-index sums. Inputs stay unchanged.",
     "all batches of one or two problems of size 2x2, 2x3 and 3x2 (a few symbolic entries each), edge features of dimension 1 and 2, one to three inner or outer iterations",
     "the tests compare a batch of one random problem repeated, or converged values; a mistake mixing problems, features or options of a batch is not visible there",
     ["ot/batch/_linear.py", "ot/batch/_quadratic.py", "ot/batch/_utils.py"],
     [("linear problems", "ot/batch/_linear.py: dist_batch, solve_batch, solve_sample_batch"), ("quadratic problems", "ot/batch/_quadratic.py: tensor_batch, solve_gromov_batch, loss_quadratic_batch"), ("projections", "ot/batch/_utils.py: bregman_projection_batch, bregman_log_projection_batch")],
     over=("inputs", "configurations"))

prop("C27", "Sliced distances and plans aggregate the exact one-dimensional problems",
     "For every points, weights and directions, the (max-)sliced Wasserstein distance is the mean (maximum) over the given or seeded unit directions of the exact one-dimensional transport cost of the projected points, the spherical ones the mean over the planes of the circular cost with the given weights, and samples off the sphere are refused. Sliced plans are optimal on each line with the given marginals and report their cost for the chosen metric, the best and the expected plans follow from them. Inputs stay unchanged.",
     "all coordinates (two per problem) or directions of clouds of up to three points in the plane, weights with equal or different masses, one to three directions; two planes and symbolic circle coordinates on the sphere",
     "the tests compare two random clouds with uniform weights and default directions; given directions, unequal masses, and per-direction costs are not compared with a reference",
     ["ot/sliced/_sliced_distances.py", "ot/sliced/_sliced_plans.py", "ot/sliced/_spherical_sliced.py", "ot/sliced/_utils.py"],
     [("distances", "ot/sliced/_sliced_distances.py: sliced_wasserstein_distance, max_sliced_wasserstein_distance"), ("plans", "ot/sliced/_sliced_plans.py: sliced_plans, min_sliced_transport_plan, expected_sliced_plan"), ("sphere", "ot/sliced/_spherical_sliced.py")],
     over=("inputs", "configurations"))

prop("C28", "The regularization path holds the exact plan of every regularisation",
     "For every weights, costs (ties included) and regularisation, every plan of the path of L2-penalised (semi-)relaxed optimal transport, and every plan read between, before or at breakpoints of that path, satisfies the optimality conditions of the documented problem at its regularisation. The path decreases to the requested regularisation, the last plan is the one returned, an interrupted path only holds optimal plans, and inputs stay unchanged.",
     "problems from 1x2 to 3x3, one or two symbolic parameters (a cost, a mass, the requested or the queried regularisation), costs with and without ties",
     "the tests check the marginals of the final plan of one generic problem: ties, intermediate plans and interruptions are not looked at",
     ["ot/regpath.py"],
     [("paths", "ot/regpath.py: fully_relaxed_path, semi_relaxed_path"), ("active set", "ot/regpath.py: ot_next_gamma, semi_relaxed_next_gamma, compute_next_removal, complement_schur"), ("interpolation", "ot/regpath.py: compute_transport_plan")],
     over=("inputs",))

prop("C29", "Domain adaptation transports fit the stated problem and map samples",
     "For every samples, labels and options, a fitted transport passes its documented cost, weights and options to its solver and keeps the returned coupling. Samples of the fit are mapped to their barycentric images (zero where there is no mass), new samples by the documented out-of-sample rule whatever the batch size, in both directions, and labels by the mass of each class. Linear, Laplace, group-lasso and multi-source solvers optimise their documented objectives. Inputs stay unchanged.",
     "two or three source and target points in dimension 1-2 with several symbolic coordinates and coupling entries, every label pattern listed, batches of 1, 2 and 128, one to three outer iterations",
     "the tests check shapes, marginals and that close points map closely on one random data set; options, empty rows, label masses and inverse maps are not compared with a reference",
     ["ot/da.py"],
     [("transports", "ot/da.py: BaseTransport and its subclasses"), ("group regularisation", "ot/da.py: sinkhorn_lpl1_mm, sinkhorn_l1l2_gl"), ("Laplace", "ot/da.py: emd_laplace")],
     over=("inputs", "configurations"))

prop("C30", "Mapping estimation solves its stated alternating problems",
     "For every samples, couplings and parameters, joint mapping estimation (linear or kernel, with or without bias) alternates the stated coupling problem and the exact map for that coupling, reports the documented objective at each alternation and stops on its relative change. The fitted transport maps its own samples through the coupling and others through the map. Nearest Brenier potentials pose exactly the documented quadratic programs, class by class, and return their solutions.",
     "two or three source and target points in dimension 1-2, symbolic coordinates, couplings, trade-off and map entries, 0 to 3 alternations; the quadratic programs compared at every value of their variables",
     "the tests fit one random data set per option and check marginals or that two backends agree; objective values, gradients and constraints are not compared with a reference",
     ["ot/mapping.py", "ot/da.py"],
     [("joint estimation", "ot/mapping.py: joint_OT_mapping_linear, joint_OT_mapping_kernel"), ("Brenier potentials", "ot/mapping.py: nearest_brenier_potential_fit, nearest_brenier_potential_predict_bounds"), ("transports", "ot/da.py: MappingTransport, NearestBrenierPotential")],
     over=("inputs", "configurations"))

prop("C31", "Low-rank couplings keep their constraints and report their own cost",
     "For every samples, weights, rank, regularisation and step rule, the factored cost equals (or is proportional to, when rescaled) the squared Euclidean cost, the initial factors have the given marginals, each mirror step has the documented direction with one common positive step, and each Dykstra projection is the documented one: equal column sums of both factors, weights bounded below, stop below the tolerance. Plan and values reported are those of the returned factors, for transport and Gromov-Wasserstein. Impossible ranks and bounds are refused.",
     "two or three points, ranks one to three, symbolic coordinates, weights, kernels or factors, one to three projections or mirror steps",
     "the tests check the marginals of one converged uniform problem; values at a stopped iterate, weights at their bound, given factored costs and default ranks are not looked at",
     ["ot/lowrank.py", "ot/gromov/_lowrank.py"],
     [("transport", "ot/lowrank.py: compute_lr_sqeuclidean_matrix, _init_lr_sinkhorn, _LR_Dysktra, lowrank_sinkhorn, kernel_nystroem"), ("Gromov-Wasserstein", "ot/gromov/_lowrank.py: lowrank_gromov_wasserstein_samples, _flat_product_operator")],
     over=("inputs", "configurations"))

prop("C32", "Sampled and quantized Gromov-Wasserstein follow their definitions",
     "For every structures, weights and losses, the sampled estimate averages the loss over the drawn pairs in the order of the arguments and its mean over the draws is the Gromov-Wasserstein objective of the plan; pointwise and sampled solvers update the plan by the documented one-dimensional or gradient problem and return the best or last one. Quantized plans glue the local couplings into a plan between the nodes, in their order, with the given marginals, and report its fused objective; partition and representant methods and solver options asked for are used.",
     "two to four nodes per space, one to three parts, symbolic structures, features, weights, plans; every column draw for the mean, prescribed draws elsewhere",
     "the tests use uniform weights, symmetric losses and check marginals: node order, asymmetric losses and the reported value are not compared with a reference",
     ["ot/gromov/_estimators.py", "ot/gromov/_quantized.py"],
     [("sampled solvers", "ot/gromov/_estimators.py: GW_distance_estimation, pointwise_gromov_wasserstein, sampled_gromov_wasserstein"), ("quantized", "ot/gromov/_quantized.py: quantized_fused_gromov_wasserstein, quantized_fused_gromov_wasserstein_samples, format_partitioned_graph")],
     over=("inputs", "configurations"))

prop("C33", "Gromov-Wasserstein dictionaries fit and report the stated reconstruction error",
     "For every structures (symmetric or not), features, atoms and weights, linear unmixing alternates the documented coupling problem with exact steps on segments of the simplex towards the steepest atoms, never increases the error, and returns a weight vector, embedding and plan whose regularised error is the one reported. Dictionary learning takes, on each batch, the gradient step (plain or Adam) of the batch error, projects the atoms as asked, logs the errors and returns the atoms of the best epoch. Inputs stay unchanged.",
     "two or three nodes, two or three atoms, features of dimension 1-2, one or two symbolic entries of the structures, atoms, plans or parameters, one to four alternations, one to three epochs",
     "the tests check that errors decrease on one random symmetric data set; gradients, segment steps and reported errors are not compared with a reference",
     ["ot/gromov/_dictionary.py"],
     [("unmixing", "ot/gromov/_dictionary.py: gromov_wasserstein_linear_unmixing, fused_gromov_wasserstein_linear_unmixing"), ("learning", "ot/gromov/_dictionary.py: gromov_wasserstein_dictionary_learning, fused_gromov_wasserstein_dictionary_learning")],
     over=("inputs", "configurations"))

prop("C34", "Stochastic and weak transport follow their dual and barycentric objectives",
     "For every weights, costs, potentials and regularisation, a coordinate or batch gradient is, over the draws, the gradient of the entropic semi-dual or dual with the given weights; stochastic averaged gradient, averaged and plain stochastic gradient follow their documented updates, and solvers return the plan and potentials of their last iterate. The marginals of the dual plans are the gradient of the dual losses. Weak transport poses the barycentric objective with its exact gradient, weightless samples included.",
     "two or three source and target points, symbolic potentials, costs, weights or regularisation, one to four stochastic steps, every draw or batch for the expectations; the coupling of weak transport varies in one direction",
     "the tests compare converged values on uniform problems with a loose tolerance: the updates, the weights of the source and the gradients are not compared with a reference",
     ["ot/stochastic.py", "ot/weak.py"],
     [("semi-dual", "ot/stochastic.py: coordinate_grad_semi_dual, sag_entropic_transport, averaged_sgd_entropic_transport, c_transform_entropic, solve_semi_dual_entropic"), ("dual", "ot/stochastic.py: batch_grad_dual, sgd_entropic_regularization, solve_dual_entropic"), ("losses", "ot/stochastic.py: loss_dual_entropic, plan_dual_entropic, loss_dual_quadratic, plan_dual_quadratic"), ("weak transport", "ot/weak.py: weak_optimal_transport")],
     over=("inputs", "configurations"))

prop("C35", "Discriminant and robust subspace projections optimise their stated criteria",
     "For every samples and labels, Fisher analysis diagonalises the scatter of the class mean vectors against the mean within-class covariance and keeps the leading directions; the Wasserstein criterion handed to the manifold optimiser is the ratio of the regularised within and between costs of the projected classes. Projection robust Wasserstein alternates a Sinkhorn update and a Riemannian step until its errors are small; EWCA alternates transport and its documented basis update. Maps centre on the mean and inputs stay unchanged.",
     "three to five points in dimension 2-3, two or three classes, symbolic coordinates, kernels, plans or thresholds, one to three iterations; eigenvectors, QR factors and the manifold optimiser are prescribed, what they are given is decided",
     "the tests only check that returned projections have unit columns: a wrong scatter, criterion or gradient is not visible there",
     ["ot/dr.py"],
     [("discriminant analysis", "ot/dr.py: fda, wda, sinkhorn, sinkhorn_log"), ("robust projections", "ot/dr.py: projection_robust_wasserstein"), ("EWCA", "ot/dr.py: ewca")],
     over=("inputs", "configurations"))

prop("C36", "Unbalanced transport on lines and slices reweights both sides consistently",
     "For every points, weights, relaxation (one side may be exact) and number of steps, one-dimensional and sliced unbalanced transport solve, at each Frank-Wolfe step, the balanced problem between the marginals reweighted by the potentials, shifted so that both sides have equal mass, and mix potentials with the documented step. Marginals, potentials and costs come back in the order of the samples, the cost of each slice is its own, and the total adds the divergences to the given weights. Sorted input and equal results follow without sorting.",
     "2-3 points per side, one to three slices, zero to three steps, symbolic weights, coordinates or potentials, relaxations 1/2, 1, 2 and infinite; balanced one-dimensional solutions prescribed",
     "the tests use one slice count and check agreement with another solver up to 1e-3: several slices with an exact side, sorted input, and slice-wise weights are not looked at",
     ["ot/unbalanced/_solver_1d.py", "ot/unbalanced/_sliced.py"],
     [("line", "ot/unbalanced/_solver_1d.py: uot_1d, rescale_potentials, get_reweighted_marginal_uot"), ("slices", "ot/unbalanced/_sliced.py: sliced_unbalanced_ot, unbalanced_sliced_ot, get_reweighted_marginals_usot")],
     over=("inputs", "configurations"))

prop("C37", "Spectral-Grassmann costs and metric follow their definition on complex operators",
     "For every complex eigenvalues, left and right eigenvectors, trade-off, exponents and metric, the eigenvalue cost is the power of the scaled distance in the complex plane, the similarity of two atoms is the product of the absolute Hermitian inner products of their normalised vectors, the Grassmann term is the chosen distance of it, and the ground cost the documented power of their convex combination. The metric is both roots of the optimal cost for the normalised weights; mismatched shapes, similarities and metrics are refused.",
     "1-3 atoms per operator in dimension 2, symbolic real or imaginary parts, similarities, trade-off and weights, exponents 1 to 4",
     "the tests check that the metric vanishes on equal operators and is positive otherwise: a missing conjugate, scale or exponent is not visible there",
     ["ot/sgot.py"],
     [("costs", "ot/sgot.py: eigenvalue_cost_matrix, _delta_matrix_1d, _normalize_columns, _grassmann_distance_squared, sgot_cost_matrix"), ("metric", "ot/sgot.py: sgot_metric, _validate_sgot_inputs")],
     over=("inputs", "configurations"))

prop("C38", "Factored transport, the geomloss bridge and data generators are exact",
     "For every samples, weights, rank, template and stopping threshold, factored transport solves at each iteration both problems to the uniform template, moves it to the mean of the two barycentric images, stops on its variation and returns plans, costs and the composed plan with the given marginals. The geomloss bridge hands geomloss the stated metric at the stated temperature for either metric, and its value, potentials and lazy plan are those of the stated problem. Data generators return the documented labels, centres and noise for their parameters and state.",
     "2-3 points per side in dimension 1-2, ranks 1-3, one to three iterations, symbolic coordinates, plans, regularisation, potentials, noise and angles; 3-9 generated samples",
     "geomloss is only tested at regularisation one, where every power of it is the same temperature; factored transport on one template and the deprecated generators not at all",
     ["ot/factored.py", "ot/bregman/_geomloss.py", "ot/datasets.py"],
     [("factored transport", "ot/factored.py: factored_optimal_transport; ot/solvers.py: solve_sample"), ("geomloss", "ot/bregman/_geomloss.py: empirical_sinkhorn2_geomloss, get_sinkhorn_geomloss_lazytensor"), ("data", "ot/datasets.py: make_1D_gauss, make_2D_samples_gauss, make_data_classif, get_data_classif")],
     over=("inputs", "configurations"))

prop("C39", "Every array backend computes the same operations with the given gradients",
     "For every arrays, the operations of the numpy, torch, jax and tensorflow backends return the values and shapes of the same documented definition: reductions with and without kept dimensions, norms, divergences, log-sum-exp, extrema, clipping, products, sorting, insertion positions, distinct values, medians, reshaping, padding, repetition, sparse construction with repeated entries and removal of small ones, linear systems and matrix square roots. A value given gradients keeps its content and differentiates exactly to them under any further computation; the differentiable square root solves its Sylvester equation; draws come from the seeded generator only; the backend is that of the arrays and mixed arrays are refused.",
     "matrices 2x3, batches of two 2x2 matrices, vectors of 2-4 entries, up to 5 sparse entries; all entries, gradients and directions symbolic; four backends",
     "the tests compare the backends on one random draw, set gradients only with a unit upstream and gradients proportional to the inputs, and never keep dimensions, repeat sparse entries or take a threshold on sparse tensors",
     ["ot/backend.py"],
     [("operations", "ot/backend.py: NumpyBackend, TorchBackend, JaxBackend, TensorflowBackend"), ("selection", "ot/backend.py: get_backend, to_numpy, _check_args_backend")],
     over=("inputs", "configurations"))

prop("C40", "Graph pooling layers give every graph its distances to the templates",
     "For every graph or batch of graphs, whatever the numbering of the nodes, the pooling layers and functions of ot.gnn return, for each graph and template, the fused Gromov-Wasserstein (or Wasserstein) value of the problem of that graph's own nodes, edges and features with uniform weights against that template's features, structure and weights at the trade-off of that template. Layers use the softmax of their node weights and their trade-off as given; templates start symmetric with the requested feature distribution and uniform weights; graphs with another number of features are refused.",
     "one graph of 2-3 nodes or batches of 2-3 graphs with interleaved nodes, 2-3 templates of 1-2 nodes, 1-2 features; symbolic features, templates, weights, trade-off and distances",
     "the tests look at shapes and gradients, and a batch of two consecutive blocks; a graph with another one's nodes, edges, weights or trade-off is not visible there",
     ["ot/gnn/_utils.py", "ot/gnn/_layers.py"],
     [("distances", "ot/gnn/_utils.py: FGW_distance_to_templates, wasserstein_distance_to_templates, TFGW_template_initialization"), ("layers", "ot/gnn/_layers.py: TFGWPooling, TWPooling")],
     over=("inputs", "configurations"))
