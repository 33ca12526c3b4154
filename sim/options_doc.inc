// documented name, type (0 numeric 1 integer 2 string), default, range of every option
struct OptDoc { const char* name; int type; double def, lo, hi; const char* sdef; std::vector<std::string> range; };
static const OptDoc doc_nlp[] = {
  {"Hessian", 2, 0, 0, 0, "quasinewton_approx", {"quasinewton_approx", "analytical_exact"}},
  {"KKTLinsys", 2, 0, 0, 0, "auto", {"auto", "xycyd", "xdycyd", "full", "condensed", "normaleqn"}},
  {"accept_every_trial_step", 2, 0, 0, 0, "no", {"no", "yes"}},
  {"acceptable_iterations", 1, 10, 1, 1000000, "", {}},
  {"acceptable_tolerance", 0, 9.9999999999999995e-07, 1e-14, 0.10000000000000001, "", {}},
  {"bound_relax_perturb", 0, 1e-08, 0, 1e+20, "", {}},
  {"callback_mem_space", 2, 0, 0, 0, "default", {"default"}},
  {"checkpoint_file", 2, 0, 0, 0, "hiop_state_chk", {}},
  {"checkpoint_load_on_start", 2, 0, 0, 0, "no", {"yes", "no"}},
  {"checkpoint_save", 2, 0, 0, 0, "no", {"yes", "no"}},
  {"checkpoint_save_every_N_iter", 1, 10, 1, 1000000, "", {}},
  {"comp_tol", 0, 0.0001, 9.9999999999999998e-17, 10000000000, "", {}},
  {"compute_mode", 2, 0, 0, 0, "cpu", {"auto", "cpu", "hybrid", "gpu"}},
  {"cons_tol", 0, 0.0001, 9.9999999999999998e-17, 10000000000, "", {}},
  {"delta_0_bar", 0, 0.0001, 0, 1e+40, "", {}},
  {"delta_c_bar", 0, 1e-08, 9.9999999999999995e-21, 1e+40, "", {}},
  {"delta_w_max_bar", 0, 1e+20, 9.9999999999999993e-41, 1e+40, "", {}},
  {"delta_w_min_bar", 0, 9.9999999999999995e-21, 0, 1000, "", {}},
  {"dual_tol", 0, 1, 9.9999999999999998e-17, 10000000000, "", {}},
  {"duals_init", 2, 0, 0, 0, "lsq", {"lsq", "zero"}},
  {"duals_init_linear_solver_sparse", 2, 0, 0, 0, "auto", {"auto", "ma57", "pardiso", "resolve", "strumpack", "ginkgo"}},
  {"duals_lsq_ini_max", 0, 1000, 9.9999999999999998e-17, 10000000000, "", {}},
  {"duals_update_type", 2, 0, 0, 0, "lsq", {"lsq", "linear"}},
  {"elastic_bound_strategy", 2, 0, 0, 0, "mu_projected", {"mu_projected", "mu_scaled"}},
  {"elastic_mode", 2, 0, 0, 0, "none", {"none", "tighten_bound", "correct_it", "correct_it_adjust_bound"}},
  {"elastic_mode_bound_relax_final", 0, 9.9999999999999998e-13, 9.9999999999999998e-17, 0.10000000000000001, "", {}},
  {"elastic_mode_bound_relax_initial", 0, 0.01, 1e-08, 0.10000000000000001, "", {}},
  {"eq_relax_factor", 0, 1e-08, 1.0000000000000001e-15, 1, "", {}},
  {"eta_phi", 0, 1e-08, 0, 0.01, "", {}},
  {"exec_policies", 2, 0, 0, 0, "auto", {"auto", "seq"}},
  {"fact_acceptor", 2, 0, 0, 0, "inertia_correction", {"inertia_correction", "inertia_free"}},
  {"fixed_var", 2, 0, 0, 0, "none", {"remove", "relax", "none"}},
  {"fixed_var_perturb", 0, 1e-08, 1e-14, 0.10000000000000001, "", {}},
  {"fixed_var_tolerance", 0, 1.0000000000000001e-15, 1.0000000000000001e-30, 0.01, "", {}},
  {"force_resto", 2, 0, 0, 0, "no", {"no", "yes"}},
  {"ginkgo_exec", 2, 0, 0, 0, "reference", {"cuda", "hip", "reference"}},
  {"ginkgo_trisolve", 2, 0, 0, 0, "syncfree", {"syncfree", "sparselib"}},
  {"ir_inner_conv_cond", 1, 0, 0, 2, "", {}},
  {"ir_inner_gs_scheme", 2, 0, 0, 0, "mgs", {"mgs", "cgs2", "mgs_two_synch", "mgs_pm"}},
  {"ir_inner_maxit", 1, 50, 0, 1000, "", {}},
  {"ir_inner_restart", 1, 20, 1, 100, "", {}},
  {"ir_inner_tol", 0, 9.9999999999999998e-13, 9.9999999999999998e-17, 0.10000000000000001, "", {}},
  {"ir_inner_tol_factor", 0, 0.01, 9.9999999999999995e-21, 1, "", {}},
  {"ir_inner_tol_min", 0, 9.9999999999999995e-07, 9.9999999999999998e-17, 0.10000000000000001, "", {}},
  {"ir_outer_maxit", 1, 8, 0, 100, "", {}},
  {"ir_outer_tol_factor", 0, 0.01, 9.9999999999999995e-21, 1, "", {}},
  {"ir_outer_tol_min", 0, 9.9999999999999995e-07, 9.9999999999999995e-21, 1e+20, "", {}},
  {"kappa1", 0, 0.01, 9.9999999999999998e-17, 1, "", {}},
  {"kappa2", 0, 0.01, 9.9999999999999998e-17, 0.49998999999999999, "", {}},
  {"kappa_c", 0, 0.25, 0, 1e+40, "", {}},
  {"kappa_eps", 0, 10, 9.9999999999999995e-07, 1000, "", {}},
  {"kappa_mu", 0, 0.20000000000000001, 1e-08, 0.999, "", {}},
  {"kappa_resto", 0, 0.90000000000000002, 0, 1, "", {}},
  {"kappa_soc", 0, 0.98999999999999999, 0, 1e+20, "", {}},
  {"kappa_w_minus", 0, 0.33333333333333331, 9.9999999999999995e-21, 1, "", {}},
  {"kappa_w_plus", 0, 8, 1, 1e+40, "", {}},
  {"kappa_w_plus_bar", 0, 100, 1, 1e+40, "", {}},
  {"linear_solver_sparse", 2, 0, 0, 0, "auto", {"auto", "ma57", "pardiso", "strumpack", "resolve", "ginkgo", "cusolver-chol"}},
  {"linear_solver_sparse_ordering", 2, 0, 0, 0, "symamd-eigen", {"metis", "symamd-cuda", "symamd-eigen", "symrcm", "amd-ssparse", "colamd-ssparse"}},
  {"linsol_mode", 2, 0, 0, 0, "stable", {"stable", "speculative", "forcequick"}},
  {"max_iter", 1, 3000, 1, 1000000, "", {}},
  {"max_soc_iter", 1, 4, 0, 1000000, "", {}},
  {"mem_backend", 2, 0, 0, 0, "auto", {"auto", "stdcpp"}},
  {"mem_space", 2, 0, 0, 0, "default", {"default"}},
  {"min_step_size", 0, 9.9999999999999998e-17, 0, 1000000, "", {}},
  {"moving_lim_abs", 0, 0, 0, 100000000, "", {}},
  {"moving_lim_rel", 0, 0, 0, 1, "", {}},
  {"mu0", 0, 1, 9.9999999999999998e-17, 1000, "", {}},
  {"neg_curv_test_fact", 0, 9.9999999999999994e-12, 0, 1e+20, "", {}},
  {"normaleqn_regularization_priority", 2, 0, 0, 0, "dual_first", {"primal_first", "dual_first"}},
  {"options_file_fr_prob", 2, 0, 0, 0, "hiop_fr.options", {}},
  {"print_options", 2, 0, 0, 0, "no", {"yes", "no", "short"}},
  {"recalc_lsq_duals_tol", 0, 9.9999999999999995e-07, 0, 10000000000, "", {}},
  {"regularization_method", 2, 0, 0, 0, "scalar", {"scalar", "randomized"}},
  {"rel_tolerance", 0, 0, 0, 0.10000000000000001, "", {}},
  {"resolve_factorization", 2, 0, 0, 0, "klu", {"klu"}},
  {"resolve_refactorization", 2, 0, 0, 0, "glu", {"glu", "rf"}},
  {"scaling_max_con_grad", 0, 0, 0, 1e+20, "", {}},
  {"scaling_max_grad", 0, 100, 9.9999999999999995e-21, 1e+20, "", {}},
  {"scaling_max_obj_grad", 0, 0, 0, 1e+20, "", {}},
  {"scaling_min_grad", 0, 1e-08, 0, 1e+20, "", {}},
  {"scaling_type", 2, 0, 0, 0, "gradient", {"none", "gradient"}},
  {"secant_memory_len", 1, 6, 0, 256, "", {}},
  {"sigma0", 0, 1, 0, 10000000, "", {}},
  {"sigma_update_strategy", 2, 0, 0, 0, "sty", {"sigma0", "sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm"}},
  {"smax", 0, 100, 1, 10000000, "", {}},
  {"tau_min", 0, 0.98999999999999999, 0.90000000000000002, 0.99999000000000005, "", {}},
  {"theta_max_fact", 0, 10000, 0, 10000000, "", {}},
  {"theta_min_fact", 0, 0.0001, 0, 10000000, "", {}},
  {"theta_mu", 0, 1.5, 1, 2, "", {}},
  {"time_kkt", 2, 0, 0, 0, "off", {"on", "off"}},
  {"tolerance", 0, 1e-08, 1e-14, 0.10000000000000001, "", {}},
  {"verbosity_level", 1, 3, 0, 12, "", {}},
  {"warm_start", 2, 0, 0, 0, "no", {"no", "yes"}},
  {"write_kkt", 2, 0, 0, 0, "no", {"no", "yes"}},
};
static const OptDoc doc_pridec[] = {
  {"acceptable_iterations", 1, 25, 1, 1000000, "", {}},
  {"acceptable_tolerance", 0, 0.001, 1e-14, 0.10000000000000001, "", {}},
  {"accum_local", 2, 0, 0, 0, "no", {"yes", "no"}},
  {"alpha_max", 0, 1000000, 1, 100000000000000, "", {}},
  {"alpha_min", 0, 1.0000000000000001e-05, 1e-08, 1000, "", {}},
  {"max_iter", 1, 30000, 1, 1000000000, "", {}},
  {"mem_space", 2, 0, 0, 0, "default", {"default"}},
  {"options_file_master_prob", 2, 0, 0, 0, "hiop_pridec_master.options", {}},
  {"print_options", 2, 0, 0, 0, "no", {"yes", "no"}},
  {"tolerance", 0, 1.0000000000000001e-05, 1e-14, 0.10000000000000001, "", {}},
  {"verbosity_level", 1, 2, 0, 12, "", {}},
};
