#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS

FL = "pyparticleest/filter.py"
SM = "pyparticleest/smoother.py"
IF = "pyparticleest/interfaces.py"
SIM = "pyparticleest/simulator.py"
KAL = "pyparticleest/utils/kalman.py"
CKAL = "pyparticleest/utils/ckalman.pyx"
RB = "pyparticleest/models/rbpf.py"
LTV = "pyparticleest/models/ltv.py"
NLG = "pyparticleest/models/nlg.py"
ML = "pyparticleest/models/mlnlg.py"
HI = "pyparticleest/models/hierarchial.py"
PE = "pyparticleest/paramest/paramest.py"
PI = "pyparticleest/paramest/interfaces.py"

P = []


def prop(i, title, statement, over, text, why, files, mech, level_note=None, observe=None, state=None, tech=None):
    P.append({"id": i, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "state": state or [], "mechanism": mech,
              "observe_at": observe or [], "hook_needed": None}, "_note": level_note, "_tech": tech})


M = lambda name, where: {"name": name, "where": where}

prop("C01", "Resampling is systematic and unbiased",
     "Drawing n indices from a weight vector, resampling a weighted particle set to n particles, and drawing a single "
     "particle from it, select index i either floor(n*p_i) or ceil(n*p_i) times (p_i its normalised weight), n*p_i times on "
     "average, never an index of weight zero, and leave the caller's weights unchanged. After resampling a set, its "
     "particles are independent copies of the selected ones with equal normalised weights. Asking for the best particles returns "
     "distinct particles none of which is outweighed by one left out.",
     ["inputs"], "every non-negative weight vector (log weights for particle sets) with a positive finite total of any scale, every n >= 1",
     "The counts are random and the statement is about their law for every weight vector; the tests only run whole filters on Gaussian models.",
     [FL], [M("sample", FL + ":sample"), M("resample", FL + ":ParticleApproximation.resample"),
            M("find_best_particles", FL + ":ParticleApproximation.find_best_particles")])
prop("C02", "The bootstrap filter performs Bayes' recursion",
     "Each step of the 'pf' filter moves every surviving particle (the recorded ancestor) through the model's dynamics with noise drawn "
     "for that very particle, input and time, multiplies its weight by the model's likelihood of the new measurement at "
     "the new time and by nothing else, and leaves weights unchanged if the measurement is missing. If it "
     "resampled, it reports so, ancestors follow the systematic law of the weights before the step and all weights start equal; "
     "otherwise every particle is its own ancestor and keeps its weight.",
     ["inputs", "histories", "configurations"],
     "every model, particle number, threshold and sequence of inputs and (possibly missing) measurements, Markovian or history dependent interface",
     "Weights and ancestry depend on random draws and the whole history; no test looks at either.",
     [FL, IF], [M("forward", FL + ":ParticleFilter.forward"), M("measure", FL + ":ParticleFilter.measure"), M("update", FL + ":ParticleFilter.update")])
prop("C03", "Resampling happens exactly when the effective sample size is too low",
     "The unconditional filters ('pf', 'apf', 'sir', 'pfy') resample before a step if and only if the effective sample size 1/sum(p_i^2) of the weights "
     "steering that step (for 'apf' the first-stage weights) is below threshold*N, and report exactly that; a threshold of 0 never resamples, "
     "and without resampling each particle keeps its own lineage. The reported effective sample size is that "
     "formula for weights of any scale.",
     ["inputs", "histories", "configurations"], "every weight vector, threshold, particle number and filter",
     "The decision is an inequality over data dependent weights; tests never inspect it.",
     [FL], [M("calc_Neff", FL + ":ParticleApproximation.calc_Neff"), M("res", FL + ":ParticleFilter.forward")])
prop("C04", "Weights do not depend on the scale of the likelihoods",
     "However small or large the likelihoods are (log-likelihoods offset by any common amount, measurements that nearly all particles find "
     "practically impossible), the weights stay finite, are rescaled so that the largest is 1, and have exactly the right ratios, in every filter. Where a filter "
     "keeps the sum of what it rescaled by, adding it back gives the unscaled weights.",
     ["inputs", "histories"], "every sequence of measurements whose likelihood is non-zero for at least one particle, log-likelihoods of any magnitude",
     "Underflow needs likelihoods far outside what the example models produce.",
     [FL], [M("rescaling", FL + ":ParticleFilter.forward, measure"), M("w_offset", FL + ":ParticleApproximation")])
prop("C05", "The filtered history is immutable and the genealogy is sound",
     "Later filter steps, measurements and smoothing runs never change particles, weights or ancestors of earlier time steps. "
     "Every step holds N particles, and every ancestor index designates, in the previous step, the particle this one was really computed from. "
     "Smoothing may be asked for at any time, also in the middle of a run: it leaves the filter as it was, keeps the inputs, measurements and time stamps that led to it, and later steps do not change estimates handed out before.",
     ["histories", "configurations"], "every filter, sequence of filter operations and subsequent smoothing method",
     "Aliasing between steps only shows for particular sequences of resampling, measuring and smoothing that no test compares.",
     [FL, SM], [M("TrajectoryStep", FL + ":TrajectoryStep"), M("copy", FL + ":ParticleFilter.forward"), M("copy_ind", IF + ":ParticleFilteringNonMarkov.copy_ind")])
prop("C06", "The auxiliary filter corrects for its first stage",
     "In the 'apf' filter the resampling is steered by weight times the model's first-stage weight for the current input, coming measurement and time; after a resampling "
     "step a particle's weight is its likelihood divided by its ancestor's first-stage weight, and without resampling its old weight times its likelihood. "
     "A missing measurement makes it behave as the bootstrap filter.",
     ["inputs", "histories", "configurations"], "every model with first-stage weights, threshold, number of particles, measurement sequence",
     "No test runs this filter's weights against the definition.",
     [FL], [M("AuxiliaryParticleFilter.forward", FL + ":AuxiliaryParticleFilter.forward")])
prop("C07", "The SIR filter weights by likelihood times transition over proposal",
     "The 'sir' filter draws every new particle from the model's proposal given its ancestor, the current input, the new measurement and the current time, and multiplies its weight "
     "(or a uniform weight after resampling) by likelihood times transition density divided by proposal density, all evaluated at matching particles and times.",
     ["inputs", "histories", "configurations"], "every model with a proposal, threshold, number of particles and measurement sequence",
     "No test uses this filter.",
     [FL], [M("SIR.forward", FL + ":SIR")])
prop("C08", "Conditional filters keep the conditioning trajectory",
     "In 'cpf', 'cpfas', 'csiras' and 'cpfyas' the last particle of every step is the conditioning trajectory's state of that time, the others are drawn systematically by weight, "
     "and resampling takes place at every step. In 'cpf' the conditioning particle's ancestor is always itself; in the others it is "
     "drawn with probability proportional to weight times the model's density of the reference state given that ancestor. New weights are as in the "
     "corresponding unconditional filter.",
     ["inputs", "histories", "configurations"], "every model, conditioning trajectory (also of several columns), number of particles, measurement sequence",
     "Ancestor sampling is a random law per step; no test uses these filters.",
     [FL], [M("CPFAS", FL + ":CPFAS"), M("CPF", FL + ":CPF"), M("CSIRAS", FL + ":CSIRAS"), M("CPFYAS", FL + ":CPFYAS")])
prop("C09", "Measurement-proposal filters weight by the transition",
     "The 'pfy' and 'cpfyas' filters draw the particles of each time step from the model's measurement proposal for that step's measurement and time, assign ancestors "
     "by the filter's usual resampling rule, and weight each new particle by the transition density from its recorded ancestor (times its old weight if there was no resampling).",
     ["inputs", "histories", "configurations"], "every model with a measurement proposal, pre-allocated or growing storage, every measurement sequence",
     "No test uses these filters.",
     [FL], [M("PFY", FL + ":ParticleFilterFromY (pfy)"), M("CPFYAS", FL + ":CPFYAS")])
prop("C10", "Inputs, measurements, time stamps and history stay aligned",
     "The model is always asked about step t with the input and time stamp of step t, the measurement of the step being entered, and (for history dependent models) the full list "
     "of inputs, measurements, time stamps and steps so far, in order and with the ancestors just chosen; the same holds when a smoother asks the model about a step. Whether the first measurement is applied before "
     "the first step, storage is pre-allocated (too short, exact or too long), estimates are asked for on the way or measurements are missing makes no difference.",
     ["schedules", "histories", "configurations"], "every schedule of measure/forward calls, missing or present measurements, pre-allocated length, filter",
     "Needs every interleaving of measure and forward and every storage mode; tests run one.",
     [FL, IF, SM], [M("uvec/yvec/tvec", FL + ":ParticleTrajectory"), M("extractall", FL + ":ParticleTrajectory.forward")])
prop("C11", "Full backward simulation draws from the smoothing law",
     "Given the filtered particles, the 'full' smoother draws the final state systematically by weight and every earlier state, "
     "independently for each trajectory, among that step's particles with probability proportional to filter weight times the model's density of the trajectory's own chosen future. "
     "Smoothed trajectories consist of filtered particles, never an impossible transition, and carry the data set's inputs, measurements and times.",
     ["inputs", "histories", "configurations"], "every model, filtered particle set, number of trajectories, Markovian or not",
     "It is a statement about a probability law over trajectories; tests only run it.",
     [SM, FL], [M("bsi_full", SM + ":bsi_full"), M("perform_bsi", SM + ":SmoothTrajectory.perform_bsi")])
prop("C12", "Rejection-sampling smoothers draw from the same law as 'full'",
     "The 'rs' and 'rsas' smoothers, for every option value (including no attempts at all), for every valid upper bound supplied by the model and for every number of trajectories, "
     "draw each state with exactly the probabilities of full backward simulation; early stopping only affects speed.",
     ["inputs", "histories", "configurations"], "every model with a valid upper bound, options, number of trajectories",
     "It is a statement about a probability law; the tests never compare laws.",
     [SM, FL], [M("bsi_rs", SM + ":bsi_rs"), M("bsi_rsas", SM + ":bsi_rsas"), M("maxpdf", FL + ":ParticleTrajectory.perform_smoothing")])
prop("C13", "The MCMC smoother runs a correct Metropolis-Hastings chain",
     "The 'mcmc' smoother draws each earlier state with the law of R Metropolis-Hastings steps, started from the recorded ancestor of the state just chosen, proposing "
     "particles by filter weight and accepting with the ratio of the densities of the trajectory's own future; with R=0 it returns the ancestral path.",
     ["inputs", "histories", "configurations"], "every model, R, number of trajectories",
     "It is a statement about a probability law.",
     [SM], [M("bsi_mcmc", SM + ":bsi_mcmc")])
prop("C14", "MHIPS and MHBP moves leave the right target invariant",
     "Each move of 'mhips', 'mhips_reduced' and 'mhbp' proposes a new state of one time (mhbp: together with a previous particle drawn by filter weight) and accepts it with the Metropolis-Hastings ratio of "
     "past transition (or initial) density, likelihood of that time's measurement if there is one, density of the already updated future, and proposal densities; 'mhips_reduced' proposes from the dynamics and "
     "uses likelihood and future only. MHIPS sweeps each of R passes from last to first time, starting from ancestral trajectories; MHBP makes R moves per time starting at the current particle and ancestor. "
     "For Rao-Blackwellized models every density and belief used in a move is the one given the nonlinear path up to that step.",
     ["inputs", "histories", "configurations"], "every model with a smoothing proposal, R, number of trajectories, at least two time steps",
     "It is a statement about the law of a Markov chain on trajectories.",
     [SM], [M("mc_step", SM + ":mc_step"), M("mhips", SM + ":SmoothTrajectory.perform_mhips_pass"), M("mhbp", SM + ":SmoothTrajectory.perform_mhbp")])
prop("C15", "Ancestor trajectories are the filter's genealogy",
     "The 'ancestor' smoother draws final particles systematically by weight and returns, for each, exactly the chain of recorded ancestors back to the first step. "
     "A model's post-smoothing hook is applied once to the result, whatever the smoother.",
     ["inputs", "histories", "configurations"], "every filter and genealogy, number of trajectories and length",
     "Tests never look at the trajectories produced.",
     [SM], [M("calculate_ancestors", SM + ":SmoothTrajectory.calculate_ancestors")])
prop("C16", "The simulator's readouts are the filter's and smoother's results",
     "Simulating a data set applies every input and measurement once, in order, with the first measurement before or after the first step as requested, and returns the number of resampling steps. "
     "Filtered estimates are the particles with normalised weights for every time, filtered means their weighted averages, smoothed estimates the trajectories and smoothed means their averages.",
     ["inputs", "histories", "configurations"], "every data set, filter, smoother, with or without inputs and initial measurement",
     "Tests do not recompute the readouts.",
     [SIM, SM], [M("simulate", SIM + ":Simulator.simulate"), M("readouts", SIM + ":Simulator.get_*")])
prop("C17", "LTV models: exact Kalman filtering and smoothing",
     "For a linear time-varying Gaussian model every filter run yields the exact conditional mean and covariance of the state given the inputs and measurements so far, whatever the number of particles, missing measurements or time-varying matrices "
     "(including ones set by the user's hooks), and smoothing yields the exact means, covariances and lag-one covariances given all data.",
     ["inputs", "histories", "configurations"], "every linear Gaussian model, dimension, data set, per-step matrices",
     "Exact conditional distributions have to be recomputed independently for arbitrary matrices; tests only run two small examples.",
     [LTV, RB, KAL, CKAL], [M("LTV", LTV + ":LTV"), M("kalman", KAL + ":KalmanFilter, KalmanSmoother")])
prop("C18", "Nonlinear Gaussian models: densities and samples agree with the definition",
     "For a nonlinear model with additive Gaussian noises, the transition and measurement log-densities are the normal densities with the given (state, input and time dependent) mean and covariance, scalar or matrix, common or per particle, "
     "the reported maximum is the largest value the transition density takes, process noise and initial states have the specified Gaussian distribution, and the initial density is the matching one.",
     ["inputs", "configurations"], "every mean function, covariance (constant, per particle, per call), dimension, particle set",
     "Needs arbitrary dimensions and covariances; tests use one scalar model.",
     [NLG], [M("NonlinearGaussian", NLG + ":NonlinearGaussian")])
prop("C19", "Rao-Blackwellized (MLNLG) filtering: exact conditional linear substates",
     "For mixed linear/nonlinear Gaussian models (nonlinear states sampled in the backward pass jointly with the linear ones) each particle's linear mean and covariance are the exact conditional ones given its nonlinear path and the measurements, "
     "its weight increment is the exact predictive likelihood of the measurement, and nonlinear noise is drawn from the exact predictive distribution, also with correlated noises and multi-dimensional states; transition densities used in smoothing, and the maximum reported for them, are the exact ones.",
     ["inputs", "histories", "configurations"], "every set of matrices (constant or per particle), dimensions, inputs, measurement sequence",
     "Needs an independent exact computation per particle path.",
     [ML, RB, KAL, "pyparticleest/utils/mlnlg_compute.py"], [M("MixedNLGaussianSampled", ML)])
prop("C20", "Marginalized smoothing weighs whole futures exactly",
     "For mixed linear/nonlinear models whose linear states are marginalized in the backward pass, the density a filtered particle assigns to a future nonlinear trajectory and to the remaining measurements "
     "(missing ones skipped, preprocessed ones used) is, up to a factor common to all particles, the exact one given the particle's conditional distribution.",
     ["inputs", "histories", "configurations"], "every set of matrices with uncorrelated noises, dimensions, future trajectories",
     "Needs an independent exact computation of a joint Gaussian density of the whole future.",
     [ML], [M("MixedNLGaussianMarginalized.logp_xnext_full", ML)])
prop("C21", "Hierarchical models: exact conditional linear part and densities",
     "For hierarchical models (nonlinear states evolving by themselves, linear states conditionally linear given them) each particle's linear mean and covariance are the exact conditional ones, weights are nonlinear likelihood times exact predictive likelihood, "
     "transition densities combine the nonlinear density and the exact linear one, and the reported maximum is the largest value they take.",
     ["inputs", "histories", "configurations"], "every set of matrices, dimension, nonlinear dynamics, measurement sequence",
     "Needs an independent exact computation per particle path.",
     [HI, RB], [M("HierarchicalRSBase", HI)])
prop("C22", "Rao-Blackwellized smoothing returns the exact conditional smoothed states",
     "After smoothing a Rao-Blackwellized model each trajectory's linear means and covariances (and lag-one covariances where stored) are the exact ones given that trajectory's nonlinear path and all measurements, "
     "also when the trajectory has room for more steps than were taken or a measurement arrived after its step.",
     ["inputs", "histories", "configurations"], "every set of matrices, nonlinear trajectory, measurement sequence, smoother, length",
     "Needs an independent exact smoother per trajectory.",
     [RB, ML, HI], [M("post_smoothing", RB + ":RBPSBase.post_smoothing")])
prop("C23", "Expectation maximization alternates simulation and maximization",
     "Every iteration of the parameter estimation loop sets the current parameters, simulates filter and smoother with the chosen options and that iteration's particle and trajectory numbers "
     "(the last ones are kept), maximizes on the fresh smoothed trajectories and takes the result as the new parameters; the callbacks see the new parameters and a running iteration number, the "
     "requested number of iterations is made and the last parameters are returned. The numerical maximizers, with and without gradients, return the feasible maximum "
     "of the average over trajectories of the summed initial, transition and (where measured) measurement log-densities, so that for linear Gaussian models the exact likelihood never decreases.",
     ["histories", "configurations"], "every model, iteration count, particle and trajectory schedule, filter, smoother, bounds and callbacks",
     "Needs control over every stage of the loop; tests run no estimation with known outcome.",
     [PE, PI], [M("maximize", PE + ":ParamEstimation.maximize"), M("numeric maximization", PI + ":ParamEstBaseNumeric")])
prop("C24", "EM objective and gradients agree",
     "For models with parameter gradients, the reported gradient of every term of the EM objective (initial state, dynamics, measurement) is the derivative of the reported value, and the value is the exact expected log-density under the smoothed distribution.",
     ["inputs", "configurations"], "every parameter dependence of the matrices, parameter value, dimension",
     "Needs arbitrary parametrisations.",
     [LTV, ML, NLG, PI], [M("gradients", LTV + ":LTV.eval_logp_*_val_grad")])
prop("C25", "Stochastic-approximation EM weights iterations as specified",
     "The SAEM variants maximize over all remembered trajectories, where an iteration's trajectories carry the weight alpha_k * prod_{j>k}(1-alpha_j) in total (the first iteration's: 1 instead of alpha_1), shared "
     "as the smoother or, Rao-Blackwellised, the filter weights them; trajectories of weight zero are forgotten. The particle variants condition each iteration's filter on a trajectory of the previous iteration, forget weights up to discard_eps but only within "
     "the lowest discard_percentile and all but the newest max_traj, and renormalise. The default step sizes are 1 for the first hundred iterations and (k-100)^-0.51 after.",
     ["histories", "configurations"], "every step-size sequence, number of iterations and trajectories, discarding rule, filter and smoother",
     "Needs the full history of iterations.",
     [PE], [M("SAEM", PE + ":ParamEstimationSAEM"), M("PSAEM", PE + ":ParamEstimationPSAEM"), M("PSAEM2", PE + ":ParamEstimationPSAEM2")])
prop("C26", "C extensions and pure Python give the same results",
     "The compiled and the pure Python version of the Kalman and MLNLG computations return the same values for the same arguments, and so do filters and smoothers using either.",
     ["inputs", "configurations"], "every argument shape and value in the domain, both build configurations",
     "The tests only run one configuration.",
     [KAL, CKAL, "pyparticleest/utils/mlnlg_compute.py", "pyparticleest/utils/cmlnlg_compute.pyx"], [M("import fallback", "pyparticleest/models/*.py")])
prop("C27", "The instrumenter changes nothing and counts every call",
     "A filter or smoother run through the Instrumenter is identical to the same run of the wrapped model; its counters, the cnt_* members and the printed statistics show for every kind of operation "
     "the number of particles that operation was performed on and the number of calls, and counts from different runs add up kind by kind.",
     ["inputs", "histories", "configurations"], "every model, filter, smoother, particle number, measurement pattern and sequence of runs",
     "Needs an independent account of every call the filters and smoothers make.",
     ["pyparticleest/utils/intrument.py"], [M("Instrumenter", "pyparticleest/utils/intrument.py:Instrumenter")])
prop("C28", "The sum density is that of a sum of two uniform variables",
     "unifsum gives the probability density of the sum of two independent uniform variables, one on the interval a and the other on the interval b, whatever the order of the limits: it integrates to one over the sum of the intervals, "
     "is symmetric in a and b, follows a common shift of argument and interval, and is zero outside.",
     ["inputs"], "every pair of intervals and every argument, including their ends",
     "Needs every ordering of the interval ends.",
     ["pyparticleest/utils/pdf.py"], [M("unifsum", "pyparticleest/utils/pdf.py:unifsum")])
prop("C29", "The gradient test tabulates the terms of the objective",
     "The gradient test simulates once with the given numbers of particles and trajectories and then tabulates, for each value of the chosen parameter with the others kept, the initial, transition and measurement terms of the EM objective "
     "on the same smoothed trajectories and, with analytic gradients, their derivatives in that parameter; its plots show these values, and tangents of that slope.",
     ["inputs", "configurations"], "every parameter value grid, parameter number, trajectory number, measurement pattern",
     "Needs an independent evaluation of every term.",
     ["pyparticleest/paramest/gradienttest.py", PI], [M("GradientTest", "pyparticleest/paramest/gradienttest.py:GradientTest.test")])
prop("C30", "Runs are reproducible and do not influence each other",
     "What a filter, a smoother, a simulator or an estimation run gives is determined by its model, data, arguments and the state of numpy's random generator at its calls: the same calls from the same state give the same particles, weights, "
     "ancestors, trajectories, means and parameters, also when they take turns in any order with those of other runs (of other models, or of the same one) that have a random state of their own, and when other runs were made before. "
     "The data, the option dictionaries and the conditioning trajectories that were passed in are left as they were, so that several runs can share them.",
     ["schedules", "histories", "configurations"], "every interleaving of the calls of two or three runs, filter, smoother, model class and sharing of model and arguments",
     "Needs every order of the calls, and runs that are alone to compare with.",
     [FL, SM, SIM, LTV, NLG, ML, HI], [M("options", FL + ":ParticleTrajectory.perform_smoothing"), M("random numbers", FL + ":sample")])

NOTE = ("Executions of the current code, driven with random and TLC-enumerated schedules on models whose laws are known, are validated case by case by TLC "
        "against the TLA+ specification, whose design level invariants are model checked exhaustively for small constants. Trusts TLC, the decimal arithmetic override, "
        "and the sampling of inputs; random laws are tested at 5.5 standard deviations.")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in PROPS:
            checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                           "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                           "technique": p["_tech"] or "TLA+ specification, TLC model checking and trace validation of recorded executions",
                           "level": "model_checking", "level_note": p["_note"] or NOTE})
        else:
            na.append({"property": p["id"], "reason": "the conformance suite for this property is not built yet"})
    json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
               "notes": "TLA+ checked with TLC; see DESIGN.md"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed; title too long:", [p["id"] for p in P if len(p["title"]) > 80],
          "sentences:", [(p["id"]) for p in P if p["statement"].count(". ") > 2])
