"""The properties (source of properties.jsonl and MANIFEST.json)."""

STAT = ('Design: exhaustive TLC over the stated constants. Binding: traces recorded from the real code, judged by TLC; '
        'statistical clauses use 6.5 sigma plus slack, so they trust jax.random and cannot see biases below that resolution. ')
DET = ('Design: exhaustive TLC over the stated constants. Binding: traces recorded from the real code on generated inputs, '
       'every line judged by TLC against the specification within float32 tolerances. ')

PROPS = [
 dict(id='C01', title='Uninformed samplers leave the target distribution invariant',
  statement='One step of the random walk, Gibbs, block Gibbs and Hamming ball samplers from a state distributed as the target '
            '(proportional to exp of the model log-likelihood) gives a state distributed as the target, for binary and categorical variables, '
            'any sample shape, any block size and any scan position. The probability of every transition is the one of the documented algorithm: '
            'a Metropolis-corrected uniform flip, the exact conditional of the scanned coordinate or block, or the two-stage draw inside the radius-one ball.',
  over=['inputs', 'configurations', 'schedules'], forall='every target, state, sample shape, number of categories, block size, scan position and random key',
  why='The tests run a few hundred steps on one Bernoulli model and compare means loosely; a wrong acceptance ratio or a wrong block at the end of the scan passes them.',
  files=['discs/samplers/randomwalk.py', 'discs/samplers/gibbs.py', 'discs/samplers/blockgibbs.py', 'discs/samplers/hammingball.py'],
  mech=[('Metropolis test', 'discs/common/math_util.py mh_step'), ('conditional / block enumeration', 'gibbs.py, blockgibbs.py step'), ('auxiliary centre draw', 'hammingball.py')],
  note=STAT + 'Spaces up to 27 states; the complete one-step kernel is compared.'),
 dict(id='C02', title='Gradient-informed flip samplers leave the target invariant',
  statement='One step of Gibbs-with-gradients and of the path auxiliary sampler leaves the target distribution invariant for every balancing function, '
            'number of flips, adaptive radius, node mask, binary or categorical variables, and for any gradient the model supplies (an inaccurate gradient may '
            'cost acceptance, never correctness). Every transition has the probability of the documented algorithm, with the reverse path drawn in reverse order and every drawn index and value accounted for.',
  over=['inputs', 'configurations', 'schedules'], forall='every target, gradient field, state, balancing function, flip count or radius, mask and random key',
  why='Tests only check shapes and rough means on factorised models, where an incorrect reverse probability is invisible.',
  files=['discs/samplers/gwg.py', 'discs/samplers/path_auxiliary.py', 'discs/samplers/locallybalanced.py', 'discs/common/math_util.py'],
  mech=[('Metropolis-Hastings correction', 'gwg.py step; path_auxiliary.py step'), ('proposal log-likelihoods', 'gwg.py, path_auxiliary.py'), ('draws without replacement', 'math_util.multinomial')],
  note=STAT + 'Spaces up to 27 states, all four balancing functions.'),
 dict(id='C03', title='Langevin-type samplers leave the target invariant',
  statement='One step of DMALA and DLMC leaves the target distribution invariant at every step size (fixed, adapted or locally re-normalised), for both DLMC '
            'solvers, every balancing function, binary or categorical variables, and any gradient the model supplies. Every transition has the '
            'probability of the documented algorithm: independent per-coordinate proposals, reversed at the proposed state, then a Metropolis-Hastings test.',
  over=['inputs', 'configurations', 'schedules'], forall='every target, gradient field, state, step size, balancing function, solver and random key',
  why='Tests only check shapes and rough means on one model.',
  files=['discs/samplers/dmala.py', 'discs/samplers/dlmc.py', 'discs/samplers/locallybalanced.py'],
  mech=[('Metropolis-Hastings correction', 'dmala.py step; dlmc.py step'), ('rate to probability map', 'dlmc.py get_dist_at')],
  note=STAT + 'Spaces up to 27 states.'),
 dict(id='C04', title='Step and energy-evaluation counters and acceptance are truthful',
  statement='After every step the sampler state reports exactly one more step and exactly the number of model evaluations that step performed, in every '
            'sampler and configuration. The acceptance returned with the step lies in [0,1] and is the mean acceptance probability of the proposed moves.',
  over=['histories', 'configurations'], forall='every sampler configuration and every history of steps',
  why='No test looks at the counters; ESS per evaluation is computed from them.',
  files=['discs/samplers/abstractsampler.py', 'discs/samplers/*.py'],
  mech=[('num_ll_calls / steps update', 'discs/samplers/*.py step'), ('mean acceptance', 'discs/samplers/*.py')],
  note=DET),
 dict(id='C05', title='Adaptive tuning follows its schedule and stays in range',
  statement='Non-adaptive samplers never change their tuning; adaptive ones move the radius or the step size in the direction of the acceptance error, clipped to '
            'the allowed range, at the documented steps only, and systematic scans visit every block in turn and wrap around. Tuning values stay finite on every history.',
  over=['histories', 'configurations'], forall='every configuration and history of acceptances, including tuning at its bounds',
  why='Tests run too few steps to reach a schedule boundary, a wrap-around or a clipped value.',
  files=['discs/samplers/randomwalk.py', 'discs/samplers/gibbs.py', 'discs/samplers/blockgibbs.py', 'discs/samplers/hammingball.py', 'discs/samplers/gwg.py',
         'discs/samplers/path_auxiliary.py', 'discs/samplers/dmala.py', 'discs/samplers/dlmc.py'],
  mech=[('update_sampler_state', 'discs/samplers/*.py')],
  note=DET),
 dict(id='C06', title='Samples stay in the domain, masked coordinates never move',
  statement='Every state a sampler returns has the shape and integer type of its input and values in {0..num_categories-1}; coordinates excluded by the node mask keep '
            'their value in the samplers that take one (binary Gibbs-with-gradients, path auxiliary); a single-site sampler changes at most the coordinates its move allows.',
  over=['histories', 'inputs', 'configurations'], forall='every configuration, mask and history of steps',
  why='Tests check shapes on one configuration without masks.',
  files=['discs/samplers/*.py', 'discs/common/math_util.py'], mech=[('index arithmetic and masks', 'discs/samplers/*.py step')],
  note=DET),
 dict(id='C07', title='A step is a pure function; chains and successive steps are independent',
  statement='Calling a sampler step twice with the same key, samples, parameters and state gives identical results, and the call leaves its arguments unchanged. '
            'Given their states, the chains of a batch move independently of each other, and steps with different keys are independent.',
  over=['histories', 'schedules', 'inputs'], forall='every configuration, batch, key and history',
  why='Tests never repeat a call or look at the joint law of two chains.',
  files=['discs/samplers/*.py', 'discs/common/math_util.py'], mech=[('key splitting', 'discs/samplers/*.py step'), ('state copy', 'discs/samplers/*.py step')],
  note=STAT),
 dict(id='C08', title='Sampling primitives have the laws and likelihoods they claim',
  statement='The multi-draw primitive draws index sequences, counts or selections with exactly the law of sampling with or without replacement (constant or run-time size) '
            'and reports the log-likelihood of what it drew; the acceptance primitive accepts with probability min(1, exp(log-ratio)) and returns whole samples; the numeric helpers '
            'are exact.',
  over=['inputs', 'configurations'], forall='every log-probability vector, number of draws and mode',
  why='Three unit tests sample a handful of vectors and only one mode.',
  files=['discs/common/math_util.py'], mech=[('Gumbel top-k, categorical draws, renormalisation', 'discs/common/math_util.py')],
  note=STAT),
 dict(id='C09', title='Model log-likelihoods and gradients are those of the stated models',
  statement='forward returns the unnormalised log-likelihood of the documented model (Bernoulli, Categorical, 2-D Ising and Potts lattices with open boundaries, binary and categorical factorial HMM, binary and '
            'categorical RBM with hidden units summed out) for every sample and every parameter, and get_value_and_grad returns the same value with its gradient. Integer, float and one-hot encodings, '
            'jitted or not, alone or in any batch position, give the same value. The gradient of the ResNet energy is its derivative.',
  over=['inputs', 'configurations'], forall='every model, shape, number of categories, parameter setting, sample, encoding and batch',
  why='Tests compare one Bernoulli and one Categorical value with the same formula; couplings at boundaries, non-square lattices and integer inputs are never evaluated.',
  files=['discs/models/bernoulli.py', 'discs/models/categorical.py', 'discs/models/ising.py', 'discs/models/potts.py', 'discs/models/fhmm.py', 'discs/models/rbm.py', 'discs/models/resnet.py'],
  mech=[('forward / get_value_and_grad', 'discs/models/*.py')], note=DET),
 dict(id='C10', title='Model parameters, synthetic data and initial samples follow their stated laws',
  statement='make_init_params gives Ising and Potts the constant coupling -lambda and a uniform field of half-width init_sigma around +mu inside and -mu outside the centred disc, Bernoulli and Categorical normal weights of '
            'standard deviation init_sigma, and the FHMM normalised laws with observations generated by its own hidden chains; networks return the trained parameters when given. get_init_samples returns integer samples of the right '
            'shape in the domain: uniform and independent, drawn from the data mean for trained networks, and covering every partition for normalised cut. The RBM half-steps draw from the exact conditionals, so its block '
            'Gibbs sweep leaves the RBM invariant. The Bernoulli mean and variance are exact.',
  over=['inputs', 'configurations'], forall='every model configuration, random key and number of samples',
  why='Tests check shapes only.',
  files=['discs/models/*.py', 'discs/samplers/blockgibbs.py'],
  mech=[('make_init_params, get_init_samples', 'discs/models/*.py'), ('step_h, step_v', 'discs/models/rbm.py'), ('RBMBlockGibbsSampler', 'discs/samplers/blockgibbs.py')], note=STAT),
 dict(id='C11', title='Combinatorial energies are the objectives of the instance, whatever its padding',
  statement='For every instance a loader delivers, the model log-likelihood of an assignment is the objective of that instance divided by the temperature, and evaluate returns the objective itself at any temperature: '
            'the cut weight for max cut; size minus penalty times violated edges for independent set; size minus penalty times missing pairs for clique; minus the (normalised, or balance-penalised) cut for normalised cut. '
            'Padded nodes and edges, the order and direction of edges, node insertion order, and the other instances of the data set never change the value. The gradient given to the samplers is that of the relaxed objective and is zero on padded nodes.',
  over=['inputs', 'configurations'], forall='every instance, padding, assignment, temperature, penalty and data set format',
  why='No test covers the combinatorial models or the loaders.',
  files=['discs/models/maxcut.py', 'discs/models/mis.py', 'discs/models/maxclique.py', 'discs/models/normcut.py', 'discs/models/comb_ebm.py', 'discs/common/utils.py'],
  mech=[('objective, penalty, forward, evaluate, get_value_and_grad', 'discs/models/comb_ebm.py and subclasses'), ('padding and masks', 'discs/common/utils.py graph2edges; graph loaders')],
  note=DET + 'Balance-penalised normalised cut only for instances that fill the padded node range.'),
 dict(id='C12', title='Exact neighbourhood ratios and the locally balanced jump',
  statement='logratio_in_neighborhood returns, for every node (and every new value for normalised cut), exactly the change of log-likelihood that setting it would cause, together with the current log-likelihood and a neighbour '
            'function that changes only the chosen node; padded edges never count and masked nodes of independent set instances are never candidates. The locally balanced sampler moves to each neighbour with probability proportional to the balancing function of its ratio and counts the evaluation.',
  over=['inputs', 'configurations'], forall='every instance, padding, assignment, temperature, penalty and balancing function',
  why='No test calls these functions.',
  files=['discs/models/bernoulli.py', 'discs/models/maxcut.py', 'discs/models/mis.py', 'discs/models/normcut.py', 'discs/samplers/locallybalanced.py'],
  mech=[('logratio_in_neighborhood, get_neighbor_fn', 'discs/models/*.py'), ('jump law', 'discs/samplers/locallybalanced.py step')], note=STAT),
 dict(id='C13', title='Every instance of a data set is delivered once, in order, intact and padded alike',
  statement='For every data set format the iterator yields each instance exactly once with its index in file order, in batches of the requested size, the last one filled up with entries of index -1; with several processes each index goes to exactly '
            'one process and all processes get the same number of batches. Each entry carries exactly the edges, weights, directions, degrees, node mask and reference objective of its instance, padded to common sizes that cover the largest instance, and the configuration is updated to those sizes. '
            'SAT formulas become the graph whose independent sets are their consistent literal choices. Generated random graphs are connected, within the size bounds, with weights in range.',
  over=['inputs', 'configurations', 'schedules'], forall='every data set, format, batch size, number of processes and process index',
  why='No test covers the loaders.',
  files=['discs/graph_loader/*.py', 'discs/common/utils.py'],
  mech=[('get_iterator', 'discs/graph_loader/common.py'), ('sample_gen, graph2edges', 'discs/graph_loader/*_loader.py'), ('cnf2graph', 'discs/graph_loader/mis_loader.py'), ('graph2edges, get_datagen', 'discs/common/utils.py')], note=DET),
 dict(id='C14', title='Annealing anneals every instance along the schedule and reports its best solution',
  statement='The combinatorial experiment runs every chain of every instance for chain_length steps, each step starting where the last one ended, with fresh randomness and the mask of the instance, at the temperature the schedule '
            '(constant, linear, exponential decay) prescribes for that step. For each instance, and never for a filler entry, it reports at every logged step the best objective seen at the logged steps so far (burn-in included) over all its chains, divided by the reference, the '
            'final best ratio, and a visited solution attaining it; acceptance and moved coordinates are the averages of the step. One device or several, fewer or more instances than devices, give the same guarantees.',
  over=['schedules', 'histories', 'configurations'], forall='every schedule, chain length, burn-in, logging interval, number of instances, batch and device layout',
  why='No test runs an experiment.',
  files=['discs/experiment/sampling.py', 'discs/evaluators/co_eval.py', 'discs/common/utils.py'],
  mech=[('CO_Experiment._compute_chain', 'discs/experiment/sampling.py'), ('temperature schedules', 'discs/experiment/sampling.py'), ('co_eval', 'discs/evaluators/co_eval.py')], note=DET),
 dict(id='C15', title='A sampling run advances every chain and reports its true effective sample size',
  statement='The sampling experiment advances every chain from its initial sample for chain_length steps with fresh randomness, each step continuing the last. After the burn-in of floor(chain_length * ess_ratio) steps it records, for each chain, '
            'the L1 distance to one fixed reference sample; the ESS reported is the mean (and spread) over chains of the effective sample size of that record (1 for a constant chain), also divided by steps, by the time of the steps after burn-in, and by energy evaluations. '
            'Acceptance and moved distance are the averages of each step. Snapshots are taken at every multiple of save_every_steps, when asked for, and follow the same distinct chains of the batch; the Bernoulli parameters are saved with them. '
            'This holds for one or several devices and any batch size, and every shipped classical model runs with every sampler.',
  over=['histories', 'configurations', 'schedules'], forall='every chain length, burn-in ratio, snapshot interval, batch, device layout, model and sampler',
  why='No test runs an experiment.',
  files=['discs/experiment/sampling.py', 'discs/evaluators/ess_eval.py'],
  mech=[('Sampling_Experiment._compute_chain', 'discs/experiment/sampling.py'), ('effective sample size', 'discs/evaluators/ess_eval.py')], note=DET),
 dict(id='C16', title='Annealed importance sampling estimates the normalising constant',
  statement='The energy-based experiment moves every chain through chain_length steps, step s at inverse temperature s/chain_length, each step continuing the last with fresh randomness. Before step s moves a chain, its log-weight grows by the difference of its log-likelihood '
            'at inverse temperatures s/chain_length and (s-1)/chain_length, and the value saved for the step is the log of the mean weight over all chains of all devices; with a kernel that leaves each intermediate law invariant this estimates log Z_target/Z_base. '
            'The image model interpolates linearly between its base law at 0 and its own energy at 1.',
  over=['histories', 'configurations'], forall='every chain length, batch, device layout, base and target',
  why='No test runs the experiment.',
  files=['discs/experiment/sampling.py', 'discs/models/resnet.py'],
  mech=[('EBM_Experiment._compute_chain', 'discs/experiment/sampling.py'), ('base energy and temperature', 'discs/models/resnet.py forward')], note=DET),
 dict(id='C17', title='Results on disk are complete, and the comparison tables carry them unchanged',
  statement='After every save the result files hold what was handed over: annealing results hold the ratios over time, best ratios, best solutions, mean and total time of all instances of the data set so far, however they were split into batches; the summary file holds the ESS values and the setting of the run under a '
            'sampler name that tells adaptive, solver and balancing function apart; snapshots, parameters, normalising constants and text results are saved as given. Tables and bars made from result folders group the runs that differ in the sampler only, one row per sampler, with exactly the saved values, from one device or several.',
  over=['histories', 'inputs', 'configurations'], forall='every sequence of saves, batch split, sampler setting and set of result folders',
  why='No test saves or reads results.',
  files=['discs/common/experiment_saver.py', 'discs/plot_results/plot_results.py', 'discs/plot_results/plot_utils.py'],
  mech=[('Saver', 'discs/common/experiment_saver.py'), ('clustering and csv', 'discs/plot_results/plot_results.py, plot_utils.py')], note=DET),
 dict(id='C18', title='Text infilling masks, scores, samples and reports the sentences it says',
  statement='A generated task set takes from each corpus the requested number of cleaned sentences of admissible length, masks the requested number of words (never the first or last), gives the position of every mask in the tokenised sentence, and every sentence of a corpus is either a task or a reference, never both. '
            'The log-likelihood of an infilling is the sum over the infilled positions of the log-probability the language model gives the token there when that position alone is masked, for token ids or one-hot samples, any batch; its gradient is the derivative. Initial tokens follow the language model at the masks (or the uniform law when asked). '
            'The experiment samples each sentence of the set the requested number of times for chain_length steps, decodes the final state into the sentence, evaluates all of them and, when asked, the top-k likeliest of every sentence.',
  over=['inputs', 'configurations', 'histories'], forall='every corpus, quota, length bound, number of masks, sentence, infilling, number of resamples and k',
  why='No test covers the text model.',
  files=['discs/models/text_infilling.py', 'discs/common/customized_huggingface_flax_bert.py', 'discs/common/utils.py', 'discs/experiment/sampling.py'],
  mech=[('forward, get_init_samples, decode', 'discs/models/text_infilling.py'), ('one-hot BERT', 'discs/common/customized_huggingface_flax_bert.py'), ('create_infill_dataset', 'discs/common/utils.py'), ('Text_Infilling_Experiment', 'discs/experiment/sampling.py')],
  note=DET + 'A small randomly initialised BERT stands for the pretrained network.'),
 dict(id='C19', title='Evaluation metrics are the quantities they are named after',
  statement='For every set of generated sentences and reference corpora, the text evaluator reports corpus BLEU-4 (clipped n-gram precision, closest-reference brevity penalty) against each corpus and both, BLEU-4 of every sentence against the others, the share of distinct n-grams absent from a corpus and of n-grams generated once, '
            'for n up to max_n_grams, after lower-casing the references and normalising quotes and unknown words. The Bernoulli evaluator reports mean and maximal squared errors of chain means and unbiased variances against the exact ones, the same over the last states of the chains, and error curves with one point per full window, also from the files a run saved. '
            'The partition evaluator reports, for every result folder, the share of cut edges and the balance of the best solution, whatever the order the graph was built in.',
  over=['inputs', 'configurations'], forall='every set of sentences, corpora, n-gram order, set of chains, window size and stride, graph and partition',
  why='No test covers the evaluators.',
  files=['discs/evaluators/lm_eval.py', 'discs/evaluators/bernoulli_eval.py', 'discs/common/normcut_evaluator.py', 'discs/plot_results/plot_estimation_error.py'],
  mech=[('LMevaluator', 'discs/evaluators/lm_eval.py'), ('Bernoullievaluator', 'discs/evaluators/bernoulli_eval.py'), ('evaluate, main', 'discs/common/normcut_evaluator.py')],
  note=DET),
 dict(id='C20', title='Training follows contrastive divergence, and trained models are used as trained',
  statement='The training loop consumes one batch per step until the last step or the end of the data. In each step the negative chains continue from where they were left (RBM) or from distinct entries of the replay buffer, which are then replaced by their successors and by nothing else (image EBM), for pcd_steps steps with fresh randomness under the current parameters; '
            'the parameters take one step of the configured optimiser (clipping included) along the gradient of mean negative minus mean positive log-likelihood over all devices, at the scheduled learning rate; the moving average, step counter, logs and checkpoints follow. The data loader gives each process its records in equal device parts, once per epoch. '
            'A model built from the files of a training run, or from a converted torch checkpoint, has the energy, data mean and setting that were trained; raw image sets are split and oriented as stored.',
  over=['histories', 'inputs', 'configurations'], forall='every data set, batch, schedule, optimiser, number of steps, devices, processes, buffer size and reinitialisation rate',
  why='No test covers training.',
  files=['discs/learning/train.py', 'discs/learning/replay_buffer.py', 'discs/learning/rbm/main_rbm_training.py', 'discs/learning/binary_ebm/main_binary_training.py', 'discs/learning/binary_ebm/pt2params.py', 'discs/learning/raw_torch_dataset.py',
         'discs/common/data_loader.py', 'discs/common/utils.py', 'discs/models/deep_ebm.py'],
  mech=[('Trainer', 'discs/learning/train.py'), ('batch_processing', 'main_rbm_training.py, main_binary_training.py'), ('ReplayBuffer', 'discs/learning/replay_buffer.py'), ('load_params_configs', 'discs/models/deep_ebm.py'), ('prepare_dataloader', 'discs/common/data_loader.py')],
  note=DET),
 dict(id='C21', title='The setting that runs is the setting that was asked for',
  statement='A launched sweep starts one job for every combination of every dictionary of the sweep, once, each with the configuration files of its model, graph type and (swept) sampler, its swept values, and a result folder of its own from whose name the tables read back the swept values. '
            'A run merges its sources by precedence: command line over configuration file over defaults of the kind of task (classical, graph, text) over the common defaults, each section from its own file; graph tasks take sizes, data and number of instances at a time from the graph configuration their setting string selects. '
            'The run then builds exactly the model, sampler, evaluator and experiment of that setting, and keeps the setting with the results. Every shipped run configuration can be launched, and the local script runs the model, graph type and sampler it is told to.',
  over=['configurations', 'inputs'], forall='every sweep, run configuration, model, graph type, sampler and set of command-line overrides',
  why='No test launches or assembles a run.',
  files=['discs/experiment/main_sampling.py', 'discs/xm_launcher.py', 'discs/experiment/run_sampling_local.sh', 'discs/common/utils.py', 'discs/common/configs.py', 'discs/run_configs', 'discs/experiment/configs', 'discs/models/configs', 'discs/samplers/configs'],
  mech=[('get_main_config, main', 'discs/experiment/main_sampling.py'), ('get_sweeps, make_job', 'discs/xm_launcher.py'), ('parse_cfg_str, setup_logging', 'discs/common/utils.py')], note=DET),
 dict(id='C22', title='An optimisation run reports true objective values of its instances',
  statement='Started from the command line for any combinatorial problem, graph type and sampler of the experiments, a run finishes with one result for every instance of the data set, in its order: the best ratio is the objective of the saved solution on that very graph divided by its reference, the curve of best ratios has one point per logged step, never falls and ends at the best ratio, '
            'and the mean is that of the instances, for any number of instances per batch and any number of devices.',
  over=['configurations', 'inputs', 'histories'], forall='every problem, graph type, sampler, data set, batch split, chain length, logging interval and device count',
  why='No test runs an experiment.',
  files=['discs/experiment/main_sampling.py', 'discs/experiment/sampling.py', 'discs/models', 'discs/samplers', 'discs/graph_loader', 'discs/common/experiment_saver.py'],
  mech=[('main', 'discs/experiment/main_sampling.py'), ('CO_Experiment', 'discs/experiment/sampling.py'), ('evaluate', 'discs/models/*.py')], note=DET),
 dict(id='C23', title='Figures and tables of a sweep show every run under its own sampler and setting',
  statement='From the folders the launcher gives the jobs of a sweep, the scripts draw one figure (or write one table) per setting that differs in more than the sampler and the plotted key. In it every completed run is shown once, labelled with its sampler, at the tick of its own value of the key (number of categories, shape, chain length, balancing function, temperature), '
            'with its own value and error: effective sample size per energy evaluation times the number of steps after burn-in, and per second; mean ratio over the instances, its spread, steps and total time; estimates of the normalising constant per step. A run that was not completed shows nothing and moves nothing else; no bar hides another and the legend names what it points at. '
            'Every shipped sweep can be drawn, histories of any length too. Grids of images show every image whole and in order, rows of samples belong to the run that labels them, and progress figures have one value per step.',
  over=['configurations', 'inputs'], forall='every sweep, set of completed runs, measured values, length of history, number of devices, and number, size and padding of images',
  why='No test covers the scripts.',
  files=['discs/plot_results', 'discs/xm_launcher.py', 'discs/common/experiment_saver.py', 'discs/run_configs'],
  mech=[('main, plot_graph_cluster, organize_experiments, get_ticks_and_sorted_experiments', 'discs/plot_results/plot_results.py'), ('get_clusters_key_based, process_keys', 'discs/plot_results/plot_utils.py'),
        ('plot_graph_cluster, main', 'discs/plot_results/plot_co_through_time.py'), ('np_tile_imgs', 'discs/plot_results/plot.py'), ('main', 'plot_ais.py, plot_ising_temp.py, plot_ebm.py')], note=DET),
]
NA = []
