"""The properties (source of properties.jsonl and MANIFEST.json)."""
PROPS = []
UNIT = ('The existing tests cover only DataTensorList construction and '
        'SetupManager; ')


def P(id, title, statement, over, for_all, why, *mech, note=None, na=None,
      how=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over.split(),
        for_all=for_all, why=why, note=note, na=na, how=how,
        mech=[tuple(m.split('@')) for m in mech]))


D = 'egenerator/data/'
M = 'egenerator/manager/'
R = 'egenerator/manager/reconstruction/modules/'
U = 'egenerator/utils/'
S = 'egenerator/model/source/'
L = 'egenerator/loss/'

P('P03', 'Data transformation and its inverse are the documented bijection',
  'Transforming a tensor maps every entry to (f(x) - mean)/(norm + std), '
  'with f = log(1+x) exactly for the entries configured as logarithmic '
  '(per entry of the last axis, or all of them) and the identity otherwise, '
  'and without bias correction to x/(norm + std); the inverse transformation '
  'undoes it, and the NumPy and the TensorFlow path give the same result. Inputs are not modified, and an unknown tensor name, a wrong shape '
  'or an unconfigured transformer is refused with an error.',
  'inputs configurations',
  'every real tensor entry, mean, standard deviation >= 0 and norm > 0, every '
  'log mask of a 3 entry tensor, several tensor shapes',
  UNIT + 'no test reaches the transformer, and a round trip over the reals '
  'cannot be sampled exhaustively.',
  'transform/inverse_transform@egenerator/data/trafo.py:DataTransformer')

P('P04', 'Trafo model statistics equal the sample mean and deviation',
  'Creating the transformation model from an event stream stores, for every '
  'existing tensor with a transformation, the per-entry mean and population '
  'standard deviation over all events of log(1+x) or x, each averaged over '
  'the axes configured to be shared, with a deviation of zero replaced by '
  'one; the result does not depend on how the stream is cut into batches. '
  'Tensors that do not exist or have no transformation get no constants.',
  'inputs schedules',
  'every real sample, every split of up to 5 events into up to 3 batches',
  UNIT + 'the statistics code is not executed by them.',
  'online mean/variance@egenerator/data/trafo.py:DataTransformer._configure')

P('P05', 'Parameter covariances and Fisher information are correct',
  'A covariance of transformed parameters is mapped back entry by entry with '
  'the scales norm + std of both parameters (NumPy and TensorFlow agree), the Hessian handed out by the source manager is the '
  'second derivative of the reconstruction loss, and the outer-product '
  'estimate is the sum over per-event (per-DOM) gradient outer products. The '
  'covariance module inverts exactly these matrices for the space of the '
  'fit and refuses partial fits.',
  'inputs configurations',
  'every real gradient, matrix, mean, std and norm for up to 4 parameters',
  UNIT + 'no covariance code is executed by them.',
  'inverse_transform_cov@egenerator/data/trafo.py:DataTransformer',
  'hessian/opg functions@egenerator/manager/source.py:SourceManager',
  'CovarianceMatrix@egenerator/manager/reconstruction/modules/covariance.py'
  ':CovarianceMatrix.execute')

P('P06', 'Events keep their own data when batches are filtered and restructured',
  'Reading data with a filter leaves exactly the events the filter accepts, '
  'in their order, each with its own entries of every tensor: per-event '
  'rows, and for vector tensors exactly the values (with re-numbered event '
  'indices) that belong to it. Tensors that do not exist stay None; restructuring batches to events and back preserves the content, and each '
  'module writes its own tensors to a frame. Batches with inconsistent '
  'numbers of events are refused.',
  'inputs configurations',
  'every filter mask and real content of up to 3 (thorough 4) events with up '
  'to 4 values per vector tensor, from hdf, frame and created data',
  UNIT + 'no data handler is executed by them.',
  'get_data_from_hdf@egenerator/data/handler/modular.py:ModuleDataHandler',
  'batch_to_event_structure@egenerator/data/handler/base.py:BaseDataHandler')

P('P07', 'The batch generator delivers every event exactly once',
  'Iterating over files in batches delivers every event of every file '
  'exactly once per repetition, with its own data in all tensors, in batches '
  'of the requested size (only the last one may be smaller), for every '
  'interleaving of its worker processes, without dead locks; picking random '
  'files forever delivers only events of the files, in full batches. '
  'Tensors that do not exist and files without events do no harm.',
  'schedules inputs configurations',
  'every schedule with up to 1 (thorough 3) delays of 1 or 2 loader '
  'processes, the batch process and the consumer, up to 3 files with up to '
  '2 events, every random draw',
  UNIT + 'the generator is not executed by them; a test samples one schedule.',
  'get_batch_generator@egenerator/data/handler/base.py:BaseDataHandler',
  'batch_to_event_structure@egenerator/data/handler/base.py:BaseDataHandler')

P('P08', 'Pulse data hold charges, pulses, windows and exclusions of each event',
  'The charge of every DOM is the sum of the charges of its pulses in that '
  'event; the pulse tensors list exactly the accepted pulses of each event '
  'with charge, time (and cumulative charge), DOM and event index; the time '
  'window of an event spans its pulses; excluded DOMs and the time '
  'exclusions are those configured for that very event. Data from hdf files '
  'and from frames agree.',
  'inputs configurations',
  'every real charge, time and width of up to 3 events with up to 5 pulses, '
  'pulse orders and all configured exclusions',
  UNIT + 'no data module is executed by them.',
  'get_data_from_hdf/frame@egenerator/data/modules/data/pulse_data.py:'
  'PulseDataModule')

P('P09', 'Label modules deliver the parameters of each event in order',
  'The label tensor holds, for every event, the documented parameters in the '
  'documented order followed by additional labels and the snowstorm '
  'parameters (ones if none are loaded). Shifting to the shower maximum '
  'moves the vertex along the direction by the documented length for the '
  'energy, and the time with the speed of light, '
  'and keeps the positions of track segments and further cascades '
  'consistent; logarithms are configured for exactly the requested labels, '
  'never for snowstorm parameters. Files and frames with missing or '
  'contradicting tables are skipped.',
  'inputs configurations',
  'every real label and energy >= 0 of up to 2 (thorough 3) events, up to 5 '
  'cascades on a track, up to 3 snowstorm parameters, four label modules, '
  'hdf and frame',
  UNIT + 'no label module is executed by them.',
  'cascades@egenerator/data/modules/labels/snowstorm_cascades.py:'
  'SnowstormCascadeGeneratorLabelModule',
  'tracks@egenerator/data/modules/labels/snowstorm_tracks.py:'
  'SnowstormTrackGeneratorLabelModule',
  'track segments@egenerator/data/modules/labels/snowstorm_track_segment.py:'
  'SnowstormTrackSegmentGeneratorLabelModule')

P('P10', 'Seeds are loaded with the requested parameters in order',
  'The seed tensor of every configured seed holds, for every event, the '
  'requested parameters in the requested order; a parameter the seed does '
  'not have gets its own configured default, else the general default, else '
  'the file or frame is skipped. Seeds do not mix, and seeds with different '
  'numbers of events are refused.',
  'inputs configurations',
  'every real value and default of up to 3 seeds with up to 5 (and 8) '
  'parameters of up to 3 events, from hdf tables, dictionaries and particles',
  UNIT + 'the seed loader is not executed by them.',
  'get_data_from_hdf/frame@egenerator/data/modules/misc/seed_loader.py:'
  'SeedLoaderMiscModule')

P('P11', 'An event passes the general filter iff it fulfils all constraints',
  'The filter mask accepts exactly the events for which every configured '
  'comparison holds, for files (columns and vector entries) and frames '
  '(mappings, vectors and attributes); without constraints every event is '
  'accepted, and unknown operations or columns are errors.',
  'inputs configurations',
  'every operation, value and threshold of up to 3 constraints on up to 3 '
  'events',
  UNIT + 'no filter is executed by them.',
  'get_event_filter_mask@egenerator/data/modules/filters/general_filter.py:'
  'GeneralFilterModule')

P('P12', 'Configurations decide compatibility and cannot change by accident',
  'Two configurations are compatible iff class, settings, check values and '
  'all sub components that are not mutable agree, at every depth; mutable '
  'settings do not matter. A configuration is isolated from the objects it '
  'was made from and from those it returns, refused updates change nothing, '
  'and configuring a component collects every sub component it is given and '
  'refuses settings that differ from the arguments. An ensemble is built iff '
  'all of its models have the same parameters, equal transformations and a '
  'data handler compatible with that of the ensemble.',
  'inputs configurations histories',
  'all values of settings and check values of trees of up to 3 levels and '
  '3 sub components per level (thorough: 4 levels), ensembles of 3 models',
  UNIT + 'few values of settings are compared by the other tests.',
  'is_compatible@egenerator/manager/component.py:Configuration',
  'ensembles@egenerator/manager/base.py:BaseModelManager',
  'configure@egenerator/manager/component.py:BaseComponent')

P('P13', 'A loaded component is the saved one',
  'Saving and loading a component restores its settings, data and sub '
  'components, also if it was saved by another version; existing files are '
  'never overwritten unless asked for. On loading a sub component is '
  'replaced by another one only if it is compatible or mutable, the others '
  'are unchanged, and replacements that are not used are errors; a data '
  'handler takes the tensors and settings of its replaced modules.',
  'inputs configurations histories',
  'all settings and data of a tree of 5 components on 3 levels, every subset '
  'of existing files, every replacement',
  UNIT + 'the other tests save and load a few fixed components.',
  'save/load@egenerator/manager/component.py:BaseComponent')

P('P14', 'Checkpoints: the newest and all protected weights can be loaded',
  'After any series of saves exactly the most recent unprotected checkpoints '
  'up to the requested number (at least one) and all protected ones exist, '
  'with the weights at the time of saving, and the latest is the default; no '
  'other files are removed and none are overwritten; every source of a '
  'multi-source model keeps and gets back its own weights. If the process dies '
  'while saving, the weights of the last completed save, or the new ones, '
  'are loaded; training steps keep their settings and number of steps.',
  'histories crash_points inputs',
  'all weights, up to 5 (thorough 7) saves with every choice of protection '
  'and of 1 to 3 checkpoints to keep, a crash at every change of the files, '
  'ensembles of up to 12 models, multi-source models of up to 3 sources '
  '(also nested)',
  UNIT + 'no test interrupts saving, few series of saves are tested.',
  'save_weights/load_weights@egenerator/model/base.py:Model',
  'save_weights/load_weights@egenerator/manager/base.py:BaseModelManager',
  'save_weights/load_weights@egenerator/model/multi_source/base.py:'
  'MultiSource')

P('P15', 'Asymmetric Gaussian, Gaussian and Rayleigh functions are coherent',
  'The asymmetric Gaussian density is the documented split normal, its log '
  'version is its logarithm, its cdf is its integral (derivative equal to '
  'the density, between 0 and 1, monotone, 1/(1+r) below the mode), and its '
  'ppf inverts the cdf; Gaussian and Rayleigh functions fulfil the same '
  'relations. NumPy and TensorFlow versions return the same values, and '
  'every element of an array is evaluated independently of the others.',
  'inputs',
  'all real x and mu, sigma > 0, r > 0, quantiles in [0.001, 0.999]',
  UNIT + 'none of the basis functions is tested.',
  'basis functions@egenerator/utils/basis_functions.py:asymmetric_gauss')

P('P16', 'Negative binomial density and sampling follow the documentation',
  'The log negative binomial density (NumPy and TensorFlow) equals the '
  'documented expression in mean and over-dispersion, including its '
  'normalisation term when requested and the exact probability of zero '
  'counts, and the sampler draws from the distribution with the requested '
  'mean and variance, whether it is given the variance or the '
  'over-dispersion.',
  'inputs configurations',
  'every real count, mean > 0, over-dispersion > 0',
  UNIT + 'the density is not executed by them and an identity over the reals '
  'is out of reach of samples.',
  'log_negative_binomial/sampling@egenerator/utils/basis_functions.py')

P('P17', 'Angles and angular offsets on the sphere are exact',
  'The opening angle of two vectors or directions lies between 0 and pi and '
  'its cosine is the normalised scalar product; a direction offset by a '
  'given distance lies exactly at that distance from the original and has '
  'valid zenith and azimuth angles; conversion from vector to angles '
  'returns zenith in [0, pi] and azimuth in [0, 2 pi) of that direction.',
  'inputs',
  'every pair of non-vanishing vectors or angles, every offset',
  UNIT + 'no angle code is executed by them.',
  'get_angle/get_angle_deviation/get_delta_psi_vector@egenerator/utils/'
  'angles.py')

P('P18', 'The spherical optimizer returns the best point it evaluated',
  'spherical_opt (Nelder-Mead and CRS2, scalar and batched) returns a point '
  'it evaluated together with the value of the objective at that point, and '
  'no evaluation had a lower value; every point of the final population '
  'carries its own value; the number of calls is the number of evaluations; '
  'iteration and call limits hold, and the stopping flag names a condition '
  'that really holds. Reflection and distances on the sphere are exact, and '
  'invalid settings are refused.',
  'inputs histories',
  'every objective (arbitrary value per call) and every draw of the random '
  'generator, 1 to 2 dimensions, 2 to 4 points, up to 3 iterations',
  UNIT + 'the optimizer is not executed by them, and the property holds over '
  'all objectives.',
  'minimizer loop@egenerator/utils/spherical_opt.py:spherical_opt',
  'reflection on the sphere@egenerator/utils/spherical_opt.py:reflect')

P('P19', 'The learning rate schedule switches exactly at its boundaries',
  'MultiLearningRateScheduler evaluates for every step the schedule '
  'configured for the interval containing that step, with the step counted '
  'from the start of that interval; a wrong number of boundaries is '
  'refused.',
  'inputs configurations',
  'every step, boundaries and schedule coefficients for up to 4 schedules',
  UNIT + 'no schedule is evaluated by them.',
  'MultiLearningRateScheduler@egenerator/utils/learning_rate.py')

P('P20', 'Source models predict valid charges and pulse time densities',
  'For every output of the network, the cascade, systematics, charge '
  'quantile and track segment models return a valid mixture for every DOM '
  '(weights positive and summing to one, widths and asymmetries positive, '
  'means ascending if swapping is prevented). The expected charge of a DOM '
  'is exp of the first network output, scaled by energy, relative DOM '
  'efficiency and global DOM efficiency exactly when configured, and '
  'reduced by the probability of the excluded time windows; variance, '
  'uncertainty and log likelihood of the charge belong to the configured '
  'charge distribution. The density of a pulse is that of the mixture of its own event and DOM at the time since the vertex, renormalised for exclusions; networks with a wrong number of outputs are refused.',
  'inputs configurations',
  'every network output, parameter, pulse time and exclusion window of 2 '
  'events with 4 pulses and 4 windows, 2 or 3 mixture components',
  UNIT + 'no source model is executed by them and its formulas hold over '
  'all network outputs.',
  'cascade@egenerator/model/source/cascade/default.py:DefaultCascadeModel',
  'systematics@egenerator/model/source/cascade/systematic.py:'
  'SystematicsCascadeModel',
  'quantiles@egenerator/model/source/cascade/charge_quantiles.py:'
  'ChargeQuantileCascadeModel',
  'segment@egenerator/model/source/track/stochastic_segment.py:'
  'StochasticTrackSegmentModel')

P('P21', 'Source models see a time free, local description of each event',
  'The input of the network at every DOM consists of the documented '
  'channels, in order: (transformed) vertex, direction, transformed energy '
  'and further parameters, unit vector and scaled distance from the vertex '
  'to the DOM (for track segments: from the closest point on the segment, '
  'with the energy deposited around it), and, if configured, opening angle, '
  'anisotropy angle, DOM coordinates and variables of the DOM; the second '
  'network of the quantile model gets quantile, charge and charge fractions '
  'of the pulse and the outputs of its DOM. Moving vertex, pulses and excluded '
  'windows together in time changes no result; an event has the same '
  'results whatever its position in the batch and the other events are; '
  'the channels (except position) only depend on DOM minus vertex.',
  'inputs configurations',
  'every real source parameter, pulse time, window and network output of 2 '
  'events, 2 to 4 DOMs per event',
  UNIT + 'no source model is executed by them and invariances relate whole '
  'families of inputs.',
  'cascade@egenerator/model/source/cascade/default.py:DefaultCascadeModel',
  'systematics@egenerator/model/source/cascade/systematic.py:'
  'SystematicsCascadeModel',
  'quantiles@egenerator/model/source/cascade/charge_quantiles.py:'
  'ChargeQuantileCascadeModel',
  'segment@egenerator/model/source/track/stochastic_segment.py:'
  'StochasticTrackSegmentModel')

P('P22', 'The noise model is uniform in time with the rates of the DOMs',
  'The expected noise charge of a DOM is its noise rate times the length of '
  'the time window of its event times a positive scale, reduced by the '
  'fraction of the window that is excluded (windows clipped to the time '
  'window, summed and limited to one); the variance is mu + alpha mu^2 with '
  'alpha > 0; the density of a pulse is uniform over the part of the window '
  'that is not excluded. Other events, source parameters and common time '
  'shifts do not matter.',
  'inputs configurations',
  'every real time window, exclusion window and model variable for 2 events, '
  '5 pulses and 4 exclusion windows',
  UNIT + 'the noise model is not executed by them.',
  'get_tensors@egenerator/model/source/noise/default.py:DefaultNoiseModel')

P('P23', 'Multi-source models superpose the results of their sources',
  'The expected charge and the charge variance of a multi-source model at '
  'every DOM are the sums over its sources, each evaluated by its own base '
  'source with its own parameters; the pulse density and the excluded '
  'fraction are the means of those of the sources, weighted with their '
  'expected charges at the DOM.',
  'inputs configurations',
  'every result (exponential or linear in arbitrary source parameters) of 1 '
  'to 4 sources from 1 to 3 base sources, 2 events, 4 pulses',
  UNIT + 'no multi-source model is executed by them.',
  'get_tensors@egenerator/model/multi_source/base.py:MultiSource')

P('P24', 'Multi-source models hand the documented parameters to each source',
  'Independent sources get exactly their own parameters; the cascades of a '
  'muon lie equally spaced (-500 m to 500 m) around the point of the track '
  'closest to the origin, with light speed timing and no energy outside 700 '
  'm; a stochastic track starts its segment at the given distance and its '
  'cascades lie at theirs, again at light speed, and snowstorm parameters '
  'reach every source. Parameter names, indices and access by name agree '
  'with the order of the input tensor.',
  'inputs configurations',
  'every real parameter of 2 events; 1 to 4 sources, 0 to 3 cascades, with '
  'and without snowstorm parameters',
  UNIT + 'no multi-source model is executed by them.',
  'get_source_parameters@egenerator/model/multi_source/independent.py:'
  'IndependentMultiSource',
  'get_source_parameters@egenerator/model/multi_source/muon/default.py:'
  'DefaultMultiCascadeModel',
  'get_source_parameters@egenerator/model/multi_source/track/'
  'stochastic_track.py:StochasticTrackModel')

P('P26', 'Sorted loss terms belong to their events and DOMs and add up',
  'If a loss is requested as sorted terms, it consists of one scalar, one '
  'value per event and one value per DOM: every pulse and every DOM '
  'contributes to the term of its own DOM, every event likelihood to the '
  'term of its event, normalised as the scalar loss is. The sum of the '
  'sorted terms, and that of the unsorted terms, is the scalar loss.',
  'inputs configurations',
  'every loss function, every real charge, density and mask of 2 events with '
  '4 DOMs, with and without normalisation terms, 0 to 5 pulses',
  UNIT + 'no loss is executed by them.',
  'get_loss@egenerator/loss/default.py:DefaultLossModule')

P('P27', 'Excluded DOMs do not contribute to the loss',
  'No charge, variance or density predicted for an excluded DOM, and no '
  'charge measured there, changes any loss term; a mask that excludes '
  'no DOM gives the same loss as no mask. (The charge fractions of '
  'normalized_dom_charge_pdf are fractions of the whole event and are '
  'exempt; the constant normalisation term of measured charges of '
  'unbinned_pulse_and_dom_charge_pdf as well.)',
  'inputs configurations',
  'all loss functions, every real charge, density and mask of 2 events with '
  '4 DOMs',
  UNIT + 'no loss is executed by them.',
  'get_loss@egenerator/loss/default.py:DefaultLossModule')

P('P28', 'The loss is the documented negative log likelihood',
  'Every loss function returns the documented negative log likelihood of '
  'measured charges and pulses under the predictions of the model: extended '
  'unbinned pulse likelihood, time density, charge density per DOM, charge '
  'quantiles, negative binomial or Gaussian charge per DOM or event, each '
  'with its normalisation terms and divided by the total charge if '
  'configured. Contradicting options, and time exclusions without the '
  'excluded fraction of the model, are refused.',
  'inputs configurations',
  'all loss functions, every real charge, prediction and mask of 2 events '
  'with 4 DOMs, 0 to 5 pulses',
  UNIT + 'no loss is executed by them.',
  'DefaultLossModule@egenerator/loss/default.py:DefaultLossModule')

P('P29', 'Several loss modules add up',
  'The combination of several loss modules returns the sum of their losses, '
  'all of their unsorted terms, or, sorted, the sums of their scalar, event '
  'and DOM terms; it passes all options on to every module and uses every '
  'configured module exactly once.',
  'inputs configurations',
  'combinations of 1 to 4 modules of all loss functions and the snowstorm '
  'priors, every real charge, prediction and mask of 2 events with 4 DOMs',
  UNIT + 'no loss is executed by them.',
  'get_loss@egenerator/loss/multi_loss.py:MultiLossModule')

P('P30', 'Snowstorm priors penalise the documented parameters',
  'The prior of an event vanishes for uniform parameters within their bounds '
  'and rises steeply and monotonically outside of them; the prior of the '
  'Fourier modes is the negative Gaussian log density with the configured '
  'widths, mode by mode. Parameters are found by name, whatever their '
  'position, and other parameters do not matter. Sorted, the prior '
  'belongs to the events; scalar and terms agree.',
  'inputs configurations',
  'every real parameter of 2 events, up to 24 modes and 6 uniform parameters',
  UNIT + 'no loss is executed by them.',
  'get_loss@egenerator/loss/snowstorm.py:SnowstormPriorLossModule')

P('P31', 'A reconstruction starts at the seed and reports the true optimum',
  'For every choice of fitted parameters the optimizer starts at the seed '
  'values of exactly those parameters (in the space of the fit), gets only '
  'their bounds, and the reported result holds the optimum of the optimizer '
  'transformed back to true parameter values for fitted parameters and the '
  'unchanged seed for all others. The reported loss is the objective at '
  'the result, and fit masks of the wrong length are refused.',
  'inputs configurations',
  'all fit masks of 3 (thorough 4) parameters, every real seed, optimum '
  'and transformation; scipy, global, spherical and TensorFlow optimizers '
  'as stubs',
  UNIT + 'the reconstruction chain is not executed by them.',
  'reconstruct_events@egenerator/manager/source.py:SourceManager',
  'Reconstruction@egenerator/manager/reconstruction/modules/'
  'reconstruction.py:Reconstruction',
  'get_reco_result_batch@egenerator/manager/reconstruction/modules/utils/'
  'trafo.py:get_reco_result_batch')

P('P32', 'The best reconstruction is the valid one with the smallest loss',
  'Selecting the best of several reconstruction results returns the complete '
  'result (all fields, runtime as reco_runtime) of one candidate whose loss '
  'is a valid number not larger than that of any other candidate, if there '
  'is one. The '
  'candidates themselves are not modified.',
  'inputs',
  '1 to 4 (thorough 6) candidates with every real or NaN loss, in every order',
  UNIT + 'the module is not executed by them.',
  'SelectBestReconstruction@egenerator/manager/reconstruction/modules/'
  'reconstruction.py:SelectBestReconstruction')

P('P36', 'The fit objective and its gradient follow the documented loss',
  'The loss functions handed to the optimizers equal the documented loss '
  'summed over all models of the ensemble at the full hypothesis formed of '
  'fitted values and seed values, mapped back from the transformed space if '
  'that is the space of the fit. The gradient functions return the same loss '
  'and its exact derivative with respect to exactly the fitted parameters, '
  'and the tensor function the prediction of the chosen model, with all DOMs, '
  'at the given parameters.',
  'inputs configurations',
  'every real parameter value, seed and transformation; 3 (thorough 4) '
  'parameters, several fit masks, up to 2 events and 3 models',
  UNIT + 'source manager functions are not executed by them.',
  'get_parameter_loss_function@egenerator/manager/source.py:SourceManager')

P('P37', 'A training step uses the right loss, batches and gradients',
  'The training loss is the sum over the models of the ensemble of their loss '
  'and regularization, scaled by the configured factors. Every trainable '
  'variable is updated with the gradient with respect to itself, clipped by '
  'the global norm if configured; gradients that are not finite are set to '
  'zero if configured, else the update is refused. Each batch is used once, '
  'validation and evaluation get validation batches, and checkpoints record '
  'the number of steps performed.',
  'inputs configurations histories',
  'all weights, batches of 2 events, every subset of NaN gradients of up to '
  '2 (loss: 3) models, up to 5 training steps with frequencies up to 3',
  UNIT + 'no test trains a model.',
  'get_loss/perform_training_step/train@egenerator/manager/base.py:'
  'BaseModelManager',
  note='updates of real optimizers are taken as they are')

P('P38', 'Simulated events contain every light source and its pulses',
  'Every particle of the tree that emits light within reach is simulated '
  'exactly once, with the hypothesis given by its own position, direction, '
  'energy and time and the default values (numbers or from the frame); '
  'particles that cannot be simulated are refused. '
  'The pulses have the DOM, number, mixture component and charge of their '
  'draws, times relative to the source, are sorted by time and sum up to the '
  'number of photo-electrons.',
  'inputs',
  'all energies, positions and random numbers; trees of up to 5 (thorough '
  '10) particles, up to 3 sources, 2 DOMs, 3 photo-electrons, 3 components',
  UNIT + 'the module cannot even be imported by them.',
  'get_light_sources/sample_pulses@egenerator/ic3/simulation.py:'
  'EventGeneratorSimulation',
  note='stand-ins for icecube')

P('P33', 'The circularized uncertainty describes the loss around the best fit',
  'The scan evaluates directions at opening angles equally spaced from zero '
  'to twice the size given by the covariances (else found by bisection), at '
  'most 89.9 degrees, '
  'fitting all other parameters with the direction fixed. The estimate is the '
  'non-negative width of the Rayleigh distribution that minimizes the squared '
  'distance to the chi-square probabilities of the loss differences to the '
  'best fit.',
  'inputs',
  'all losses, best fits, covariances and fit results; 3 and 4 parameters, '
  'up to 4 (thorough 10) points',
  UNIT + 'no test runs the module.',
  'CircularizedAngularUncertainty@egenerator/manager/reconstruction/modules/'
  'opening_angle.py:CircularizedAngularUncertainty')

P('P34', 'Goodness of fit: p-values of the data among sampled events',
  'Hypotheses are sampled around the best fit; each gets its own event with '
  'its own charges, pulses at the drawn times and no other change of the '
  'data. The losses of these events, at their fit if configured, and the loss '
  'of the data at its best fit are compared on the same scale: p-values are '
  'the fractions of samples on either side, for the event and each DOM.',
  'inputs configurations',
  'all losses, random numbers and best fits; up to 3 (thorough 5) samples, '
  '2 DOMs, 2 (3) photo-electrons, with and without covariance, fits, masks',
  UNIT + 'no test runs the module.',
  'GoodnessOfFit@egenerator/manager/reconstruction/modules/fit_quality.py:'
  'GoodnessOfFit')

P('P35', 'Reconstruction trays run modules in order and fill the frame',
  'Modules of a tray run once per event in the order they were added and see '
  'the results of all earlier ones; names are unique. Modules that share '
  'compiled functions only use functions compiled for exactly their own '
  'settings. The IceTray module passes its settings to all modules and '
  'writes every parameter, loss, p-value, covariance and particle to the '
  'frame under its own name.',
  'inputs configurations histories',
  'all values of results; all fit masks and spaces of up to 3 modules with 2 '
  'parameters, trays of up to 3 (thorough 4) modules, up to 8 parameters '
  'and 3 seeds',
  UNIT + 'no test runs a tray.',
  'ReconstructionTray@egenerator/manager/reconstruction/tray.py:'
  'ReconstructionTray',
  'EventGeneratorReconstruction@egenerator/ic3/reconstruction.py:'
  'EventGeneratorReconstruction',
  note='stand-ins for icecube')

P('P01', 'Tensor lists have one canonical order and survive serialization',
  'A list of tensor definitions is sorted by name whatever the order they '
  'are given in, names are unique, and every lookup (name, index, shape, '
  'type) refers to the definition with that name. Two lists are equal '
  'exactly if all their definitions are. Serializing and deserializing '
  'gives an equal list with all settings of every tensor; lists do not '
  'share state with what they were built from, and invalid definitions are '
  'refused.',
  'inputs configurations',
  'all names (up to equality and order), shapes and further settings of up '
  'to 3 (thorough 4) tensors',
  'The existing tests use two fixed lists.',
  'DataTensorList@egenerator/data/tensor.py:DataTensorList')

P('P02', 'Merged configurations keep every setting exactly once',
  'Merging configuration files keeps every setting of every file with its '
  'value, refuses a setting that is defined in two files, and adds the '
  'default precision only if no file sets it. References in strings are '
  'replaced by the values of the settings at every depth; everything else is '
  'unchanged. Configurations and managers are independent of each other.',
  'inputs configurations',
  'all setting names (up to equality) and values of up to 3 files with up '
  'to 4 settings, dictionaries nested up to 3 levels',
  'The existing tests use two fixed files.',
  'SetupManager@egenerator/settings/setup_manager.py:SetupManager',
  note='YAML parsing is a stand-in')

P('P39', 'Components are built or restored from exactly their own settings',
  'Base models are loaded from their directories or built with their own '
  'settings and transformation, never rebuilt unless allowed; each loss and '
  'manager gets its own settings and the components handed in, and a '
  'configured ensemble restores the model of every directory in order, '
  'with the settings of its own directory, and uses the loss, labels and '
  'seeds of the reconstruction directory with the requested updates. '
  'The command line scripts train, export and reconstruct with all models, '
  'their own settings and the seeds and modules asked for; they delete or '
  'overwrite an existing result only after confirmation.',
  'inputs configurations',
  'all values of settings; up to 2 bases, 3 losses, 3 directories, every '
  'combination of updates and answers',
  UNIT + 'no test builds a manager.',
  'build_model/build_loss_module/build_manager@egenerator/utils/'
  'build_components.py:build_manager',
  'ManagerConfigurator@egenerator/utils/configurator.py:ManagerConfigurator',
  'main@egenerator/train_model.py:main',
  'main@egenerator/create_trafo_model.py:main',
  'main@egenerator/export_manager.py:main',
  'main@egenerator/reconstruct_test_data.py:main')

P('P40', 'Markov chains sample the likelihood from the best fit',
  'All chains start at the best fit, expressed in the space the chains run '
  'in. The target density is the negative loss of the event for one '
  'hypothesis per chain. All accepted steps, and only these, are returned '
  'as samples in the original parameter space with the probability of the '
  'same step and chain.',
  'inputs configurations',
  'all best fits, states and probabilities; up to 7 parameters, 3 chains '
  'and 3 (thorough 4) steps, all acceptance patterns, 3 methods',
  UNIT + 'no test runs a chain.',
  'run_mcmc_on_events@egenerator/manager/source.py:SourceManager.'
  'run_mcmc_on_events',
  'MarkovChainMonteCarlo@egenerator/manager/reconstruction/modules/mcmc.py:'
  'MarkovChainMonteCarlo',
  note='tensorflow_probability is a stand-in')

P('P25', 'The table of a test reconstruction holds the values of each event',
  'Reconstructing test data fits every event from every requested seed with '
  'the requested parameters and keeps the best of all fits; the uncertainty, '
  'goodness of fit and Markov chain modules use that fit. Every event has '
  'one row with its own true, seed and fitted parameters, the losses of '
  'these three hypotheses and the requested uncertainties and p-values. The '
  'samples of its chain are stored with their probabilities, sorted.',
  'inputs configurations',
  'all parameters, losses, uncertainties and p-values; up to 3 (thorough 4) '
  'parameters and events, 2 seeds, 2 (thorough 3) samples, one event per '
  'batch',
  UNIT + 'no test reconstructs test data.',
  'reconstruct_testdata@egenerator/manager/source.py:SourceManager',
  note='several random seeds with several seed names are refused (module '
  'names) and not covered')
