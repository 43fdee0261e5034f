"""P21 onwards: learning of rates and the tools around it."""

C = 'configurations'
I = 'inputs'
H = 'histories'
PD = 'putting_dune/'
RL = PD + 'rate_learning/'

PROPERTIES = [
    dict(
        id='P21',
        title='Augmented, standardised and synthetic rate data describe one physics',
        statement=(
            'Augmenting transition data keeps every row and adds its images'
            ' under the rotations by 120 degrees and the mirror image,'
            ' reordering the neighbour labels and rates so that each'
            ' still belongs to the same neighbour. Standardising a site turns'
            ' beam and neighbours together until the neighbour nearest to the'
            ' beam lies to the right, and counts counter-clockwise from it.'
            ' Synthetic data follow the prior rates they are drawn from:'
            ' next states, times, positions and rates belong together, with'
            ' frequencies to match; contexts do not depend on time or place.'
        ),
        over=[I, C],
        text='all transition data sets, contexts, orientations and prior'
        ' parameters',
        why='Tests compare a few rows; symmetry ties every row to its images.',
        files=[RL + 'data_utils.py'],
        mechanism=[
            ('augmentation and standardisation', RL + 'data_utils.py'),
            ('synthetic prior data', RL + 'data_utils.py'),
        ],
        oracle='rotations and mirror images of the neighbour directions and'
        ' the simulated rates',
    ),
    dict(
        id='P22',
        title='Splits and bootstraps keep rows whole and tests unseen',
        statement=(
            'A split sends every row to exactly one of training and testing, in'
            ' the requested share; a bootstrap draws as many rows as there are,'
            ' with replacement and without favour, and tests on exactly the'
            ' rows not drawn. Rows are never torn apart, no original or'
            ' augmented image of a training row turns up in testing, and data'
            ' without voltage and current are handled too.'
        ),
        over=[I, C],
        text='all data set sizes, keys, shares, numbers of splits and choices'
        ' of augmentation and context',
        why='Tests draw a split or two from a fixed key.',
        files=[RL + 'data_utils.py', RL + 'learn_rates.py'],
        mechanism=[
            ('splitting and bootstrapping', RL + 'data_utils.py'),
            ('data set splits for an ensemble', RL + 'learn_rates.py'),
        ],
        oracle='rows that carry their own number in every field',
    ),
]
PROPERTIES += [
    dict(
        id='P23',
        title='Recorded trajectories become exactly the transitions that happened',
        statement=(
            'Every pair of successive observations of a trajectory, and no'
            ' other, becomes one transition with its own atoms, views, images'
            ' and control, from any number of files, also by the program. A'
            ' transition of a single'
            ' threefold silicon under one exposure becomes one datum, in order:'
            ' the beam relative to the silicon in angstroms, turned so that its'
            ' nearest neighbour lies on the x axis, and the'
            ' counter-clockwise number of the neighbour the silicon went to;'
            ' all others are left out. Pictures of transitions show everything'
            ' where it is.'
        ),
        over=[I, H],
        text='all trajectories, and transitions on turned, jittered, drifting'
        ' sheets in any two fields of view, usable or not',
        why='No test runs this code; orientation, order and view combine freely.',
        files=[
            PD + 'pipeline/trajectories_to_transitions.py',
            PD + 'pipeline/train_rate_learner.py',
        ],
        mechanism=[
            ('pairing', PD + 'pipeline/trajectories_to_transitions.py'),
            ('data points, stacking, loading', PD + 'pipeline/train_rate_learner.py'),
        ],
        oracle='the hops and numbered observations that the recordings were'
        ' made of',
    ),
    dict(
        id='P24',
        title='Learned rates are those the networks learned, wherever they are asked',
        statement=(
            'The training loss is the likelihood of the transitions, and the'
            ' reported final losses are those of the final networks. A learned'
            ' predictor gives each neighbour, in the order asked for and for'
            ' any orientation of the sheet, the average rate of its networks at'
            ' the standardised beam position, context included: before and'
            ' after training, distilling, saving and loading, with or without a'
            ' fixed context. Training learns outcomes that are determined by'
            ' the beam position, and distilling reproduces the ensemble.'
        ),
        over=[I, C, H],
        text='all batches, network shapes, ensembles, contexts, sites and'
        ' histories of training, saving and loading',
        why='Tests train once and only look whether something came out.',
        files=[RL + 'learn_rates.py'],
        mechanism=[
            ('loss, training, distillation, prediction', RL + 'learn_rates.py'),
        ],
        oracle='likelihoods in numpy, the networks applied directly to an'
        ' independently standardised beam, and the rule behind the data',
    ),
    dict(
        id='P25',
        title='Training from recordings yields saved models that predict what happened',
        statement=(
            'Run on recordings in which silicon obeys a rule of the beam'
            ' position, the training program leaves models of every kind of'
            ' learner whose predictions, loaded again, obey that rule on'
            ' sheets in any orientation. Reported accuracies are the'
            ' share of correct predictions, units of the inputs do not matter,'
            ' saved ensembles average their members, and rates are drawn for'
            ' the least, greatest and middle context.'
        ),
        over=[I, C],
        text='all learners, choices of context, augmentation and bootstrap,'
        ' and recordings in any files',
        why='No test runs the program, and a run depends on all its options.',
        files=[PD + 'pipeline/train_rate_learner.py', RL + 'learn_rates.py'],
        mechanism=[
            ('training program', PD + 'pipeline/train_rate_learner.py'),
        ],
        oracle='the rule by which the silicon of the recordings moved',
    ),
]
PROPERTIES += [
    dict(
        id='P26',
        title='Plots and videos show the state, the place and the time there was',
        statement=(
            'A video has one frame for the moment before each control and one'
            ' for the end; each shows atoms, silicon, goal, beam, field of view'
            ' and the latest image of that moment where they are in both'
            ' frames of reference, and a clock that reads the time elapsed;'
            ' rendering the environment draws its present view like that,'
            ' with the last exposure, and leaves no figure open.'
            ' The event recorder behind it tells the history since the last'
            ' reset. Plots of a rate function show its values at the places'
            ' they claim, each neighbour under its own name or colour.'
        ),
        over=[I, H],
        text='all durations up to 100 minutes, histories of events and rate'
        ' functions of a sheet with one silicon',
        why='The only test asks for an animation and never draws a frame.',
        files=[PD + 'plotting_utils.py', PD + 'simulator_observers.py',
               PD + 'putting_dune_environment.py'],
        mechanism=[
            ('videos, frames, clocks and rate plots', PD + 'plotting_utils.py'),
            ('the event recorder', PD + 'simulator_observers.py'),
            ('rendering', PD + 'putting_dune_environment.py'),
        ],
        oracle='an independent replay of the history compared with the'
        ' artists on the axes of every drawn frame',
    ),
]
PROPERTIES += [
    dict(
        id='P27',
        title='Recordings of the instrument are uploaded as the trajectories they are',
        statement=(
            'Each frame of a recording becomes one observation, in order, with'
            ' its image, every atom where it was found, dopants as silicon, the'
            ' view shifted by the drift so far, the beam where it was in the'
            ' frame of the microscope, its dwell time and the time spent;'
            ' padding is left out, and frames without dopants have no control.'
            ' Every complete recording below a directory is uploaded once,'
            ' under a name made of its path, and one that cannot be loaded does'
            ' not keep the others from being uploaded.'
        ),
        over=[I, C],
        text='all recordings of four frames or more in the format of the'
        ' instrument, and directories of them',
        why='Nothing tests the conversion of recorded data.',
        files=[PD + 'pipeline/upload_microscope_data.py'],
        mechanism=[
            (
                'loading, conversion and upload',
                PD + 'pipeline/upload_microscope_data.py',
            ),
        ],
        oracle='the generated scene the recording was written from',
    ),
]
PROPERTIES += [
    dict(
        id='P28',
        title='Training programs learn from, report on and resume with their data',
        statement=(
            'Preprocessing keeps each pixel with the label of the same place'
            ' and time, as one class of three; a training step moves the'
            ' parameters down the gradient of the documented loss, an'
            ' evaluation step changes none, and the reported metrics are the'
            ' averages over the batches of the epoch. A run takes batches of'
            ' the configured size, the configured number of steps and epochs,'
            ' scores itself on the test data, and names the checkpoint of best'
            ' score best; stopped anywhere and started again, it goes on after'
            ' its last completed epoch with the parameters it had, and makes'
            ' as many steps as one that was never stopped.'
        ),
        over=[I, C, H],
        text='all labelled records, batches, configurations and points at which'
        ' a run may be stopped',
        why='No test touches the training programs of the three networks.',
        files=[
            PD + 'atom_detection/train.py',
            PD + 'atom_detection/dataset.py',
            PD + 'image_alignment/train.py',
            PD + 'image_alignment/dataset.py',
            PD + 'graph_alignment/train.py',
            PD + 'graph_alignment/dataset.py',
        ],
        mechanism=[
            ('detection training', PD + 'atom_detection/train.py'),
            ('alignment training', PD + 'image_alignment/train.py'),
            ('graph training', PD + 'graph_alignment/train.py'),
            ('image preprocessing', PD + 'image_alignment/dataset.py'),
        ],
        oracle='numpy reference losses, numeric gradients, and counted runs'
        ' that are stopped and resumed',
    ),
    dict(
        id='P29',
        title='A saved network is, once loaded, the best one that was trained',
        statement=(
            'Saving a detector or an aligner writes one archive where it is'
            ' asked to, never over an existing one unless told to; loaded'
            ' again it predicts what the network of the best checkpoint'
            ' predicts. A model is fetched once and then kept, or replaced on'
            ' request, and a file that is missing, cut short or damaged is'
            ' reported and never taken for a model, then or later.'
        ),
        over=[I, C, H],
        text='all sets of checkpoints and scores, and all sequences of good and'
        ' failing fetches',
        why='No test saves a network or fetches one.',
        files=[
            PD + 'atom_detection/save_model.py',
            PD + 'image_alignment/save_model.py',
            PD + 'atom_detector.py',
            PD + 'alignment.py',
            PD + 'experiments/registry.py',
        ],
        mechanism=[
            ('saving a detector', PD + 'atom_detection/save_model.py'),
            ('saving an aligner', PD + 'image_alignment/save_model.py'),
            ('fetching a detector', PD + 'atom_detector.py'),
            ('fetching an aligner', PD + 'alignment.py'),
            ('fetching an agent', PD + 'experiments/registry.py'),
        ],
        oracle='round trip against the network itself, and injected failures',
    ),
    dict(
        id='P30',
        title='The graph alignment network sees each bond, and nothing absolute',
        statement=(
            'The neighbor list of a record has one edge for every pair of atoms'
            ' within the cutoff across the periodic box and for no other pair,'
            ' alone or in a batch. The network answers alike when all atoms are'
            ' moved together, written in other cells of the box, or reordered'
            ' within a time step (its local outputs in that order), whatever'
            ' the halo of the list; an atom without bonds may be anywhere, and'
            ' bonds that change change the answer.'
        ),
        over=[I],
        text='all clouds of atoms in a periodic box and all weights',
        why='No test touches the graph network.',
        files=[PD + 'graph_alignment/model.py'],
        mechanism=[('the graph network', PD + 'graph_alignment/model.py')],
        oracle='all pairs by brute force, and metamorphic relations',
    ),
    dict(
        id='P31',
        title='Named experiments play as named, each apart from all others',
        statement=(
            'Every named experiment makes environments and microscope agents'
            ' that play alike whatever else is made, seeded or played beside'
            ' them: with different episodes for different seeds, ended at the'
            ' step limit, and with exposures inside the view of the durations'
            ' the experiment is set to. Random agents use the distance they are'
            ' named for, and greedy ones aim on, short of or beside the'
            ' neighbour; unknown names are refused, and a new one replaces'
            ' none. The evaluation program reports the averages of the results,'
            ' and saves one video per seed, of that episode alone, without'
            ' changing the results.'
        ),
        over=[I, H, C],
        text='all named experiments, seeds and interleavings of operations on'
        ' two of them, and all results',
        why='Tests look up one name of each kind and play none of them.',
        files=[
            PD + 'experiments/registry.py',
            PD + 'run_helpers.py',
            PD + 'eval.py',
            PD + 'eval_lib.py',
        ],
        mechanism=[
            ('the experiments', PD + 'experiments/registry.py'),
            ('making environments', PD + 'run_helpers.py'),
            ('the evaluation program', PD + 'eval.py'),
        ],
        oracle='differential (alone against interleaved), and the geometry of'
        ' the generated views',
    ),
    dict(
        id='P32',
        title='The image networks label places, each image for itself',
        statement=(
            'For images of every size that the network can halve and every'
            ' number of outputs, the detector gives each pixel one value per'
            ' class, and the aligner gives each pixel its values and the whole'
            ' image one drift, alone or in a batch, where each image is'
            ' answered as if it were alone. What is said of a place depends on'
            ' what is seen there and around it: away from its edges a moved'
            ' image is labelled alike, and what is far away changes nothing.'
            ' The drift takes every part of the image into account.'
        ),
        over=[I, C],
        text='all images, batches, numbers of outputs and weights',
        why='No test touches the image networks.',
        files=[
            PD + 'atom_detection/model.py',
            PD + 'image_alignment/model.py',
        ],
        mechanism=[
            ('the detector', PD + 'atom_detection/model.py'),
            ('the aligner', PD + 'image_alignment/model.py'),
        ],
        oracle='metamorphic relations between images, batches and places',
    ),
]
