"""Properties P09-P14."""

I, H, C, F = 'inputs', 'histories', 'configurations', 'fault_sequences'
PD = 'putting_dune/'

PROPERTIES = [
    dict(
        id='P09',
        title='The environment plays well-formed episodes that its seed determines',
        statement=(
            'In every history of resets, seedings and steps, an episode starts'
            ' with a fresh material and a goal that is a visible, not yet'
            ' reached lattice site, each step exposes the material exactly once'
            ' where the action says, and the episode ends exactly when the'
            ' silicon is at the goal, the goal calls it off or the step limit'
            ' is reached, after which'
            ' the next step starts a new episode. Rewards and discounts are'
            ' 0.9967 per simulated second elapsed in the step (discount zero'
            ' and that reward only at the goal), and observations always fit'
            ' the advertised specification and describe the material as it now'
            ' is. Seeding fixes everything that follows, whatever was played'
            ' before, and different seeds give different episodes.'
        ),
        over=[H],
        text='all histories of reset, seed and step for every action adapter,'
        ' feature constructor and step limit',
        why='Tests play a couple of steps of one configuration; ends of'
        ' episodes, limits and reseeding of used environments are not reached.',
        files=[PD + 'putting_dune_environment.py', PD + 'run_helpers.py'],
        mechanism=[('environment step/reset/seed', PD + 'putting_dune_environment.py'),
                   ('step limit wrapper', PD + 'run_helpers.py')],
    ),
    dict(
        id='P10',
        title='Goals are permitted atoms and are rewarded exactly when reached',
        statement=(
            'A new goal is the position, in the material frame, of a visible'
            ' atom whose distance from the silicon lies in the permitted range;'
            ' every such atom can be chosen, and having none is reported as an'
            ' error. The goal stays until the next reset and is reached exactly'
            ' when the silicon is within half a bond length of it, which gives'
            ' the reward 0.9967 to the power of the elapsed seconds, and any'
            ' other observation gives no reward and does not end the episode.'
            ' An observation without silicon is reported as such.'
        ),
        over=[I, H],
        text='all observations, views, permitted ranges and histories of'
        ' silicon positions',
        why='Tests use one observation with a square view at the origin.',
        files=[PD + 'goals.py'],
        mechanism=[('goal selection and reward', PD + 'goals.py')],
    ),
    dict(
        id='P11',
        title='Every action becomes one beam control at the place it denotes',
        statement=(
            'Each action, in range or not, becomes exactly one control inside'
            ' the view at the position its adapter defines: absolute,'
            ' accumulated from the previous position, relative to the silicon'
            ' in bond lengths, or relative to the silicon in angstroms, clipped'
            ' to the allowed values, with a dwell time inside its range that'
            ' depends on the action as advertised. Neither the action'
            ' nor the observation is changed, and the advertised action'
            ' specification matches what is accepted.'
            ' Adapters that follow the silicon refuse observations without'
            ' exactly one.'
        ),
        over=[I, H],
        text='all actions, observations, dwell-time ranges and sequences of'
        ' actions',
        why='Tests use a few in-range actions in square views.',
        files=[PD + 'action_adapters.py'],
        mechanism=[('action to control conversion', PD + 'action_adapters.py')],
    ),
    dict(
        id='P12',
        title='Features describe the silicon, its neighbours and the goal',
        statement=(
            'Feature vectors hold the position of one silicon atom, the offsets'
            ' (or directions) from that atom to its three nearest neighbours'
            ' and the offset in angstroms from that same atom to the goal, for'
            ' every orientation, view and order of atoms.'
            ' Image features hold the downsampled image and the goal offset,'
            ' without changing the image. Features fit their specification, and'
            ' missing silicon, missing images and foreign goals are reported.'
        ),
        over=[I],
        text='all observations with and without silicon, with several silicon'
        ' atoms, all goals and image sizes',
        why='Tests check shapes and one unrotated lattice with one silicon.',
        files=[PD + 'feature_constructors.py'],
        mechanism=[('feature constructors', PD + 'feature_constructors.py')],
    ),
    dict(
        id='P13',
        title='Agents aim where their strategy says, in every orientation',
        statement=(
            'The greedy agent aims along the bond to the neighbour nearest the'
            ' goal, at its configured offset in that bond\'s frame, for'
            ' every orientation of the sheet; the rate-maximising agent aims at'
            ' the maximum of its rate function to within its search resolution;'
            ' exploration noise has the requested mean and spread; and the'
            ' random agent covers each action dimension uniformly within its'
            ' limits. The same seed gives the same actions, and a saved policy'
            ' gives the actions its network computes.'
        ),
        over=[I, C],
        text='all observations, goals, agent parameters and action ranges'
        ' (statistically for noise)',
        why='Tests check one observation per agent and no distribution.',
        files=[PD + 'agents/agent_lib.py', PD + 'agents/tf_eval_agent.py'],
        mechanism=[('agents', PD + 'agents/agent_lib.py'),
                   ('saved policies', PD + 'agents/tf_eval_agent.py')],
    ),
    dict(
        id='P14',
        title='Evaluation reports exactly what was played, one result per seed',
        statement=(
            'An evaluation plays one episode per seed of its suite, in order'
            ' and each from its own seed, with the agent in evaluation mode,'
            ' until the episode ends or simulated plus agent time exceeds the'
            ' timeout, and reports the actions taken, total reward, time and'
            ' whether the goal was reached (not merely the episode cut off).'
            ' A seed\'s result does not depend on the other seeds of the suite.'
            ' Aggregates are the success rate and the means over successful'
            ' episodes, zero when there are none.'
        ),
        over=[H, I],
        text='all scripted episodes, suites, timeouts and sets of results',
        why='Tests play one scripted suite; timeouts, truncations and empty'
        ' aggregates are not sampled.',
        files=[PD + 'eval_lib.py'],
        mechanism=[('evaluation loop and aggregation', PD + 'eval_lib.py')],
    ),
]
