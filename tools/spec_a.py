"""Properties P01-P08."""

I, H, C, F = 'inputs', 'histories', 'configurations', 'fault_sequences'

PROPERTIES = [
    dict(
        id='P01',
        title='Stored microscope records come back as they were written',
        statement=(
            'Every grid, control, field of view, observation, trajectory,'
            ' transition, drift and labelled trajectory, with or without'
            ' images and label images, is equal to the original after being'
            ' converted to its message form and back, and a file of records'
            ' reads back as the same records in the same order. The message'
            ' form itself carries each value in its own field (positions,'
            ' elements, dwell, voltage, current, elapsed time, corners), so'
            ' that other readers see the same data. Applying a stored drift to'
            ' an observation moves its field of view by that drift, takes each'
            ' atom displacement off its atom and changes nothing'
            ' else.'
        ),
        over=[I],
        text='all records with finite values, every combination of present and'
        ' absent images and labels, files of any length',
        why='Tests round-trip a handful of hand-made records of a few shapes,'
        ' never with different images and label images, and never with drifts'
        ' read back from disk.',
        files=['putting_dune/microscope_utils.py', 'putting_dune/io.py',
               'putting_dune/putting_dune.proto'],
        mechanism=[('to_proto/from_proto pairs', 'putting_dune/microscope_utils.py'),
                   ('record readers and writers', 'putting_dune/io.py')],
    ),
    dict(
        id='P02',
        title='Microscope frame and material frame convert into each other exactly',
        statement=(
            'For every field of view, including non-square ones away from the'
            ' origin, points, grids and controls convert between the'
            ' normalised microscope frame and the material frame by the affine'
            ' map taking (0,0) to the lower-left corner and (1,1) to the'
            ' upper-right corner, and the two directions are inverse.'
            ' Shifting, resizing and zooming a field of view and asking for its'
            ' size or centre follow the same geometry, and cutting a grid to a'
            ' window keeps exactly the atoms inside it, with their elements.'
        ),
        over=[I],
        text='all fields of view of positive size, all point sets, grids and'
        ' beam positions',
        why='Tests use one or two square fields of view and a few points.',
        files=['putting_dune/microscope_utils.py'],
        mechanism=[('field-of-view conversions', 'putting_dune/microscope_utils.py')],
    ),
    dict(
        id='P03',
        title='Grids are equal, and hash equal, exactly when they hold the same atoms',
        statement=(
            'Two grids compare equal exactly when their atoms can be matched'
            ' one to one within the documented tolerance with the same'
            ' elements, regardless of the order in which atoms are listed.'
            ' The comparison is symmetric, reports a different number of atoms'
            ' as unequal, and works on empty grids. The hash of a grid does'
            ' not depend on the order of its atoms, so that a copy of a grid'
            ' finds the entry stored under it.'
        ),
        over=[I],
        text='all pairs of grids whose atoms are further apart than the tolerance',
        why='Tests compare a few fixed grids.',
        files=['putting_dune/microscope_utils.py'],
        mechanism=[('grid equality and hash', 'putting_dune/microscope_utils.py')],
    ),
    dict(
        id='P04',
        title='Rotations turn counter-clockwise and nearest neighbours are nearest',
        statement=(
            'Rotating points by an angle is the counter-clockwise rotation'
            ' about the origin, so angles add up, lengths are kept and the'
            ' opposite angle undoes it; point arithmetic is component-wise.'
            ' A nearest-neighbour query returns exactly the requested number of'
            ' closest atoms with their true distances in increasing order, and'
            ' leaves the queried atom itself out unless asked to include it.'
        ),
        over=[I],
        text='all angles, point sets, neighbour counts and queries',
        why='Tests sample a few angles and one lattice.',
        files=['putting_dune/geometry.py'],
        mechanism=[('rotation and neighbour search', 'putting_dune/geometry.py')],
    ),
    dict(
        id='P05',
        title='Every new material is a flat graphene sheet with one central silicon',
        statement=(
            'After every reset, for every seed and sheet size, the material is'
            ' a honeycomb: all interior atoms have three neighbours at the bond'
            ' length and 120 degrees apart, and no atom appears twice.'
            ' Exactly one atom is silicon, close to the centre, and all others'
            ' are carbon; orientation and position vary between resets.'
            ' Windows cut from the material contain exactly the atoms inside'
            ' them, and looking up the silicon of a grid returns its position, the'
            ' one nearest the middle of the view if there are several, or'
            ' reports that there is none.'
        ),
        over=[I, C],
        text='all generator seeds, sheet sizes and windows',
        why='Tests check a default-sized sheet with one fixed seed.',
        files=['putting_dune/graphene.py'],
        mechanism=[('sheet generation and reset', 'putting_dune/graphene.py'),
                   ('silicon lookup', 'putting_dune/graphene.py')],
    ),
    dict(
        id='P06',
        title='Transition rates follow the beam and the three bonds, not the labelling',
        statement=(
            'Each rate model offers exactly three successor states, one per'
            ' nearest neighbour of the silicon, each swapping silicon and that'
            ' carbon and changing nothing else. Rates are finite, non-negative'
            ' and equal to the documented function of the beam position'
            ' relative to silicon and neighbour, so they do not change when the'
            ' whole scene is moved or rotated or its atoms are listed in a'
            ' different order, and each neighbour is favoured most by a beam at'
            ' the place the model prescribes for it. Models built by scaling or'
            ' mixing others combine their rates accordingly, and a beam far'
            ' away leaves negligible rates.'
        ),
        over=[I, C],
        text='all sheet orientations, positions, atom orders, beam positions and'
        ' model parameters',
        why='Tests check one orientation and one or two beam positions.',
        files=['putting_dune/graphene.py'],
        mechanism=[('rate predictors', 'putting_dune/graphene.py')],
    ),
    dict(
        id='P07',
        title='A beam exposure moves silicon bond by bond, at the prescribed rates',
        statement=(
            'Whatever sequence of exposures is applied, atom positions never'
            ' change, there is always exactly one silicon, and every reported'
            ' transition swaps the silicon with one of its three neighbours at'
            ' a time within the exposure, in increasing order. Waiting times'
            ' are exponential with the total rate and destinations are chosen'
            ' in proportion to the rates, however long or short the exposure'
            ' and however small or large the rates, so zero rates mean that'
            ' nothing ever happens. Rates are asked for the actual beam'
            ' position and the current state of the material.'
        ),
        over=[H, I],
        text='all sequences of exposures, beam positions, dwell times and rate'
        ' functions (statistically for the distributions)',
        why='Tests apply a few controls with fixed seeds and cannot judge'
        ' distributions or rare long-wait and zero-rate cases.',
        files=['putting_dune/graphene.py'],
        mechanism=[('kinetic Monte Carlo loop', 'putting_dune/graphene.py')],
    ),
    dict(
        id='P08',
        title='The simulated microscope keeps time, view and material consistent',
        statement=(
            'Along every history of resets and steps, each observation (and its image) shows'
            ' exactly the atoms inside its field of view in normalised'
            ' coordinates, lists the controls that were applied, and reports as'
            ' elapsed time the dwell times plus one image duration per image taken.'
            ' Controls reach the material at the position they denote in the'
            ' field of view in force, with their dwell, voltage and current,'
            ' and the field of view re-centres on silicon exactly when it has'
            ' drifted out of the allowed central region.'
            ' Every observer is told of every reset, control, transition, image'
            ' and field-of-view change in the order in which they happened,'
            ' nothing that was reported changes afterwards, and'
            ' two simulators given the same seed and history behave'
            ' identically.'
        ),
        over=[H],
        text='all interleavings of resets and steps with any number of controls',
        why='Tests run a few steps of fixed actions with one observer.',
        files=['putting_dune/simulator.py', 'putting_dune/simulator_observers.py'],
        mechanism=[('step_and_image / reset', 'putting_dune/simulator.py'),
                   ('observers', 'putting_dune/simulator_observers.py')],
    ),
]
