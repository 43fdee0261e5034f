"""Properties P15-P20."""

I, H, C, F = 'inputs', 'histories', 'configurations', 'fault_sequences'
PD = 'putting_dune/'

PROPERTIES = [
    dict(
        id='P15',
        title='The microscope agent drives episodes and logs exactly what happened',
        statement=(
            'On a microscope, the agent is shown each observation once, with'
            ' the reward, discount and end of episode that its goal reports;'
            ' its action becomes the control its adapter makes of it, logged'
            ' or not; and while no silicon is in view nothing is exposed.'
            ' Whatever the order of resets, steps and flushes, the log files'
            ' afterwards hold every step of every episode exactly once, in'
            ' order, under the number of its own episode, with its'
            ' observation, reward, time, return and goal.'
        ),
        over=[H, F],
        text='all histories of resets, steps and flushes, with silicon lost or'
        ' found, episodes ended and cut off',
        why='Tests play one short history with one flush.',
        files=[PD + 'microscope_agent.py'],
        mechanism=[('agent and logger', PD + 'microscope_agent.py')],
        oracle='an account of the history',
    ),
    dict(
        id='P16',
        title='Rendered images show every atom where it is, as bright as it should be',
        statement=(
            'A clean image is the sum of one spot per atom in view, at the'
            ' atom\'s place (upwards in the material is upwards in the image),'
            ' of a width fixed in angstroms and a brightness that grows with'
            ' its element, scaled to 1; a mask labels exactly the pixels within'
            ' each atom\'s radius with its element, for square and oblong'
            ' views and images. Each noise stage has its stated mean and'
            ' spread, changes nothing else, does nothing at strength zero and'
            ' is determined by its seed.'
        ),
        over=[I],
        text='all grids of atoms, views, image sizes and imaging parameters'
        ' (statistically for noise)',
        why='Tests check shapes and types of a few square images.',
        files=[PD + 'imaging.py'],
        mechanism=[('image and mask rendering, noise', PD + 'imaging.py')],
        oracle='a directly evaluated formula, pixel by pixel',
    ),
    dict(
        id='P17',
        title='Alignment finds scale and shift, and merging loses no atom',
        statement=(
            'The estimated scale turns nearest-neighbour distances into bond'
            ' lengths, and registration recovers the shift between two views of'
            ' a lattice, for every orientation and order of atoms, with'
            ' atoms missing or spurious.'
            ' Merging replaces each group of points close to one another, and'
            ' to no others, by its weighted centre with the summed weight and'
            ' leaves others alone, so none is lost or counted twice, and the'
            ' merged elements are'
            ' carbon with silicon at the likeliest places. Arguments are left'
            ' as they were and no call depends on earlier calls.'
        ),
        over=[I, H],
        text='all lattice views, shifts below the ambiguity of the lattice,'
        ' point sets and weights',
        why='Tests align a few fixed point sets, and never call twice with'
        ' defaults or weighted merges.',
        files=[PD + 'alignment.py'],
        mechanism=[('registration and merging', PD + 'alignment.py')],
        oracle='construction (known shifts and groups) and brute force',
    ),
    dict(
        id='P18',
        title='Tracking views of a drifting sheet recovers each view\'s drift',
        statement=(
            'Fed successive views of one drifting sheet, the iterative aligner'
            ' reports each view\'s drift from the first view and returns one'
            ' atom, of the right element, for every site seen recently, in the'
            ' frame of the first view, in all of its configurations and after'
            ' resets; put behind a network (the hybrid aligner), it makes the'
            ' network\'s error that of the first view. Correcting a whole trajectory shifts every view by the'
            ' drift found, keeps its controls, images, labels and times'
            ' (relabelling atoms only on request) and leaves the original'
            ' untouched; the alignment program does so for every recording of a'
            ' file or directory.'
        ),
        over=[H, C],
        text='all sequences of views within 1 angstrom of the first, with'
        ' atoms missing or jittered, and all aligner configurations',
        why='Tests run two views with one configuration each.',
        files=[PD + 'alignment.py', PD + 'pipeline/align_trajectories.py'],
        mechanism=[
            ('iterative aligner', PD + 'alignment.py'),
            ('trajectory correction', PD + 'pipeline/align_trajectories.py'),
        ],
        oracle='the drift each view was made with',
    ),
    dict(
        id='P19',
        title='The two kinds of lattice site are told apart in any orientation',
        statement=(
            'Classifying the atoms of a graphene sheet gives neighbouring atoms'
            ' opposite kinds and the same kind to atoms of one sublattice,'
            ' whatever the orientation of the sheet and the order of its atoms,'
            ' with atoms missing and at the edge. A classifier fitted to one'
            ' view labels every other view of the same orientation'
            ' consistently.'
        ),
        over=[I],
        text='all orientations, orders, cut-outs and vacancies of jittered'
        ' sheets',
        why='Tests use one or two fixed orientations.',
        files=[PD + 'graphene.py', PD + 'alignment.py'],
        mechanism=[('lattice site classification', PD + 'alignment.py')],
        oracle='the sublattice each atom was built on',
    ),
    dict(
        id='P20',
        title='Atoms seen in an image are reported where they are drawn',
        statement=(
            'From a network\'s labels of an image, every blob of carbon or'
            ' silicon becomes exactly one atom of that element at its centre,'
            ' in the microscope frame, for square and oblong images, and'
            ' nothing else becomes an atom; atoms in the ignored border are'
            ' left out.'
            ' The aligner feeds its network the recent images, oldest first,'
            ' scaled to [0, 1] whatever their units and moved to the present'
            ' field of view with unseen parts blank, without changing them, and uses the'
            ' network\'s answer for the requested time step. Blank images and'
            ' images without one of the elements are handled like any other.'
        ),
        over=[I, H],
        text='all label images of separate blobs, pairs of fields of view and'
        ' sequences of images and resets',
        why='Trained networks are not at hand, so no test runs this code.',
        files=[PD + 'alignment.py', PD + 'atom_detector.py'],
        mechanism=[
            ('image aligner and field-of-view cropping', PD + 'alignment.py'),
            ('atom detector', PD + 'atom_detector.py'),
        ],
        oracle='the discs that were drawn and pixels that carry their own'
        ' coordinates, with a stand-in for the network',
    ),
]
