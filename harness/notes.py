"""What every check runs on the code (for MANIFEST.json): property -> (what, level note)."""
SHAPES = 'every data-set shape enumerated by TLC (UffShapes) is filled with seeded boundary values, written and read'
HUGE = ' Sizes above those enumerated are sampled up to some thousands of rows.'
N_SHAPES = ('The shapes (every combination of the choices that select a branch of a layout, up to the stated counts) are enumerated completely by TLC; '
            'the values inside are sampled from boundary pools with VERIF_SEED, so the verdict is bounded in sizes and values.' + HUGE)
N_STORE = ('The store model is checked completely within its bounds (objects, kinds of blocks, blocks, items of a call, indices); every transition '
           'class of the property is covered by walks through the state graph TLC prints, replayed on real files and objects. '
           'What the blocks contain is sampled with VERIF_SEED.')
N_FOREIGN = ('Files are rendered by TLC from the specification (UffGen); the styles are a seeded selection of their product (thorough: most of it), '
             'shapes are enumerated, values sampled.')
WALKS = 'walks through the state graph of UffStore (explored by TLC: %s) are replayed on real UFF objects and files'

NOTES = {
    'P01': ('seeded sequences of writes with values and payloads that spell delimiters, files whose tags lie on both sides of buffer sizes, '
            'files of up to thousands of data-sets', N_SHAPES),
    'P02': (WALKS % 'all lists of supported/unsupported items in both modes, unknown modes', N_STORE),
    'P03': (WALKS % 'objects created early or late, external replacement, emptying, deletion', N_STORE +
            ' Replacement by a file of the same size and time stamp is sampled.'),
    'P04': (WALKS % 'two objects, all selections with indices in and out of range', N_STORE + ' Files of up to thousands of data-sets are sampled.'),
    'P05': (WALKS % 'lists with failing items at every position', N_STORE + ' Additionally every required field of every type is left out and '
            'every field made unwritable (thorough: in every context; quick: in one chosen with the seed).'),
    'P06': (SHAPES + ' (ascii 58)', N_SHAPES), 'P07': (SHAPES + ' (binary 58)', N_SHAPES),
    'P08': ('58b files rendered by the specification in all header variants, and every small file enumerated by UffFile, are read', N_FOREIGN),
    'P09': (SHAPES + ' (55)', N_SHAPES), 'P10': (SHAPES + ' (2414)', N_SHAPES), 'P11': (SHAPES + ' (15, 2411)', N_SHAPES),
    'P12': (SHAPES + ' (18, 2420)', N_SHAPES), 'P13': (SHAPES + ' (82, 2412)', N_SHAPES), 'P14': (SHAPES + ' (2429, 2467)', N_SHAPES),
    'P15': (SHAPES + ' (151, 164, 1858, 2400)', N_SHAPES),
    'P16': (SHAPES + '; the lines of the file are matched with the records of the layout (UffTypes)', N_SHAPES),
    'P17': ('text files of all types rendered by the specification in the styles of other programs are read', N_FOREIGN),
    'P18': ('every single optional or required field and seeded subsets are left out of data-sets of every type', N_SHAPES),
    'P19': ('every argument of every prepare function x every class of values (UffPrepGen, enumerated by TLC) x alone/with all/full dictionary is called',
            'The table of arguments x classes of values is enumerated completely; the values of a class are sampled. Which values a writer can write is judged on '
            'data-sets of the enumerated shapes.'),
    'P20': ('four generations of reading and writing of data-sets of every type and of mixed files', N_SHAPES),
    'P21': ('files rendered by the specification with closing tags on their own line or joined are fixed, and compared with the fixed file it renders', N_FOREIGN),
    'P22': ('seeded lists of data-sets of enumerated shapes (2412 with and without quads, others) are converted, written and read', N_SHAPES),
    'P23': ('every shape of a 58 with nan and infinities at seeded places is written and read', N_SHAPES),
    'P24': ('sound, unsupported and damaged blocks rendered by the specification in seeded neighbourhoods, and every small text file enumerated by UffFile, are read',
            N_FOREIGN),
    'P25': ('open files and the directory are looked at after every call of fault, damage, fix and odd-argument scenarios',
            'All calls of the recorded traces are judged; traces come from the complete table of faults and from seeded damaged files.'),
    'P26': ('every type number up to 3100 (thorough 12000) is written and read; what objects report is judged along appearing, changing and vanishing files',
            'Type numbers are enumerated within the bound; histories and file names are sampled.'),
}
