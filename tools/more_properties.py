prop('N01', 'Quality flags survive packing and unpacking',
     'Every quality flag of a pixel can be set and read back without changing any other flag of this pixel.',
     ['inputs'], 'every combination of flags', 'Unit tests could in fact settle this by enumeration; none exists.',
     ['src/modules/cross-level/quality-cl.c'], [('bit fields in a 16-bit word', 'src/modules/cross-level/quality-cl.c')], [('quality word', 'flags of one pixel', 'QAI product')], ['quality layer'])
prop('N02', 'Every location belongs to exactly one tile of the grid',
     'For every grid, a location inside the projection maps to exactly one tile, and the corner coordinates computed for this tile enclose it.',
     ['inputs', 'configurations'], 'every location and grid', 'Quantifies over real-valued coordinates; sampling in unit tests covers a few.',
     ['src/modules/cross-level/warp-cl.cpp', 'src/modules/cross-level/tile-cl.c'], [('floor division by the tile size', 'src/modules/cross-level/tile-cl.c')], [('tile identifier', 'grid cell', 'directory names')], ['tile identifiers printed by the tools'])

FL2 = 'bash/force-level2.sh'
CSD = 'bash/force-level1-csd.sh'
prop('C09', 'The Level-2 queue tells for every image what became of it',
     'After Level-2 batch processing ends, every image that was queued when it started is marked as done if its processing succeeded and as failed otherwise, and every other entry, including those that downloads append in the meantime, is as it was. An interruption at any moment loses no entry, and processing the queue again completes the images that were not finished.',
     ['schedules', 'faults', 'histories'], 'every interleaving of batch processing, its parallel jobs and downloads that share the queue, every moment of a kill, every mix of image kinds and outcomes',
     UNIT + 'none of them runs the shell tools, and whether an entry is lost depends on the interleaving of several processes rewriting one file.',
     [FL2, CSD], [('lock file around queue updates', FL2), ('rewriting of the queue when a status changes', FL2), ('appending to the queue', CSD)],
     [('queue file', 'one line per image: path and status', 'FILE_QUEUE of the parameter file')], ['queue file', 'temporary directory', 'lock files', 'exit codes'])
prop('C10', 'Queued downloads are complete, and failed ones can be repeated',
     'A scene that the downloader lists in the queue is completely in the pool and listed exactly once, and the downloader reports success only if all scenes it was asked for are there and listed. A failed or interrupted transfer is never offered for processing, and running the downloader again after any failure fetches and lists whatever is missing.',
     ['schedules', 'faults', 'histories'], 'every interleaving of several downloads and batch processing that share pool and queue, every moment of a failure or kill, every state an earlier run left',
     UNIT + 'none of them runs the downloader, and the outcome depends on when a transfer breaks off and on what an earlier run left behind.',
     [CSD, FL2], [('detection of scenes that are already there', CSD), ('transfer into the pool, then entry in the queue', CSD), ('lock file around queue updates', CSD)],
     [('Level-1 pool', 'one directory per scene', 'pool directory'), ('queue file', 'one line per image: path and status', 'queue file')], ['pool directory', 'queue file', 'exit codes'])
prop('C14', 'Interrupted work can be repeated as if nothing had happened',
     'If Level-2 jobs or a higher-level run are killed at any moment, repeating the work that did not succeed, after removing stale lock files, succeeds and yields the same products and provenance as work that was never interrupted. Programs that meet what an interrupted one left behind come to an end within bounded time, and do not take leftovers for data.',
     ['schedules', 'faults', 'histories'], 'every moment of a kill of one or all of several concurrent programs, every module and output format, leftovers met by further programs',
     UNIT + 'whether a leftover disturbs the next run depends on the moment of the kill, and shows only in the run after it.',
     ['src/modules/cross-level/brick_io-cl.cpp', 'src/modules/cross-level/lock-cl.c', 'src/modules/cross-level/cube-cl.c', 'src/modules/higher-level/read-ard-hl.c', 'src/main/lower-level/force-l2ps.c', 'src/main/higher-level/force-higher-level.c'],
     [('writing under a temporary name, then renaming', 'src/modules/cross-level/brick_io-cl.cpp'), ('lock files with timeout', 'src/modules/cross-level/lock-cl.c'), ('merging into existing products', 'src/modules/cross-level/brick_io-cl.cpp')],
     [('data cube', 'products of earlier jobs', 'DIR_LOWER / DIR_HIGHER'), ('leftovers', 'temporary and lock files', 'next to the products')], ['products', 'provenance files', 'exit codes', 'time until the end'])

AUX = 'src/main/aux-level/'
prop('C15', 'Random tools fulfil the request whatever the random numbers are',
     'Stratified sampling draws exactly the requested number of distinct pixels of every class, splitting samples for training uses exactly the requested share and lists every sample once, and synthetic mixing writes the requested number of mixtures, whose fractions sum to one and agree with their response. This holds for every state of the random numbers; without random elements the result does not depend on when the tool runs.',
     ['schedules', 'inputs', 'configurations'], 'every time of day and entropy the random numbers depend on, every request a user can make of the tools',
     UNIT + 'none of them runs these tools, and the outcome depends on the clock and on random bytes.',
     [AUX + 'force-stratified-sample.c', AUX + 'force-train.cpp', 'src/modules/aux-level/train-aux.cpp', 'python/force-synthmix.py'],
     [('drawing pixels at random', AUX + 'force-stratified-sample.c'), ('random split of samples', AUX + 'force-train.cpp'), ('random fractions and classes', 'python/force-synthmix.py')],
     [('random numbers', 'seeded from the time or from the system', 'sample points, log of training, mixtures')], ['sample points', 'training log and model', 'mixture files', 'exit codes'])
prop('C16', 'Auxiliary tools never report success for a damaged result',
     'If reading an input or writing a result fails in a tool that stacks images, copies metadata, inflates quality layers, tabulates the grid, counts classes, draws samples, trains models, mixes samples, writes parameter files or finds tiles, the tool does not report success unless the result equals the one of an undisturbed run. Its input stays as it was in any case.',
     ['faults', 'configurations'], 'every position and kind of I/O error, single, repeated and permanent, in every auxiliary tool',
     UNIT + 'none of them runs these tools, and errors of the file system cannot be provoked at chosen places from a unit test.',
     [AUX + 'force-stack.c', AUX + 'force-mdcp.c', AUX + 'force-tabulate-grid.c', AUX + 'force-hist.c', AUX + 'force-stratified-sample.c', AUX + 'force-parameter.c', AUX + 'force-train.cpp', AUX + 'force-tile-finder.c',
      'src/main/higher-level/force-qai-inflate.c', 'src/modules/cross-level/table-cl.c', 'src/modules/aux-level/train-aux.cpp', 'python/force-synthmix.py'],
     [('closing of images and vector files', AUX + 'force-stack.c'), ('reading and writing of tables', 'src/modules/cross-level/table-cl.c'), ('writing of models', 'src/modules/aux-level/train-aux.cpp')],
     [('result file', 'image, vector file, table, model or parameter file', 'output of the tool')], ['result files', 'input files', 'exit codes'])

prop('C17', 'Data cube tools treat every image, in parallel as well as alone',
     'Mosaics, virtual cubes, pyramids, masks, external rasters and vectors brought into the cube, tile lists of an area and parameter variants hold exactly what their input calls for, for any number of parallel jobs, and the tool reports success only if all of it is there. An error or interruption never costs images that were there before, and repeating the tool then gives the complete result.',
     ['schedules', 'faults', 'histories', 'configurations'], 'every interleaving of the parallel jobs of a tool, every position and kind of I/O error, every moment of a kill, every set of tiles, names and extents',
     UNIT + 'none of them runs the shell tools, and the outcome depends on the interleaving of jobs, on failing steps in the middle and on what an interrupted run left.',
     ['bash/force-mosaic.sh', 'bash/force-virtual-datacube.sh', 'bash/force-pyramid.sh', 'bash/force-procmask.sh', 'bash/force-cube.sh', 'bash/force-tile-extent.sh', 'bash/force-magic-parameters.sh', 'misc/force-bash-library.sh'],
     [('one list of chips per product, parallel jobs', 'bash/force-mosaic.sh'), ('warp into temporary image, merge, rename', 'bash/force-cube.sh'), ('reading of the cube definition', 'misc/force-bash-library.sh')],
     [('data cube', 'one directory per tile, definition file at the top', 'input and output directories'), ('lists and temporary images', 'state of a running tool', 'output directory')], ['images and their pixels', 'tile lists', 'parameter files', 'exit codes'])
