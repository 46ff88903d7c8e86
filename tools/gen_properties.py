#!/usr/bin/env python3
"""rewrite properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=None)))


BIO = 'src/modules/cross-level/brick_io-cl.cpp'
LCK = 'src/modules/cross-level/lock-cl.c'
CUB = 'src/modules/cross-level/cube-cl.c'
CLL = 'src/modules/lower-level/cube-ll.c'
TSK = 'src/modules/higher-level/tasks-hl.c'
FHL = 'src/main/higher-level/force-higher-level.c'
L2P = 'src/main/lower-level/force-l2ps.c'
UNIT = 'The 28 unit tests call allocation and string helpers in one thread of one process; '

prop('C01', 'Higher-level results do not depend on threads, streaming or their timing',
     'For the same inputs and parameters, the images, sample tables and provenance lines that higher-level processing produces are the same for every number of reading, computing and writing threads, with and without streaming, and for every timing of these threads. No combination of these settings makes a run fail, hang or leave locks behind.',
     ['schedules', 'configurations'], 'every interleaving of the threads at memory-access granularity, every thread setting and streaming mode, every submodule',
     UNIT + 'none of them runs a submodule, let alone under a chosen thread interleaving.',
     [FHL, TSK, 'src/modules/higher-level', BIO], [('three-stage pipeline read/compute/write over blocks', FHL), ('parallel loops over pixels, images and products', 'src/modules/higher-level/*.c'), ('parallel writing of products', TSK)],
     [('block buffers', 'inputs and outputs of the previous, current and next block', FHL)], ['files in the output directory', 'provenance files', 'exit code'])
prop('C02', 'Higher-level results do not depend on how the work is divided',
     'For the same inputs and parameters, the outputs of higher-level processing hold the same pixels and records for every block size, for one process or several processes that share the output directory with disjoint tiles, and whether or not files of an earlier run are there to be replaced. Pixels that a processing mask leaves out hold no data, in every one of these cases.',
     ['configurations', 'schedules', 'histories'], 'every block layout, split of the tiles over concurrent processes, processing mask and state of the output directory left by earlier runs',
     UNIT + 'comparing divisions of work needs whole runs, concurrency and a history of the output directory.',
     [FHL, TSK, BIO, 'src/modules/higher-level/read-ard-hl.c', 'src/modules/higher-level/progress-hl.c'],
     [('block-wise writing into one file', BIO), ('margins from neighbouring blocks and tiles', 'src/modules/higher-level/read-ard-hl.c'), ('skipping of masked or empty blocks', TSK)],
     [('output image', 'grows block by block', '<higher>/<tile>/<product>')], ['files in the output directory', 'sample tables', 'provenance files', 'exit codes'])
prop('C03', 'Concurrent Level-2 jobs merging into one product act as if run one by one',
     'When several Level-2 jobs whose images overlap run at the same time, every product file they share ends up with exactly the pixels, no-data marking and band names that running the jobs one after another in some order would give. No job fails, and no product is lost or added, merely because another job runs at the same time.',
     ['schedules', 'inputs'], 'every interleaving of the system calls of two or more jobs, every start offset and stall shorter than the lock timeout',
     UNIT + 'no test runs two jobs at once, and the outcome depends on the interleaving of their file operations.',
     [BIO, LCK, CLL], [('lock, read existing file, merge, rewrite, unlock', BIO + ':write_brick'), ('exclusive lock file', LCK + ':lock_file')],
     [('product file', 'mosaic of all images merged so far', '<level2>/<tile>/<product>.tif')], ['product files after all jobs have ended', 'exit codes'])
prop('C04', 'Provenance has exactly one line per product and contributing job',
     'After any number of successful Level-2 jobs that share a provenance directory, concurrently or in sequence and across a change of date, every product has one line for each job that contributed to it, naming the image it came from; exactly one of these lines says that the file was created and the others that it was updated. Every provenance file starts with its single header, all lines are complete, and lines of earlier runs are never changed.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of jobs, stalls, clock jumps, dates on which lines already exist, and I/O errors on the provenance file',
     UNIT + 'lost or torn lines only appear when jobs interleave or an append fails.',
     [BIO, LCK], [('append a line under a lock, write the header of a new file', BIO + ':write_brick')],
     [('provenance file', 'one per day, lines appended by all jobs', '<provenance>/provenance_<date>.csv')], ['provenance files after all jobs have ended', 'exit codes'])
prop('C05', 'The definition of a data cube is whole whenever visible and never changes',
     'Whatever programs establish a data cube in a directory at the same time, fail on the way or are killed, a reader either finds no definition or a complete one, and once it was visible it never changes or vanishes. A program that reports success leaves a definition behind, and a later program succeeds after an earlier one failed or was killed and its lock was removed.',
     ['schedules', 'crash_points', 'fault_sequences'], 'every interleaving of writers and a reader, every I/O error and kill while the definition is established, equal and different grids',
     UNIT + 'a half-written definition is visible only to a reader that looks at the right moment or after a crash at the right place.',
     [CUB, CLL, 'src/main/lower-level/force-cube-init.c', 'src/modules/lower-level/glance7-ll.c', LCK], [('write once under a lock, publish by renaming', CUB + ':write_datacube_def')],
     [('definition file', 'grid all products of the cube are in', '<cube>/datacube-definition.prj')], ['content a concurrent reader sees', 'definition file after each program', 'exit codes'])
prop('C06', 'A Level-2 job that reports success wrote everything, a failed one tore nothing',
     'If a Level-2 job exits with success, all its products are complete and correct, whatever I/O errors occurred. If it fails or is killed, every product file is either what it was before or complete, no existing product is lost, and unless it was killed it leaves neither locks nor temporary files behind and does not crash.',
     ['fault_sequences', 'crash_points', 'configurations'], 'every placement of one or more I/O errors or a kill at any system call of the job, for each output format, in an empty and in an already filled cube',
     UNIT + 'none injects an I/O error or kills a job.',
     [L2P, CLL, BIO, LCK, 'src/modules/cross-level/cite-cl.c'], [('error returns up to the exit code', L2P), ('write next to the existing file, then replace it', BIO + ':write_brick')],
     [('product file', 'mosaic of all images merged so far', '<level2>/<tile>/<product>')], ['product files', 'leftover locks and temporary files', 'exit code'])
prop('C07', 'Higher-level processing that reports success lost nothing to I/O errors',
     'If higher-level processing exits with success, its images, sample tables and provenance equal those of an undisturbed run, whatever errors occurred while reading inputs or writing outputs. If errors were not absorbed it exits with a failure, without crashing or hanging, and it leaves no locks and never changes its inputs.',
     ['fault_sequences', 'schedules'], 'every placement of one or more I/O errors at any system call, for every submodule, with and without streaming threads under any timing',
     UNIT + 'none injects an I/O error into a run.',
     [FHL, TSK, BIO, 'src/modules/higher-level/read-ard-hl.c'], [('error returns of reading and writing tasks up to the exit code', FHL)],
     [('output image', 'grows block by block', '<higher>/<tile>/<product>')], ['files in the output directory', 'input files', 'exit code'])
prop('C13', 'Level-2 results do not depend on the number of threads or their timing',
     'For the same image and parameters, the Level-2 products and the reported cloud and snow statistics are the same for every number of threads and every timing of these threads. No number of threads makes a job fail or hang.',
     ['schedules', 'configurations'], 'every interleaving of the threads at memory-access granularity, every number of threads, with and without atmospheric, topographic, adjacency and BRDF correction',
     UNIT + 'none of them corrects an image, let alone under a chosen thread interleaving.',
     [L2P, 'src/modules/lower-level'], [('parallel loops over pixels, bands and objects', 'src/modules/lower-level/*.c')],
     [('per-thread scratch and shared image buffers', 'pixels being corrected', 'src/modules/lower-level/*.c')], ['product files', 'standard output', 'exit code'])

exec(open(V + '/tools/more_properties.py').read()) if os.path.exists(V + '/tools/more_properties.py') else None
with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
