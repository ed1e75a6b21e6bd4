"""The properties and how they are checked; `python3 tools/spec.py` writes properties.jsonl and MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, tests, files, mech, technique, note, observe=(), level='exploration',
         state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, tests=tests,
                  files=files.split(), mech=mech, technique=technique, note=note, observe=list(observe),
                  level=level, state=list(state)))


S = 'src/cdtools/'
BASE = S + 'datasets/base.py'
PTY = S + 'datasets/ptycho_2d_dataset.py'
DATA = S + 'tools/data/data.py'
RB = S + 'reconstructors/base.py'
MB = S + 'models/base.py'
INT = S + 'tools/interactions/interactions.py'
PROP = S + 'tools/propagators/propagators.py'
MEAS = S + 'tools/measurements/measurements.py'
INIT = S + 'tools/initializers/initializers.py'
MODELS = ' '.join(S + 'models/' + f for f in ('fancy_ptycho.py', 'simple_ptycho.py', 'multislice_ptycho.py',
                                            'bragg_2d_ptycho.py', 'rpi.py'))
COMMON = ('Trusts numpy, h5py, torch and the float64 references in vf/; explores a seeded random sample, on the CPU, '
          'so a violation outside of the sample stays unseen.')

prop('P01', 'A dataset written to a CXI file reads back as the same dataset',
     'Writing any dataset to a CXI file and loading that file gives a dataset with the same patterns, positions, '
     'intensities, masks, background, geometry and metadata, for every combination of optional information and every '
     'supported way to name the file. Writing the loaded dataset again loses nothing further, and writing does not '
     'change the dataset.',
     'inputs configurations', 'all datasets: any subset of the optional fields, shapes, number types, geometries, '
     'edited or not; any form of the file argument',
     'The tests read and write a few fixed example files and compare selected fields.',
     f'{BASE} {PTY} {DATA}', [('to_cxi / from_cxi', BASE), ('to_cxi / from_cxi of positions and patterns', PTY),
                              ('get_* and add_* functions', DATA)],
     'runtime monitor: round-trip equality oracle over generated datasets', COMMON,
     ['the loaded dataset, field by field'])
prop('P02', 'CXI files are interpreted as the CXI conventions define',
     'Every file which follows the CXI conventions loads with the physical meaning which the conventions give to it: '
     'wavelength or photon energy, detector geometry given as basis vectors or pixel sizes, distance or corner, mask '
     'bits, dark frames, and positions relative to the sample or the beam. Pixels without valid values end up masked '
     'and never become data.',
     'inputs configurations', 'all files using any subset of the conventions',
     'The tests have one file per convention with fixed values and do not combine the conventions.',
     f'{DATA} {BASE} {PTY}', [('get_wavelength, get_detector_geometry, get_mask, get_dark, get_data, '
                               'get_ptycho_translations', DATA), ('from_cxi', PTY)],
     'runtime monitor: reference interpretation of files written independently with h5py', COMMON,
     ['the values returned by the readers and by from_cxi'])
prop('P03', 'Editing a dataset never separates patterns from their positions',
     'After any sequence of cropping, removing, splitting, padding, downsampling, converting, copying and saving, every '
     'remaining exposure has its own pattern, position and intensity, in the original order, and exactly the exposures '
     'which were asked for remain. However exposures are selected, their numbers, positions and patterns belong together. '
     'The parts of a split share no exposure, and refused edits leave the dataset as it was.',
     'histories inputs', 'all sequences of edits with all arguments',
     'The tests apply single edits with one argument to a small dataset.',
     f'{BASE} {PTY}', [('crop_translations, remove_translations_mask, split, pad, downsample, __getitem__', PTY),
                       ('pad, downsample', BASE)],
     'runtime monitor: online shadow list of identified exposures', COMMON, ['the dataset after every edit'])
prop('P04', 'Padding and downsampling conserve signal, masks and geometry',
     'Padding a dataset keeps every pixel value and adds only pixels which carry no data, and downsampling sums the '
     'counts of blocks while the detector geometry, mask, quantum efficiency and background follow. A pattern detected '
     'before and after describes the same measurement at the same angles, for all shapes, factors and combinations.',
     'inputs histories', 'all shapes, padding arguments, factors and sequences of both',
     'The tests use one even shape and one or two arguments.',
     f'{BASE} {PTY}', [('pad, downsample', BASE), ('pad, downsample', PTY)],
     'runtime monitor: conservation and geometry oracle over generated edits', COMMON, ['the dataset after every edit'])
prop('P05', 'A model restored from saved results is the model which was saved',
     'For every model class, every configuration and every stage of training, a model restored from saved results, '
     'directly or through a file, has the same parameters and records, predicts bit for bit the same patterns, gives the '
     'same loss, and continues to train in the same way. The results describe the model in physical units, and the '
     'restored model shares no memory with the original, the results or other restored models.',
     'configurations histories', 'all classes, constructor options, parameter values, stages of training; dictionary or '
     'file', 'The tests restore one configuration of some of the classes and compare some of the fields.',
     f'{MB} {MODELS} {DATA}', [('save_results, save_to_h5, from_results_dict, from_results_h5, _load_results_dict', MB),
                               ('save_results, from_results_dict of the classes', S + 'models/fancy_ptycho.py')],
     'runtime monitor: bitwise comparison of the original and the restored model', COMMON,
     ['the restored model and its continued training'])
prop('P06', 'Nested dictionaries survive storage and conversion unchanged',
     'Every nested dictionary of numbers, arrays, tensors, strings and dictionaries written to a file reads back with '
     'the same keys, values, shapes and number types, and converts to arrays or tensors and back without loss. Values '
     'which cannot be stored are reported, and the input is not changed.',
     'inputs', 'all nesting depths, key names, number types, memory layouts, empty and scalar arrays, strings; files given '
     'by name, path, open file or group', 'The tests use one small dictionary.',
     DATA, [('nested_dict_to_h5, h5_to_nested_dict, nested_dict_to_numpy, nested_dict_to_torch', DATA)],
     'runtime monitor: round-trip equality oracle over generated dictionaries', COMMON)
prop('P08', 'How a batch is divided for computation does not change the result',
     'For every model and batch, the loss and the gradient used by an optimization step are the sums over the exposures '
     'of the batch plus the regularization exactly once, however many exposures are computed at a time. Whole '
     'reconstructions agree up to rounding for all divisions.',
     'configurations inputs', 'all chunk widths, batch sizes, subsets, models, losses, optimizers and regularization',
     'The tests run with the default chunk width and look only at the final loss.',
     RB, [('the closure of run_epoch', RB), ('calculation_width', RB)],
     'runtime monitor on optimizer steps: captured gradients against sums of single-exposure gradients', COMMON,
     ['the loss and gradients at every optimizer step'])
prop('P09', 'Running in the background gives the same result as in the foreground',
     'For every sequence of optimization calls, computing in the background thread gives bit for bit the same losses, '
     'parameters, optimizer state and records as computing in the foreground, whatever the timing of the threads. There '
     'is never more than one computation at a time, none while the caller has control, and none left at the end, and '
     'reconstructions advanced in turn do not influence each other.',
     'schedules histories configurations', 'all timings of worker and foreground, sequences of calls, early ends, open '
     'figures, interleavings with other reconstructions',
     'The tests run one schedule and compare no states.',
     RB, [('the thread in optimize', RB)],
     'runtime monitor with injected delays and switch intervals: bitwise equality, thread census, quiescence',
     COMMON + ' Timings are those of injected delays, not an enumeration of interleavings.',
     ['the model while the generator is suspended', 'live threads'])
prop('P10', 'Failures and interrupts leave a consistent model behind',
     'When an error or an interrupt happens at any point of a reconstruction, it reaches the caller once and unchanged, '
     'no computation is left running, the records cover exactly the completed epochs and the parameters are those after '
     'a whole number of optimization steps. A reconstruction continued afterwards proceeds and reports exactly like one '
     'which never failed, and an interrupted background computation stops at once.',
     'fault_sequences crash_points schedules', 'every simulation, loss, step, data access, regularizer and event-loop call '
     'as the place; errors and one or two keyboard interrupts; foreground and background',
     'The tests never make a reconstruction fail.',
     RB, [('run_epoch and optimize: exception handling, stop event', RB)],
     'runtime monitor with fault injection at every instrumented call, against the states of an undisturbed twin',
     COMMON + ' A fault position is sampled per run; L-BFGS steps are not checked for partial updates.',
     ['the model, records and threads after the fault'], level='fault_enumeration')
prop('P11', 'Every epoch uses each selected exposure exactly once, with its own data',
     'In every epoch of every optimization call, each exposure of the dataset or of the chosen subset is used exactly '
     'once, together with its own pattern and position, in batches of the requested size, and no other exposure is used. '
     'Without shuffling the order is the given one; with shuffling it changes from epoch to epoch.',
     'configurations histories', 'all dataset sizes, batch sizes, chunk widths, subsets, shuffling, data loaders, '
     'optimizers and entry points', 'The tests check only that losses fall.',
     f'{RB} {S}reconstructors/adam.py {S}reconstructors/sgd.py {S}reconstructors/lbfgs.py {PTY}',
     [('setup_dataloader, subset', RB), ('chunks of a batch', RB), ('__getitem__', PTY)],
     'runtime monitor on the event stream of simulations and losses (exactly-once, pairing, order)', COMMON,
     ['arguments of every simulation and loss evaluation'])
prop('P12', 'Reported losses and records describe what was computed',
     'The loss which is yielded after an epoch is the normalized loss of that epoch, and it is the one in the history, '
     'the text record, the report and the saved results. After any sequence of optimization calls, completed or '
     'abandoned, history, epoch number and text contain exactly the completed epochs in order.',
     'histories configurations', 'all sequences of optimization calls, models, losses, masks',
     'The tests look at final loss values of a few runs.',
     f'{RB} {MB} {S}tools/losses/losses.py', [('run_epoch', RB), ('report', MB), ('normalizers', S + 'tools/losses/losses.py')],
     'runtime monitor: online bookkeeping after every epoch, float64 reference of the loss', COMMON,
     ['the records after every epoch'])
prop('P13', 'An optimization call performs exactly the documented algorithm',
     'For every model, the parameters and losses after any sequence of optimization calls are those of the documented '
     'optimizer with the given settings, learning-rate factors, schedule and regularization, applied to the total loss of '
     'the selected exposures. Parameters which are not trainable or have factor zero do not change, and nothing else '
     'carries over between calls than what is documented.',
     'histories configurations', 'all sequences of calls, optimizers, settings, models',
     'The tests check that the loss falls below a threshold in examples.',
     f'{RB} {S}reconstructors/adam.py {S}reconstructors/sgd.py {S}reconstructors/lbfgs.py {MB}',
     [('optimize, adjust_optimizer', S + 'reconstructors/adam.py'), ('run_epoch', RB)],
     'runtime monitor: trajectory compared with an independent implementation on torch.optim', COMMON +
     ' The optimizers of torch themselves are trusted.', ['parameters and losses after every call'])
prop('P17', 'Wave propagation is physically exact and invertible',
     'Every propagator gives the wavefield of the documented physical propagation, for all shapes, distances, wavelengths '
     'and geometries. Propagation conserves energy, is linear, composes over distances, and the backward propagators '
     'undo the forward ones wherever the wave propagates.',
     'inputs configurations', 'all wavefields, shapes, distances of both signs, wavelengths, tilts, precisions',
     'The tests use one square even grid per propagator and few distances.',
     f'{PROP} {S}models/fancy_ptycho.py', [('far_field, near_field, generate_*', PROP)],
     'runtime monitor: float64 reference and metamorphic laws', COMMON)
prop('P18', 'Coordinates keep their meaning between detector, wavefield, sample and stage',
     'The pixel grids and positions which are derived from a detector geometry and a sample orientation are those of '
     'vector algebra, for every orientation of detector and sample. Conversions between pixels and positions invert each '
     'other, and all positions of a scan lie on the object which is set up for them.',
     'inputs configurations', 'all detector bases, shapes, sample normals, positions, padding',
     'The tests use a few axis-aligned geometries.',
     f'{INIT} {INT}', [('exit_wave_geometry, calc_object_setup', INIT),
                       ('translations_to_pixel, pixel_to_translations, project_translations_to_sample', INT)],
     'runtime monitor: float64 vector-algebra oracle and inverse laws', COMMON)
prop('P19', 'Exit waves are the probe times the object at the right place',
     'For every position, the computed exit waves are the product of the probe with the object under it, with sub-pixel '
     'positions realized by the documented interpolation, for any number of probe modes, object modes and exposures. '
     'Many exposures at once give what each gives alone.',
     'inputs configurations', 'all probes, objects, positions, mode numbers and options',
     'The tests use single positions and one option at a time.',
     INT, [('ptycho_2D_round, _linear, _sinc, RPI_interaction', INT)],
     'runtime monitor: float64 loop oracle', COMMON)
prop('P20', 'The detector model turns wavefields into the right intensities',
     'For every wavefield the simulated measurement is the documented one: the sum of the intensities of the modes, '
     'averaged over oversampled or finite pixels, with efficiency, background and saturation applied in that order. '
     'Intensity is conserved where the detector conserves it.',
     'inputs configurations', 'all wavefields, mode numbers, oversampling, windows and options in combination',
     'The tests use one option at a time on square even grids.',
     MEAS, [('intensity, incoherent_sum, quadratic_background', MEAS)],
     'runtime monitor: float64 reference and conservation laws', COMMON)
prop('P21', 'Model predictions follow the documented forward model',
     'For every model class and every combination of its options, the predicted patterns are those of the documented '
     'chain of interaction, propagation and measurement with the current parameters, for any selection and order of '
     'exposures. The prediction for an exposure does not depend on the others computed with it.',
     'configurations inputs', 'all classes, options, parameter values, selections of exposures',
     'The tests only run reconstructions with default options and look at the loss.',
     f'{MODELS} {INT} {PROP} {MEAS}', [('interaction, forward_propagator, measurement', S + 'models/fancy_ptycho.py'),
                                       ('the same of the other classes', S + 'models/multislice_ptycho.py')],
     'runtime monitor: complete float64 reference model', COMMON, ['predicted patterns'])
prop('P26', 'Loss functions and the gradients of every parameter are exact',
     'Every loss function and normalization has the documented value over the unmasked pixels. For every model and '
     'parameter the derivative used for optimization is the derivative of the loss of the documented forward model.',
     'inputs configurations', 'all patterns, predictions, masks, models, options, parameters',
     'The tests evaluate losses at a few values and no gradients.',
     f'{S}tools/losses/losses.py {INT} {PROP} {MEAS}', [('losses and normalizers', S + 'tools/losses/losses.py')],
     'runtime monitor: float64 formulas and finite differences of the reference model', COMMON)

exec(open(os.path.join(HERE, 'tools', 'spec_more.py')).read()) if os.path.exists(
    os.path.join(HERE, 'tools', 'spec_more.py')) else None


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['tests'],
                     anchors=dict(files=list(dict.fromkeys(p['files'])),
                                  mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            if p['state']:
                d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            d['anchors']['hook_needed'] = None
            f.write(json.dumps(d) + '\n')
    checks = [dict(property=p['id'], quick_cmd=f'/opt/venv/bin/python run.py {p["id"]}',
                   thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python run.py {p["id"]}',
                   evidence_file=f'evidence/{p["id"]}.json', technique=p['technique'], level=p['level'],
                   level_note=p['note']) for p in P]
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, torch, h5py, matplotlib"', checks=checks,
             not_applicable=[],
             notes='Pure Python under test: the checks import /repo/src directly, nothing is built. No hooks in /repo '
                   'are needed: the monitors attach to instances from outside. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties')


if __name__ == '__main__':
    main()
