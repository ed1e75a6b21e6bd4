# further properties; executed by spec.py
prop('P14', 'A reconstruction in several jobs is the same as one in a single job',
     'Stopping a reconstruction at a checkpoint and continuing it in a new process from the checkpoint file, any number '
     'of times and at any epoch or between optimization calls, gives the same model, optimizer state and histories as '
     'running the same script without interruption. A checkpoint file is complete once it carries its final name.',
     'histories crash_points schedules', 'all scripts, optimizers, places of checkpoints and continuations',
     'The tests make one checkpoint in one script with one optimizer.',
     f'{MB} {RB}', [('save_checkpoint, load_checkpoint, skip_computation', MB), ('optimize with saved state', RB)],
     'runtime monitor: bit-for-bit comparison of interrupted and uninterrupted histories',
     COMMON + ' The state of a learning-rate schedule is not part of a checkpoint and is left out.',
     ['state dictionaries of model and optimizer, histories, checkpoint files'])
prop('P15', 'Results are saved in whichever way a reconstruction ends',
     'The saving contexts write the results of the model as it is when the block ends: save_on_exit for every way of '
     'ending, save_on_exception for errors, interrupts and exits only and to the file which was asked for. The error '
     'itself still reaches the caller, and the file can be used to restore the model.',
     'fault_sequences crash_points configurations', 'all ways and places of ending the block',
     'The tests leave the context normally or with one exception at one place.',
     f'{MB} {DATA}', [('save_on_exit, save_on_exception, save_to_h5', MB), ('nested_dict_to_h5', DATA)],
     'runtime monitor: fault injection, comparison of the file with the state at the fault', COMMON,
     ['the files written by the contexts'], level='fault_enumeration')
prop('P16', 'Masked and invalid pixels influence nothing',
     'The values of pixels which are masked, or which are not valid numbers, have no influence on the first guess of a '
     'model, on losses and their normalization, on gradients or on any reconstruction. Masked pixels do not affect '
     'anything even if they are not numbers or infinite.',
     'inputs configurations', 'all masks, values below the mask, model classes, losses and optimizers',
     'The tests use one mask with ordinary values below it.',
     f'{S}tools/losses/losses.py {RB} {PTY} {INIT} {MODELS}',
     [('losses with masks', S + 'tools/losses/losses.py'), ('closure', RB), ('constructor', PTY),
      ('SHARP_style_probe', INIT)],
     'runtime monitor: noninterference of pairs of runs which differ below the mask',
     COMMON + ' SimplePtycho documents no mask in its loss, only its first guess is checked.',
     ['models, losses, gradients of both runs'])
prop('P07', 'Looking at models, data and results does not change them',
     'Computing, inspecting, plotting, reporting, saving, copying and restoring leave models, datasets, the arguments of '
     'the tools and the random generators as they are, at any point of a reconstruction; a reconstruction which is '
     'watched gives the same result. Saved results, copies, halves of datasets and models made from the same dataset are '
     'independent: training or editing one does not change another.',
     'histories inputs configurations', 'all sequences of read-only operations on all classes, all functions of the tools',
     'The tests look at results of single operations, not at what else they change.',
     f'{MODELS} {PTY} {S}tools/', [('inspect, compare, save_results', MB), ('save_results', FANCY if "FANCY" in globals() else MB),
                                  ('split, inspect', PTY)],
     'runtime monitor: complete snapshots of state around every operation', COMMON,
     ['parameters, buffers, gradients, histories, generators, datasets, arguments before and after operations'])
AN = S + 'tools/analysis/analysis.py'
IM = S + 'tools/image_processing/image_processing.py'
prop('P22', 'Tidying and standardizing change the description, not the physics',
     'Orthogonalizing probe modes, tidying the probes of a model and standardizing reconstructions choose another of the '
     'equivalent descriptions of the same reconstruction: the diffraction patterns which a model predicts, the total '
     'power, the density matrices and the product of probe and object stay the same. The modes come out orthogonal and '
     'ordered by power, and the outcome does not depend on the gauge (phase, scale, ramp, exponent) of what went in.',
     'inputs configurations', 'all stacks of modes and weights of any rank, all reconstructions and gauges',
     'The tests orthogonalize one generic stack and standardize one pair with no ramp and no degenerate modes.',
     f'{AN} {S}models/fancy_ptycho.py {S}models/multislice_ptycho.py',
     [('orthogonalize_probes, product_svd, standardize, remove_phase_ramp, remove_amplitude_exponent', AN),
      ('tidy_probes', S + 'models/fancy_ptycho.py'), ('tidy_probes', S + 'models/multislice_ptycho.py')],
     'runtime monitor: conservation of predictions, power and density matrices across each operation',
     COMMON + ' Models with several object modes are left out: each probe mode belongs to its object mode there.',
     ['predicted patterns, density matrices, powers and modes before and after'])
prop('P23', 'The metrics which judge reconstructions measure what they define',
     'Mean squared error, fidelity, their generalizations to partially coherent fields, Fourier ring correlation, transfer '
     'function, von Neumann entropy, cross correlations and power spectra equal their definitions for all shapes, numbers of '
     'modes, types and scales. They do not depend on global phases, on scales where the definition normalizes, on which of '
     'the equivalent sets of modes represents a state, or on whether arrays or tensors were given.',
     'inputs configurations', 'all pairs of fields, numbers of modes, shapes, types and scales',
     'The tests compare one or two generic fields with the same formula.',
     AN, [('calc_rms_error, calc_fidelity, calc_generalized_*, calc_frc, calc_prtf, calc_von_neumann_entropy', AN)],
     'runtime monitor: comparison with definitions in double precision, and invariances between pairs of calls',
     COMMON, ['values of metrics for fields and for equivalent fields'])
prop('P24', 'Images are shifted, registered and resampled by exactly what is asked',
     'Shifting an image by any number of pixels evaluates its Fourier series at the shifted positions, and integer shifts '
     'move pixels exactly. Registration finds any shift between two images, to the precision of its grid, including those '
     'around the edge. Convolution is the periodic sum it claims, Fourier upsampling keeps the original samples, centering '
     'brings the center of mass to the middle, and centroids are centers of mass, for all shapes, types and axes.',
     'inputs configurations', 'all images, shifts of all signs and sizes, kernels, factors, shapes and types',
     'The tests use one image, one shift and one kernel for each function.',
     IM, [('sinc_subpixel_shift, find_shift, find_subpixel_shift, center, fourier_upsample, convolve_1d, centroid', IM)],
     'runtime monitor: comparison with direct evaluation of Fourier series and sums',
     COMMON, ['images, shifts and centroids returned for generated images with known answers'])
INITF = S + 'tools/initializers/initializers.py'
prop('P25', 'First guesses and geometry follow from the data',
     'Models created from a dataset of any geometry sample the sample plane as the detector and the options (oversampling, near '
     'field, tilt, reflection) define, and their object holds the window of every exposure with its margin. The first guess '
     'of the probe carries the mean valid pattern without the background, so that the untouched model predicts the '
     'mean pattern; weights, masks, backgrounds, supports and modes are those of the data and options. Every initializer '
     'returns the field which it defines.',
     'inputs configurations', 'all geometries, shapes, masks, options and model classes',
     'The tests use one orthogonal geometry and do not look at what from_dataset creates.',
     f'{INITF} {MODELS}', [('exit_wave_geometry, calc_object_setup, SHARP_style_probe, gaussian_probe', INITF),
                           ('from_dataset', S + 'models/fancy_ptycho.py'), ('from_dataset', S + 'models/multislice_ptycho.py'),
                           ('from_dataset', S + 'models/bragg_2d_ptycho.py'), ('from_dataset', S + 'models/rpi.py')],
     'runtime monitor: comparison of initial state with float64 definitions, coverage of windows',
     COMMON, ['bases, windows, probes, objects, weights of new models, fields returned by initializers'])
prop('P27', 'Simulated datasets and corrected positions match the model',
     'A dataset simulated by a model holds, exposure by exposure and for any selection, order and width of computation, what '
     'the model predicts at the positions given, with the wavelength, geometry, mask and orientation of the model; it can '
     'be stored, read and used to create a model of the same geometry. The corrected translations are the positions at which '
     'the model places its exposures. Centering moves all modes of a probe together.',
     'inputs configurations', 'all model classes which simulate, states, selections, orders, positions and geometries',
     'The tests simulate from one ideal model without offsets, tilt, mask or oversampling.',
     MODELS, [('sim_to_dataset, corrected_translations, center_probes', S + 'models/fancy_ptycho.py'),
              ('sim_to_dataset, corrected_translations', S + 'models/multislice_ptycho.py'),
              ('sim_to_dataset, corrected_translations', S + 'models/bragg_2d_ptycho.py'),
              ('pixel_to_translations', S + 'tools/interactions/interactions.py')],
     'runtime monitor: round trips between model, simulated dataset, file and new model', COMMON,
     ['simulated datasets, files made of them, corrected positions, predictions at both'])

prop('P28', 'What is plotted is the data, at the right place, in the right units',
     'Plots of images show the function of the array they are named for, each pixel at its position in the basis, view and units '
     'given, with the colours of the legend and the colour limits asked for; moving sliders, keys, scrolling and clicking select '
     'the slice or exposure they announce; plotting again shows the new data. Maps show positions and values of the '
     'scan. inspect() shows the current state of the model and changes neither the model nor the random numbers; it updates '
     'the open figures of the plot level, leaves closed ones closed unless told otherwise, and each can be saved to its own file.',
     'inputs histories', 'arrays of up to five dimensions, bases, units, model classes, histories of events, closed windows and inspections',
     'The tests look at figures only by eye and never check what they show.',
     MODELS, [('plot_image, plot_colorized, colorize', S + 'tools/plotting/plotting.py'),
              ('plot_translations, plot_nanomap, plot_nanomap_with_images', S + 'tools/plotting/plotting.py'),
              ('inspect, save_figures, compare, plot_loss_history', S + 'models/base.py'),
              ('plot_panel_list, plot_list', S + 'models/fancy_ptycho.py'),
              ('inspect', S + 'datasets/ptycho_2d_dataset.py')],
     'runtime monitor: the artists and drawn pixels of the figures after histories of interface events, against references', COMMON,
     ['arrays, transforms, limits, labels of artists, pixels of the canvas, slider states, calls of plot functions, windows, callbacks'])
