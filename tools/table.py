prop(
    "C04", "A Kodak download is complete and exact, or fails, and can always be retried",
    "When opening the Kodak data set with verification returns, the directory holds exactly the 24 published files, byte for byte, and item i is image i+1; missing, damaged, swapped, truncated or extended files are always reported instead. "
    "Without the force flag an existing directory is refused and left untouched, opening without downloading neither uses the network nor changes files, and a download, verified or not, never reports success over files the network or the disk refused. "
    "After any sequence of network failures, disk errors and kills, a forced download against a healthy server succeeds and leaves the exact data set.",
    ["fault_sequences", "crash_points", "histories"],
    "every sequence of construct calls (any flags) with network faults, disk faults, kills at any system call and damage to stored files between them",
    "the tests never download: they write random files and open them once with hash checking off; no network failure, disk error, kill or retry is ever exercised",
    ["neuralcompression/data/_kodak.py"],
    [("integrity check over all files", "neuralcompression/data/_kodak.py: _check_integrity"),
     ("download loop and existing-root refusal", "neuralcompression/data/_kodak.py: _download")],
    ["constructor outcome", "files on disk", "items", "requests at the web server"],
    note="Seeded search over fault sequences and crash points against the real class; assurance is that of the sampled executions. Trusts the simulated server/disk seams and that the published hash identifies the simulated files.",
)
prop(
    "C05", "A CLIC image split download is complete and exact, or fails, and is repeatable",
    "When opening a CLIC 2020 image split with download returns, the split's folder holds exactly the published images and the items are those images in name order, whatever earlier downloads, failures or kills left behind; other splits are untouched. "
    "An archive that does not match its published checksum is never used, and an intact archive already on disk is not fetched again. "
    "Once faults stop, calling it again always succeeds, also when the split was already there.",
    ["fault_sequences", "crash_points", "histories", "configurations"],
    "every split, every history of earlier (failed, killed or completed) downloads, every network or disk fault and kill point during download, extraction, renaming and clean-up",
    "the tests only open a folder of random images; downloading, extraction, renaming and clean-up are never run",
    ["neuralcompression/data/_clic_2020_image.py"],
    [("checksum-verified download and extraction", "neuralcompression/data/_clic_2020_image.py: download"),
     ("rename of the extracted folder and removal of side files", "neuralcompression/data/_clic_2020_image.py: download")],
    ["constructor outcome", "files on disk", "items", "requests at the web server"],
    note="Seeded search over fault sequences and crash points against the real class and torchvision's real downloader; assurance is that of the sampled executions.",
)
prop(
    "C06", "The parallel CLIC video download delivers every video or raises",
    "When downloading the CLIC 2020 videos returns, every frame of every video on the published list is on disk, byte for byte, under the data set's root; a failure to fetch or unpack any one of them, on any worker thread, is raised to the caller. "
    "It never deadlocks, whatever the number of worker threads and the order in which they run, and writes nothing outside the root. "
    "Once faults stop, calling it again completes the data set, whatever an earlier failed or killed call left behind.",
    ["schedules", "fault_sequences", "crash_points"],
    "every interleaving of the pool's threads, every network or disk fault on any of the transfers, every kill point, any number of videos and worker threads",
    "the tests never download; no thread pool, network or disk failure is exercised",
    ["neuralcompression/data/_clic_2020_video.py"],
    [("thread pool fan-out and result collection", "neuralcompression/data/_clic_2020_video.py: download")],
    ["download outcome", "files on disk"],
    note="Seeded search over thread schedules (line-level preemption), fault sequences and crash points with the real thread pool code on simulated locks; assurance is that of the sampled executions.",
)
prop(
    "C07", "Data set items do not depend on listing order, readers or access history",
    "For each of the six data sets, item i is the same documented sample (name order, list-file order, frame order) with exactly the stored pixels in every process, whatever order the file system lists its directories in, whatever was read before, and however many readers read concurrently. "
    "Indices outside the data set are rejected; a failing read raises, and never changes what later reads return.",
    ["schedules", "histories", "fault_sequences", "inputs"],
    "every directory listing order, every sequence of accesses (valid, negative, out of range), every interleaving of concurrent readers, every read error, every process restart",
    "the tests run on one listing order, one process and one thread, and mostly check sizes; the order of videos and frames depended on the raw listing without any test noticing",
    ["neuralcompression/data/_kodak.py", "neuralcompression/data/_clic_2020_image.py", "neuralcompression/data/_clic_2020_video.py",
     "neuralcompression/data/_div2k_dataset.py", "neuralcompression/data/_openimages_v6.py", "neuralcompression/data/_vimeo_90k_septuplet.py"],
    [("sorted path lists", "neuralcompression/data/_clic_2020_image.py, _div2k_dataset.py, _clic_2020_video.py"),
     ("list files and index arithmetic", "neuralcompression/data/_openimages_v6.py, _vimeo_90k_septuplet.py")],
    ["len and items"],
    note="Seeded search over listing orders, access histories, thread schedules and read faults; assurance is that of the sampled executions.",
)
prop(
    "C08", "Every pass over the CLIC videos yields each clip of each video exactly once",
    "A pass over the CLIC 2020 video data set yields, for every video, exactly the clips its clip sampler defines, in order and with the right frames, then ends; together the loader workers of a pass cover every video exactly once, for sequential and shuffled orders. "
    "This holds again for every later pass, also after a pass that was abandoned midway or stopped by a read error, and indexing serves the indexed video.",
    ["histories", "schedules", "configurations", "fault_sequences"],
    "every number of videos, workers and passes, every clip sampler and video sampler, every point at which a pass is abandoned or fails",
    "the tests index the data set twice and take its length; they never iterate it, use workers, several clips per video or a second pass",
    ["neuralcompression/data/_clic_2020_video.py"],
    [("iteration protocol and worker split", "neuralcompression/data/_clic_2020_video.py: __iter__, __next__"),
     ("clip cursor", "neuralcompression/data/_clic_2020_video.py: __getitem__")],
    ["samples yielded per pass and worker"],
    note="Seeded search over worker counts, samplers, pass histories and read faults, each loader worker a forked process; assurance is that of the sampled executions.",
)

prop(
    "C01", "A compressed image decodes on any node holding the checkpoint, as the model says",
    "An image compressed by a HiFiC autoencoder and decompressed by any other process that loaded the same checkpoint (taken before or after the coding tables were built) gives an image of the original size, with values in [0, 1], equal to the model's own eval-mode reconstruction, for every batch size, channel count and image size, also sizes that need padding. "
    "Packets may be lost, duplicated, reordered or delayed, and nodes may crash and reload, switch modes or run other calls in between: the same image always gives the same packet, a packet decodes the same every time, and compressing or decompressing changes neither input, packet nor model.",
    ["histories", "fault_sequences", "crash_points", "configurations", "inputs"],
    "every checkpoint, image shape, sequence of sender and receiver operations and restarts, and every loss, duplication, reordering and delay of packets",
    "the tests compress and decompress one image in one object and compare sizes only; no second process, no checkpoint reload, no repeated or reordered packets",
    ["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/functional/_pad_image.py"],
    [("compress and decompress", "neuralcompression/models/_hific_autoencoder.py: compress, decompress"),
     ("coding tables", "neuralcompression/models/_hific_autoencoder.py: update, update_tensor_devices"),
     ("padding and cropping", "neuralcompression/functional/_pad_image.py")],
    ["packets", "decoded images", "model state"],
    note="Seeded search over checkpoints, node histories and network faults with the real model (narrow widths) and the real range coder; assurance is that of the sampled executions on one CPU platform.",
)
prop(
    "C02", "A receiver decoding P-frame packets stays in step with the sender",
    "A chain of P-frames compressed by DVC, each predicted from the previous decoded frame, decodes at any receiver holding the same checkpoint to exactly the sender's decoded frames, which equal the model's own eval-mode reconstruction, for every frame size the model accepts, batch size and chain length. "
    "Packets may be lost, duplicated, reordered or delayed and either node may crash and restart from the key frame: re-encoding gives the same packets, re-decoding the same frames, and coding changes neither input, packet nor model.",
    ["histories", "fault_sequences", "crash_points", "configurations", "inputs"],
    "every model configuration, frame size, chain length, sequence of node operations and restarts, and every loss, duplication, reordering and delay of packets",
    "the tests code one frame of a few power-of-two-friendly sizes once in one object; no chains, no second process, no faults",
    ["neuralcompression/models/deep_video_compression.py"],
    [("compress and decompress", "neuralcompression/models/deep_video_compression.py: DVC.compress, DVC.decompress"),
     ("sizes of the intermediate feature levels", "neuralcompression/models/deep_video_compression.py: DVCCompressionEncoder, DVCCompressionDecoder")],
    ["packets", "decoded frames", "model state"],
    note="Seeded search over configurations, frame sizes, node histories and network faults with the real model (narrow widths) and the real range coder; assurance is that of the sampled executions on one CPU platform.",
)
prop(
    "C03", "Concurrent callers sharing one model get what each would get alone",
    "When several threads run inference (forward, compress, decompress) on one shared eval-mode model, every call returns what it returns when run alone, inputs and already returned results are never written to, and weights, buffers and settings stay as they were (usage counters aside, which lose no count). "
    "A call that fails (bad input, failed allocation at any operation) raises and leaves no trace in any other call.",
    ["schedules", "fault_sequences", "inputs"],
    "every interleaving of the callers' steps inside the models, every mix of operations and input sizes, an allocation failure at any operation of any call",
    "the tests call each model from one thread, once; no interleaving or failing call is exercised",
    ["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/models/deep_video_compression.py", "neuralcompression/models/_vqvae_xcit_autoencoder.py",
     "neuralcompression/models/_vqvae_projector.py", "neuralcompression/models/_unet_discriminator.py"],
    [("inference entry points keep no per-call state on the module", "neuralcompression/models/*.py: forward, compress, decompress"),
     ("shared codebook", "neuralcompression/layers/_vq_bottleneck.py")],
    ["results of each call", "model state"],
    note="Seeded search over line-level interleavings and allocation failures; native tensor operations are atomic steps. Assurance is that of the sampled executions.",
)
prop(
    "C09", "A metric computed on many ranks equals the value over all samples",
    "For FID, SwAV-FID, KID, MS-SSIM and DISTS (patch updates included), computing on any number of ranks with any split of the samples, unequal numbers of updates and any arrival order gives on every rank the single-process value over all samples since the last reset. "
    "The ranks' collectives always match, so no rank waits for ever; computing again gives the same value; updates do not modify their inputs; and a job killed and restarted from its saved metrics reaches the same value.",
    ["schedules", "crash_points", "histories", "configurations", "inputs"],
    "every number of ranks, split of samples over ranks and updates, rank schedule, kill point and sequence of rounds",
    "the tests run one process and never synchronise; two of the metrics raised or hung when they were",
    ["neuralcompression/metrics/_fid.py", "neuralcompression/metrics/_fid_swav.py", "neuralcompression/metrics/_kid.py", "neuralcompression/metrics/_dists.py",
     "neuralcompression/metrics/_msssim.py", "neuralcompression/metrics/_update_patch_fid.py"],
    [("states and their reductions", "neuralcompression/metrics/*.py: add_state"),
     ("value from synchronised states", "neuralcompression/metrics/*.py: compute")],
    ["value on each rank", "collectives issued by each rank"],
    note="Seeded search over rank schedules, splits and kills with torchmetrics' real synchronisation over a simulated collective; feature networks are small stand-ins. Assurance is that of the sampled executions.",
)
prop(
    "C10", "A metric's value depends only on the samples, not on how they were fed",
    "For every metric, the value after any sequence of updates is that of the samples since the last reset, however they were batched and ordered, whatever computes, resets, copies, saves and restores came between, whatever other metric objects did concurrently, and with the configured settings (normalisation, subsets, kernel, reduction). "
    "An update that fails raises and does not change the value; a restored or copied metric continues independently of the original.",
    ["histories", "schedules", "fault_sequences", "inputs"],
    "every sequence of update, compute, reset, copy, pickle and failed update operations, on several metric objects in any interleaving",
    "the tests feed one batch and compute once; configured KID settings were ignored without a test noticing",
    ["neuralcompression/metrics/_fid.py", "neuralcompression/metrics/_fid_swav.py", "neuralcompression/metrics/_kid.py", "neuralcompression/metrics/_dists.py",
     "neuralcompression/metrics/_msssim.py", "neuralcompression/metrics/_update_patch_fid.py"],
    [("accumulation", "neuralcompression/metrics/*.py: update"), ("settings", "neuralcompression/metrics/*.py: __init__")],
    ["computed values"],
    note="Seeded search over operation histories, interleavings of independent users and failing updates; feature networks are small stand-ins. Assurance is that of the sampled executions.",
)
prop(
    "C11", "A resumed training job sees the learning rates of the uninterrupted one",
    "At every step, every learning-rate schedule (ramp, constant and cosine schedules of the library and of the VCT project) sets for every parameter group its documented rate for that step. "
    "A job killed at any step and resumed from a checkpoint of optimizers and schedules, restored in either order and any number of times, sees the same rates from there on and ends with the same parameters as the uninterrupted job.",
    ["crash_points", "histories", "configurations"],
    "every schedule configuration, parameter grouping, combination of optimizers, checkpoint step, kill step and restore order",
    "the tests step a schedule once from the start; resuming is never tested",
    ["neuralcompression/optim/_ramp_const_cosine.py", "neuralcompression/optim/_ramp_cosine.py", "neuralcompression/optim/_identity.py",
     "projects/torch_vct/utils/schedulers.py"],
    [("rate as a function of the global step", "neuralcompression/optim/*.py: _scheduler_function"), ("resume", "schedule state_dict / load_state_dict")],
    ["learning rate of each parameter group at each step", "final parameters"],
    note="Seeded search over schedules, checkpoint and kill points against an independent formula; assurance is that of the sampled executions.",
)
prop(
    "C12", "Frozen parts of a model never change, whatever the training history",
    "Once the encoder or bottleneck of an autoencoder is frozen (at construction or later), or a VQ-VAE is used as a projector, its weights and buffers never change (usage counters aside), it receives no gradient, it computes without dropout or noise, and it is not offered for training, over any history of training steps, mode switches, failed steps, copies, checkpoints, kills and resumes. "
    "The other parts keep training, and HiFiC's two parameter groups always partition its trainable parameters.",
    ["histories", "crash_points", "fault_sequences", "configurations"],
    "every choice of frozen parts and every history of steps, mode switches, allocation failures, copies, checkpoints, kills and resumes",
    "the tests check a flag right after construction; no training step, mode switch or resume follows",
    ["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/models/_vqvae_xcit_autoencoder.py", "neuralcompression/models/_vqvae_projector.py"],
    [("freezing", "neuralcompression/models/_hific_autoencoder.py: freeze_encoder, freeze_bottleneck; _vqvae_xcit_autoencoder.py"),
     ("mode of frozen parts", "neuralcompression/models/*.py: train"), ("parameter groups", "neuralcompression/models/_hific_autoencoder.py: collect_parameters")],
    ["parameters, buffers and gradients after each operation"],
    note="Seeded search over training histories, failures and restarts; assurance is that of the sampled executions.",
)
prop(
    "C13", "The vector quantiser picks the nearest code and counts every use exactly once",
    "For every input, the VQ bottleneck outputs the nearest (normalised) code of each vector with its index, the true coding cost and a straight-through gradient. "
    "Its usage counts equal exactly the codes used since the last reset, over any history of calls, concurrent callers, failed calls, mode switches, copies and restarts from checkpoints, and the usage metrics (perplexity, peak, share of used codes) are those of the counts.",
    ["histories", "schedules", "crash_points", "fault_sequences", "inputs"],
    "every input shape and codebook, every history of calls, resets, copies and restarts, every interleaving of concurrent callers, an allocation failure at any operation",
    "the tests run one forward pass and look at shapes; reset_hits did nothing without a test noticing",
    ["neuralcompression/layers/_vq_bottleneck.py", "neuralcompression/layers/_q_bottleneck.py"],
    [("assignment and straight-through output", "neuralcompression/layers/_vq_bottleneck.py"), ("usage counts", "neuralcompression/layers/_q_bottleneck.py")],
    ["outputs", "usage counts and metrics"],
    note="Seeded search over call histories, line-level interleavings, allocation failures and restarts against a reference quantiser; assurance is that of the sampled executions.",
)
prop(
    "C14", "A pretrained model loads its published weights exactly, or raises",
    "Every model-zoo and hub entry point asked for pretrained weights returns a model holding exactly the weights published under that model's name, or raises; asked without, it uses no network. "
    "A complete cached file is not fetched again; a failed, killed or concurrent load never leaves an incomplete file under the final name; and once faults stop every load succeeds, whatever earlier loads left behind.",
    ["fault_sequences", "crash_points", "schedules", "histories"],
    "every entry point, cache history, network or disk fault, kill point and interleaving of concurrent loads",
    "the tests build the models without weights; no download is ever run",
    ["neuralcompression/zoo/_msillm.py", "neuralcompression/zoo/_noganms.py", "neuralcompression/zoo/_msillm_vqvae.py", "hubconf.py"],
    [("weight URL and load", "neuralcompression/zoo/*.py"), ("hub entry points", "hubconf.py")],
    ["loaded weights", "cache directory", "requests at the web server"],
    note="Seeded search over faults, kills and concurrent loads through torch.hub's real downloader; small stand-ins replace the network architectures and weight files. Assurance is that of the sampled executions.",
)
prop(
    "C15", "A memoised call returns exactly what the function itself would return",
    "A call through a bound VCT cache returns what the wrapped function returns for those arguments, for every sequence of calls, even when tensors created for earlier calls have been freed and new tensors took their place. "
    "Each distinct argument list is evaluated once per cache and hits are counted exactly; different caches never share entries; a call that raised is not remembered; unbound calls are never cached; and this holds for concurrent callers.",
    ["histories", "schedules", "fault_sequences"],
    "every sequence of bound and unbound calls on any number of caches and functions, any reuse of freed memory, any failing call, any interleaving of callers",
    "whether a freed tensor's address is reused depends on the allocator and the history; the project has no test of it",
    ["projects/torch_vct/utils/memoize.py"],
    [("key construction and lookup", "projects/torch_vct/utils/memoize.py"), ("cache binding", "projects/torch_vct/utils/memoize.py: bind")],
    ["returned values", "number of evaluations", "hit counts"],
    note="Seeded search over call histories with controlled object identities, failing calls and line-level interleavings against an unmemoised reference; assurance is that of the sampled executions. In-place mutation of tensor arguments and equality of 1, 1.0 and True are not claimed.",
)
prop(
    "C16", "A VCT video stream decodes to the encoder's own output, causally",
    "Every video compressed by the VCT pipeline decompresses to exactly what the model's own evaluation pass outputs, its reported size is the size of the coded bytes, and the entropy coder decodes exactly the symbols it coded. "
    "The output and rate of a frame depend only on that and earlier frames of the same sample. "
    "This holds frame by frame with or without caching, with several streams interleaved, after any earlier calls, failed calls, restarts from a checkpoint, and for concurrent callers.",
    ["inputs", "histories", "schedules", "fault_sequences", "crash_points"],
    "every video, stream interleaving, call history, allocation failure, restart point and interleaving of callers",
    "the project has no tests; caching and calling history are what breaks it",
    ["projects/torch_vct/model_pipeline.py", "projects/torch_vct/neural/entropy_model_layers.py", "projects/torch_vct/neural/entropy_model.py",
     "projects/torch_vct/neural/transforms.py", "projects/torch_vct/utils/memoize.py"],
    [("stream coding", "projects/torch_vct/model_pipeline.py: compress_video, decompress_video"), ("causal entropy model", "projects/torch_vct/neural/*.py")],
    ["decoded videos", "strings", "reported bits"],
    note="Seeded search over videos, stream interleavings, failures and restarts on small configurations of the real modules; assurance is that of the sampled executions. Assumes no latent within 1e-4 of a rounding tie.",
)
prop(
    "C17", "Bits-back coding is a lossless stack over any history of calls and restarts",
    "Data encoded by the bits-back diffusion codec decodes, last in first out, to exactly the encoded data quantised to the configured precision, and each decode returns the message to exactly what it was before that encode. "
    "This holds for any sequence of encodes, decodes, failed calls, copies and restarts from a saved state, also with other codecs used in between. "
    "The reported rate is the growth of the message per encoded dimension (the used rate adds the initial bits consumed), and a codec restored from its state continues as the original, statistics included.",
    ["histories", "crash_points", "fault_sequences", "inputs", "configurations"],
    "every configuration, batch, sequence of encode, decode, save, restore and copy operations, and allocation failure at any operation of a call",
    "the project has no tests; only histories of several pushes and pops with a restart in between show a lost bit",
    ["projects/bits_back_diffusion/bits_back_diffusion/codec.py", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py"],
    [("push and pop of the latent chain", "projects/bits_back_diffusion/bits_back_diffusion/codec.py: BitsBackCodec.encode, decode"),
     ("saved state", "projects/bits_back_diffusion/bits_back_diffusion/codec.py: state_dict, load_state_dict")],
    ["decoded data", "message", "reported rates and counts"],
    note="Seeded search over operation histories, failing operations and restarts with a small noise network; craystack and improved_diffusion (not installed) are replaced by functional stand-ins. Assurance is that of the sampled executions.",
)
prop(
    "C18", "An interrupted bits-back encoding job resumes and loses no sample",
    "A bits-back encoding job that is killed or meets a disk error at any point, and is restarted with the same settings, ends with the message and statistics of encoding all its samples without interruption: each exactly once, in order. "
    "Decoding the result gives back the samples exactly, and the job's own decoding check leaves every decoded batch. "
    "A restart continues after the newest saved checkpoint and repeats no saved work, loses at most the work since the last due save, always completes once faults stop, whatever earlier incarnations left behind, and never takes another rank's files for its own; a finished job can be restarted without harm and does no work again.",
    ["crash_points", "fault_sequences", "histories", "configurations"],
    "every kill point, disk fault, number of restarts, checkpoint interval and number of ranks",
    "the project has no tests; what matters is the instant of a kill inside the checkpoint write",
    ["projects/bits_back_diffusion/encode.py", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py", "projects/bits_back_diffusion/bits_back_diffusion/codec.py"],
    [("job loop, checkpoint and resume", "projects/bits_back_diffusion/encode.py: main, encode, decode"),
     ("choice of the checkpoint", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py: parse_resume_step_from_filename, update_checkpoint")],
    ["checkpoint files", "final message and statistics", "decoded samples", "logged values"],
    note="Seeded search over kills, disk faults and restarts of the real script; craystack, improved_diffusion, hydra and wandb are stand-ins. Assurance is that of the sampled executions.",
)
prop(
    "C19", "Preparing CIFAR-10 folders succeeds only with both splits complete",
    "When the CIFAR-10 preparation script returns normally, the folders of both splits hold exactly the published images, each once, under their documented names and with their pixels. "
    "A run that was killed or failed at any point (network, disk) never makes a later run accept an incomplete folder, and once faults stop a run succeeds. A complete folder is left alone unless overwriting was asked for, and nothing else below the root is touched.",
    ["crash_points", "fault_sequences", "histories"],
    "every sequence of runs with any network or disk fault and any kill point, with and without overwriting",
    "the script has no tests; an interrupted dump was silently taken for a complete data set",
    ["projects/bits_back_diffusion/datasets/cifar10.py"],
    [("dump of a split", "projects/bits_back_diffusion/datasets/cifar10.py: main")],
    ["folders and files left behind", "outcome of each run"],
    note="Seeded search over faults, kills and repeated runs against a simulated web server and disk, with a small archive in CIFAR-10's format. Assurance is that of the sampled executions.",
)
prop(
    "C20", "A killed and restarted ILLM training job ends as the uninterrupted one",
    "An ILLM training job (target-rate or GAN stage) killed at any point or stopped by disk errors, and restarted with its settings, ends with bitwise the weights and optimizer state of the uninterrupted job and logs the same losses, rates, validation values and images. "
    "Learning rates and the rate target follow their schedules batch by batch, every configured discriminator kind trains, frozen parts stay as loaded, validation never affects training, an existing run is not overwritten unasked, validation and each test set's report give the rate and quality of coding their images with the current weights, independently of other sets, and ranks sharing caches all start.",
    ["crash_points", "fault_sequences", "schedules", "histories", "configurations"],
    "every kill point, disk fault, number of restarts, checkpoint and validation interval, stage, frozen parts, test sets, and interleaving of starting ranks",
    "the project's training has no tests; only a kill at the wrong moment or ranks starting together show the failures",
    ["projects/illm/train.py", "projects/illm/image_module.py", "projects/illm/target_compression_module.py", "projects/illm/gan_compression_module.py", "projects/illm/open_images_datamodule.py"],
    [("job start, resume and image-log cache", "projects/illm/train.py: main, fetch_checkpoint, build_wandb_image_logger"),
     ("training and evaluation steps", "projects/illm: ImageModule, TargetRateCompressionModule, GANCompressionModule")],
    ["final checkpoint", "logged values and images", "files left behind"],
    note="Seeded search over kills, disk faults and restarts of the real script with narrow networks under a small stand-in for PyTorch Lightning (not installed). Assurance is that of the sampled executions.",
)
prop(
    "C21", "A killed and restarted DVC training job ends as the uninterrupted one",
    "A multi-stage DVC training job killed at any point of any stage or stopped by disk errors, and restarted, ends with bitwise the weights and optimizer state of the uninterrupted job and logs the same losses, metrics and images. "
    "Learning rates follow their schedule, each stage starts from what the previous one left, finished stages are not trained again, a stage changes only its own parts, validation never affects training, and validation values are the rate (all frames of the group) and quality of coding the validation clips with the current weights, whatever was trained before.",
    ["crash_points", "fault_sequences", "histories", "configurations"],
    "every kill point in every stage, disk fault, number of restarts, checkpoint and validation interval and choice of stages",
    "the project's training has no tests; validation values mixed in training batches without anything noticing",
    ["projects/deep_video_compression/train.py", "projects/deep_video_compression/dvc_module.py"],
    [("stages and their hand-over", "projects/deep_video_compression/train.py: main, run_training_stage"),
     ("training and validation steps", "projects/deep_video_compression/dvc_module.py")],
    ["final checkpoints", "logged values and images"],
    note="Seeded search over kills, disk faults and restarts of the real script with a narrow DVC under a small stand-in for PyTorch Lightning (not installed). Assurance is that of the sampled executions.",
)
prop(
    "C22", "A killed and restarted VCT training job ends as the uninterrupted one",
    "A VCT training job killed at any point or stopped by disk errors, and restarted, ends with bitwise the weights, optimizer and schedule state of the uninterrupted job and logs the same losses, learning rates, validation values and images. "
    "Learning rates follow their schedule batch by batch, validation never affects training, and the test reports the rate and quality of coding the test videos with the trained weights, whatever was trained, validated or tested before in the same process.",
    ["crash_points", "fault_sequences", "histories", "configurations"],
    "every kill point, disk fault, number of restarts, schedule, checkpoint and validation interval and set of test videos",
    "the project's training has no tests",
    ["projects/torch_vct/model_train.py", "projects/torch_vct/model_lightning.py", "projects/torch_vct/datamodules/vimeo.py", "projects/torch_vct/datamodules/uvg.py"],
    [("job", "projects/torch_vct/model_train.py: main"), ("training, validation and test steps", "projects/torch_vct/model_lightning.py")],
    ["final checkpoint", "logged values and images", "test report"],
    note="Seeded search over kills, disk faults and restarts of the real script with a narrow VCT under a small stand-in for PyTorch Lightning (not installed). Assurance is that of the sampled executions.",
)
prop(
    "C23", "The distributed diffusion bound covers all samples of all ranks",
    "The bits per dimension, sample counts, saved per-step terms and plots reported by compute_vlb.py are the values over every sample evaluated on every rank with the newest EMA checkpoint, whatever the number of ranks, their order of arrival, kills, restarts and disk errors. "
    "A restarted evaluation continues the same log run, and no rank waits for ever.",
    ["schedules", "crash_points", "fault_sequences", "configurations"],
    "every number of ranks, order of arrival at collectives, kill point, disk fault, number of restarts and set of checkpoints",
    "the project has no tests",
    ["projects/bits_back_diffusion/compute_vlb.py", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py"],
    [("evaluation", "projects/bits_back_diffusion/compute_vlb.py: main"), ("checkpoint choice, logging", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py: update_checkpoint, parse_resume_step_from_filename, setup")],
    ["logged values", "saved npz files", "rank 0 plots"],
    note="Seeded search over rank schedules, kills and disk faults of the real script with simulated collectives and a small stand-in for improved_diffusion (not installed). Assurance is that of the sampled executions.",
)
prop(
    "C24", "A restarted diffusion training job continues exactly what was saved",
    "A diffusion training job that is killed or fails and is started again continues on every rank from the checkpoint with the highest step number, with exactly the weights, EMA weights and optimizer state saved there, counts its steps on from it and logs to the same run. "
    "The configured batch sizes are shared out over the ranks, and no rank waits for ever.",
    ["schedules", "crash_points", "fault_sequences", "histories", "configurations"],
    "every number of ranks, kill point outside a save, disk fault, number of restarts, save interval and step number",
    "the project has no tests",
    ["projects/bits_back_diffusion/train.py", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py"],
    [("job", "projects/bits_back_diffusion/train.py: main"), ("resume", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py: TrainLoop, update_checkpoint, parse_resume_step_from_filename, divide_by_n_proc")],
    ["weights, EMA and optimizer state on every rank", "checkpoint files", "log runs"],
    note="Seeded search over rank schedules, kills and disk faults of the real script with a stand-in for improved_diffusion's TrainLoop (not installed). Assurance is that of the sampled executions.",
)
prop(
    "C25", "Calls of the library's functions, losses and layers are independent",
    "A call of a function of neuralcompression.functional, a distribution, a loss function, a stateless layer, PSNR or pickle_size_of returns the values and gradients it returns alone in a fresh process, whatever was called before with whatever options, by however many threads at once, and whichever earlier calls were rejected or failed. "
    "It changes neither its arguments, nor the modules and distributions it is given (the GDN layers' clamping of their own parameters aside), nor results already returned, nor process-wide settings (grad mode, default dtype, random state unless it draws, numpy error state).",
    ["schedules", "histories", "fault_sequences", "inputs"],
    "every sequence of calls and options, every interleaving of callers, every rejected call and every failing allocation in between",
    "the tests make each call once, in one thread, with nothing failing before it",
    ["neuralcompression/functional/", "neuralcompression/distributions/", "neuralcompression/loss_fn/", "neuralcompression/layers/", "neuralcompression/metrics/_calc_psnr.py", "neuralcompression/metrics/_pickle_size.py"],
    [("functions", "neuralcompression/functional/"), ("distributions", "neuralcompression/distributions/"), ("losses", "neuralcompression/loss_fn/"), ("layers", "neuralcompression/layers/_simplified_gdn.py, _channel_norm.py, _xca.py, _continuous_entropy.py")],
    ["returned values and gradients", "arguments and shared objects", "process-wide settings"],
    note="Seeded search over call histories and line-level interleavings; the oracle is the same call alone in a pristine fork, so it says nothing about that value being the right number. Assurance is that of the sampled executions.",
)
PURE = "a pure function of its arguments: no concurrency, time, I/O, state or multi-party behaviour for a schedule or fault to act on"
prop(
    "N01", "The JAX entropy coders decode what they encode",
    "Encoding any symbols with the JAX stack and range coders and decoding the result gives the symbols back and restores the message.",
    ["inputs"], "every message and symbol sequence", "the tests sample a few messages",
    ["projects/jax_entropy_coders/jax_arithmetic_coder.py"], [("push/pop", "projects/jax_entropy_coders/")],
    na="jax is not installed in this sandbox, so the code cannot be run; it is also " + PURE,
)
prop(
    "N02", "Distortion functions compute their documented formulas",
    "PSNR, MS-SSIM, LPIPS, DISTS and the rate-distortion, hinge and VGG losses return the value of their documented formula for every pair of images.",
    ["inputs"], "every pair of inputs", "the tests sample a few images",
    ["neuralcompression/functional/_multiscale_structural_similarity.py", "neuralcompression/functional/_information_content.py"],
    [("formulas", "neuralcompression/functional/, neuralcompression/loss_fn/")],
    na=PURE + "; their accumulation over histories and ranks is decided by C09 and C10, their independence of other calls by C25",
)
prop(
    "N03", "Soft rounding, noisy distributions and probability tables are consistent",
    "soft_round and its inverse undo each other, uniform-noise and soft-round distributions integrate to one, and the tables built by ContinuousEntropy are proper quantised distributions.",
    ["inputs"], "every argument and distribution", "the tests sample a few values",
    ["neuralcompression/functional/_soft_round.py", "neuralcompression/distributions/_noisy_normal.py", "neuralcompression/layers/_continuous_entropy.py"],
    [("formulas", "neuralcompression/functional/, neuralcompression/distributions/, neuralcompression/layers/_continuous_entropy.py")],
    na=PURE + " (the coding that uses the tables in shipped models is decided by C01 and C02)",
)
prop(
    "N04", "Warping, normalisation layers and operation counts match their definitions",
    "dense_image_warp samples the displaced position, GDN layers compute their normalisation, and counted operations equal those executed.",
    ["inputs"], "every argument and model", "the tests sample a few cases",
    ["neuralcompression/functional/_dense_image_warp.py", "neuralcompression/functional/_count_flops.py"],
    [("formulas", "neuralcompression/functional/, neuralcompression/layers/, neuralcompression/functional/_count_flops.py")],
    na=PURE,
)
