"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PROPS, CHECKS, NA = [], [], []
TECH = {
    "proto": "TLC model checking of Protocol.tla; recorded executions of real worker processes under controlled schedules and kills are judged by TLC against it",
}


def prop(pid, title, statement, over, text, why, files, mech, tech, note, level="model_checking", state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append({"id": pid, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                              "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                              "observe_at": list(observe), "hook_needed": None}})
    CHECKS.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python check.py {pid}",
                   "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {pid}",
                   "technique": TECH.get(tech, tech), "level": level, "level_note": note})


RUN = ["neps/runtime.py", "neps/state/neps_state.py", "neps/state/filebased.py", "neps/state/protocols.py"]
NOTE = ("TLC checks the guarantee on every interleaving and kill of the bounded model (2-3 workers, 2-4 trials); the code is bound to it by "
        "executing real workers (separate processes, real files and locks) under a controller that decides every file-system step and kill, "
        "and letting TLC decide whether each recorded execution is a behaviour of the same specification. {x} Trusted: the preload shim, the "
        "directory reader, POSIX rename/flock semantics of the local file system (power loss is not modelled, only process death).")
INTER = ("The unit tests run workers in one process, one after the other or at hand-picked interleavings; this is a statement about every "
         "interleaving of file-system steps of several processes.")

prop("P01", "Every configuration is evaluated at most once, by the worker recorded for it",
     "However many workers share a run directory and however their steps interleave, the evaluation function is entered at most once per sampled configuration, and only by the worker that the run directory names as its evaluator. "
     "A worker that loses the race for a configuration goes on with another one instead of failing. A configuration whose evaluator was killed is not silently evaluated again.",
     ["schedules", "crash_points"], "for all numbers of workers, interleavings of their file-system steps and deaths of workers",
     INTER, RUN, [("claim by compare-and-set on the trial's version", "neps/state/protocols.py Synced.put"),
                  ("re-check of a listed pending trial", "neps/state/neps_state.py get_next_pending_trial"),
                  ("retry after a lost claim", "neps/runtime.py DefaultWorker.run")],
     "proto", NOTE.format(x="Quick: about 400 executions of 2-3 workers; thorough: every single-preemption schedule, thousands of double-preemption, random and priority schedules."))

prop("P02", "Recorded results are durable: never lost, altered or withdrawn",
     "Once the result of an evaluation is in the run directory, every later state of that directory contains the same configuration with the same result, error, cost, duration and evaluator, whatever any worker does or wherever it is killed. "
     "A configuration never moves backwards in its life cycle (pending, evaluating, finished) and never disappears. A result returned by the evaluation function is recorded as it was returned unless its worker is killed first.",
     ["schedules", "crash_points", "histories"], "for all interleavings and kill points, including inside a write",
     "Tests check single state changes of one trial in memory or on disk; no test kills a process between two writes or inspects every intermediate state of the directory.",
     RUN + ["neps/utils/files.py"], [("atomic replacement of files", "neps/utils/files.py atomic_write"), ("result written before the state change", "neps/state/filebased.py ReaderWriterTrial.write"),
                                     ("compare-and-set", "neps/state/protocols.py Synced.put")],
     "proto", NOTE.format(x="The run directory is read after every critical section and at every kill; kills before every k-th file operation and inside every write."))

prop("P03", "Sampling is serialised and sees every earlier configuration",
     "A searcher is asked for a new configuration by one worker at a time, and is shown every configuration that exists in the run at that moment, each with the result it has, and the cost spent so far. "
     "No two samples get the same identity and no sample is dropped.",
     ["schedules", "crash_points"], "for all interleavings of any number of sampling workers, and deaths of a worker while it samples",
     INTER, RUN, [("optimizer-state lock around the whole sampling step", "neps/state/neps_state.py sample_trial"), ("creation order data-then-version", "neps/state/protocols.py VersionedResource.new")],
     "proto", NOTE.format(x="A user-written searcher reports what it was shown, and TLC compares that with the model state."))

prop("P04", "Waiting configurations are evaluated first, oldest first",
     "A worker only asks the searcher for a new configuration if no sampled configuration is waiting, and if some are waiting it takes the one that was sampled first. "
     "This also holds for configurations left behind by workers that died before evaluating them.",
     ["schedules", "histories"], "for all run directories (any mixture of waiting, running, failed and successful configurations) and all interleavings",
     "Tests use one waiting trial, or a hand-built list; the order must hold for every history and for identities that sort differently from their age (e.g. 9 and 10).",
     RUN, [("pending trials ordered by sampling time", "neps/state/filebased.py TrialRepoInDirectory.pending"), ("pending before sampling", "neps/runtime.py _get_next_trial_from_state")],
     "proto", NOTE.format(x="Run directories are enumerated over all strings of trial states up to length 3 (thorough: 4), plus long ones."))

prop("P05", "A worker killed at any moment leaves a run that others can continue",
     "If a worker is killed at any moment, including in the middle of writing a file, every other worker continues, a worker started later resumes the run, and none of them fails because of what was left behind. "
     "Nothing that was completely recorded before the kill is lost, and at most the one configuration the dead worker was handling is affected.",
     ["crash_points", "schedules", "fault_sequences"], "for all kill points of one or more workers, with survivors running concurrently or starting later",
     "No test kills a worker; the number of kill points is the number of file-system steps of a run.",
     RUN + ["neps/utils/files.py"], [("atomic replacement of files", "neps/utils/files.py atomic_write"), ("a trial exists once it has a version", "neps/state/filebased.py TrialRepoInDirectory"), ("locks released by the OS", "neps/state/filebased.py FileLocker")],
     "proto", NOTE.format(x="Kills before every second file operation (thorough: every one) and inside every write of a worker's whole life, followed by a resuming worker; kills under concurrency; two kills in a row."))

prop("P06", "The total evaluation limit is respected and used up",
     "With a limit of N evaluations in total, a single worker starts evaluations until N are counted and never more; W concurrent workers start at most N+W-1, and no worker starts one after it could see N counted. "
     "Evaluations in progress count towards the limit unless the run was asked to continue until N are completed, in which case an undisturbed run ends with at least N completed; failed evaluations count, and the count continues across restarts.",
     ["schedules", "configurations", "histories"], "for all limits, worker counts, initial run directories and interleavings",
     "Tests run one worker with one limit; the bound depends on the interleaving and on what earlier workers left behind.",
     RUN, [("stopping criterion before each evaluation", "neps/runtime.py DefaultWorker._check_if_should_stop"), ("settings from the API", "neps/runtime.py _launch_runtime")],
     "proto", NOTE.format(x="N in 1..5, 1-3 workers, both counting modes, empty and pre-filled directories."))

prop("P07", "Per-worker, cost and time limits stop exactly at the limit",
     "A worker with a limit on its own evaluations, its own cost, its own wall-clock or evaluation time, or a limit on the total cost or evaluation time of the run, starts no further evaluation once the limit is reached, and does not stop earlier. "
     "A per-worker limit only stops that worker; a total limit counts the results of all workers, past and present.",
     ["configurations", "schedules", "histories"], "for all limits, evaluation costs and durations (including zero, missing and failed ones), worker counts and interleavings",
     "Tests cover one value per limit with one worker and no history; boundaries (equal, zero, missing cost) and concurrency are not covered.",
     RUN, [("stopping criterion before each evaluation", "neps/runtime.py DefaultWorker._check_if_should_stop"), ("per-worker counters", "neps/runtime.py DefaultWorker.run")],
     "proto", NOTE.format(x="Time is a virtual clock advanced by the evaluations, so time limits are decided exactly."))

prop("P08", "A failing evaluation affects exactly the workers its error policy names",
     "An evaluation that raises, or returns something that is not a result, is recorded as failed; then the worker goes on (errors ignored), raises, or stops quietly, and workers of the same run also raise or stop before their next evaluation exactly if the policy says so, including when the error is from an earlier run. "
     "A raised error carries the original one as its cause.",
     ["configurations", "schedules", "histories"], "for all policies, failing evaluations, interleavings and earlier errors in the run directory",
     "Tests cover one failing worker per policy in one process, without concurrency or invalid results.",
     RUN + ["neps/state/_eval.py", "neps/state/err_dump.py"], [("error handling in the worker loop", "neps/runtime.py DefaultWorker.run"), ("shared error log", "neps/state/neps_state.py report_trial_evaluation")],
     "proto", NOTE.format(x="All five policies, alone, with a concurrent healthy worker, with earlier errors on disk and with an error that coincides with a limit."))

prop("P09", "Costs and errors of finished evaluations are accounted for exactly once",
     "When no worker is between finishing an evaluation and accounting for it, the cost the run reports to its searcher as spent is the sum of the recorded costs, and the error log names every failed configuration with its worker exactly once and nothing else. "
     "A failed evaluation is recorded with the loss and cost configured for errors, if any.",
     ["schedules", "histories", "configurations"], "for all interleavings of reporting workers, failures and configured error values",
     "Lost updates need two workers reporting at the same time, which no test does.",
     RUN + ["neps/state/_eval.py"], [("read-modify-write under the lock", "neps/state/neps_state.py report_trial_evaluation"), ("error values", "neps/state/_eval.py")],
     "proto", NOTE.format(x="Every intermediate value of the cost total and of the error log is compared with the model."))

prop("P10", "Workers started together share one run; a different searcher is refused",
     "However many workers are started at the same time on the same run directory, whether it does not exist yet, is empty or holds a run, all workers with the same settings end up in one shared run: its searcher identity, random state, error log and optimizer state are created once and never replaced. "
     "A worker whose searcher or searcher settings differ from those of the run is refused with an error and changes nothing; a worker with the same settings is never refused, for every searcher. A worker killed while starting does not prevent others from starting.",
     ["schedules", "crash_points", "configurations"], "for all interleavings of starting workers, kill points during the start, and pairs of searcher settings",
     "Tests start one worker in a fresh directory; creation races need several processes between the same two file-system steps.",
     ["neps/state/filebased.py", "neps/state/protocols.py", "neps/runtime.py", "neps/api.py"],
     [("create or load each part under its lock", "neps/state/protocols.py Synced.new_or_load"), ("comparison of the identity on disk", "neps/state/filebased.py create_or_load_filebased_neps_state"),
      ("what makes up the identity", "neps/api.py _run_args / searcher_info")],
     "TLC model checking of Startup.tla; recorded concurrent start-ups of real worker processes (with kills) are judged by TLC against it",
     NOTE.format(x="One interruption at every second step, two interruptions and random ones, kills at every second step and inside writes, 12 searchers by name with and without settings, also from a settings file."))
prop("P11", "Versioned shared state: no lost update, fresh reads, exclusive sections",
     "A value shared through the run directory (searcher identity, optimizer state, error log, random state, a configuration's record) behaves as a register with compare-and-set: a reader gets the newest stored value, never an older one than it already had; a write based on an outdated copy is refused and changes nothing; "
     "a write that is accepted is what every later read returns; and a critical section of one process never overlaps with one of another process or another handle.",
     ["histories", "schedules"], "for all sequences of operations through any number of handles and processes",
     "The unit tests exercise single calls on one handle or two; freshness and refusal depend on the whole history of versions seen by each handle.",
     ["neps/state/protocols.py", "neps/state/filebased.py"],
     [("versions decide staleness", "neps/state/protocols.py VersionedResource.is_stale / put / sync_lock"), ("exclusive file lock", "neps/state/filebased.py FileLocker"), ("readers and writers per kind of value", "neps/state/filebased.py ReaderWriter*")],
     "TLC model checking of Store.tla; operation histories generated by walks of the model are run on real handles and their recorded results judged by TLC",
     "TLC checks the register properties on the bounded model; random walks (2-4 handles, all five kinds of value, several hundred operations) are executed on real directories and judged step by step by TLC. Trusted: POSIX flock.")

prop("P12", "What an evaluation returns means the same for every accepted form",
     "A returned number, a dictionary with a loss (and optionally cost, info_dict, learning curve), NumPy or tensor scalars, and an exception are turned into the documented record: the loss and cost given, defaults where none is given, the configured on-error values for a failed evaluation, its error attached and its outcome success or crashed. "
     "Anything else is refused as a failed evaluation; no value is guessed, dropped or swapped with another.",
     ["inputs", "configurations"], "for all combinations of return forms, presence and types of the keys, on-error values and ignore settings",
     "The cross product of forms, keys and defaults has thousands of cases, of which the tests sample a few.",
     ["neps/state/_eval.py", "neps/state/trial.py", "neps/utils/types.py", "neps/optimizers/base_optimizer.py"],
     [("parsing of user results", "neps/state/_eval.py parse_user_result / evaluate_trial"), ("report with outcome", "neps/state/trial.py set_complete")],
     "TLC enumerates Result.tla (every combination and the record it must produce); each case is replayed into the real evaluation code and compared",
     "TLC generates all cases of the finite abstraction (3668) with the expected record; values inside a class are drawn at random. Unusual objects outside these classes are not covered.")

prop("P13", "Storing and reading back loses nothing, including random state",
     "A configuration's record written to disk and read back is equal to what was written, after any sequence of life-cycle steps (submission, start, result of any outcome, reset), for every value a space or a result can hold; and the stored random state, loaded in any process, continues the very same stream of Python, NumPy and Torch random numbers. "
     "Reading never changes what is stored.",
     ["histories", "inputs"], "for all life-cycle histories of a configuration and all positions of the random number streams",
     "Tests write and read one hand-made record of each kind; histories and value classes multiply to thousands.",
     ["neps/state/filebased.py", "neps/state/trial.py", "neps/state/seed_snapshot.py", "neps/state/optimizer.py", "neps/state/err_dump.py", "neps/utils/files.py"],
     [("trial reader and writer", "neps/state/filebased.py ReaderWriterTrial"), ("serialisation", "neps/utils/files.py serialize / deserialize"), ("random state", "neps/state/seed_snapshot.py SeedSnapshot")],
     "TLC enumerates all behaviours of TrialLife.tla up to a length; each is replayed on real Trial objects, stored and read back after every step and compared with the model state",
     "2076 behaviours (thorough: 14130) times value classes; random-state snapshots at random stream positions. Bounded by the length of the history.")
prop("P14", "What is proposed does not depend on which process asks",
     "A searcher's proposals are decided by the run (its stored random state and the results so far), not by the process that asks: a run divided between any sequence of processes, whatever random numbers those processes or their evaluations use, samples exactly the configurations, identities and predecessors that one undisturbed process samples. "
     "Concurrent workers continue the one stored random stream, so they never repeat one another's proposals; a worker killed while sampling repeats or skips at most one draw. (Bayesian optimisation, PiBO and ifBO, whose initial design or model is drawn per process, are outside.)",
     ["histories", "schedules", "crash_points"], "for all divisions of a run between processes, all interleavings of random search workers and all deaths of workers",
     "A test runs one process; two processes that silently repeat or diverge still produce plausible configurations.",
     ["neps/state/neps_state.py", "neps/state/seed_snapshot.py", "neps/state/filebased.py", "neps/runtime.py", "neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/hyperband.py", "neps/optimizers/grid_search/optimizer.py"],
     [("sampling critical section", "neps/state/neps_state.py sample_trial"), ("random state", "neps/state/seed_snapshot.py SeedSnapshot"), ("rebuilding the searcher from the trials", "neps/optimizers/multi_fidelity/successive_halving.py ask")],
     "TLC model checking of SeedChain.tla (one random stream, publish and store in one critical section, deaths inside); recorded runs of real processes, divided, concurrent and killed, are judged by TLC against it",
     "TLC checks the stream invariants on all bounded interleavings; each searcher's undisturbed run is the reference for 3 (thorough 6) divisions between processes, random search additionally for random schedules and kills at every third (thorough: every) step. Runs of 11-20 evaluations.")
prop("P15", "Multi-fidelity searchers promote the right configurations to the right fidelity",
     "Successive halving, Hyperband, PriorBand, ASHA and their variants answer every request at once, with either a new configuration at a bracket's lowest fidelity or the promotion of a finished one to the next fidelity. The fidelities are the maximum divided by powers of eta, down to the lowest that the space admits. "
     "Synchronous brackets promote exactly the best 1/eta of a rung, best first, only when the rung is full and nothing in it is still being evaluated, oldest bracket first; asynchronous ones promote the best of a rung at which at least eta finished configurations rest, highest rung first. "
     "A failed or infinite result ranks behind every other. A promoted configuration keeps its number and all its values but the fidelity, names its predecessor, and is never handed out twice at a fidelity.",
     ["histories", "inputs", "configurations"], "for all orders of losses, completions, failures and lost workers, all eta, fidelity bounds and early stopping rates, and however many requests are open at once",
     "The order in which several workers finish, together with the order of their losses, decides what is promoted; tests run one sequential history of a few evaluations.",
     ["neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/hyperband.py", "neps/optimizers/multi_fidelity/promotion_policy.py", "neps/optimizers/multi_fidelity_prior/priorband.py", "neps/optimizers/multi_fidelity_prior/async_priorband.py", "neps/optimizers/multi_fidelity/mf_bo.py"],
     [("rungs and brackets", "neps/optimizers/multi_fidelity/successive_halving.py SuccessiveHalvingBase"), ("promotion", "neps/optimizers/multi_fidelity/promotion_policy.py"), ("Hyperband brackets", "neps/optimizers/multi_fidelity/hyperband.py")],
     "TLC model checking of Rungs.tla; requests and results of the real searchers (random losses, failures, completion orders, open requests, restarts) and whole runs read back from disk are judged answer by answer by TLC against it",
     "TLC checks fairness of promotion and bracket sizes on bounded ladders; 300 (thorough: 7800) histories of up to 50 requests of 14 searchers, random parameters. The asynchronous rule is the one documented in the code (eta resting configurations), not the one of the ASHA paper.")
prop("P16", "Failed or odd results never stop a searcher",
     "Whatever the evaluations so far ended with (a loss, a failure with or without values configured for errors, NaN, infinity, minus infinity, ties, huge numbers, no cost, or not at all yet), in any order and any mixture, every searcher answers the next request with a configuration, "
     "and a run that tolerates errors carries out all the evaluations it was asked for. In particular a search in which every evaluation so far failed goes on. (Cost-aware Bayesian optimisation needs at least one reported cost.)",
     ["histories", "inputs"], "for all searchers and all sequences of evaluation outcomes",
     "Each searcher fits models and sorts losses of its own; the tests feed each a handful of ordinary losses.",
     ["neps/optimizers/bayesian_optimization/optimizer.py", "neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/promotion_policy.py", "neps/optimizers/multi_fidelity/sampling_policy.py", "neps/optimizers/multi_fidelity/mf_bo.py", "neps/optimizers/multi_fidelity_prior/priorband.py", "neps/optimizers/multi_fidelity_prior/utils.py", "neps/runtime.py"],
     [("asking a searcher", "neps/optimizers/base_optimizer.py ask"), ("observations", "neps/optimizers/multi_fidelity/mf_bo.py MFBOBase"), ("incumbent", "neps/optimizers/multi_fidelity_prior/utils.py")],
     "TLC enumerates Outcomes.tla (every history of outcomes up to length 3); each is fed, repeated, to every real searcher and to whole runs, and every answer is judged by TLC against Space.tla",
     "Quick: about 700 conversations of 6-22 requests and 80 whole runs over 17 searchers; thorough: every history for every searcher. Numerical breakdowns that need particular losses beyond the nine classes are not covered.")
prop("P17", "Proposals are points of the declared space, and every part of it is reachable",
     "Every configuration that a searcher proposes assigns exactly the declared parameters: a float or integer of the declared type within its bounds (including on a log scale), one of the declared choices unchanged in value and type, a constant's value; a fidelity within its bounds (the maximum for searchers that do not use it). Its identity is new and its predecessor known. "
     "Draws without priors reach every part of the space about equally often (evenly in the logarithm for log parameters); draws with priors favour the neighbourhood of each parameter's own default, more so the higher the confidence, and still reach the rest. A searcher told to begin with the default proposes exactly the defaults.",
     ["inputs", "configurations", "histories"], "for all spaces built of constants, categoricals, floats and integers (any bounds, log or not, defaults, names, fidelity), all searchers and random states",
     "Tests use one or two spaces; an off-by-one at a bound, an unreachable half of a range or a prior applied to the wrong parameter still yields plausible configurations.",
     ["neps/search_spaces/search_space.py", "neps/search_spaces/domain.py", "neps/search_spaces/encoding.py", "neps/sampling/samplers.py", "neps/sampling/priors.py", "neps/sampling/distributions.py", "neps/optimizers/initial_design.py", "neps/optimizers/random_search/optimizer.py", "neps/optimizers/bayesian_optimization/optimizer.py", "neps/optimizers/multi_fidelity/sampling_policy.py", "neps/optimizers/grid_search/optimizer.py"],
     [("casting between domains", "neps/search_spaces/domain.py cast"), ("sampling", "neps/sampling/samplers.py"), ("priors", "neps/sampling/priors.py CenteredPrior"), ("parameter sampling", "neps/search_spaces/hyperparameters/*")],
     "TLC generates the spaces (MCSpace.tla); real searchers propose on each and TLC judges every proposal and every histogram of draws against Space.tla",
     "Quick: about 1300 conversations over 20 searchers and histograms of 2000 draws for each kind of parameter (bounds of 6 standard deviations, so no chance alarms); thorough: every space for every searcher. Two ordinary parameters and a fidelity per space, numeric values inside a class at random.")
prop("P18", "An evaluation gets its own configuration, directories and lineage",
     "The evaluation function is called with exactly the values stored for the configuration under evaluation, with its own directory and the directory of the configuration it continues (none if it is new) if it asks for them, however its signature is written. During the evaluation the trial in progress, the run's state, the lineage's initial directory and the checkpoint of the predecessor are those of this very evaluation, even if "
     "the process has worked on other runs before, works with a relative root directory, or the function changes the working directory; listeners are told of its end once. Outside of evaluations no trial is in progress. An interrupted evaluation (Ctrl-C, exit) stays recorded as unfinished and does not prevent further runs in the same process.",
     ["histories", "inputs", "configurations"], "for all sequences of runs in a process, on the same or different directories, with evaluations that succeed, fail or are interrupted, all signatures and searchers",
     "State that belongs to the process survives from one run to the next; tests do one run per process state and never interrupt one.",
     ["neps/runtime.py", "neps/state/_eval.py", "neps/utils/common.py", "neps/api.py", "neps/state/neps_state.py"],
     [("trial in progress", "neps/runtime.py _set_global_trial"), ("call of the evaluation function", "neps/state/_eval.py evaluate_trial"), ("checkpoints and lineage", "neps/utils/common.py load_checkpoint / save_checkpoint / get_initial_directory"), ("predecessor", "neps/state/neps_state.py sample_trial")],
     "TLC model checking of Session.tla, which also writes the scripts of all short sessions; each is replayed in a real process and TLC judges everything the process showed against the specification",
     "2 run directories, up to 3 runs and 4 planned evaluations (stretched by up to 5 ordinary ones per run), 6 forms of functions, 3 kinds of checkpoints, 6 searchers. Quick: 140 sessions; thorough: 2700. PyTorch Lightning itself is not installed; its checkpoint loader is exercised with plain torch files.")
prop("P19", "Grid search evaluates every point of the grid exactly once, then stops",
     "The grid of a space consists of every combination of: all choices of a categorical, the constant values, and for a number the requested count of values spread evenly from bound to bound (evenly in the logarithm for log parameters; integers rounded, within the bounds and without repetition). "
     "A grid search hands out each of these configurations exactly once, in an order that does not depend on the process that asks, however the search is divided between workers and restarts and whatever the evaluations end with, and refuses to go on when, and only when, all of them have been handed out.",
     ["inputs", "configurations", "histories"], "for all spaces, grid sizes, seeds and divisions of the search between processes",
     "Tests build one grid and look at its size; a repeated or missing point shows only when the whole grid is walked by several processes.",
     ["neps/optimizers/grid_search/optimizer.py", "neps/search_spaces/search_space.py", "neps/search_spaces/hyperparameters/numerical.py"],
     [("grid", "neps/search_spaces/search_space.py get_search_space_grid"), ("order and exhaustion", "neps/optimizers/grid_search/optimizer.py GridSearch.ask")],
     "TLC model checking of Grid.tla; complete grid searches of real optimizers and real runs on random spaces are judged by TLC against it, point by point and axis by axis",
     "Spaces of 1-3 parameters and up to 120 points; quick: 1200 conversations and 40 runs, thorough: 9000 and 400.")
prop("P20", "The status of a run agrees with its configurations, in every form",
     "At any moment, and whatever states its configurations are in, the summary of a run (get_summary_dict, the printed status, the returned dictionaries and the csv files) counts exactly the finished, unfinished, currently evaluated and failed configurations, names as best a successful configuration with the least loss (NaN and failed ones never; none if there is none) together with its own values, "
     "and lists every configuration once with its own values, state and loss; the csv file has one line for each, the successful ones first from best to worst.",
     ["histories", "inputs"], "for all run directories: any number of configurations, each pending, evaluating, successful with any loss, or failed with or without a value for errors",
     "The tests look at the summary of one finished run without failures.",
     ["neps/status/status.py", "neps/utils/types.py", "neps/state/trial.py", "neps/state/filebased.py"],
     [("summary", "neps/status/status.py get_summary_dict"), ("printed status", "neps/status/status.py status"), ("csv", "neps/status/status.py _get_dataframes_from_summary / _save_data_to_csv")],
     "TLC model checking of Summary.tla, which also writes every small run directory; each is built with the real code, and TLC judges every form of its status against the specification",
     "All multisets of up to 4 configurations over 10 states (1001), and random ones of up to 13. The trajectory options of neps.status are a known finding.")
prop("P21", "The csv summary is up to date whenever and however workers end",
     "However the workers that end with a summary interleave with each other and with workers that still evaluate, the csv files never go back to an older state, a worker that returns leaves files that contain everything it did, and once the last worker has returned they describe the run as it is. A worker killed while it writes them neither makes a later worker fail nor keeps the files from being brought up to date.",
     ["schedules", "crash_points"], "for all interleavings of ending workers and all kill points while the summary is collected and written",
     "The tests end one worker at a time and never kill one while it writes the summary.",
     ["neps/status/status.py", "neps/utils/_locker.py", "neps/api.py"],
     [("collected and written under one lock", "neps/status/status.py _save_data_to_csv"), ("lock", "neps/utils/_locker.py Locker")],
     "TLC model checking of Csv.tla (with a negative control: data collected before the lock); executions of real workers, scheduled and killed inside the summary phase, are judged by TLC against it",
     "2-3 workers, 1-3 evaluations; quick: every third interruption point and kill of the summary phase, every torn write; thorough: all of them. About 700 executions.")
prop("P22", "A run follows its effective settings: call over file over default",
     "Settings of a run may be given in the call, on the command line and in a YAML settings file. The call has priority over the file and the file over the default, setting by setting: a value given in the call wins even if it is None, 0 or False. A searcher given in the call replaces that of the file as a whole, with its arguments. The effective settings alone decide where the run lives (root, task and development "
     "directories), whether what is there is deleted (overwrite), which function is evaluated how often on which space, which searcher proposes (if none is given: by whether the space has priors and a fidelity), what failed evaluations are recorded as and whether they end the run, which hooks are called in which order, and whether a csv summary is written; a run that lacks a mandatory setting is refused and leaves nothing behind.",
     ["inputs", "configurations"], "for all combinations of settings given in the call, on the command line, in the file, in both or not at all, for spaces given as dictionary, YAML or ConfigSpace",
     "There are far more combinations of the three sources than tests; existing tests compare single settings with a mocked run.",
     ["neps/api.py", "neps/utils/run_args.py", "neps/utils/cli.py", "neps/runtime.py", "neps/state/settings.py", "neps/optimizers/__init__.py"],
     [("merging", "neps/utils/run_args.py Settings"), ("searcher", "neps/api.py _run_args"), ("command line", "neps/utils/cli.py run_optimization"), ("worker settings", "neps/runtime.py _launch_runtime")],
     "TLC model checking of Settings.tla, which also writes combinations of settings; each is given to a real run, and TLC compares everything the run did with the specification",
     "Each pair of settings in all combinations of sources and values, and random combinations of all; about 1400 real runs (quick), a part of them from the command line.")
prop("P23", "The command line's reports agree with the run and change nothing",
     "For every run directory, whatever states its configurations are in and whichever searcher made them, the commands neps status (plain or with --pending, --evaluating, --succeeded), neps results (plain or --plot), neps info-config and neps errors succeed and tell the truth: status counts the succeeded, failed, active and pending configurations, lists the latest seven (or all of the requested state), latest first, each with its own state and loss, and names a best configuration with its values; "
     "results lists exactly the configurations that were better than every successful one sampled before them, latest first; info-config shows the values, state, worker and result of the very configuration asked for, finished or not; errors lists every failed evaluation once with its worker and error. None of them changes the run. Unknown configurations and missing directories are reported as such. neps init writes a valid settings file and never replaces an existing one.",
     ["histories", "inputs"], "for all run directories and all reading commands, with the directory given as an argument or in run_config.yaml",
     "There are no tests of these commands.",
     ["neps/utils/cli.py", "neps/status/status.py", "neps/state/filebased.py", "neps/state/trial.py"],
     [("status", "neps/utils/cli.py status"), ("results", "neps/utils/cli.py results"), ("info-config", "neps/utils/cli.py info_config"), ("errors", "neps/utils/cli.py load_neps_errors"), ("init", "neps/utils/cli.py init_config")],
     "TLC model checking of Cli.tla (an extension of Summary.tla); every small run directory that TLC writes is built with the real code, all commands are run on it, and TLC judges their output against the specification",
     "All multisets of up to 4 configurations over 10 states (1001) and random ones of up to 13, 4 + n + 4 commands each. main() also writes cli.md into the working directory at every call (developer documentation), which is not judged.")
prop("P24", "A search space means the same however it is written, or is refused",
     "Whether a space is given as parameter objects, in a YAML file (plain, below a pipeline_space key, or inside a settings file) or as a ConfigSpace (alone or inside a dictionary), each parameter gets exactly the kind, bounds, scale, fidelity flag, default, confidence and choices that were written: without a type two integers make an integer, two floats or any number in scientific notation (in all the ways YAML hands over as text) a float, choices a categorical, a plain value a constant; "
     "the searcher receives these parameters and every evaluation gets a value of the right type in the written domain. A definition that is not meaningful (bounds not increasing, logarithm of non-positive numbers, default outside or not among the choices, fewer than two or repeated choices, numbers that do not fit the type, missing, unknown or non-boolean entries, two fidelities, ConfigSpace conditions, forbidden clauses or normal distributions) is refused before anything is evaluated.",
     ["inputs", "configurations"], "for all definitions of spaces in all forms, valid or not",
     "The tests read a dozen YAML files; the rules interact (type, notation, default, flags), so there are thousands of distinct definitions.",
     ["neps/search_spaces/yaml_search_space_utils.py", "neps/search_spaces/search_space.py", "neps/search_spaces/hyperparameters", "neps/api.py", "neps/utils/run_args.py"],
     [("YAML", "neps/search_spaces/search_space.py pipeline_space_from_yaml"), ("notation", "neps/search_spaces/yaml_search_space_utils.py"), ("ConfigSpace", "neps/search_spaces/search_space.py pipeline_space_from_configspace"), ("objects", "neps/search_spaces/hyperparameters/*.py __init__")],
     "TLC model checking of SpaceDef.tla (meaning is proper, the form does not matter), which writes the definitions; each is given to a real run, and TLC judges the space the searcher got and the values evaluated against the specification",
     "About 20000 definitions over a dozen values and all keys (thorough: all; quick: up to 240 of each of 51 families, about 3800 runs). ConfigSpace quantisation and beta distributions are not judged.")
prop("P25", "Values keep their meaning when encoded, normalised and cast",
     "Searchers work on numbers between 0 and 1. Every value of every parameter (any integer, real number on either scale, any choice of any type) has its own position, in the order of the values, from 0 at the lower to 1 at the upper bound, evenly spaced on the scale of the parameter; encoding it and decoding it gives back the same value of the same type. Conversely every position stands for a value inside the bounds, positions keep their order, the steps of a domain (integers, bins, choices) get equal shares of them, and each value is "
     "reached. This holds along every chain of domains through which values are cast or translated, for many values at once as for single ones. A whole configuration survives encoding whatever other parameters, constants, unrelated entries or order of entries it has, and is encoded the same alone as among others.",
     ["inputs"], "for all domains (integer, float, log, binned, categorical), all chains of casts, all values and all configurations",
     "The tests cast a few values between a few pairs of domains; the shortcuts between domains interact.",
     ["neps/search_spaces/domain.py", "neps/search_spaces/encoding.py", "neps/search_spaces/hyperparameters"],
     [("casting", "neps/search_spaces/domain.py Domain.cast / to_unit / from_unit / translate"), ("transformers", "neps/search_spaces/encoding.py CategoricalToIntegerTransformer, CategoricalToUnitNorm, MinMaxNormalizer"), ("configurations", "neps/search_spaces/encoding.py ConfigEncoder"), ("parameters", "neps/search_spaces/hyperparameters value_to_normalized / normalized_to_value")],
     "TLC model checking of Encoding.tla (order, ends, equal shares and stability along chains of domains), which also writes the chains; each is walked by the real code on domains of that shape, all values of domains and random configurations are encoded and decoded, and TLC judges what came out",
     "Chains of up to 2 (thorough 3) casts over shapes of 2, 3, 4, 7 steps or continuous; all values of domains of up to 101 (1000) integers, chosen ones of up to 10^9; configurations of up to 6 parameters.")
prop("P26", "Freeze-thaw optimisation continues each configuration step by step",
     "With the searcher ifbo every configuration is evaluated in steps: the first at the lowest fidelity (raised by less than a step size, such that the highest one is reached exactly), each further one exactly a step size higher, as the same configuration with the same values, linked to the one before, never twice, never while the one before is still pending and never beyond the highest fidelity. After the initial design each request, at any time, is answered by what the model likes most: "
     "the next step of any configuration that can be continued, or a new one, whose values are legal. The model is told every evaluation exactly once, with its configuration, a budget that grows with the steps and ends at 1, and its score: 1 - loss, or the worst one if the evaluation failed without a value; all numbers it gets are between 0 and 1. Losses outside of [0, 1] are refused.",
     ["histories", "inputs", "schedules"], "for all spaces, step sizes, losses, failures, completion orders, numbers of workers and preferences of the model",
     "There are no tests of ifBO, its model has to be downloaded.",
     ["neps/optimizers/multi_fidelity/ifbo.py", "neps/optimizers/bayesian_optimization/models/ftpfn.py", "neps/optimizers/initial_design.py", "neps/sampling"],
     [("steps", "neps/optimizers/multi_fidelity/ifbo.py _adjust_pipeline_space_to_match_stepsize / IFBO.ask"), ("what the model is told", "neps/optimizers/bayesian_optimization/models/ftpfn.py encode_ftpfn"), ("choice", "neps/optimizers/bayesian_optimization/models/ftpfn.py acquire_next_from_ftpfn"), ("model", "neps/optimizers/bayesian_optimization/models/ftpfn.py FTPFNSurrogate")],
     "TLC model checking of FreezeThaw.tla (safety, and that a model which prefers to continue reaches the highest fidelity); histories of the real searcher, whose downloaded network is replaced by one with known preferences, are judged by TLC: every answer and everything the model was told",
     "600 (thorough 6000) histories of up to 22 answers, and 16 (120) runs of the whole program. The network itself (package ifbo) is not judged.")
prop("P27", "Configurations and search spaces change only as asked, and alone",
     "A search space and the configurations made from it (by sampling, with or without priors, copying, loading from a dictionary, mutation, crossover, the default configuration) assign to every parameter a legal value or none, a legal default or none, and a confidence; their definition (type, bounds, scale, fidelity, choices) is the same for all. A new object has exactly the values, defaults and confidences its operation names: a copy and a loaded one those of the original or the dictionary, a mutant the parent's but for one value, children values of or between their parents. "
     "An operation changes the one object it is called on, as documented (values, defaults, confidences, deletions, constants; the highest fidelity; values become defaults), or none; an illegal value is refused and never kept. Equality and what is written say the same as the values. No object ever changes through another one.",
     ["histories", "inputs"], "for all spaces of floats, integers, categoricals and constants, and all sequences of operations on any number of objects",
     "Tests call single operations on fresh objects; sharing between copies, state that a copy loses or a refused value leaves shows only in sequences.",
     ["neps/search_spaces/search_space.py", "neps/search_spaces/parameter.py", "neps/search_spaces/hyperparameters/numerical.py", "neps/search_spaces/hyperparameters/float.py", "neps/search_spaces/hyperparameters/integer.py", "neps/search_spaces/hyperparameters/categorical.py", "neps/search_spaces/hyperparameters/constant.py"],
     [("configurations", "neps/search_spaces/search_space.py SearchSpace"), ("parameters", "neps/search_spaces/parameter.py and hyperparameters/")],
     "TLC model checking of Configs.tla (a heap of objects: legality, isolation, no lost beliefs); histories of random operations on real objects, all of which are looked at after every operation, are judged by TLC step by step against the same actions",
     "1200 (thorough 12000) histories of up to 60 operations on up to 10 objects of spaces with 1-5 parameters. What is sampled is judged for legality only (P17 judges the distribution). Architecture parameters are not covered.")
prop("P28", "Declared defaults and confidences steer what is sampled, as declared",
     "A default makes its value the most likely one: with the distance on the parameter's scale values become less likely, the same in both directions, and all other choices of a categorical equally less likely; more confidence (low, medium, high) means narrower; without a default all values are equally likely. What is drawn follows these densities, they sum to 1, and those of a configuration are the product of its parameters', whatever their order. Searchers that use priors (random search with priors, PiBO's initial design, successive halving, ASHA and Hyperband with priors, PriorBand) sample accordingly, for every kind of parameter, "
     "and with the confidence given to them if they take one; others sample uniformly; the default is tried first where that is asked for. PriorBand mixes uniform samples, samples of the prior and changes of the incumbent in the documented shares: uniform ones less at higher rungs, the incumbent only once the resources of one bracket are spent and a configuration has reached the highest fidelity, and the incumbent is the best one then.",
     ["inputs", "histories"], "for all parameters, defaults, confidences, searchers that sample, and (PriorBand) histories of evaluations",
     "Tests compare single densities of one column; that draws, densities, confidences and searchers agree for all parameters needs all of them, and PriorBand's shares depend on the history.",
     ["neps/sampling", "neps/search_spaces/hyperparameters", "neps/search_spaces/search_space.py", "neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/sampling_policy.py", "neps/optimizers/multi_fidelity_prior", "neps/optimizers/random_search/optimizer.py", "neps/optimizers/initial_design.py"],
     [("priors", "neps/sampling/priors.py"), ("parameters", "neps/search_spaces/hyperparameters/numerical.py, categorical.py compute_prior / sample_value"), ("confidence", "neps/optimizers/multi_fidelity/successive_halving.py _enhance_priors"), ("mixture", "neps/optimizers/multi_fidelity_prior/priorband.py PriorBandBase"), ("policies", "neps/optimizers/multi_fidelity/sampling_policy.py")],
     "TLC model checking of Prior.tla (the mixture along all histories of asynchronous evaluations, and that the descriptions accept what they describe and nothing else), which also writes the parameters, configurations and PriorBand settings to try; densities, draws and searchers of the real code are recorded and judged by TLC",
     "All shapes of parameters x confidences, 2000 draws each (six standard deviations are allowed); 14 searchers, 900-2000 samples; 120 (thorough all) configurations; 48 (thorough all 648) PriorBand settings, 36 (60) answers each. The split between prior and incumbent by scores (style dynamic) is judged for its sum only.")
prop("P29", "Searchers with a model learn from all evaluations, and minimise",
     "Bayesian optimization (also piBO and cost-aware) gives each point of its initial design out once, samples at random while no finished evaluation has a finite loss, and otherwise asks a model. The model is told each finished evaluation exactly once, with its configuration and its loss, a failure (crash, infinite or missing number) as a loss in the middle of those seen, and running evaluations as pending; the cost model each finished evaluation with a reported cost. "
     "MOBSTER and PriorBand with a model are told what finished with a finite loss (of the highest rung with enough of them, or of all rungs) and what is pending there, and use the model once there is enough. What is maximised is the plain acquisition plus the logarithm of the prior times an exponent (piBO: 1 at first, falling to 0 with the samples, slower with more parameters; PriorBand: ten divided by the full evaluations' worth spent) less the share of the cost budget that is left times the logarithm of the expected cost. Losses are minimised: most proposals are better than the middle of what was tried before. It never fails, whatever the costs.",
     ["inputs", "histories"], "for all histories of finished, failed and running evaluations, spaces, priors and costs",
     "Tests ask a few times and look at the type of the answer; a model that misses, doubles or mixes up evaluations, or maximises, still answers.",
     ["neps/optimizers/bayesian_optimization", "neps/optimizers/multi_fidelity/mf_bo.py", "neps/optimizers/multi_fidelity/sampling_policy.py", "neps/optimizers/multi_fidelity/hyperband.py", "neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity_prior", "neps/optimizers/initial_design.py"],
     [("BO", "neps/optimizers/bayesian_optimization/optimizer.py BayesianOptimization.ask"), ("data", "neps/optimizers/bayesian_optimization/models/gp.py encode_trials_for_gp / fit_and_acquire_from_gp"), ("weights", "neps/optimizers/bayesian_optimization/acquisition_functions"), ("rungs", "neps/optimizers/multi_fidelity/mf_bo.py MFBOBase"), ("policy", "neps/optimizers/multi_fidelity/sampling_policy.py ModelPolicy")],
     "TLC model checking of Surrogate.tla (all histories of up to 4, thorough 5, evaluations on three rungs: phases, what is told, that descriptions accept the ideal and reject every single deviation), which also writes the histories and settings to try; what reaches the models of the real searchers is recorded at the library's boundary and judged by TLC",
     "All 243 fates of five evaluations x a random setting (thorough: x all 16), 4 searchers with several fidelities along 40 asynchronous steps, weights at 6-12 points, direction on three kinds of spaces. What the Gaussian process itself computes is botorch's matter.")
prop("P30", "Plots and TensorBoard show what happened in a run, for all kinds of runs",
     "neps.plot (function and command) shows for each benchmark and algorithm one curve: at every place of its axis, the mean over the seeds of the least loss found until there; evaluations that crashed or whose loss is no number never count as better (on an axis of evaluations and of time they count as evaluations). The axis is the number of evaluations in the order in which they were started, the sum of the metric asked for (with consider_continuations: of what a continuation adds to it), or, with several workers and continuations considered, the time since the start. "
     "Seeds may differ in length; nothing is shown before it was found. neps results --plot marks exactly the successful configurations that were better than all sampled before, at their number. What an evaluation logs with tblogger appears exactly once, with its step and value, in the tbevents of the first configuration of its lineage and under its name (config_<id>/Loss), also in several runs in one process, after interrupted evaluations, and with logging switched off and on; "
     "the incumbent graph has one point for each finished evaluation that asked for it, in its own run's directory: the number of evaluations recorded before, and the best loss of these.",
     ["histories", "inputs"], "for all runs with any number of successful, failed, continued and unfinished evaluations, any number of seeds, and all sequences of runs, evaluations and logs in a process",
     "There are no tests of plots and logs; a curve that is slightly wrong still looks like a curve.",
     ["neps/plot", "neps/utils/cli.py", "neps/utils/common.py", "neps/runtime.py"],
     [("runs", "neps/plot/read_results.py process_seed"), ("curves", "neps/plot/plotting.py _plot_incumbent / _interpolate_time"), ("command", "neps/plot/__main__.py, neps/plot/plot.py"), ("incumbents", "neps/utils/cli.py plot_incumbents"), ("logger", "neps/plot/tensorboard_eval.py tblogger")],
     "TLC model checking of Curve.tla (curves of all short runs on four axes; a logging process on two runs, with three faulty variants that must be refuted), which also writes the histories and evaluations to try; saved figures and event files of the real code are judged by TLC",
     "120 (thorough: all 625 x 4 axes) run histories of 4-12 evaluations, 1-3 seeds, 1-3 benchmarks, 1-2 algorithms; 60 (400) logging sessions of up to 3 runs. Images and the parallel-coordinate view (hparams) are not judged beyond their scalar values; neps.plot.plot3D is not specified.")
# --- more properties are appended above this line ---


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    (V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in PROPS))
    (V / "MANIFEST.json").write_text(json.dumps({
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": {"guard": "none", "enable": "No hooks in /repo: the checks preload a library that stops worker processes at file-system operations.", "source_commits": []},
        "checks": CHECKS, "not_applicable": NA,
        "notes": "All checks: check.py <id>, specifications in spec/, harness in harness/, see DESIGN.md.",
    }, indent=1) + "\n")


if __name__ == "__main__":
    main()
