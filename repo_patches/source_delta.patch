From fa68ff7ca911173643e4ee66b8460f174289cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 01/81] fix: worker died with UnboundLocalError when it lost
 its first claim race

n_failed_set_trial_state was only initialised by a successful claim, so a worker
whose very first attempt to set a trial to evaluating was rejected (another
worker was faster) crashed instead of retrying.
---
 neps/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 71b72f8..0a09586 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -379,6 +379,7 @@ class DefaultWorker(Generic[Loc]):
         _error_from_evaluation: Exception | None = None
 
         _repeated_fail_get_next_trial_count = 0
+        n_failed_set_trial_state = 0
         while True:
             # NOTE: We rely on this function to do logging and raising errors if it should
             should_stop = self._check_if_should_stop(
-- 
2.43.0


From 72b0151d619c4828bf9fc02f847ddd79edcb8482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 02/81] fix: a trial claimed by another worker could be handed
 out and evaluated again

get_next_pending_trial() lists pending trials and then re-syncs the chosen one. If
another worker claimed (or even finished) it in between, the re-sync also picked up
the new version, so the subsequent put was accepted and the trial was evaluated
twice, overwriting the other worker's claim or result.
---
 neps/state/neps_state.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/state/neps_state.py b/neps/state/neps_state.py
index 1ed3f67..384195b 100644
--- a/neps/state/neps_state.py
+++ b/neps/state/neps_state.py
@@ -207,8 +207,12 @@ class NePSState(Generic[Loc]):
         Returns:
             The next trial or a list of trials if `n` is not `None`.
         """
+        # NOTE: Another worker might have claimed a trial between listing the pending
+        # trials and syncing this one, in which case it is no longer ours to take.
         _pending_itr = (
-            shared_trial.synced() for _, shared_trial in self._trials.pending()
+            trial
+            for _, shared_trial in self._trials.pending()
+            if (trial := shared_trial.synced()).state == Trial.State.PENDING
         )
         if n is not None:
             return take(n, _pending_itr)
-- 
2.43.0


From 1ae211a49f020d8266c04dd99ac45a68dc973dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 03/81] fix: half-created trials made other workers (and
 resumed runs) fail

A trial's directory and version exist before its data is written. A worker listing
trials in that window, or any later run after a crash in that window, failed to load
the trial and bailed out. Only treat a trial as existing once it has a version, and
create the version of a new resource after its data.
---
 neps/state/filebased.py | 7 +++++--
 neps/state/protocols.py | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index cf53c62..3e404d5 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -96,7 +96,10 @@ class TrialRepoInDirectory(TrialRepo[Path]):
         return {
             config_path.name.replace("config_", "")
             for config_path in self.directory.iterdir()
-            if config_path.name.startswith("config_") and config_path.is_dir()
+            if config_path.name.startswith("config_")
+            # NOTE: The directory of a trial comes into existence (to hold its lock)
+            # before the trial does, it only exists once it has a version.
+            and (config_path / ".version").exists()
         }
 
     @override
@@ -168,7 +171,7 @@ class TrialRepoInDirectory(TrialRepo[Path]):
                 repository.
         """
         config_path = self.directory.absolute().resolve() / f"config_{trial.metadata.id}"
-        if config_path.exists():
+        if (config_path / ".version").exists():
             raise TrialRepo.TrialAlreadyExistsError(
                 f"Trial '{trial.metadata.id}' already exists as '{config_path}'."
             )
diff --git a/neps/state/protocols.py b/neps/state/protocols.py
index 51bff7d..f1e8503 100644
--- a/neps/state/protocols.py
+++ b/neps/state/protocols.py
@@ -198,8 +198,10 @@ class VersionedResource(Generic[T, K]):
                 f" with version '{current_version}'"
             )
 
-        version = versioner.bump()
+        # NOTE: The version is what makes the resource exist for others, so only create
+        # it once the data is there.
         reader_writer.write(data, location)
+        version = versioner.bump()
         return VersionedResource(
             _current=data,
             _location=location,
-- 
2.43.0


From 42fabc5566820ce23b5b12395f90572a37094286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 04/81] fix: a crash while updating the run directory could
 corrupt it or lose results

Files were truncated and rewritten in place, so a worker that was killed (or an
evaluation result that could not be serialized) left torn files behind which made
every other and later worker fail; a trial could also be marked as finished without
its result, or be updated without others noticing. Replace files as a whole, write
the report of a trial before marking it finished and bump the version first.
---
 neps/state/filebased.py | 32 ++++++++++++++++++++------------
 neps/state/protocols.py |  5 ++++-
 neps/utils/files.py     | 26 ++++++++++++++++++++++----
 3 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 3e404d5..a75c8c2 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -52,7 +52,7 @@ from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
 from neps.state.protocols import Locker, ReaderWriter, Synced, TrialRepo, Versioner
 from neps.state.seed_snapshot import SeedSnapshot
 from neps.state.trial import Trial
-from neps.utils.files import deserialize, serialize
+from neps.utils.files import atomic_write, deserialize, serialize
 
 logger = logging.getLogger(__name__)
 K = TypeVar("K")
@@ -247,17 +247,21 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
         metadata_path = directory / cls.METADATA_FILENAME
         state_path = directory / cls.STATE_FILENAME
 
+        # NOTE: The report goes first, such that a result is never lost if we get
+        # interrupted after the trial was marked as finished.
+        if trial.report is not None:
+            report_path = directory / cls.REPORT_FILENAME
+            serialize(asdict(trial.report), report_path)
+
         serialize(trial.config, config_path)
         serialize(asdict(trial.metadata), metadata_path)
-        state_path.write_text(trial.state.value, encoding="utf-8")
+        with atomic_write(state_path) as f:
+            f.write(trial.state.value)
 
         if trial.metadata.previous_trial_id is not None:
             previous_trial_path = directory / cls.PREVIOUS_TRIAL_ID_FILENAME
-            previous_trial_path.write_text(trial.metadata.previous_trial_id)
-
-        if trial.report is not None:
-            report_path = directory / cls.REPORT_FILENAME
-            serialize(asdict(trial.report), report_path)
+            with atomic_write(previous_trial_path) as f:
+                f.write(trial.metadata.previous_trial_id)
 
 
 @dataclass
@@ -332,7 +336,8 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
 
         py_rng_version, py_rng_state, py_guass_next = snapshot.py_rng
 
-        np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(py_rng_path)
+        with atomic_write(py_rng_path, "wb") as f:
+            np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(f)
 
         seed_info = {
             "np_rng_kind": snapshot.np_rng[0],
@@ -344,17 +349,20 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
         }
         serialize(seed_info, seedinfo_path)
         np_rng_state = snapshot.np_rng[1]
-        np_rng_state.tofile(np_rng_path)
+        with atomic_write(np_rng_path, "wb") as f:
+            np_rng_state.tofile(f)
 
         if snapshot.torch_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_rng, torch_rng_path)
+            with atomic_write(torch_rng_path, "wb") as f:
+                torch.save(snapshot.torch_rng, f)
 
         if snapshot.torch_cuda_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_cuda_rng, torch_cuda_rng_path)
+            with atomic_write(torch_cuda_rng_path, "wb") as f:
+                torch.save(snapshot.torch_cuda_rng, f)
 
 
 @dataclass
@@ -422,7 +430,7 @@ class ReaderWriterErrDump(ReaderWriter[ErrDump, Path]):
     @override
     def write(self, err_dump: ErrDump, directory: Path) -> None:
         errors_path = directory / f"{self.name}-errors.jsonl"
-        with errors_path.open("w") as f:
+        with atomic_write(errors_path) as f:
             lines = [json.dumps(asdict(trial_err)) for trial_err in err_dump.errs]
             f.write("\n".join(lines))
 
diff --git a/neps/state/protocols.py b/neps/state/protocols.py
index f1e8503..4ce1ab0 100644
--- a/neps/state/protocols.py
+++ b/neps/state/protocols.py
@@ -289,9 +289,12 @@ class VersionedResource(Generic[T, K]):
                 " utilized when getting this resource before putting it back."
             )
 
+        # NOTE: Bump before writing, such that if we get interrupted while writing, others
+        # still notice that the data they hold might be outdated.
+        version = self._versioner.bump()
         self._reader_writer.write(data, self._location)
         self._current = data
-        self._version = self._versioner.bump()
+        self._version = version
 
     def current(self) -> T:
         """Get the current data of the resource."""
diff --git a/neps/utils/files.py b/neps/utils/files.py
index 95eb4ee..2e95863 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -3,10 +3,12 @@
 from __future__ import annotations
 
 import dataclasses
-from collections.abc import Iterable, Mapping
+import os
+from collections.abc import Iterable, Iterator, Mapping
+from contextlib import contextmanager
 from enum import Enum
 from pathlib import Path
-from typing import Any
+from typing import IO, Any
 
 import yaml
 
@@ -41,11 +43,27 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     return data
 
 
+@contextmanager
+def atomic_write(path: Path | str, mode: str = "w") -> Iterator[IO]:
+    """Open a file for writing such that `path` is only ever replaced as a whole.
+
+    If writing is interrupted, the previous contents of `path` remain intact.
+    """
+    path = Path(path)
+    tmp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    try:
+        with tmp_path.open(mode) as file_stream:
+            yield file_stream
+        tmp_path.replace(path)
+    except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
+
+
 def serialize(data: Any, path: Path | str, *, sort_keys: bool = True) -> None:
     """Serialize data to a yaml file."""
     data = serializable_format(data)
-    path = Path(path)
-    with path.open("w") as file_stream:
+    with atomic_write(path) as file_stream:
         try:
             return yaml.safe_dump(data, file_stream, sort_keys=sort_keys)
         except yaml.representer.RepresenterError as e:
-- 
2.43.0


From 5d62ffdf057bcda89cf9f958f1d92ee6c27247cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 05/81] fix: starting workers concurrently (or in an existing
 empty directory) failed

Whether the run is new was decided by the existence of its directory, so a worker
that started while another one was still setting up the directory, a run resumed
after a crash during set-up, or a run in a pre-existing empty directory failed to
read the optimizer info. Create or load the info under its lock and compare
afterwards.
---
 neps/state/filebased.py | 50 +++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index a75c8c2..c75d310 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -582,10 +582,7 @@ def create_or_load_filebased_neps_state(
     !!! warning
 
         We check that the optimizer info in the NePSState on disk matches
-        the one that is passed. However we do not lock this check so it
-        is possible that if two processes try to create a NePSState at the
-        same time, both with different optimizer infos, that one will fail
-        to create the NePSState. This is a limitation of the current design.
+        the one that is passed.
 
         In principal, we could allow multiple optimizers to be run and share
         the same set of trials.
@@ -601,7 +598,6 @@ def create_or_load_filebased_neps_state(
     Raises:
         NePSError: If the optimizer info on disk does not match the one provided.
     """
-    is_new = not directory.exists()
     directory.mkdir(parents=True, exist_ok=True)
     config_dir = directory / "configs"
     config_dir.mkdir(parents=True, exist_ok=True)
@@ -617,35 +613,29 @@ def create_or_load_filebased_neps_state(
     # We have to do one bit of sanity checking to ensure that the optimzier
     # info on disk manages the one we have recieved, otherwise we are unsure which
     # optimizer is being used.
-    # NOTE: We assume that we do not have to worry about a race condition
-    # here where we have two different NePSState objects with two different optimizer
-    # infos trying to be created at the same time. This avoids the need to lock to
-    # check the optimizer info. If this assumption changes, then we would have
-    # to first lock before we do this check
-    optimizer_info_reader_writer = ReaderWriterOptimizerInfo()
-    if not is_new:
-        existing_info = optimizer_info_reader_writer.read(optimizer_info_dir)
-        if existing_info != optimizer_info:
-            raise NePSError(
-                "The optimizer info on disk does not match the one provided."
-                f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-                f"\n\nLoaded the one on disk from {optimizer_info_dir}."
-            )
+    synced_optimizer_info = Synced.new_or_load(
+        data=optimizer_info,
+        location=optimizer_info_dir,
+        versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
+        locker=FileLocker(
+            lock_path=optimizer_info_dir / ".lock",
+            poll=OPTIMIZER_INFO_FILELOCK_POLL,
+            timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
+        ),
+        reader_writer=ReaderWriterOptimizerInfo(),
+    )
+    existing_info = synced_optimizer_info.synced()
+    if existing_info != optimizer_info:
+        raise NePSError(
+            "The optimizer info on disk does not match the one provided."
+            f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
+            f"\n\nLoaded the one on disk from {optimizer_info_dir}."
+        )
 
     return NePSState(
         location=str(directory.absolute().resolve()),
         _trials=TrialRepoInDirectory(config_dir),
-        _optimizer_info=Synced.new_or_load(
-            data=optimizer_info,  # type: ignore
-            location=optimizer_info_dir,
-            versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
-            locker=FileLocker(
-                lock_path=optimizer_info_dir / ".lock",
-                poll=OPTIMIZER_INFO_FILELOCK_POLL,
-                timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
-            ),
-            reader_writer=ReaderWriterOptimizerInfo(),
-        ),
+        _optimizer_info=synced_optimizer_info,  # type: ignore
         _seed_state=Synced.new_or_load(
             data=SeedSnapshot.new_capture(),
             location=seed_dir,
-- 
2.43.0


From ce354af799ea0c8ea888a1959711fc594feec0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 06/81] fix: an interrupted evaluation made every later run in
 the process fail

The marker of the trial in progress was not cleared if the evaluation was left by an
exception (e.g. KeyboardInterrupt), so the next neps.run() in the same process
refused to evaluate anything.
---
 neps/runtime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/runtime.py b/neps/runtime.py
index 0a09586..8ceed41 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -110,10 +110,12 @@ def _set_global_trial(trial: Trial) -> Iterator[None]:
             "\n\nThis is most likely a bug and should be reported to NePS!"
         )
     _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = trial
-    yield
-    for _key, callback in _TRIAL_END_CALLBACKS.items():
-        callback(trial)
-    _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
+    try:
+        yield
+        for _key, callback in _TRIAL_END_CALLBACKS.items():
+            callback(trial)
+    finally:
+        _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
 
 
 # NOTE: This class is quite stateful and has been split up quite a bit to make testing
-- 
2.43.0


From c7edabbc82534bd84a01a4e33bf3affc59758038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:22 +0000
Subject: [PATCH 07/81] fix: an invalid evaluation result ended the worker
 without reporting the trial

A result that cannot be interpreted (no 'loss', not a number, ...) raised out of
neps.run(), regardless of the error settings, and left the trial in progress forever.
Treat it like any other error in the evaluation.
---
 neps/state/_eval.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index f3153a6..093e82c 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -92,6 +92,11 @@ def _eval_trial(
     start = time.monotonic()
     try:
         user_result = fn(**kwargs, **trial.config)
+        loss, cost, learning_curve, extra = parse_user_result(
+            dict(user_result) if isinstance(user_result, Mapping) else user_result,
+            default_cost_value=default_report_values.cost_if_not_provided,
+            default_learning_curve=default_report_values.learning_curve_if_not_provided,
+        )
     # Something went wrong in evaluation
     except Exception as e:
         duration = time.monotonic() - start
@@ -114,11 +119,6 @@ def _eval_trial(
         time_end = time.time()
         logger.info(f"Successful evaluation of '{trial.id}': {user_result}.")
 
-        loss, cost, learning_curve, extra = parse_user_result(
-            dict(user_result) if isinstance(user_result, Mapping) else user_result,
-            default_cost_value=default_report_values.cost_if_not_provided,
-            default_learning_curve=default_report_values.learning_curve_if_not_provided,
-        )
         report = trial.set_complete(
             report_as="success",
             loss=loss,
-- 
2.43.0


From d711a68a811c68e3015863e8e25c20da3d7e9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 08/81] fix: status never reported any pending or in progress
 configurations

The class attribute trial.State was compared instead of the state of the trial.
---
 neps/status/status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 660c53f..aa8f590 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -58,12 +58,12 @@ def get_summary_dict(
     in_progress = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.EVALUATING
+        if trial.report is None and trial.state == Trial.State.EVALUATING
     }
     pending = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.PENDING
+        if trial.report is None and trial.state == Trial.State.PENDING
     }
 
     summary: dict[str, Any] = {}
-- 
2.43.0


From c8d1aa22dfc97bfb27c486dc8ed0547e215ffbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 09/81] fix: writing the summary csv failed if no evaluation
 was successful

Sorting by the non-existent column 'result.loss' raised at the end of neps.run().
---
 neps/status/status.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neps/status/status.py b/neps/status/status.py
index aa8f590..3b0b00f 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -256,6 +256,10 @@ def _get_dataframes_from_summary(
         axis=1,
     )
 
+    if "result.loss" not in df_previous.columns:
+        # There is no successful evaluation (yet)
+        df_previous["result.loss"] = None
+
     # Concatenate the two DataFrames
     df_config_data = pd.concat([df_previous, df_pending], join="outer", ignore_index=True)
 
-- 
2.43.0


From 6bb70ff7b80c700f297c628d7c3606af20183ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 10/81] fix: a worker could overwrite the summary csv with
 outdated data

The data was collected before acquiring the lock of the csv files, so a worker that
collected early but wrote late could replace the summary of a finished run by one
which misses results.
---
 neps/status/status.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 3b0b00f..082444b 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -287,8 +287,7 @@ def _save_data_to_csv(
     config_data_file_path: Path,
     run_data_file_path: Path,
     locker: Locker,
-    config_data_df: pd.DataFrame,
-    run_data_df: pd.DataFrame,
+    root_directory: str | Path,
 ) -> None:
     """Save data as a CSV while acquiring a lock for data integrity.
 
@@ -300,10 +299,17 @@ def _save_data_to_csv(
         config_data_file_path: The path to the CSV file for configuration data.
         run_data_file_path: The path to the CSV file for additional run data.
         locker: An object for acquiring and releasing a lock to ensure data integrity.
-        config_data_df: The DataFrame containing configuration data.
-        run_data_df: The DataFrame containing additional run data.
+        root_directory: The root directory of the NePS run.
     """
     with locker(poll=2):
+        # NOTE: The data has to be collected while holding the lock, otherwise we might
+        # overwrite what another worker wrote with outdated data.
+        config_data_df, run_data_df = _get_dataframes_from_summary(
+            root_directory,
+            include_metadatas=True,
+            include_results=True,
+            include_configs=True,
+        )
         try:
             pending_configs = run_data_df.loc["num_pending_configs", "value"]
             pending_configs_with_worker = run_data_df.loc[
@@ -364,18 +370,10 @@ def post_run_csv(root_directory: str | Path) -> tuple[Path, Path]:
     csv_config_data = Path(csv_config_data).absolute().resolve()
     csv_rundata = Path(csv_rundata).absolute().resolve()
 
-    df_config_data, df_run_data = _get_dataframes_from_summary(
-        root_directory,
-        include_metadatas=True,
-        include_results=True,
-        include_configs=True,
-    )
-
     _save_data_to_csv(
         csv_config_data,
         csv_rundata,
         csv_locker,
-        df_config_data,
-        df_run_data,
+        root_directory,
     )
     return csv_config_data, csv_rundata
-- 
2.43.0


From a04c5092533f3c4fefb5593bec98514530fea854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 11/81] fix: multi-fidelity searchers could not handle failed
 evaluations

With ignore_errors=True, the marker of a failed evaluation ended up among the
performances to be sorted (TypeError), which ended the worker. Evaluations with a nan
loss were treated as if they were pending, blocking their bracket forever. Rank both
last and do not use them to fit models.
---
 neps/optimizers/multi_fidelity/successive_halving.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index c8c40cf..67b5008 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -226,6 +226,11 @@ class SuccessiveHalvingBase(BaseOptimizer):
         for config_id, config_val in previous_results.items():
             _config, _rung = self._get_config_id_split(config_id)
             perf = self.get_loss(config_val.result)
+            # NOTE: A failed evaluation is finished, i.e. not pending, but must never be
+            # preferred over a successful one nor be used to fit a model.
+            failed = isinstance(perf, str) or np.isnan(perf)
+            if failed:
+                perf = np.inf
             if int(_config) in self.observed_configs.index:
                 # config already recorded in dataframe
                 rung_recorded = self.observed_configs.at[int(_config), "rung"]
@@ -249,8 +254,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
             # for efficiency, redefining the function to have the
             # `rung_histories` assignment inside the for loop
             # rung histories are collected only for `previous` and not `pending` configs
-            self.rung_histories[int(_rung)]["config"].append(int(_config))
-            self.rung_histories[int(_rung)]["perf"].append(perf)
+            if not failed:
+                self.rung_histories[int(_rung)]["config"].append(int(_config))
+                self.rung_histories[int(_rung)]["perf"].append(perf)
 
     def _handle_pending_evaluations(
         self, pending_evaluations: dict[str, SearchSpace]
-- 
2.43.0


From e388a1c4a3e070e366da37f1c0874dc9e27e5f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 12/81] fix: bayesian optimization failed if there was no
 result to fit a model on

If all of the initial design was still being evaluated by other workers, or all
evaluations failed so far, the GP was fitted on no data (or nans) and the worker
died. Sample at random in this case.
---
 neps/optimizers/bayesian_optimization/optimizer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 3531217..0699c0f 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -165,6 +165,17 @@ class BayesianOptimization(BaseOptimizer):
         if n_sampled < len(self.init_design):
             return SampledConfig(id=config_id, config=self.init_design[n_sampled])
 
+        # If there is nothing to fit a GP on, i.e. all evaluations are still pending or
+        # have failed, the best we can do is to keep sampling at random.
+        if all(
+            trial.report is None
+            or trial.report.loss is None
+            or math.isnan(trial.report.loss)
+            for trial in trials.values()
+        ):
+            sampled = space.sample(patience=self.patience, user_priors=self.use_priors)
+            return SampledConfig(id=config_id, config=sampled.hp_values())
+
         # Otherwise, we encode trials and setup to fit and acquire from a GP
         data, encoder = encode_trials_for_gp(
             trials, space, device=self.device, encoder=self.encoder
-- 
2.43.0


From 41a97778b3f4dfbec49bed14aeb68a55be363d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:27 +0000
Subject: [PATCH 13/81] fix: on-error values did not suppress errors as
 documented

loss_value_on_error and cost_value_on_error are documented to suppress any error, but
the run was still stopped unless ignore_errors=True was also given.
---
 neps/runtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 8ceed41..f2aab3a 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -536,6 +536,8 @@ def _launch_runtime(  # noqa: PLR0913
         on_error=(
             OnErrorPossibilities.IGNORE
             if ignore_errors
+            # Documented to be equivalent, there is a full result to use instead
+            or (loss_value_on_error is not None and cost_value_on_error is not None)
             else OnErrorPossibilities.RAISE_ANY_ERROR
         ),
         default_report_values=DefaultReportValues(
-- 
2.43.0


From e04257313c543793c0e002269721d863e566162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:27 +0000
Subject: [PATCH 14/81] fix: random search evaluated multi-fidelity spaces with
 a fidelity of None

With ignore_fidelity=True (the default), the max fidelity is documented to be used,
but the fidelity was never set.
---
 neps/optimizers/random_search/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/random_search/optimizer.py b/neps/optimizers/random_search/optimizer.py
index 131ca6e..f75412b 100644
--- a/neps/optimizers/random_search/optimizer.py
+++ b/neps/optimizers/random_search/optimizer.py
@@ -56,6 +56,9 @@ class RandomSearch(BaseOptimizer):
             user_priors=self.use_priors,
             ignore_fidelity=self.ignore_fidelity,
         )
+        if self.ignore_fidelity and config.fidelity is not None:
+            config.fidelity.set_value(config.fidelity.upper)
+
         config_id = str(n_trials + 1)
         return SampledConfig(
             config=config.hp_values(), id=config_id, previous_config_id=None
-- 
2.43.0


From cf695df314c4b6fe078a6bc31b7c22c224c95e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 15/81] fix: the grid of a search space contained duplicate and
 unclipped values

The clipped values without duplicates were computed but then dropped.
---
 neps/search_spaces/search_space.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 34e885d..a5483de 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -626,8 +626,7 @@ class SearchSpace(Mapping[str, Any]):
                 _grid = (
                     _grid.astype(np.int64) if isinstance(hp, IntegerParameter) else _grid
                 )
-                _grid = np.unique(grid).tolist()
-                param_ranges.append(grid)
+                param_ranges.append(np.unique(_grid).tolist())
                 continue
 
             raise NotImplementedError(f"Unknown Parameter type: {type(hp)}\n{hp}")
-- 
2.43.0


From 6c90eb220ebac1fdbb02d80e9c2c919d754aa135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 16/81] fix: grid search without a seed repeated and missed
 points of the grid

The grid was shuffled differently for every new configuration.
---
 neps/optimizers/grid_search/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index a5cf48f..fe04fab 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -36,7 +36,8 @@ class GridSearch(BaseOptimizer):
         if _num_previous_configs > len(self.configs_list) - 1:
             raise ValueError("Grid search exhausted!")
 
-        rng = random.Random(self.seed)
+        # NOTE: The order has to be the same for every call (and every worker)
+        rng = random.Random(0 if self.seed is None else self.seed)
         configs = rng.sample(self.configs_list, len(self.configs_list))
 
         config = configs[_num_previous_configs]
-- 
2.43.0


From 00d342497a7de4aa9efa9770ea6dbd47ceec581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 17/81] fix: results containing 0-d arrays or tensors could not
 be stored

They are instances of Iterable but can not be iterated over.
---
 neps/utils/files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/utils/files.py b/neps/utils/files.py
index 2e95863..f8747bf 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -30,9 +30,6 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     if isinstance(data, Mapping):
         return {key: serializable_format(val) for key, val in data.items()}
 
-    if not isinstance(data, str) and isinstance(data, Iterable):
-        return [serializable_format(val) for val in data]
-
     if type(data).__module__ in ["numpy", "torch"]:
         data = data.tolist()  # type: ignore
         if type(data).__module__ == "numpy":
@@ -40,6 +37,9 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
 
         return serializable_format(data)
 
+    if not isinstance(data, str) and isinstance(data, Iterable):
+        return [serializable_format(val) for val in data]
+
     return data
 
 
-- 
2.43.0


From 56f0c7e3971437226ac1735c92aed0e5445d7039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:29 +0000
Subject: [PATCH 18/81] fix: model-based multi-fidelity searchers failed once
 their model was fitted

---
 neps/optimizers/multi_fidelity/mf_bo.py       |  4 +-
 .../multi_fidelity/sampling_policy.py         | 45 ++++++-------------
 2 files changed, 15 insertions(+), 34 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/mf_bo.py b/neps/optimizers/multi_fidelity/mf_bo.py
index 6686a84..c544b3b 100755
--- a/neps/optimizers/multi_fidelity/mf_bo.py
+++ b/neps/optimizers/multi_fidelity/mf_bo.py
@@ -178,8 +178,8 @@ class MFBOBase:
             elif self.modelling_type == "joint":
                 fidelity = self.rung_map[rung]
                 active_max_fidelity = None
-                # IMPORTANT step for correct 2-step acquisition
-                incumbent = min(self.rung_histories[rung]["perf"])
+                # best score at the required fidelity, `None` if there is none yet
+                incumbent = min(self.rung_histories[rung]["perf"], default=None)
             else:
                 raise ValueError("Choice of modelling_type not in 'rung', 'joint'")
             assert (
diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index 02bcb90..487ad70 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -5,7 +5,6 @@ from abc import ABC, abstractmethod
 from typing import TYPE_CHECKING, Any, Literal
 
 import numpy as np
-import pandas as pd
 import torch
 from botorch.acquisition import (
     AcquisitionFunction,
@@ -30,7 +29,6 @@ if TYPE_CHECKING:
 TOLERANCE = 1e-2  # 1%
 SAMPLE_THRESHOLD = 1000  # num samples to be rejected for increasing hypersphere radius
 DELTA_THRESHOLD = 1e-2  # 1%
-TOP_EI_SAMPLE_COUNT = 10
 
 logger = logging.getLogger(__name__)
 
@@ -358,48 +356,31 @@ class ModelPolicy(SamplingPolicy):
         Performs 2 strategies as per the arguments passed:
             * If fidelity is not None, triggers the case when the surrogate has been
               trained jointly with the fidelity dimension, i.e., all observations ever
-              recorded. In this case, the EI for random samples is evaluated at the
-              `fidelity` where the new sample will be evaluated. The top-10 are selected,
-              and the EI for them is evaluated at the target/mmax fidelity.
+              recorded. In this case, all samples have their fidelity variable set to
+              the `fidelity` where the new sample will be evaluated.
             * If active_max_fidelity is not None, triggers the case when a surrogate is
               trained per fidelity. In this case, all samples have their fidelity
               variable set to the same value. This value is same as that of the fidelity
               value of the configs in the training data.
         """
+        assert self._acq is not None, "`update_model()` must be called before sampling"
+
         # sampling random configurations
         samples = [
             self.pipeline_space.sample(user_priors=False, ignore_fidelity=True)
             for _ in range(SAMPLE_THRESHOLD)
         ]
 
-        if fidelity is not None:
-            # w/o setting this flag, the AF eval will set all fidelities to max
-            self.acquisition.optimize_on_max_fidelity = False
-            _inc_copy = self.acquisition.incumbent
-            # TODO: better design required, for example, not import torch
-            #  right now this case handles the 2-step acquisition in `sample`
-            if "incumbent" in kwargs:
-                # sets the incumbent to the best score at the required fidelity for
-                # correct computation of EI scores
-                self.acquisition.incumbent = torch.tensor(kwargs["incumbent"])
-            # updating the fidelity of the sampled configurations
-            samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
-            # computing EI at the given `fidelity`
-            eis = self.acquisition.eval(x=samples, asscalar=True)
-            # extracting the 10 highest scores
-            _ids = np.argsort(eis)[-TOP_EI_SAMPLE_COUNT:]
-            samples = pd.Series(samples).iloc[_ids].values.tolist()
-            # setting the fidelity to the maximum fidelity
-            self.acquisition.optimize_on_max_fidelity = True
-            self.acquisition.incumbent = _inc_copy
-
+        # The surrogate is trained on everything but the fidelity, which makes the EI
+        # of a sample independent of the fidelity it is set to.
         if active_max_fidelity is not None:
-            # w/o setting this flag, the AF eval will set all fidelities to max
-            self.acquisition.optimize_on_max_fidelity = False
             fidelity = active_max_fidelity
-            samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
+        if fidelity is not None:
+            samples = [update_fidelity(sample, fidelity) for sample in samples]
 
-        # computes the EI for all `samples`
-        eis = self.acquisition.eval(x=samples, asscalar=True)
+        # computes the EI for all `samples`, each one as a batch of one candidate
+        x = self._encoder.encode([sample.hp_values() for sample in samples])
+        with torch.no_grad():
+            eis = self._acq(x.unsqueeze(1))
         # extracting the highest scored sample
-        return samples[np.argmax(eis)]
+        return samples[int(torch.argmax(eis))]
-- 
2.43.0


From 612f1bfa70c7c9ddde367dd5c886352f31cae781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:29 +0000
Subject: [PATCH 19/81] fix: bayesian optimization failed with more than 20
 categorical combinations

---
 neps/optimizers/bayesian_optimization/models/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 44b6fa2..5631712 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -210,7 +210,7 @@ def optimize_acq(
     return optimize_acqf_mixed(
         acq_function=acq_fn,
         bounds=bounds,
-        num_restarts=min(num_restarts // n_combos, 2),
+        num_restarts=max(1, min(num_restarts // n_combos, 2)),
         raw_samples=n_intial_start_points,
         q=n_candidates_required,
         fixed_features_list=fixed_cats,
-- 
2.43.0


From 5849e96d97de291966beb4fed036a30d7562736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:09 +0000
Subject: [PATCH 20/81] fix: infinite losses (or only failed evaluations)
 stopped model-based searchers

---
 neps/optimizers/bayesian_optimization/models/gp.py   | 5 ++++-
 neps/optimizers/bayesian_optimization/optimizer.py   | 2 +-
 neps/optimizers/multi_fidelity/mf_bo.py              | 7 +++++--
 neps/optimizers/multi_fidelity/successive_halving.py | 5 ++---
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 5631712..98b5880 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import logging
+import math
 from collections.abc import Mapping
 from dataclasses import dataclass
 from functools import reduce
@@ -244,7 +245,9 @@ def encode_trials_for_gp(
         train_configs.append(trial.config)
 
         loss = trial.report.loss
-        train_losses.append(torch.nan if loss is None else loss)
+        # An infinite loss can not be modelled either, i.e. it is treated as a failure
+        usable = loss is not None and math.isfinite(loss)
+        train_losses.append(loss if usable else torch.nan)
 
         cost = trial.report.cost
         train_costs.append(torch.nan if cost is None else cost)
diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 0699c0f..43a117e 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -170,7 +170,7 @@ class BayesianOptimization(BaseOptimizer):
         if all(
             trial.report is None
             or trial.report.loss is None
-            or math.isnan(trial.report.loss)
+            or not math.isfinite(trial.report.loss)
             for trial in trials.values()
         ):
             sampled = space.sample(patience=self.patience, user_priors=self.use_priors)
diff --git a/neps/optimizers/multi_fidelity/mf_bo.py b/neps/optimizers/multi_fidelity/mf_bo.py
index c544b3b..9098f99 100755
--- a/neps/optimizers/multi_fidelity/mf_bo.py
+++ b/neps/optimizers/multi_fidelity/mf_bo.py
@@ -4,6 +4,8 @@ import logging
 from copy import deepcopy
 from typing import TYPE_CHECKING, Any, Literal
 
+import numpy as np
+
 
 def update_fidelity(config: SearchSpace, fidelity: int | float) -> SearchSpace:
     assert config.fidelity is not None
@@ -152,8 +154,9 @@ class MFBOBase:
             # builds a model across all fidelities with the fidelity as a dimension
             # in this case, calculate the total number of function evaluations spent
             # and in vanilla BO fashion use that to compare with the initital design size
-            valid_perf_mask = self.observed_configs["perf"].notna()
-            rungs = self.observed_configs.loc[valid_perf_mask, "rung"]
+            # NOTE: failed evaluations have an infinite loss and can't be used for a model
+            perf = self.observed_configs["perf"].astype(float)
+            rungs = self.observed_configs.loc[np.isfinite(perf), "rung"]
             total_resources = sum(self.rung_map[r] for r in rungs)
             resources = total_resources / self.max_budget
             if resources < self.init_size:
diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 67b5008..bfcef16 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -228,8 +228,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
             perf = self.get_loss(config_val.result)
             # NOTE: A failed evaluation is finished, i.e. not pending, but must never be
             # preferred over a successful one nor be used to fit a model.
-            failed = isinstance(perf, str) or np.isnan(perf)
-            if failed:
+            if isinstance(perf, str) or np.isnan(perf):
                 perf = np.inf
             if int(_config) in self.observed_configs.index:
                 # config already recorded in dataframe
@@ -254,7 +253,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
             # for efficiency, redefining the function to have the
             # `rung_histories` assignment inside the for loop
             # rung histories are collected only for `previous` and not `pending` configs
-            if not failed:
+            if np.isfinite(perf):
                 self.rung_histories[int(_rung)]["config"].append(int(_config))
                 self.rung_histories[int(_rung)]["perf"].append(perf)
 
-- 
2.43.0


From 57d5fc319d699426369bf885c6f5352497c4d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:29 +0000
Subject: [PATCH 21/81] fix: rounding errors made multi-fidelity searchers miss
 the lowest fidelity

E.g. between 1 and 216 with an eta of 6, or between 0.1 and 0.3 with an eta of 3,
where the logarithm's quotient falls slightly short of a whole number.
---
 .../multi_fidelity/successive_halving.py      | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index bfcef16..43833cd 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -123,9 +123,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
 
         # check to ensure no rung ID is negative
         # equivalent to s_max in https://arxiv.org/pdf/1603.06560.pdf
-        self.stopping_rate_limit = np.floor(
-            np.log(self.max_budget / self.min_budget) / np.log(self.eta)
-        ).astype(int)
+        self.stopping_rate_limit = self._get_stopping_rate_limit(self.min_budget)
         assert self.early_stopping_rate <= self.stopping_rate_limit
 
         # maps rungs to a fidelity value for an SH bracket with `early_stopping_rate`
@@ -172,23 +170,23 @@ class SuccessiveHalvingBase(BaseOptimizer):
             rung_trace.extend([rung] * config_map[rung])
         return rung_trace
 
+    def _get_stopping_rate_limit(self, min_budget: float) -> int:
+        # NOTE: The rounding is required as, e.g. log(216) / log(6) < 3
+        limit = np.log(self.max_budget / min_budget) / np.log(self.eta)
+        return int(np.floor(np.round(limit, 9)))
+
     def _get_rung_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to a fidelity value based on fidelity bounds, eta, s."""
         assert s <= self.stopping_rate_limit
         new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        nrungs = self._get_stopping_rate_limit(new_min_budget) + 1
         _max_budget = self.max_budget
         rung_map = {}
         for i in reversed(range(nrungs)):
             rung_map[i + s] = (
                 int(_max_budget)
                 if isinstance(self.pipeline_space.fidelity, IntegerParameter)
-                else _max_budget
+                else max(_max_budget, self.min_budget)
             )
             _max_budget /= self.eta
         return rung_map
@@ -197,12 +195,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
         """Maps rungs (0,1,...,k) to the number of configs for each fidelity."""
         assert s <= self.stopping_rate_limit
         new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        nrungs = self._get_stopping_rate_limit(new_min_budget) + 1
         s_max = self.stopping_rate_limit + 1
         _s = self.stopping_rate_limit - s
         # L2 from Alg 1 in https://arxiv.org/pdf/1603.06560.pdf
-- 
2.43.0


From c287a400519ebce89dc8e1debab7de135a8d84b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 22/81] fix: asynchronous successive halving failed with an
 early stopping rate

---
 neps/optimizers/multi_fidelity/promotion_policy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/promotion_policy.py b/neps/optimizers/multi_fidelity/promotion_policy.py
index b94cbf0..37e788f 100644
--- a/neps/optimizers/multi_fidelity/promotion_policy.py
+++ b/neps/optimizers/multi_fidelity/promotion_policy.py
@@ -98,7 +98,8 @@ class AsyncPromotionPolicy(PromotionPolicy):
     def retrieve_promotions(self) -> dict:
         """Returns the top 1/eta configurations per rung if enough configurations seen."""
         assert self.max_rung is not None
-        for rung in range(self.max_rung + 1):
+        # NOTE: the lowest rung is not 0 if there is an early stopping rate
+        for rung in sorted(self.rung_members):
             if rung == self.max_rung:
                 # cease promotions for the highest rung (configs at max budget)
                 continue
-- 
2.43.0


From 5a62395c76ad7749b91c8796443c266ab6ff9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:59 +0000
Subject: [PATCH 23/81] fix: synchronous brackets failed if a whole rung was
 pending before the first result

---
 neps/optimizers/multi_fidelity/successive_halving.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 43833cd..23753f2 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -263,9 +263,13 @@ class SuccessiveHalvingBase(BaseOptimizer):
                     columns=self.observed_configs.columns,
                     index=pd.Series(int(_config)),  # key for config_id
                 )
-                self.observed_configs = pd.concat(
-                    (self.observed_configs, _df)
-                ).sort_index()
+                # NOTE: concatenating with an empty frame would lose the dtypes
+                if self.observed_configs.empty:
+                    self.observed_configs = _df
+                else:
+                    self.observed_configs = pd.concat(
+                        (self.observed_configs, _df)
+                    ).sort_index()
             else:
                 self.observed_configs.at[int(_config), "rung"] = int(_rung)
                 self.observed_configs.at[int(_config), "perf"] = np.nan
-- 
2.43.0


From cd5322da3890ba80b80736d69be405f54dc89bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:23 +0000
Subject: [PATCH 24/81] fix: rounding errors led to proposals slightly outside
 of a float's bounds

---
 neps/search_spaces/domain.py                | 3 ++-
 neps/search_spaces/hyperparameters/float.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index d7260c0..ddca662 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -279,7 +279,8 @@ class Domain(Generic[V]):
         if self.round:
             x = torch.round(x)
 
-        return x.type(dtype)
+        # NOTE: Rounding errors may otherwise lead slightly outside of the bounds
+        return x.type(torch.float64).clip(self.lower, self.upper).type(dtype)
 
     def cast(self, x: Tensor, frm: Domain, *, dtype: torch.dtype | None = None) -> Tensor:
         """Cast a tensor of values frm the domain `frm` to this domain.
diff --git a/neps/search_spaces/hyperparameters/float.py b/neps/search_spaces/hyperparameters/float.py
index 8badc76..c032284 100644
--- a/neps/search_spaces/hyperparameters/float.py
+++ b/neps/search_spaces/hyperparameters/float.py
@@ -171,7 +171,8 @@ class FloatParameter(NumericalParameter[float]):
 
         normalized_value = normalized_value * (high - low) + low
         _value = np.exp(normalized_value) if self.log else normalized_value
-        return float(_value)
+        # NOTE: Rounding errors may otherwise lead slightly outside of the bounds
+        return float(min(self.upper, max(self.lower, _value)))
 
     @override
     def _get_non_unique_neighbors(
-- 
2.43.0


From ebfa500ab2546668b0e9fd121ed95e8b0c0cb461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:23 +0000
Subject: [PATCH 25/81] fix: density of a prior failed (or used other columns)
 if a parameter had no default

---
 neps/sampling/priors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index e4c6776..87481e7 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -326,7 +326,8 @@ class CenteredPrior(Prior):
 
         # Calculate the log probabilities of the sample domain tensors under their
         # respective distributions.
-        itr = iter(zip(self._meaningful_ixs, self._meaningful_dists, strict=False))
+        # NOTE: `translated_x` only has the columns of the meaningful distributions
+        itr = iter(enumerate(self._meaningful_dists))
         first_i, first_dist = next(itr)
         log_probs = first_dist.log_prob(translated_x[..., first_i])
 
-- 
2.43.0


From fc7cf7f454979c5067fef7c3d427d4c2e43ea2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:23 +0000
Subject: [PATCH 26/81] fix: initial design only covered one half of the first
 parameter's range

---
 neps/optimizers/initial_design.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/initial_design.py b/neps/optimizers/initial_design.py
index eb99f42..01702cf 100644
--- a/neps/optimizers/initial_design.py
+++ b/neps/optimizers/initial_design.py
@@ -122,8 +122,11 @@ def make_initial_design(  # noqa: PLR0912, C901
                 pass
 
         encoded_configs = sampler.sample(sample_size * 2, to=encoder.domains, seed=seed)
-        uniq_x = torch.unique(encoded_configs, dim=0)
-        sample_configs = encoder.decode(uniq_x[:sample_size])
+        # NOTE: Keep the order of the samples, i.e. don't use `torch.unique` which would
+        # sort them such that only one half of the first parameter's range is left.
+        rows = encoded_configs.tolist()
+        uniq_ixs = sorted({tuple(row): i for i, row in reversed([*enumerate(rows)])}.values())
+        sample_configs = encoder.decode(encoded_configs[uniq_ixs[:sample_size]])
         configs.extend([{**config, **fids} for config in sample_configs])
 
     return configs
-- 
2.43.0


From 53e1042b2284419233c423da60d033b3c5954fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 27/81] fix: priors were applied to the wrong parameters
 depending on their names

---
 neps/optimizers/bayesian_optimization/optimizer.py      | 4 +++-
 neps/optimizers/initial_design.py                       | 3 ++-
 neps/optimizers/multi_fidelity/hyperband.py             | 2 +-
 neps/optimizers/multi_fidelity/ifbo.py                  | 3 ++-
 neps/optimizers/multi_fidelity_prior/async_priorband.py | 2 +-
 neps/optimizers/multi_fidelity_prior/priorband.py       | 2 +-
 6 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 43a117e..4ae1954 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -128,7 +128,9 @@ class BayesianOptimization(BaseOptimizer):
             params, constants=pipeline_space.constants
         )
         self.prior = (
-            Prior.from_parameters(params.values()) if use_priors is True else None
+            Prior.from_parameters(params[name] for name in sorted(params))
+            if use_priors is True
+            else None
         )
         self.use_cost = use_cost
         self.use_priors = use_priors
diff --git a/neps/optimizers/initial_design.py b/neps/optimizers/initial_design.py
index 01702cf..d0246d7 100644
--- a/neps/optimizers/initial_design.py
+++ b/neps/optimizers/initial_design.py
@@ -100,7 +100,8 @@ def make_initial_design(  # noqa: PLR0912, C901
         }
         configs.append({**default, **fids})
 
-    params = {**space.numerical, **space.categoricals}
+    # NOTE: Same order as the columns of the encoder
+    params = dict(sorted({**space.numerical, **space.categoricals}.items()))
     ndims = len(params)
 
     if sample_size == "ndim":
diff --git a/neps/optimizers/multi_fidelity/hyperband.py b/neps/optimizers/multi_fidelity/hyperband.py
index 6dc4bdf..7a9bed0 100644
--- a/neps/optimizers/multi_fidelity/hyperband.py
+++ b/neps/optimizers/multi_fidelity/hyperband.py
@@ -555,7 +555,7 @@ class MOBSTER(MFBOBase, AsynchronousHyperband):
                 **self.pipeline_space.numerical,
                 **self.pipeline_space.categoricals,
             }
-            prior = Prior.from_parameters(parameters.values())
+            prior = Prior.from_parameters(parameters[name] for name in sorted(parameters))
         else:
             prior = None
 
diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index e70cf70..3821eea 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -140,7 +140,8 @@ class IFBO(BaseOptimizer):
         self._fidelity_name: str = space.fidelity_name
         self._initial_design: list[dict[str, Any]] | None = None
 
-        params = {**space.numerical, **space.categoricals}
+        # NOTE: Same order as the columns of the encoder
+        params = dict(sorted({**space.numerical, **space.categoricals}.items()))
         self._prior = Prior.from_parameters(params.values()) if use_priors else None
         self._config_encoder: ConfigEncoder = ConfigEncoder.default(
             params,
diff --git a/neps/optimizers/multi_fidelity_prior/async_priorband.py b/neps/optimizers/multi_fidelity_prior/async_priorband.py
index 827ad5f..04bcd8d 100644
--- a/neps/optimizers/multi_fidelity_prior/async_priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/async_priorband.py
@@ -121,7 +121,7 @@ class PriorBandAsha(MFBOBase, PriorBandBase, AsynchronousSuccessiveHalvingWithPr
         parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
-            prior=Prior.from_parameters(parameters.values()),
+            prior=Prior.from_parameters(parameters[name] for name in sorted(parameters)),
         )
 
     def get_config_and_ids(
diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index c41f4e4..9539938 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -386,7 +386,7 @@ class PriorBand(MFBOBase, HyperbandCustomDefault, PriorBandBase):
         parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
-            prior=Prior.from_parameters(parameters.values()),
+            prior=Prior.from_parameters(parameters[name] for name in sorted(parameters)),
         )
 
         for _, sh in self.sh_brackets.items():
-- 
2.43.0


From 000ccce30d04843240ae66ca4578caa8ad3af75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 28/81] fix: prior of a categorical favoured choices listed
 next to the default

---
 neps/search_spaces/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index d44499b..eb16aeb 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -104,7 +104,7 @@ class CategoricalParameter(
         self._default_index: int | None = (
             self.choices.index(default) if default is not None else None
         )
-        self.domain = Domain.indices(len(self.choices))
+        self.domain = Domain.indices(len(self.choices), is_categorical=True)
 
     @override
     def clone(self) -> Self:
-- 
2.43.0


From ada66cea34ff5f3faaf37a4c733adb5b2e4cbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 29/81] fix: influence of the prior on log acquisition
 functions did not decay

---
 .../bayesian_optimization/acquisition_functions/pibo.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py b/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
index 9efac5e..d0d463a 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
@@ -40,7 +40,7 @@ def apply_pibo_acquisition_weight(
     prior_exponent: float,
 ) -> Tensor:
     if acq._log:
-        weighted_log_probs = prior.log_prob(X, frm=x_domain) + prior_exponent
+        weighted_log_probs = prior.log_prob(X, frm=x_domain) * prior_exponent
         return acq_values + weighted_log_probs
 
     weighted_probs = prior.prob(X, frm=x_domain).pow(prior_exponent)
-- 
2.43.0


From f615613b7e5407cf1256cc26ff2e419374e13e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 30/81] fix: cost-aware bayesian optimization failed once an
 evaluation reported no cost

---
 neps/optimizers/bayesian_optimization/models/gp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 98b5880..8755726 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -368,7 +368,7 @@ def fit_and_acquire_from_gp(
 
         # We simply ignore missing costs when training the cost GP.
         missing_costs = torch.isnan(costs)
-        if missing_costs.any():
+        if missing_costs.all():
             raise ValueError(
                 "Must have at least some configurations reported with a cost"
                 " if using costs with a GP."
@@ -376,8 +376,8 @@ def fit_and_acquire_from_gp(
 
         if missing_costs.any():
             not_missing_mask = ~missing_costs
-            x_train_cost = costs[not_missing_mask]
-            y_train_cost = x_train[not_missing_mask]
+            x_train_cost = x_train[not_missing_mask]
+            y_train_cost = costs[not_missing_mask]
         else:
             x_train_cost = x_train
             y_train_cost = costs
-- 
2.43.0


From f6453c66934189c2b0f1095b18048311c61a04a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 31/81] fix: PriorBand failed with integers on a log scale

---
 neps/search_spaces/hyperparameters/integer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 73861ad..31facec 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -119,11 +119,13 @@ class IntegerParameter(NumericalParameter[int]):
         if default is None:
             self.default = None
             self.has_prior = False
+            self.log_default = None
             self.float_hp.set_default(None)
         else:
             _default = int(round(default))
             self.default = _default
             self.has_prior = True
+            self.log_default = float(np.log(_default)) if self.log else None
             self.float_hp.set_default(_default)
 
     @override
-- 
2.43.0


From caf78c5d770252efb796d2e7cefaf1d275157a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:28 +0000
Subject: [PATCH 32/81] fix: huge losses stopped model-based searchers

---
 neps/optimizers/bayesian_optimization/models/gp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 8755726..6bd39bb 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -78,6 +78,9 @@ def make_default_single_obj_gp(
     if y.ndim == 1:
         y = y.unsqueeze(-1)
 
+    # NOTE: The variance of values beyond this would no longer be a finite number
+    y = y.clip(-1e100, 1e100)
+
     if y_transform is None:
         y_transform = Standardize(m=1)
 
-- 
2.43.0


From ee4eee367076ca966632ef1da95fe19620f6f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:50 +0000
Subject: [PATCH 33/81] fix: get_initial_directory returned a directory of
 another run of the process

---
 neps/utils/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neps/utils/common.py b/neps/utils/common.py
index 1e73506..7808e2c 100644
--- a/neps/utils/common.py
+++ b/neps/utils/common.py
@@ -164,8 +164,9 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     else:
         trial = get_in_progress_trial()
 
-    if trial.metadata.id in _INTIAL_DIRECTORY_CACHE:
-        return _INTIAL_DIRECTORY_CACHE[trial.metadata.id]
+    # NOTE: Ids are only unique within one run, of which a process can do several
+    if trial.metadata.location in _INTIAL_DIRECTORY_CACHE:
+        return _INTIAL_DIRECTORY_CACHE[trial.metadata.location]
 
     # Recursively find the initial directory
     while (prev_trial_id := trial.metadata.previous_trial_id) is not None:
@@ -177,7 +178,7 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     assert isinstance(initial_dir, str)
     path = Path(initial_dir)
 
-    _INTIAL_DIRECTORY_CACHE[trial.metadata.id] = path
+    _INTIAL_DIRECTORY_CACHE[initial_dir] = path
     return path
 
 
-- 
2.43.0


From 1df702e1a53cdbe74ff00fa87afe9b1049b4eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:21 +0000
Subject: [PATCH 34/81] fix: changing the working directory in an evaluation
 broke runs with a relative root directory

---
 neps/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/api.py b/neps/api.py
index e69c0f4..209e6d9 100644
--- a/neps/api.py
+++ b/neps/api.py
@@ -213,6 +213,9 @@ def run(
             "skipped. Accurate continuation of runs can no longer be guaranteed!"
         )
 
+    # The evaluation function might change the working directory
+    settings.root_directory = Path(settings.root_directory).absolute()
+
     if settings.task_id is not None:
         settings.root_directory = Path(settings.root_directory) / (
             f"task_" f"{settings.task_id}"
-- 
2.43.0


From e8450c05cdc545614bfef7a4b1457d2e9392c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 35/81] fix: an incomplete or outdated summary csv made workers
 fail or was kept

---
 neps/status/status.py | 50 +++++++------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 082444b..f5c878f 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -311,48 +311,14 @@ def _save_data_to_csv(
             include_configs=True,
         )
         try:
-            pending_configs = run_data_df.loc["num_pending_configs", "value"]
-            pending_configs_with_worker = run_data_df.loc[
-                "num_pending_configs_with_worker",
-                "value",
-            ]
-            # Represents the last worker
-            if int(pending_configs) == 0 and int(pending_configs_with_worker) == 0:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-
-            if run_data_file_path.exists():
-                prev_run_data_df = pd.read_csv(run_data_file_path)
-                prev_run_data_df = prev_run_data_df.set_index("description")
-
-                num_evaluated_configs_csv = prev_run_data_df.loc[
-                    "num_evaluated_configs",
-                    "value",
-                ]
-                num_evaluated_configs_run = run_data_df.loc[
-                    run_data_df.index == "num_evaluated_configs",
-                    "value",
-                ]
-                # check if the current worker has more evaluated configs than the previous
-                if int(num_evaluated_configs_csv) < num_evaluated_configs_run.iloc[0]:
-                    config_data_df = config_data_df.sort_values(
-                        by="result.loss",
-                        ascending=True,
-                    )
-                    config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                    run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-            # Represents the first worker to be evaluated
-            else:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
+            # NOTE: What is there already is always replaced, it might be outdated or
+            # incomplete if a worker was killed.
+            config_data_df = config_data_df.sort_values(
+                by="result.loss",
+                ascending=True,
+            )
+            config_data_df.to_csv(config_data_file_path, index=False, mode="w")
+            run_data_df.to_csv(run_data_file_path, index=True, mode="w")
         except Exception as e:
             raise RuntimeError(f"Error during data saving: {e}") from e
 
-- 
2.43.0


From 3f90e06fd0bba3a0b0f1bb9672607c64f6f910ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:58 +0000
Subject: [PATCH 36/81] fix: a searcher class could not be used with a space
 from a YAML file or ConfigSpace

---
 neps/api.py | 58 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/neps/api.py b/neps/api.py
index 209e6d9..ac3e0ec 100644
--- a/neps/api.py
+++ b/neps/api.py
@@ -163,7 +163,7 @@ def run(
     # special case if you load your own optimizer via run_args
     if inspect.isclass(settings.searcher):
         if issubclass(settings.searcher, BaseOptimizer):
-            search_space = SearchSpace(**settings.pipeline_space)
+            search_space = _search_space_from_definition(settings.pipeline_space)
             # aligns with the behavior of the internal neps searcher which also overwrites
             # its arguments by using searcher_kwargs
             # TODO habe hier searcher kwargs gedroppt, sprich das merging muss davor statt
@@ -258,33 +258,15 @@ def run(
         )
 
 
-def _run_args(
-    searcher_info: dict,
+def _search_space_from_definition(
     pipeline_space: (
         dict[str, Parameter | CS.ConfigurationSpace]
         | str
         | Path
         | CS.ConfigurationSpace
         | None
-    ) = None,
-    max_cost_total: int | float | None = None,
-    ignore_errors: bool = False,
-    loss_value_on_error: None | float = None,
-    cost_value_on_error: None | float = None,
-    searcher: (
-        Literal[
-            "default",
-            "bayesian_optimization",
-            "random_search",
-            "hyperband",
-            "priorband",
-            "mobster",
-            "asha",
-        ]
-        | BaseOptimizer
-    ) = "default",
-    **searcher_kwargs,
-) -> tuple[BaseOptimizer, dict]:
+    ),
+) -> SearchSpace:
     try:
         # Raising an issue if pipeline_space is None
         if pipeline_space is None:
@@ -309,11 +291,41 @@ def _run_args(
         pipeline_space = new_pipeline_space
 
         # Transform to neps internal representation of the pipeline space
-        pipeline_space = SearchSpace(**pipeline_space)
+        return SearchSpace(**pipeline_space)
     except TypeError as e:
         message = f"The pipeline_space has invalid type: {type(pipeline_space)}"
         raise TypeError(message) from e
 
+
+def _run_args(
+    searcher_info: dict,
+    pipeline_space: (
+        dict[str, Parameter | CS.ConfigurationSpace]
+        | str
+        | Path
+        | CS.ConfigurationSpace
+        | None
+    ) = None,
+    max_cost_total: int | float | None = None,
+    ignore_errors: bool = False,
+    loss_value_on_error: None | float = None,
+    cost_value_on_error: None | float = None,
+    searcher: (
+        Literal[
+            "default",
+            "bayesian_optimization",
+            "random_search",
+            "hyperband",
+            "priorband",
+            "mobster",
+            "asha",
+        ]
+        | BaseOptimizer
+    ) = "default",
+    **searcher_kwargs,
+) -> tuple[BaseOptimizer, dict]:
+    pipeline_space = _search_space_from_definition(pipeline_space)
+
     # Load the information of the optimizer
     if (
         isinstance(searcher, (str, Path))
-- 
2.43.0


From 9c8029be2f4190923180c11afb61fe56bd85d186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:58 +0000
Subject: [PATCH 37/81] fix: arguments of a searcher in a YAML file were passed
 to the searcher replacing it

---
 neps/utils/run_args.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/utils/run_args.py b/neps/utils/run_args.py
index 9f5cc60..b0ab76a 100644
--- a/neps/utils/run_args.py
+++ b/neps/utils/run_args.py
@@ -558,8 +558,12 @@ class Settings:
         for key, value in func_args.items():
             # Handle searcher_kwargs for BaseOptimizer case
             if key == SEARCHER_KWARGS:
+                yaml_kwargs = yaml_args.pop(SEARCHER_KWARGS, {})
+                if not isinstance(func_args.get(SEARCHER, Default(None)), Default):
+                    # They belong to the searcher of the YAML, which is not used
+                    yaml_kwargs = {}
                 merged_settings[SEARCHER_KWARGS] = {
-                    **yaml_args.pop(SEARCHER_KWARGS, {}),
+                    **yaml_kwargs,
                     **func_args[SEARCHER_KWARGS],
                 }
             elif not isinstance(value, Default):
-- 
2.43.0


From e82ae81e493a0fe8a77c8808903d6037f5fb9c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 38/81] fix: neps info-config failed for configurations that
 are not finished

---
 neps/utils/cli.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index b504bf5..ca48f23 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -233,7 +233,7 @@ def info_config(args: argparse.Namespace) -> None:
         return
     try:
         trial = neps_state.get_trial_by_id(config_id)
-    except TrialNotFoundError:
+    except (TrialNotFoundError, VersionedResourceDoesNotExistsError):
         print(f"No trial found with ID {config_id}.")
         return
 
@@ -250,9 +250,17 @@ def info_config(args: argparse.Namespace) -> None:
     print(f"  Sampling Worker ID: {trial.metadata.sampling_worker_id}")
     print(f"  Time Sampled: {convert_timestamp(trial.metadata.time_sampled)}")
     print(f"  Evaluating Worker ID: {trial.metadata.evaluating_worker_id}")
-    print(f"  Evaluation Duration: {format_duration(trial.metadata.evaluation_duration)}")
-    print(f"  Time Started: {convert_timestamp(trial.metadata.time_started)}")
-    print(f"  Time End: {convert_timestamp(trial.metadata.time_end)}")
+    # NOTE: These are only known once the evaluation has started or ended
+    duration = trial.metadata.evaluation_duration
+    started, end = trial.metadata.time_started, trial.metadata.time_end
+    print(
+        "  Evaluation Duration: "
+        f"{format_duration(duration) if duration is not None else 'N/A'}"
+    )
+    print(
+        f"  Time Started: {convert_timestamp(started) if started is not None else 'N/A'}"
+    )
+    print(f"  Time End: {convert_timestamp(end) if end is not None else 'N/A'}")
 
     if trial.report is not None:
         print("\nReport:")
-- 
2.43.0


From c9057f827b62651e11c7308759a91318db5152c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 39/81] fix: neps results failed with failed evaluations and
 multi-fidelity searchers

---
 neps/utils/cli.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index ca48f23..bbbc344 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -545,14 +545,19 @@ def results(args: argparse.Namespace) -> None:
         return
 
     trials = neps_state.get_all_trials()
-    # Sort trials by trial ID
-    sorted_trials = sorted(trials.values(), key=lambda x: int(x.id))
+    # Sort trials by the order in which they were sampled
+    sorted_trials = sorted(trials.values(), key=lambda x: x.metadata.time_sampled)
 
     # Compute incumbents
     best_loss = float("inf")
     incumbents = []
     for trial in sorted_trials:
-        if trial.report and trial.report.loss < best_loss:
+        # NOTE: A failed trial has no loss of its own
+        if (
+            trial.report
+            and trial.report.reported_as == "success"
+            and trial.report.loss < best_loss
+        ):
             best_loss = trial.report.loss
             incumbents.append(trial)
 
-- 
2.43.0


From 3fec71a3792fa15d9836e376b0a49bb4a0cc2ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 40/81] fix: scientific notation with a plus sign or a bare
 point was not recognised in YAML search spaces

'1e+3', '1.e3' and '.5e3' (which YAML reads as text) were refused as
bounds and silently kept as text when used as constants or choices.
---
 neps/search_spaces/yaml_search_space_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/yaml_search_space_utils.py b/neps/search_spaces/yaml_search_space_utils.py
index ff6d72a..416f3dc 100644
--- a/neps/search_spaces/yaml_search_space_utils.py
+++ b/neps/search_spaces/yaml_search_space_utils.py
@@ -46,7 +46,7 @@ def convert_scientific_notation(
         ValueError: If the value is a string and does not represent a valid number.
     """
 
-    e_notation_pattern = r"^-?\d+(\.\d+)?[eE]-?\d+$"
+    e_notation_pattern = r"^[-+]?(\d+(\.\d*)?|\.\d+)[eE][-+]?\d+$"
 
     flag = False  # Flag if e notation was detected
 
-- 
2.43.0


From f2371d0d4b83b33f24746b62ecdab73b263b9fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 41/81] fix: evaluations that returned their learning curve as
 an array were recorded as crashed

---
 neps/state/_eval.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index 093e82c..3301e72 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -56,7 +56,10 @@ def parse_user_result(
             else:
                 extracted_learning_curve = default_learning_curve
 
-        if extracted_learning_curve == "loss":
+        if (
+            isinstance(extracted_learning_curve, str)
+            and extracted_learning_curve == "loss"
+        ):
             extracted_learning_curve = [extracted_loss]
 
         extra = user_result
-- 
2.43.0


From 35701cca8d7cf702d0f235191182c2d59f4061bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 42/81] fix: the learning curve was removed from the info_dict
 of the user

---
 neps/state/_eval.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index 3301e72..fc1eb79 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -49,10 +49,13 @@ def parse_user_result(
         if extracted_learning_curve is _notset:
             # HACK: Backwards compat, check if it's in the "info_dict" key
             if "info_dict" in user_result:
-                extracted_learning_curve = user_result["info_dict"].pop(
+                # NOTE: This dict belongs to the user, who might return it again
+                info_dict = dict(user_result["info_dict"])
+                extracted_learning_curve = info_dict.pop(
                     "learning_curve",
                     default_learning_curve,
                 )
+                user_result["info_dict"] = info_dict
             else:
                 extracted_learning_curve = default_learning_curve
 
-- 
2.43.0


From 67d58cb1f8978ddc3f2f694033781dd56005bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 43/81] fix: integers on a log scale were merged and skipped
 when encoded

---
 neps/search_spaces/domain.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index ddca662..633842d 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -215,6 +215,13 @@ class Domain(Generic[V]):
         """
         return Domain.integer(0, n - 1, is_categorical=is_categorical)
 
+    @property
+    def _quantization(self) -> int | None:
+        # NOTE: The integers are not evenly spaced on a log scale, hence dividing the
+        # unit interval into equally sized bins would skip some and merge others.
+        # There, it's the rounding which takes care of it.
+        return self.bins if self.log_bounds is not None else self.cardinality
+
     def to_unit(self, x: Tensor, *, dtype: torch.dtype | None = None) -> Tensor:
         """Transform a tensor of values from this domain to the unit interval [0, 1].
 
@@ -230,7 +237,7 @@ class Domain(Generic[V]):
         elif not dtype.is_floating_point:
             raise ValueError(f"Unit interval only allows floating dtypes, got {dtype}.")
 
-        q = self.cardinality
+        q = self._quantization
         if self.is_unit_float and q is None:
             return x.to(dtype)
 
@@ -262,7 +269,7 @@ class Domain(Generic[V]):
         if self.is_unit_float:
             return x.to(dtype)
 
-        q = self.cardinality
+        q = self._quantization
         if q is not None:
             quantization_levels = torch.floor(x * q).clip(0, q - 1)
             x = quantization_levels / (q - 1)
-- 
2.43.0


From 924f5fa43c60c29479c5a2e55ad95dc60a3f0773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 44/81] fix: values of a log scale were cast to its logarithms
 by the inverse function

---
 neps/search_spaces/domain.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 633842d..03cb046 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -329,11 +329,12 @@ class Domain(Generic[V]):
         # We can also shortcut out if the only diffrence is that we are coming frm the
         # log bounds of this domain. We dont care if where we came from was binned or not,
         # we just lift it up with `np.exp` and round if needed
-        if (self.lower, self.upper) == frm.log_bounds and self.cardinality is None:
-            x = torch.exp(x)
-            if self.round:
-                x = torch.round(x)
-            return x.type(dtype)
+        if (
+            (frm.lower, frm.upper) == self.log_bounds
+            and frm.log_bounds is None
+            and self.cardinality is None
+        ):
+            return torch.exp(x).clip(self.lower, self.upper).type(dtype)
 
         # Otherwise, through the unit interval we go
         lift = self.from_unit(frm.to_unit(x), dtype=dtype)
-- 
2.43.0


From 33da49681750729cea5814d249e623f03196e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 45/81] fix: whole numbers were cut off when translated to
 domains of real numbers

---
 neps/search_spaces/domain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 03cb046..ed1509c 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -400,7 +400,12 @@ class Domain(Generic[V]):
                 f" Expected {ndims} from last dimension of {x.shape=}, got {len(to)}."
             )
 
-        out = torch.empty_like(x, dtype=dtype)
+        # NOTE: Whole numbers might not remain whole in the other domains
+        out_dtype = dtype
+        if dtype is None and not x.is_floating_point() and not all(t.is_int for t in to):
+            out_dtype = torch.float64
+
+        out = torch.empty_like(x, dtype=out_dtype)
         for i, (f, t) in enumerate(zip(frm, to, strict=False)):
             out[..., i] = t.cast(x[..., i], frm=f, dtype=dtype)
 
-- 
2.43.0


From 2310b733ff9fb215e99bd2a6ffdd78f27a449dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 46/81] fix: large whole numbers lost precision when normalised

---
 neps/search_spaces/domain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index ed1509c..63086ed 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -241,6 +241,10 @@ class Domain(Generic[V]):
         if self.is_unit_float and q is None:
             return x.to(dtype)
 
+        if not x.is_floating_point():
+            # NOTE: Otherwise, torch would go for a less precise default
+            x = x.to(torch.float64)
+
         if self.log_bounds is not None:
             x = torch.log(x)
             lower, upper = self.log_bounds
-- 
2.43.0


From 06c552e2796825508b76c5636a0a158dc09caeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 47/81] fix: ifBO skipped fidelities as its steps were larger
 than the step size

---
 neps/optimizers/multi_fidelity/ifbo.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index 3821eea..8d9884d 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -43,7 +43,8 @@ def _adjust_pipeline_space_to_match_stepsize(
         step_size: The size of the step to take in the fidelity domain.
 
     Returns:
-        The adjusted pipeline space and the number of bins it can be divided into
+        The adjusted pipeline space and the number of fidelities in it that are
+        multiples of the step size apart, including both bounds.
     """
     fidelity = pipeline_space.fidelity
     fidelity_name = pipeline_space.fidelity_name
@@ -59,7 +60,8 @@ def _adjust_pipeline_space_to_match_stepsize(
     # > n = x // k
     # > r = x - n*k
     x = fidelity.upper - fidelity.lower
-    n = int(x // step_size)
+    # NOTE: The tolerance is for floats, e.g. (1.0 - 0.1) / 0.1 is less than 9
+    n = int(x / step_size + 1e-9)
 
     if n <= 0:
         raise ValueError(
@@ -67,19 +69,20 @@ def _adjust_pipeline_space_to_match_stepsize(
             "Considering lowering this parameter to ifBO."
         )
 
-    r = x - n * step_size
+    r = max(x - n * step_size, 0)
     new_lower = fidelity.lower + r
+    default = None if fidelity.default is None else max(fidelity.default, new_lower)
     new_fid = fidelity.__class__(
         lower=new_lower,
         upper=fidelity.upper,
         log=fidelity.log,
-        default=fidelity.default,
+        default=default,
         is_fidelity=True,
         default_confidence=fidelity.default_confidence_choice,
     )
     return (
         SearchSpace(**{**pipeline_space.hyperparameters, fidelity_name: new_fid}),
-        n,
+        n + 1,
     )
 
 
-- 
2.43.0


From bd61d373a0983e23988eab05cfa8bd85072657a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 48/81] fix: ifBO failed for fidelities of at most 1

---
 neps/optimizers/multi_fidelity/ifbo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index 8d9884d..c5270e6 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -162,7 +162,8 @@ class IFBO(BaseOptimizer):
         self._fid_domain = space.fidelity.domain
 
         # Domain in which we should pass budgets to ifbo model
-        self._budget_domain = Domain.floating(1 / self._max_budget, 1)
+        # NOTE: The maximum fidelity may be 1 or less, hence counted in steps
+        self._budget_domain = Domain.floating(1 / fid_bins, 1)
 
         # Domain from which we assign an index to each budget
         self._budget_ix_domain = Domain.indices(fid_bins)
@@ -224,7 +225,7 @@ class IFBO(BaseOptimizer):
         # NOTE: Can't really abstract this, requires knowledge that:
         # 1. The encoding is such that the loss is 1 - loss
         # 2. The budget is the second column
-        # 3. The budget is encoded between 1/max_fid and 1
+        # 3. The budget is encoded between 1/number of fidelities and 1
         rng = np.random.RandomState(len(trials))
         # Cast the a random budget index into the ftpfn budget domain
         horizon_increment = self._budget_domain.cast_one(
-- 
2.43.0


From 63fe1e90e92a94b3bc19dc3f2dc67efdf6b7372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 49/81] fix: ifBO took failed evaluations for the best ones

---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index 680c10b..0e33bc2 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -128,7 +128,7 @@ def encode_ftpfn(
 
         The FTPFN model requires that all loss values lie in the interval [0, 1].
         By default, using the value of `error_value=0.0`, we encode crashed configurations
-        as having an error value of 0.
+        as having a score of 0, i.e. the worst there is.
 
     Args:
         trials: The trials to encode
@@ -173,7 +173,7 @@ def encode_ftpfn(
         [
             pending_value
             if trial.report is None
-            else (error_value if trial.report.loss is None else trial.report.loss)
+            else (1 - error_value if trial.report.loss is None else trial.report.loss)
             for trial in trials.values()
         ],
         device=device,
-- 
2.43.0


From d73abd922939d18870f56e382f8096322010e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 50/81] fix: ifBO accepted any loss while an evaluation was
 pending

---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index 0e33bc2..49f0858 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -179,7 +179,8 @@ def encode_ftpfn(
         device=device,
         dtype=dtype,
     )
-    if minimize_ys.max() > 1 or minimize_ys.min() < 0:
+    # NOTE: Comparing with NaN, i.e. the pending ones, is always False
+    if (minimize_ys > 1).any() or (minimize_ys < 0).any():
         raise RuntimeError(
             "ifBO requires that all loss values reported lie in the interval [0, 1]"
             " but recieved loss value outside of that range!"
-- 
2.43.0


From 585fece6bc75ef331e2334b2b20e2d21c6fee585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 51/81] fix: ifBO failed if there was a single configuration to
 continue

---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index 49f0858..bc418f8 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -343,7 +343,7 @@ class FTPFNSurrogate:
         train_y: torch.Tensor,
         test_x: torch.Tensor,
     ) -> torch.Tensor:
-        logits = self._get_logits(train_x, train_y, test_x).squeeze()
+        logits = self._get_logits(train_x, train_y, test_x).squeeze(1)
         return self.ftpfn.model.criterion.mean(logits)
 
     @torch.no_grad()  # type: ignore
@@ -355,7 +355,7 @@ class FTPFNSurrogate:
         y_best: torch.Tensor | float,
     ) -> torch.Tensor:
         logits = self._get_logits(train_x, train_y, test_x)
-        return self.ftpfn.model.criterion.pi(logits.squeeze(), best_f=y_best)
+        return self.ftpfn.model.criterion.pi(logits.squeeze(1), best_f=y_best)
 
     @torch.no_grad()  # type: ignore
     def get_ei(
@@ -366,7 +366,7 @@ class FTPFNSurrogate:
         y_best: torch.Tensor | float,
     ) -> torch.Tensor:
         logits = self._get_logits(train_x, train_y, test_x)
-        return self.ftpfn.model.criterion.ei(logits.squeeze(), best_f=y_best)
+        return self.ftpfn.model.criterion.ei(logits.squeeze(1), best_f=y_best)
 
     @torch.no_grad()  # type: ignore
     def get_lcb(
-- 
2.43.0


From 467bffb98d7af36905efc80cbf7046f82c0049db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 52/81] fix: the local search of ifBO sampled categoricals
 outside of the unit interval

---
 neps/sampling/priors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index 87481e7..8583bdf 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -227,7 +227,8 @@ class Prior(Sampler, Protocol):
                     distribution=torch.distributions.Categorical(
                         probs=weights, validate_args=False
                     ),
-                    domain=domain,
+                    # NOTE: It samples integers, whatever the values of the domain are
+                    domain=domain_as_ints,
                 )
                 distributions.append(dist)
                 continue
-- 
2.43.0


From bac8cabc22faa2b17c46bbe57a711e20e4ed874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 53/81] fix: ifBO proposed a step of a configuration again
 while it was pending

---
 neps/optimizers/multi_fidelity/ifbo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index c5270e6..e9bd75d 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -222,6 +222,9 @@ class IFBO(BaseOptimizer):
         else:
             not_pending_X = X
 
+        # NOTE: Those being evaluated right now can't be continued at the same time
+        is_pending_config = torch.isin(not_pending_X[:, 0], X[pending_mask][:, 0])
+
         # NOTE: Can't really abstract this, requires knowledge that:
         # 1. The encoding is such that the loss is 1 - loss
         # 2. The budget is the second column
@@ -256,7 +259,7 @@ class IFBO(BaseOptimizer):
             # Acquisition function
             acq_function=_mfpi_random,
             # Which acquisition samples to consider for continuation
-            continuation_samples=not_pending_X,
+            continuation_samples=not_pending_X[~is_pending_config],
             # How to generate some initial samples
             initial_samplers=[
                 (Sampler.sobol(ndim=sample_dims), 512),
-- 
2.43.0


From 907ce5ab0fc728f2707588d0b7db953891a9083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 54/81] fix: ifBO continued configurations with rounded values

---
 neps/optimizers/multi_fidelity/ifbo.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index e9bd75d..a98244f 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -281,14 +281,18 @@ class IFBO(BaseOptimizer):
         if _id is None:
             config[self._fidelity_name] = fid
             return SampledConfig(id=f"{new_id}_0", config=config)
-        # Convert fidelity to budget index, bump by 1 and convert back
-        budget_ix = self._budget_ix_domain.cast_one(fid, frm=self._fid_domain)
+        # NOTE: Continue exactly what was evaluated, the encoding is only 32 bit
+        budget_ix = max(
+            int(ix)
+            for config_id, ix in (trial_id.split("_", maxsplit=1) for trial_id in trials)
+            if int(config_id) == _id
+        )
+        previous_id = f"{_id}_{budget_ix}"
         next_ix = budget_ix + 1
         next_fid = self._fid_domain.cast_one(next_ix, frm=self._budget_ix_domain)
 
-        config[self._fidelity_name] = next_fid
         return SampledConfig(
             id=f"{_id}_{next_ix}",
-            config=config,
-            previous_config_id=f"{_id}_{budget_ix}",
+            config={**trials[previous_id].config, self._fidelity_name: next_fid},
+            previous_config_id=previous_id,
         )
-- 
2.43.0


From c382e97c91378c11e81935f91666925802bbaeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:40 +0000
Subject: [PATCH 55/81] fix: ifBO continued configurations beyond the highest
 fidelity

---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index bc418f8..8025825 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -158,10 +158,11 @@ def encode_ftpfn(
     # PFN uses `0` id for test configurations
     ids = ids + 1
 
+    # NOTE: With 32 bit, the highest fidelity might not be encoded as the highest budget
     train_fidelities = torch.tensor(
         [t.config[space.fidelity_name] for t in selected.values()],
         device=device,
-        dtype=dtype,
+        dtype=torch.float64,
     )
     train_budgets = budget_domain.cast(
         train_fidelities, frm=space.fidelity.domain, dtype=dtype
-- 
2.43.0


From 2aaa86a79fbf3c9db12aae952be7d1eb41b3fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:54 +0000
Subject: [PATCH 56/81] fix: ifBO started new configurations at a rounded
 lowest fidelity

---
 neps/optimizers/multi_fidelity/ifbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index a98244f..fb20510 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -271,7 +271,7 @@ class IFBO(BaseOptimizer):
             local_search_sample_size=256,
             local_search_confidence=0.95,
         )
-        _id, fid, config = decode_ftpfn_data(
+        _id, _, config = decode_ftpfn_data(
             best_row,
             self._config_encoder,
             budget_domain=self._budget_domain,
@@ -279,7 +279,7 @@ class IFBO(BaseOptimizer):
         )[0]
 
         if _id is None:
-            config[self._fidelity_name] = fid
+            config[self._fidelity_name] = self._min_budget
             return SampledConfig(id=f"{new_id}_0", config=config)
         # NOTE: Continue exactly what was evaluated, the encoding is only 32 bit
         budget_ix = max(
-- 
2.43.0


From 002a6250f88aee00dd233a99648ccaf157d11a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 57/81] fix: copies of a parameter lost the confidence that was
 set for its default

---
 neps/search_spaces/parameter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/search_spaces/parameter.py b/neps/search_spaces/parameter.py
index e58014e..a0f1a55 100644
--- a/neps/search_spaces/parameter.py
+++ b/neps/search_spaces/parameter.py
@@ -266,6 +266,7 @@ class ParameterWithPrior(Parameter[ValueT, SerializedT]):
                 f" {list(self.DEFAULT_CONFIDENCE_SCORES.keys())}"
             )
 
+        self.default_confidence_choice = default_confidence
         self.default_confidence_score = self.DEFAULT_CONFIDENCE_SCORES[default_confidence]
 
     def sample(self, *, user_priors: bool = False) -> Self:
-- 
2.43.0


From e01c6012d504020a7ad68a77f9ac86f4ceba639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 58/81] fix: loaded integers were not checked or normalised

---
 neps/search_spaces/hyperparameters/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 31facec..56ec25e 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -112,7 +112,7 @@ class IntegerParameter(NumericalParameter[int]):
 
     @override
     def load_from(self, value: Number) -> None:
-        self._value = int(np.rint(value))
+        self.set_value(int(np.rint(value)))
 
     @override
     def set_default(self, default: int | None) -> None:
-- 
2.43.0


From c0e6f942ef39c1b9de2a72bc896fc736b9b9292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 59/81] fix: defaults of integers were kept although they were
 refused

---
 neps/search_spaces/hyperparameters/integer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 56ec25e..9e3ac57 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -123,6 +123,14 @@ class IntegerParameter(NumericalParameter[int]):
             self.float_hp.set_default(None)
         else:
             _default = int(round(default))
+            if not self.lower <= _default <= self.upper:
+                cls_name = self.__class__.__name__
+                raise ValueError(
+                    f"{cls_name} parameter: default bounds error. Expected lower <="
+                    f" default <= upper, but got lower={self.lower}, default={default},"
+                    f" upper={self.upper}"
+                )
+
             self.default = _default
             self.has_prior = True
             self.log_default = float(np.log(_default)) if self.log else None
-- 
2.43.0


From d694cdd5a98b851a1ca17aac4d80614c30e2c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 60/81] fix: choices were kept although they were refused

---
 neps/search_spaces/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index eb16aeb..d121528 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -268,8 +268,8 @@ class CategoricalParameter(
             self.normalized_value = None
             return
 
-        self._value = value
         self._value_index = self.choices.index(value)
+        self._value = value
         self.normalized_value = float(self._value_index)
 
     @override
-- 
2.43.0


From 5e7009c0d299530e77cfdd10dd2d1be442dd1d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 61/81] fix: simple mutation of numbers always failed

---
 neps/search_spaces/hyperparameters/numerical.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neps/search_spaces/hyperparameters/numerical.py b/neps/search_spaces/hyperparameters/numerical.py
index 62d5cd6..4c8e47d 100644
--- a/neps/search_spaces/hyperparameters/numerical.py
+++ b/neps/search_spaces/hyperparameters/numerical.py
@@ -196,8 +196,7 @@ class NumericalParameter(ParameterWithPrior[T, T], MutatableParameter):
             parent = self
 
         if mutation_strategy == "simple":
-            child = self.clone()
-            child.sample()
+            child = parent.sample()
         elif mutation_strategy == "local_search" and "std" in kwargs:
             child = self._get_non_unique_neighbors(std=kwargs["std"], num_neighbours=1)[0]
         elif mutation_strategy == "local_search":
-- 
2.43.0


From db9ba2f6193a215b88852150b113ffd6484db408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 62/81] fix: configurations could not be mutated from a parent

---
 neps/search_spaces/hyperparameters/categorical.py |  2 +-
 neps/search_spaces/hyperparameters/numerical.py   |  6 ++++--
 neps/search_spaces/search_space.py                | 15 ++++++++++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index d121528..afdc55d 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -179,7 +179,7 @@ class CategoricalParameter(
         if mutation_strategy == "simple":
             child = parent.sample()
         elif mutation_strategy == "local_search":
-            child = self._get_non_unique_neighbors(num_neighbours=1)[0]
+            child = parent._get_non_unique_neighbors(num_neighbours=1)[0]
         else:
             raise NotImplementedError
 
diff --git a/neps/search_spaces/hyperparameters/numerical.py b/neps/search_spaces/hyperparameters/numerical.py
index 4c8e47d..c7d1599 100644
--- a/neps/search_spaces/hyperparameters/numerical.py
+++ b/neps/search_spaces/hyperparameters/numerical.py
@@ -198,9 +198,11 @@ class NumericalParameter(ParameterWithPrior[T, T], MutatableParameter):
         if mutation_strategy == "simple":
             child = parent.sample()
         elif mutation_strategy == "local_search" and "std" in kwargs:
-            child = self._get_non_unique_neighbors(std=kwargs["std"], num_neighbours=1)[0]
+            child = parent._get_non_unique_neighbors(
+                std=kwargs["std"], num_neighbours=1
+            )[0]
         elif mutation_strategy == "local_search":
-            child = self._get_non_unique_neighbors(num_neighbours=1)[0]
+            child = parent._get_non_unique_neighbors(num_neighbours=1)[0]
         else:
             raise NotImplementedError
 
diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index a5483de..f4f5ccc 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -410,10 +410,19 @@ class SearchSpace(Mapping[str, Any]):
 
     # TODO(eddiebergman): This function seems very weak, i.e. it's only mutating
     # one hyperparamter and copying the rest, very expensive for little gain.
-    def _smbo_mutation(self, *, patience: int = 5, **kwargs: Any) -> Self:
+    def _smbo_mutation(
+        self,
+        *,
+        parent: SearchSpace | None = None,
+        patience: int = 5,
+        **kwargs: Any,
+    ) -> Self:
+        if parent is None:
+            parent = self
+
         non_fidelity_mutatable_params = {
             hp_name: hp
-            for hp_name, hp in self.hyperparameters.items()
+            for hp_name, hp in parent.hyperparameters.items()
             if not hp.is_fidelity and isinstance(hp, MutatableParameter)
         }
 
@@ -429,7 +438,7 @@ class SearchSpace(Mapping[str, Any]):
 
             new_params = {
                 hp_name: hp.clone() if hp_name != chosen_hp_name else mutated_param
-                for hp_name, hp in self.hyperparameters.items()
+                for hp_name, hp in parent.hyperparameters.items()
             }
             return self.__class__(**new_params)
 
-- 
2.43.0


From 833f3837badeeb064a5371376f3cb3f8ddf1fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 63/81] fix: categoricals kept their default when the values
 became the defaults

---
 neps/search_spaces/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index f4f5ccc..52e93d6 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -734,7 +734,7 @@ class SearchSpace(Mapping[str, Any]):
     def set_defaults_to_current_values(self) -> None:
         """Update the configuration/search space to use the current values as defaults."""
         for hp in self.hyperparameters.values():
-            if isinstance(hp, NumericalParameter):
+            if isinstance(hp, ParameterWithPrior):
                 hp.set_default(hp.value)
 
     def set_hyperparameters_from_dict(  # noqa: C901
-- 
2.43.0


From e2735dcd778b0159c744fa58566bf05b0b1f030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 64/81] fix: configurations with and without a value could not
 be compared

---
 neps/search_spaces/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 52e93d6..fbe0127 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -862,7 +862,7 @@ class SearchSpace(Mapping[str, Any]):
             if not isinstance(other_hp, type(this_hp)):
                 return False
 
-            if isinstance(this_hp.value, float):
+            if isinstance(this_hp.value, float) and other_hp.value is not None:
                 this_norm = this_hp.value_to_normalized(this_hp.value)
                 other_norm = other_hp.value_to_normalized(other_hp.value)  # type: ignore
                 if np.round(this_norm - other_norm, on_decimal) != 0:
-- 
2.43.0


From b588b53f345ca5a70f48ca5d59a7f1ab2fe04034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 65/81] fix: overwritten constants kept their old value among
 the constants of the space

---
 neps/search_spaces/search_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index fbe0127..ce47ca5 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -801,6 +801,7 @@ class SearchSpace(Mapping[str, Any]):
                     )
 
                 current_hp.set_constant_value(new_hp_value)
+                self.constants = {**self.constants, hp_key: new_hp_value}
                 continue
 
             if delete_previous_defaults:
-- 
2.43.0


From 899dc037b0094d5337d08302b43616a8cef3da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:46 +0000
Subject: [PATCH 66/81] fix: constants of different values compared as equal

---
 neps/search_spaces/search_space.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index ce47ca5..8b02c9a 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -863,7 +863,11 @@ class SearchSpace(Mapping[str, Any]):
             if not isinstance(other_hp, type(this_hp)):
                 return False
 
-            if isinstance(this_hp.value, float) and other_hp.value is not None:
+            if (
+                isinstance(this_hp, NumericalParameter)
+                and isinstance(this_hp.value, float)
+                and other_hp.value is not None
+            ):
                 this_norm = this_hp.value_to_normalized(this_hp.value)
                 other_norm = other_hp.value_to_normalized(other_hp.value)  # type: ignore
                 if np.round(this_norm - other_norm, on_decimal) != 0:
-- 
2.43.0


From d63f554782252758845e5f54ad14436d63b56f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:49 +0000
Subject: [PATCH 67/81] fix: only the first column counted in full in the log
 probability of a prior

---
 neps/sampling/priors.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index 8583bdf..d5f2fac 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -332,10 +332,8 @@ class CenteredPrior(Prior):
         first_i, first_dist = next(itr)
         log_probs = first_dist.log_prob(translated_x[..., first_i])
 
-        _weight = 1 / len(self.distributions)
-
         for i, dist in itr:
-            log_probs = log_probs + _weight * dist.log_prob(translated_x[..., i])
+            log_probs = log_probs + dist.log_prob(translated_x[..., i])
 
         return log_probs
 
-- 
2.43.0


From 9b769be5d761529373cc7e7b083560c6e3fb640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:49 +0000
Subject: [PATCH 68/81] fix: low confidence in the default of a categorical
 made it unlikely

---
 neps/sampling/priors.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index d5f2fac..b3290c7 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -135,10 +135,14 @@ class Prior(Sampler, Protocol):
 
             confidence_str = hp.default_confidence_choice
             confidence_score = _mapping[confidence_str]
-            center = (
-                hp._default_index if isinstance(hp, CategoricalParameter) else hp.default
-            )
-            centers.append((center, confidence_score))
+            if isinstance(hp, CategoricalParameter):
+                # NOTE: For a categorical, no confidence means that all choices are
+                # equally likely, the default should never be less likely than that.
+                uniform = 1 / len(hp.choices)
+                weight = uniform + (1 - uniform) * confidence_score
+                centers.append((hp._default_index, weight))
+            else:
+                centers.append((hp.default, confidence_score))
 
         return Prior.make_centered(domains=domains, centers=centers)
 
-- 
2.43.0


From a9b3c532dc33061587bf9d505d095769997bdf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:49 +0000
Subject: [PATCH 69/81] fix: the confidence of a searcher had no effect on
 integers

---
 neps/optimizers/multi_fidelity/successive_halving.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 23753f2..1974e80 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -475,6 +475,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
                 else:
                     confidence = confidence_score["numeric"]
                 self.pipeline_space[k].default_confidence_score = confidence
+                if isinstance(v, IntegerParameter):
+                    # NOTE: This is what integers are sampled from
+                    v.float_hp.default_confidence_score = confidence
             elif isinstance(v, CategoricalParameter):
                 if confidence_score is None:
                     confidence = CUSTOM_CATEGORICAL_CONFIDENCE_SCORES[
-- 
2.43.0


From e208feef19096814d9d7e9354dc4be25ae779356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:44 +0000
Subject: [PATCH 70/81] fix: model of PriorBand ignored the prior unless it was
 insignificant

---
 neps/optimizers/multi_fidelity/sampling_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index 487ad70..97e7f62 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -333,7 +333,7 @@ class ModelPolicy(SamplingPolicy):
             # arbitrary term. This 10 is extracted from the old DecayingWeightedPrior
             pibo_exp_term = 10 / decay_t
             significant_lower_bound = 1e-4  # No significant impact beyond this point
-            if pibo_exp_term < significant_lower_bound:
+            if pibo_exp_term >= significant_lower_bound:
                 acq = pibo_acquisition(
                     acq,
                     prior=self.prior,
-- 
2.43.0


From 7685c7f23c736edfa6fa05555c5e5173f9c2695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:45 +0000
Subject: [PATCH 71/81] fix: BayesianOptimization with priors and costs failed
 if evaluations are pending

---
 .../acquisition_functions/weighted_acquisition.py        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py b/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py
index fd23d33..a2285d7 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py
@@ -121,6 +121,15 @@ class WeightedAcquisition(AcquisitionFunction):
             acq.set_X_pending(None)
             self.set_X_pending(None)
 
+        if isinstance(acq, WeightedAcquisition):
+            # NOTE: Apply both weights to the values of the underlying acquisition, as
+            # those of the weighted one have already been reduced over `q`.
+            inner_weight, outer_weight = acq.apply_weight, apply_weight
+            acq = acq.acq
+            apply_weight = lambda values, X, acq: outer_weight(  # noqa: E731
+                inner_weight(values, X, acq), X, acq
+            )
+
         self.apply_weight = apply_weight
         self.acq = acq
         self._log = acq._log
-- 
2.43.0


From 9ec2e1940dc8bc1a14505f921c3216b8409ad4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:41 +0000
Subject: [PATCH 72/81] fix: BayesianOptimization failed if a cost was zero or
 predicted to be negative

---
 .../acquisition_functions/cost_cooling.py                      | 3 ++-
 neps/optimizers/bayesian_optimization/models/gp.py             | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py b/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py
index 4095d6f..3c4ac41 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py
@@ -22,8 +22,9 @@ def apply_cost_cooling(
     cost_model: GPyTorchModel,
     alpha: float,
 ) -> Tensor:
-    # NOTE: We expect **positive** costs from model
+    # NOTE: We expect **positive** costs from model, which it may not predict everywhere
     cost = cost_model.posterior(X).mean
+    cost = cost.clamp_min(torch.finfo(cost.dtype).eps)
     cost = cost.squeeze(dim=-1) if cost_model.num_outputs == 1 else cost.sum(dim=-1)
 
     if acq._log:
diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 6bd39bb..af299cf 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -386,6 +386,8 @@ def fit_and_acquire_from_gp(
             y_train_cost = costs
 
         if costs_on_log_scale:
+            # NOTE: There is no logarithm of a cost of zero
+            y_train_cost = y_train_cost.clamp_min(torch.finfo(y_train_cost.dtype).eps)
             transform = ChainedOutcomeTransform(
                 log=Log(),
                 standardize=Standardize(m=1),
-- 
2.43.0


From d73c23c8d250866ad83b78875c1912ae53ae8ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:40 +0000
Subject: [PATCH 73/81] fix: neps.plot put evaluations into the order of their
 ids

Configurations that are continued at a higher fidelity (ids 1_0, 1_1, ...)
were placed next to each other, so the best error of a continuation was
shown at a time at which it was not known yet.
---
 neps/plot/read_results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 06ff3f1..62f4c53 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -24,7 +24,9 @@ def process_seed(
         path = path / str(seed) / "neps_root_directory"
 
     stats, _ = neps.status(path, print_summary=False)
-    sorted_stats = sorted(sorted(stats.items()), key=lambda x: len(x[0]))
+    # NOTE: Evaluations are in the order in which they were started, which ids do not
+    # tell, e.g. if configurations are continued at a higher fidelity
+    sorted_stats = sorted(stats.items(), key=lambda x: x[1].metadata["time_sampled"])
     stats = OrderedDict(sorted_stats)
 
     # max_cost only relevant for scaling x-axis when using fidelity on the x-axis
-- 
2.43.0


From f1afd803297b983e32b8f88cd92305ced3281497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 74/81] fix: neps.plot failed if an evaluation had failed

An evaluation that crashed has no loss (and nothing to extract); it now
counts as an evaluation that does not improve the best error, and so does
one whose loss is not a number, which made all later values NaN.
---
 neps/plot/read_results.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 62f4c53..7cc89f2 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -28,12 +28,16 @@ def process_seed(
     # tell, e.g. if configurations are continued at a higher fidelity
     sorted_stats = sorted(stats.items(), key=lambda x: x[1].metadata["time_sampled"])
     stats = OrderedDict(sorted_stats)
+    if key_to_extract is not None:
+        # NOTE: There is nothing to extract from what crashed
+        stats = OrderedDict(
+            (_id, s) for _id, s in stats.items() if not isinstance(s.result, str)
+        )
 
     # max_cost only relevant for scaling x-axis when using fidelity on the x-axis
     max_cost: float = -1.0
     if key_to_extract == "fidelity":
-        # TODO(eddiebergman): This can crash for a number of reasons, namely if the config
-        # crased and it's result is an error, or if the `"info_dict"` and/or
+        # TODO(eddiebergman): This can crash if the `"info_dict"` and/or
         # `key_to_extract` doesn't exist
         max_cost = max(s.result["info_dict"][key_to_extract] for s in stats.values())  # type: ignore
 
@@ -41,8 +45,7 @@ def process_seed(
 
     def get_cost(idx: str) -> float:
         if key_to_extract is not None:
-            # TODO(eddiebergman): This can crash for a number of reasons, namely if the
-            # config crased and it's result is an error, or if the `"info_dict"` and/or
+            # TODO(eddiebergman): This can crash if the `"info_dict"` and/or
             # `key_to_extract` doesn't exist
             return float(stats[idx].result["info_dict"][key_to_extract])  # type: ignore
 
@@ -64,9 +67,10 @@ def process_seed(
             else:
                 config_cost = config_result.metadata["time_end"] - global_start
 
-        # TODO(eddiebergman): Assumes it never crashed and there's a loss available,
-        # not fixing now but it should be addressed
-        losses.append(config_result.result["loss"])  # type: ignore
+        # NOTE: What crashed, or has no number as its loss, is never the best
+        result = config_result.result
+        loss = float("nan") if isinstance(result, str) else float(result["loss"])
+        losses.append(float("inf") if np.isnan(loss) else loss)
         costs.append(config_cost)
 
     return list(np.minimum.accumulate(losses)), costs, max_cost
-- 
2.43.0


From cad98ec043b53ca1ec44a6198ac5f359d69c7089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 75/81] fix: neps.plot ignored consider_continuations

The id of the configuration that is continued is the previous_trial_id of
the metadata, no longer previous_config_id.
---
 neps/plot/read_results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 7cc89f2..2e54b5a 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -61,8 +61,8 @@ def process_seed(
                 # calculates continuation costs for MF algorithms NOTE: assumes that
                 # all recorded evaluations are black-box evaluations where
                 # continuations or freeze-thaw was not accounted for during optimization
-                if "previous_config_id" in config_result.metadata:
-                    previous_config_id = config_result.metadata["previous_config_id"]
+                previous_config_id = config_result.metadata["previous_trial_id"]
+                if key_to_extract is not None and previous_config_id in stats:
                     config_cost -= get_cost(previous_config_id)
             else:
                 config_cost = config_result.metadata["time_end"] - global_start
-- 
2.43.0


From e5870b5e805b9c9866cd59d239adbc16a92e097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 76/81] fix: neps.plot added up the times at which evaluations
 ended

With several workers and consider_continuations, the x-axis is the time since
the start. The times of all evaluations before were added to it.
---
 neps/plot/read_results.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 2e54b5a..282a56b 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -26,7 +26,10 @@ def process_seed(
     stats, _ = neps.status(path, print_summary=False)
     # NOTE: Evaluations are in the order in which they were started, which ids do not
     # tell, e.g. if configurations are continued at a higher fidelity
-    sorted_stats = sorted(stats.items(), key=lambda x: x[1].metadata["time_sampled"])
+    # (or ended, if that is what is shown)
+    by_time = consider_continuations and n_workers != 1
+    order = "time_end" if by_time else "time_sampled"
+    sorted_stats = sorted(stats.items(), key=lambda x: x[1].metadata[order])
     stats = OrderedDict(sorted_stats)
     if key_to_extract is not None:
         # NOTE: There is nothing to extract from what crashed
@@ -41,7 +44,7 @@ def process_seed(
         # `key_to_extract` doesn't exist
         max_cost = max(s.result["info_dict"][key_to_extract] for s in stats.values())  # type: ignore
 
-    global_start = stats[min(stats.keys())].metadata["time_sampled"]
+    last_end = min(s.metadata["time_sampled"] for s in stats.values())
 
     def get_cost(idx: str) -> float:
         if key_to_extract is not None:
@@ -65,7 +68,9 @@ def process_seed(
                 if key_to_extract is not None and previous_config_id in stats:
                     config_cost -= get_cost(previous_config_id)
             else:
-                config_cost = config_result.metadata["time_end"] - global_start
+                # NOTE: The costs are added up, so it is the time since the last one
+                config_cost = config_result.metadata["time_end"] - last_end
+                last_end = config_result.metadata["time_end"]
 
         # NOTE: What crashed, or has no number as its loss, is never the best
         result = config_result.result
-- 
2.43.0


From 355d53533d377523a41a89abf1d2639d28b14c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 77/81] fix: neps.plot showed errors before they were reached

With several seeds, the best error of a seed between two of its evaluations
was that of the second one.
---
 neps/plot/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neps/plot/plotting.py b/neps/plot/plotting.py
index e0cc2ea..320e2ae 100644
--- a/neps/plot/plotting.py
+++ b/neps/plot/plotting.py
@@ -148,7 +148,8 @@ def _interpolate_time(
         _df.index = [max_b]
         df = pd.concat((df, _df)).sort_index()
 
-    df = df.fillna(method="backfill", axis=0).fillna(method="ffill", axis=0)
+    # NOTE: Between two evaluations of a seed, its best error is that of the first
+    df = df.fillna(method="ffill", axis=0).fillna(method="backfill", axis=0)
     if x_range is not None:
         df = df.query(f"{x_range[0]} <= index <= {x_range[1]}")
 
@@ -161,7 +162,7 @@ def _df_to_x_range(df: pd.DataFrame, x_range: tuple | None = None) -> pd.DataFra
     _df = pd.DataFrame.from_dict(new_entry, orient="index").T
     _df.index = [x_max]
     df = pd.concat((df, _df)).sort_index()
-    return df.fillna(method="backfill", axis=0).fillna(method="ffill", axis=0)
+    return df.fillna(method="ffill", axis=0).fillna(method="backfill", axis=0)
 
 
 def _set_legend(
-- 
2.43.0


From 1e8f874ddc2c107f40cb896bcef2f028b5010817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:44 +0000
Subject: [PATCH 78/81] fix: tblogger split the curve of a configuration

Only what was logged first in an evaluation was tagged config_<id>, as the
id of the configuration was set again with each call, but completed only with
the first. The rest was shown as another curve.
---
 neps/plot/tensorboard_eval.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index 380ad6b..cef4abc 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -103,7 +103,11 @@ class tblogger:  # noqa: N801
             if trial.metadata.previous_trial_location is not None
             else None
         )
-        tblogger.config_id = trial.metadata.id
+        # NOTE: All that is logged for a configuration has the same tag, also if it is
+        # continued at a higher fidelity
+        tblogger.config_id = get_initial_directory(
+            pipeline_directory=tblogger.config_working_directory
+        ).name
         tblogger.optimizer_dir = root_dir
         tblogger.config = trial.config
 
@@ -119,9 +123,6 @@ class tblogger:  # noqa: N801
             and tblogger.config_working_directory is not None
         ):
             # If no fidelities are there yet, define the writer via the config_id
-            tblogger.config_id = str(tblogger.config_working_directory).rsplit(
-                "/", maxsplit=1
-            )[-1]
             tblogger.config_writer = SummaryWriter_(
                 tblogger.config_working_directory / "tbevents"
             )
@@ -132,7 +133,6 @@ class tblogger:  # noqa: N801
             init_dir = get_initial_directory(
                 pipeline_directory=tblogger.config_working_directory
             )
-            tblogger.config_id = str(init_dir).rsplit("/", maxsplit=1)[-1]
             if (init_dir / "tbevents").exists():
                 tblogger.config_writer = SummaryWriter_(init_dir / "tbevents")
                 return
-- 
2.43.0


From 63cc3f4bf2e2b6d729c638176dfeac5fe3b42001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:44 +0000
Subject: [PATCH 79/81] fix: tblogger logged into the directory of another run
 or configuration

The writers belong to the process: the incumbents of a second run in the same
process were added to those of the first (even if the second run did not log
at all), and after an interrupted evaluation the next one was logged in its
directory.
---
 neps/plot/tensorboard_eval.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index cef4abc..b397723 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -97,7 +97,18 @@ class tblogger:  # noqa: N801
         root_dir = Path(neps_state.location)
         assert root_dir.exists()
 
-        tblogger.config_working_directory = Path(trial.metadata.location)
+        working_directory = Path(trial.metadata.location)
+        if tblogger.config_writer and (
+            working_directory != tblogger.config_working_directory
+        ):
+            # The previous evaluation was interrupted
+            tblogger.config_writer.close()
+            tblogger.config_writer = None
+        if root_dir != tblogger.optimizer_dir:
+            # This process has logged for another run before
+            tblogger.summary_writer = None
+
+        tblogger.config_working_directory = working_directory
         tblogger.config_previous_directory = (
             Path(trial.metadata.previous_trial_location)
             if trial.metadata.previous_trial_location is not None
@@ -142,7 +153,7 @@ class tblogger:  # noqa: N801
             )
 
     @staticmethod
-    def end_of_config(trial: Trial) -> None:  # noqa: ARG004
+    def end_of_config(trial: Trial) -> None:
         """Closes the writer."""
         if tblogger.config_writer:
             # Close and reset previous config writers for consistent logging.
@@ -150,7 +161,11 @@ class tblogger:  # noqa: N801
             tblogger.config_writer.close()
             tblogger.config_writer = None
 
-        if tblogger.write_incumbent:
+        # The next evaluation, maybe of another run, has to ask for it again
+        write_incumbent, tblogger.write_incumbent = tblogger.write_incumbent, False
+        if write_incumbent and (
+            Path(trial.metadata.location) == tblogger.config_working_directory
+        ):
             tblogger._tracking_incumbent_api()
 
     @staticmethod
-- 
2.43.0


From cde81edab0797baf1d316e9f9cba800c390468ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:44 +0000
Subject: [PATCH 80/81] fix: tblogger made evaluations fail if logging was
 enabled later

If nothing had been logged for a configuration before it is continued, e.g.
as the logger was disabled or added later, log() raised FileNotFoundError.
---
 neps/plot/tensorboard_eval.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index b397723..caee21e 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -144,13 +144,8 @@ class tblogger:  # noqa: N801
             init_dir = get_initial_directory(
                 pipeline_directory=tblogger.config_working_directory
             )
-            if (init_dir / "tbevents").exists():
-                tblogger.config_writer = SummaryWriter_(init_dir / "tbevents")
-                return
-
-            raise FileNotFoundError(
-                "'tbevents' was not found in the initial directory of the configuration."
-            )
+            # NOTE: There may be nothing yet, e.g. if logging was disabled back then
+            tblogger.config_writer = SummaryWriter_(init_dir / "tbevents")
 
     @staticmethod
     def end_of_config(trial: Trial) -> None:
-- 
2.43.0


From 8886520834ca54cec313a03f202cfae05245c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:45 +0000
Subject: [PATCH 81/81] fix: neps.plot failed if seeds have different numbers
 of evaluations

Their losses and costs were put into one array, which has to be regular.
---
 neps/plot/plotting.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neps/plot/plotting.py b/neps/plot/plotting.py
index 320e2ae..2635dc8 100644
--- a/neps/plot/plotting.py
+++ b/neps/plot/plotting.py
@@ -122,11 +122,7 @@ def _interpolate_time(
     x_range: tuple | None = None,
     scale_x: float | None = None,
 ) -> pd.DataFrame:
-    if isinstance(incumbents, list):
-        incumbents = np.array(incumbents)
-    if isinstance(costs, list):
-        costs = np.array(costs)
-
+    # NOTE: There is one sequence for each seed, not necessarily of the same length
     df_dict = {}
 
     for i, _ in enumerate(incumbents):
-- 
2.43.0

