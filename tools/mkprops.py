import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

PUB=["the public RRDP directory as a relying party sees it, before every file-system mutation of a run and after it"]
p("C01","The public RRDP tree is complete and hash-consistent at every instant",
 "From the first successful synchronisation on, at every instant (during a run, after a run that was killed at any point or hit a local I/O error, and between runs) the public notification file exists and is well-formed, and every snapshot and delta file it lists is present under the public RRDP directory with exactly the listed SHA-256 hash. This holds for any history of source updates, session changes, delta-window changes, elapsed times and clean-up settings, and also when staging and public directory are on different file systems.",
 ["crash_points","fault_sequences","histories","configurations"],
 "all histories of source versions (updates, session resets, returns to an earlier session) x all instants/crash points/failing system calls of each run x clean-up, delta-limit, delay and cross-device settings",
 "The tests look at the tree only after a few successful runs over fixed resources, never in the middle of a run, after a crash or after an I/O error.",
 ["src/rrdp.rs","src/process.rs","src/file_ops.rs"],
 [("new files moved before notification is replaced","rrdp.rs apply_staged_changed, process.rs"),("write to temporary file then rename","rrdp.rs write_notification"),("clean-up of deprecated files","rrdp.rs clean"),("move or copy from staging","file_ops.rs move_file")],
 [("snapshot/deltas","what the current notification refers to","RrdpState"),("deprecated_files","files no longer referenced, with time","RrdpState")],PUB)
p("C02","What is published over RRDP is a faithful copy of the source's version",
 "After every successful run the public notification, under the file name of the configured notification URI, carries exactly the source's current session, serial and snapshot, and all listed files are byte-identical to the source's at the same public URIs. Its delta list only contains deltas of the source's current list, is gap-free, never longer than the configured maximum (including zero), contains every listed source delta within that maximum that is newer than what was published before, keeps the previously published ones still within it, and after a session change consists of the new session's deltas only.",
 ["histories","inputs","configurations"],
 "all protocol-conforming source histories (updates, missed updates, session resets and returns, growing and shrinking delta windows, any serial size and URI layout) x delta limit and directory settings",
 "The tests replay four fixed source versions and check that some files exist; they never compare content, hashes, the delta list or the notification itself.",
 ["src/rrdp.rs","src/fetch.rs","src/process.rs"],
 [("choice of new deltas","rrdp.rs deltas_stage"),("dropping old deltas","rrdp.rs deltas_deprecate_before / deltas_deprecate_all"),("limit and gap check","rrdp.rs update_staged"),("notification generation","rrdp.rs make_notification_file")],
 [("deltas","descending list of held deltas","RrdpState")],["public RRDP directory after each run"])
p("C03","The rsync module holds exactly the objects of the published snapshot",
 "After every successful run with rsync output enabled, the directory that 'current' leads to contains every object of the published snapshot at its path with its exact bytes, and nothing else, so that rsync and RRDP serve the same version. This holds for the plain layout and for the host/module layout, for empty snapshots, after updates, withdrawals and session changes, and for both ways of switching the current directory.",
 ["histories","inputs","configurations"],
 "all sets of object URIs and contents and all histories of them x layout and switching mode",
 "The tests check that 'current' exists and four modification times; file contents, missing or stale objects are never compared.",
 ["src/rsync.rs","src/process.rs","src/file_ops.rs"],
 [("objects written from the snapshot","rsync.rs RsyncFromSnapshotWriter::publish"),("switch of current","rsync.rs symlink_current_to_new_revision_dir / rename_new_revision_dir_to_current"),("layout","rsync.rs include_host_and_module")],
 [("current","revision being served","RsyncDirState")],["rsync directory after each run"])
p("C04","The rsync 'current' directory switches atomically between complete versions",
 "Once published, at every instant (during a run, after a kill at any point or a local I/O error, and between runs) 'current' exists and leads to a directory holding one complete source version: all its objects with their exact bytes and nothing else. It never leads to a partial, mixed, truncated or removed version, also when an interrupted run is repeated or the source returns to an earlier version.",
 ["crash_points","fault_sequences","histories"],
 "all source histories x all instants, crash points and failing system calls of each run, including repeated runs after them",
 "No test looks at the rsync tree during a run, after a crash or on a repeated run.",
 ["src/rsync.rs"],
 [("new directory per revision","rsync.rs RsyncRevision::path"),("temporary symlink then rename","rsync.rs symlink_current_to_new_revision_dir"),("bookkeeping of old revisions","rsync.rs RsyncDirState::update_current / clean_old")],
 [("old","revisions awaiting removal","RsyncDirState")],["rsync directory before every file-system mutation of a run"])
p("C05","Superseded files and rsync versions stay available for the clean-up period",
 "A snapshot or delta file that was part of the public notification, and an rsync version directory that was 'current', is still there with unchanged content until at least the configured clean-up period has passed since it stopped being so. This holds for any history of updates, session changes and delays, including files that leave and re-enter the published set.",
 ["histories","configurations"],
 "all timed histories of source versions and runs x clean-up period and notification delay, observed at every mutation",
 "One test waits three real seconds over one fixed history; boundary times, delays, re-referenced files and returns to earlier versions are never reached.",
 ["src/rrdp.rs","src/rsync.rs","src/process.rs"],
 [("deprecation time stamps","rrdp.rs DeprecatedFile, rsync.rs DeprecatedRsyncRevision"),("age comparison","rrdp.rs clean, rsync.rs clean_old")],
 [("deprecated_files","path and time","RrdpState"),("old","revision and time","RsyncDirState")],["time of removal of each path against the last time it was published (virtual clock)"])
p("C06","Superseded data is removed once the clean-up period has passed",
 "At the end of every run that published a new version (and had no interrupted run before it), no snapshot or delta file and no rsync version directory remains that stopped being published longer ago than the configured clean-up period, and no empty directories are left behind in the RRDP tree. Files that are still published are never removed, nor is anything that krill-sync did not itself put there.",
 ["histories","configurations"],
 "all timed histories of source versions and uninterrupted runs x clean-up period, path layout, delta limit and rsync settings",
 "The tests check removal for one fixed history with one path layout and do not look for leftovers.",
 ["src/rrdp.rs","src/rsync.rs","src/file_ops.rs"],
 [("removal and pruning of empty parents","rrdp.rs clean, file_ops.rs remove_file_and_empty_parent_dirs"),("removal of rsync directories","rsync.rs clean_old"),("deprecation on update","rrdp.rs deltas_deprecate_before / deltas_deprecate_all")],None,["complete listing of public RRDP and rsync directories after each run"])
p("C07","The published serial never goes backwards within a session",
 "Within one session the published serial only ever increases: a source that reports a lower serial than already published makes the run fail with a non-zero exit status and no change to the public RRDP tree, the rsync tree or the saved state. When the source catches up, or starts another session with any serial, synchronisation resumes normally (as long as no run was interrupted between publishing and saving its state).",
 ["histories","inputs"],
 "all histories in which the source's serial jumps back and forth within and across sessions, including extreme serial values",
 "No test presents an older serial.",
 ["src/rrdp.rs"],[("serial comparison","rrdp.rs update_staged")],[("snapshot.serial","last published serial","RrdpState")],["exit status, public trees and state files"])
p("C08","A run without source changes changes nothing",
 "If the source still presents the session and serial already published, a run succeeds and leaves the public RRDP tree, the rsync tree and the saved state exactly as they were: same files, bytes, links and time stamps, at whatever later time, however the source formats or transports its notification, and even if superseded data is due for clean-up. No snapshot or delta is fetched and no validation script is run.",
 ["histories","inputs","configurations"],
 "all reachable states x repeated runs at any later time x formatting and transport (ETag, not-modified) of the unchanged notification",
 "No test runs twice against an unchanged source.",
 ["src/rrdp.rs","src/process.rs","src/fetch.rs"],[("unchanged detection","rrdp.rs update_staged"),("early return","process.rs process")],None,["recursive listing with inode, mtime and content before and after"])
p("C09","Bad source data is rejected as a whole and leaves the public view untouched",
 "If anything a run needs from the source cannot be fetched completely, does not match its announced hash, is not well-formed RRDP for the announced session and serial, leaves a gap in the delta list or lies outside the notification's base URI, the run exits with a non-zero status, and public notification, published files, rsync 'current' and saved state are exactly as before. A later run against the corrected source succeeds and publishes it completely.",
 ["inputs","fault_sequences","histories"],
 "all single faults in any fetched resource (content, length, hash, XML, meta data, serial list, URI, HTTP status, connection) at any point of any history, followed by recovery",
 "The existing tests never feed a faulty source.",
 ["src/fetch.rs","src/rrdp.rs","src/rsync.rs"],
 [("hash verification","fetch.rs FetchSource::fetch, retrieve_file"),("gap check","rrdp.rs update_staged"),("base URI check","rrdp.rs SourceMappings::relative"),("staging before publishing","rrdp.rs snapshot_stage / deltas_stage")],None,["exit status, public trees and state before and after; result of the next run"])
p("C10","An interrupted run is always repaired by simply running again",
 "After a run is killed at any point, or stopped by a failing file-system operation, the next undisturbed run exits successfully and brings the RRDP tree, the rsync tree and the saved state to a version identical to what an uninterrupted history would have published. This also holds if the source has moved on meanwhile and if several runs in a row are interrupted.",
 ["crash_points","fault_sequences","histories"],
 "all crash points (including in the middle of a write) and failing system calls of one or several consecutive runs x source histories",
 "No test interrupts a run.",
 ["src/process.rs","src/rrdp.rs","src/rsync.rs","src/file_ops.rs","src/main.rs"],
 [("state persisted last","process.rs process, rrdp.rs persist"),("re-use or re-fetch of staged files","fetch.rs retrieve_file"),("lock released on exit","main.rs lock"),("lingering temporary symlink removed","rsync.rs")],
 [("rrdp-state.json / rsync-state.json","saved state","state dir")],["exit status and public trees of the next run"])
p("C11","Only one instance at a time works on a state directory",
 "While a run is working on a state directory, any other invocation on it exits with a non-zero status without changing anything in the state, RRDP or rsync directories and without fetching anything. The lock never outlives its holder: after a run has ended in any way, also by a kill, the next invocation can proceed, and concurrent invocations never lead to a different public result than some sequence of them.",
 ["schedules","crash_points"],
 "all points of a run at which further invocations are started, any number of them, and all ways the first one ends",
 "No test starts two processes; the lock is only in the binary, which no test executes.",
 ["src/main.rs","src/config.rs"],[("exclusive file lock held for the whole run","main.rs lock / try_main")],[("krill-sync.lock","advisory lock","state dir")],["exit status of the second invocation, trees before and after it"])
p("C12","Nothing is ever written outside the configured directories",
 "Whatever URIs the source's notification and snapshot contain (parent-directory or empty segments, absolute paths, odd authorities and module names, the notification's own name), krill-sync creates, changes and removes files only inside its state, RRDP and rsync directories, RRDP content only at its place below the RRDP or staging directory and rsync objects only inside the directory of their own version. Such a source is either refused or stored harmlessly; it can never damage the public notification or the saved state.",
 ["inputs"],
 "all URIs accepted by the URI parsers as snapshot, delta and object locations, in both rsync layouts",
 "All test resources contain only well-behaved URIs.",
 ["src/rrdp.rs","src/rsync.rs","src/config.rs","src/file_ops.rs"],
 [("relative path derivation","rrdp.rs SourceMappings::relative"),("target path","config.rs staging_path, rrdp.rs path, rsync.rs publish")],None,["path of every file-system mutation of the run; canary files around the directories"])
p("C13","Pre-validation scripts see the staged update and gate its publication",
 "Every configured script is run once, in order, for every update and only for updates, after the new notification, snapshot and new deltas are completely staged and before anything in the public RRDP or rsync directories changes, and one failing script does not keep the others from running. If any of them fails and invalid content is to be rejected, the run fails with a non-zero status and nothing public or in the saved state changes; otherwise the update is published.",
 ["inputs","configurations","histories"],
 "all combinations of scripts (passing, failing, killed, noisy, missing), reject setting and source histories",
 "No test configures a script.",
 ["src/process.rs","src/config.rs"],[("script loop and verdict","process.rs process"),("staging directory","rrdp.rs update_staged")],None,["what each script saw; public trees and state after the run"])
p("C14","TAL validation judges the very update about to be published",
 "With TALs configured and invalid content rejected, an update is published only if the staged content of this very update has no issue under the TALs and the source repository was reached from them; otherwise the run fails with a non-zero status and nothing public or in the saved state changes. Without rejection the update is always published and its issues are reported, and the verdict for a version is the same no matter which versions were validated before, how recently, and whether earlier runs were rejected.",
 ["histories","inputs","configurations"],
 "all histories of valid and invalid repository versions, elapsed times, rejected runs and configuration of TALs",
 "One test validates one fixed valid repository directly; the gate, its use of cached data and rejected updates are never exercised.",
 ["src/rrdp.rs","src/validation/validator.rs","src/process.rs"],
 [("verdict","rrdp.rs pre_validate"),("re-use of validator and cached data","rrdp.rs reconfigure_validator, validator.rs get_latest / initialise_staging_data")],
 [("validator","saved repository data","RrdpState")],["exit status, public trees, reported issues"])
p("C15","The validator accepts what is valid under the TAL and reports what is not",
 "For any CA tree below a trust anchor, validation ends with a report in which every valid certificate, ROA, ASPA and router certificate is counted exactly once with its content, and every object that is missing, altered, malformed, of no known type, wrongly signed, expired, revoked, over-claiming or listed in a stale manifest or CRL leads to an issue for its repository and is not counted, nor is anything below it. Faults of one object never hide or invalidate its valid siblings, and validation never crashes or loops, also for certificates that form a cycle or manifests with odd file names.",
 ["inputs"],
 "all generated CA trees (depth, number and type of objects, repositories) x faults of each kind at each place, including cyclic certificate chains",
 "One fixed valid tree is validated and the report is not looked at.",
 ["src/validation/validator.rs","src/validation/report.rs","src/validation/tal.rs"],
 [("top-down validation","validator.rs validate_tree_at"),("statistics per repository","report.rs RepositoryReport"),("TA certificate and key match","tal.rs validate_at")],None,["ValidationReport"])
p("C16","Modification times in the rsync tree are determined by the objects",
 "Every certificate, CRL and signed object in the rsync tree carries the modification time laid down in it (start of validity, this-update and signing time respectively), independent of when, where and after which history it was written. Objects that cannot be parsed are still published with their bytes unchanged.",
 ["inputs","histories"],
 "all generated RPKI objects of each type with arbitrary times, and unparsable content under any extension, over repeated and independent synchronisations",
 "Four objects of one fixed snapshot are checked.",
 ["src/rsync.rs"],[("time from object","rsync.rs fix_since")],None,["mtime of files below rsync current"])
p("C17","Data is fetched only from the mapped source and only what is needed",
 "Every file is requested at exactly the location that results from replacing the public base URI by the configured source base, and nothing else is ever contacted or read for it; without a mapping the public URIs themselves are used. A run requests the notification once, and on an update the snapshot and each delta not yet held (within the configured maximum) once, and nothing it already holds or has staged with the right hash.",
 ["inputs","configurations","histories"],
 "all base URIs, source bases (directory or HTTPS, with and without port and path) and source histories",
 "Two examples of the mapping are tested, the requests of a run never.",
 ["src/fetch.rs","src/config.rs","src/rrdp.rs"],[("mapping","fetch.rs FetchMap::source / resolve_source"),("selection of new deltas","rrdp.rs deltas_stage")],None,["request log of an HTTPS server; files opened below a source directory"])
p("C18","Source servers must present a valid certificate unless --insecure is given",
 "Without --insecure a run against a source whose TLS certificate is self-signed, untrusted, expired or for another name fails with a non-zero status and changes nothing, with or without a source mapping, for the notification and for all files it lists. With --insecure such sources are accepted, while the hash checks on all files still apply.",
 ["inputs","configurations"],
 "all combinations of certificate defects, mapping and insecure setting",
 "No test makes a TLS connection.",
 ["src/fetch.rs","src/config.rs"],[("certificate checks","fetch.rs FetchSource::fetch"),("mode of the mapped source","config.rs post_configure")],None,["exit status, request log and public trees"])
p("C19","The notification delay gives new files their head start",
 "With a notification delay of D seconds, the public notification is replaced no earlier than D seconds after the last new snapshot and delta file is in place, and until then it remains the previous, fully served version. The delay applies to updates only: without changes a run never waits.",
 ["configurations","histories"],
 "all delays and source histories under a virtual clock, observed at every mutation",
 "No test sets a delay.",
 ["src/rrdp.rs","src/process.rs"],[("sleep before writing","rrdp.rs write_notification")],None,["virtual time of every mutation of the public tree"])
p("C20","Arbitrary input never crashes or hangs a run",
 "For arbitrary bytes as notification, snapshot, delta, saved state, trust anchor locator or configuration values a run ends by itself, with exit status zero or a reported error, never with a panic, abort or endless loop. If it ends with an error because of the source's documents, trust anchor data or saved state that cannot be read, the public notification and rsync 'current' are unchanged, and if it ends successfully with such input the public RRDP tree is consistent.",
 ["inputs"],
 "all byte strings and structured mutations of valid documents in each input position, with extreme numbers and option values",
 "All test inputs are well-formed.",
 ["src/rrdp.rs","src/fetch.rs","src/rsync.rs","src/config.rs","src/validation/tal.rs","src/util.rs"],[("error propagation","process.rs process, main.rs main"),("parsing","fetch.rs read_notification_file, rsync.rs for_snapshot_path, rrdp.rs recover")],None,["exit status, stderr and public trees"])
p("C21","Validation contacts other repositories sparingly, and none when offline",
 "With offline validation a run contacts nothing but its own source and the trust anchor certificates; without it, each other repository of the tree is contacted at most once per run, not again within an hour of its last retrieval, and later only for what changed. Data used for such a repository is always one complete version it has published, also after failing deltas or an unreachable server.",
 ["histories","configurations","fault_sequences"],
 "all timed histories of runs and versions of several repositories, with fetch faults and offline setting",
 "The one validation test uses a single repository on disk.",
 ["src/validation/validator.rs","src/rrdp.rs"],[("per-run and cool-down bookkeeping","validator.rs get_latest"),("delta application with snapshot fallback","validator.rs update_repository_data_from_deltas")],[("last_fetch, fetched","when a repository was retrieved","RepositoryData")],["request log of the other repositories; report"])
p("C22","Changing the configuration between runs never leaves a broken public tree",
 "When options such as the RRDP directory, notification URI, rsync layout, delta limit or clean-up period change between runs, every run that succeeds leaves, in the currently configured RRDP directory and under the currently configured name, a notification all of whose files are there with the right hash, and an rsync tree in line with it if it was updated. A notification published earlier elsewhere is never rewritten to refer to missing files.",
 ["configurations","histories"],
 "all sequences of configurations over one state directory and all source histories",
 "One test changes the notification URI but does not look at the published RRDP tree.",
 ["src/process.rs","src/rrdp.rs","src/config.rs"],[("recovered state and its mappings","rrdp.rs recover, SourceMappings"),("target directory","rrdp.rs apply_staged_changed")],[("mappings","base URI and RRDP directory saved in the state","RrdpState")],["all RRDP directories ever configured, after each run"])
p("C23","Output directories follow the state directory unless set explicitly",
 "When only the state directory is given, RRDP and rsync output go to its 'rrdp' and 'rsync' subdirectories; each explicitly given directory (other than the built-in default value) is used exactly as given, independent of the others. A source base that is neither an existing directory nor an HTTPS URI ending in a slash, or a notification URI without a path, is refused before anything is written outside the state directory.",
 ["configurations","inputs"],
 "all combinations and shapes of directory, source base and notification URI arguments",
 "The tests build their configuration in code with all directories set.",
 ["src/config.rs"],[("defaults follow state dir","config.rs post_configure"),("source base check","config.rs post_configure, fetch.rs is_dir")],None,["where a run writes; exit status"])
p("C24","Repository data built from deltas equals the full snapshot",
 "When validation updates its copy of a repository from deltas, the result is exactly the set of objects of that repository's current snapshot, and later validation gives the same report as one that starts afresh; if any delta is missing, altered, out of order, of another session or does not fit the copy, the snapshot is used instead. No mixture of versions is ever validated, also when the copy was saved and reloaded in between.",
 ["histories","fault_sequences"],
 "all histories of publish, update and withdraw operations, skipped versions, session resets and delta faults, with save and reload at any point",
 "No test updates a validator's repository.",
 ["src/validation/validator.rs"],[("delta application","validator.rs update_repository_data_from_deltas"),("fallback","validator.rs get_latest, repository_data_from_snapshot")],[("objects, session_id, serial","copy of a repository","RepositoryData")],["serialised validator state; report of fresh against re-used validator"])
p("C25","Web and rsync servers can read everything that is published",
 "The public notification, every file it lists, everything below the rsync tree's 'current', and the directories that lead to them can be read (and directories entered) by every user class that the process's file mode creation mask leaves read access, and can be written by none that it denies. This holds from the instant something is published, whichever way it got there (first or repeated runs, staged files moved or copied between file systems, runs that were interrupted before).",
 ["histories","configurations","crash_points"],
 "all histories of updates, interruptions and configuration changes x file mode creation masks, staging on the same or another file system",
 "The tests run as one user and only compare contents; they never look at file modes.",
 ["src/file_ops.rs","src/rrdp.rs","src/rsync.rs"],[("creation of files and directories","file_ops.rs write_buf, create_path_for_file; rsync.rs create_out_path_if_missing"),("moving or copying staged files","file_ops.rs move_file")],None,["modes of all published files and directories at every mutating call"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
