#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os

S = "src/backy/"
P = []


def prop(id, title, statement, over, text, tests, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=tests,
        anchors=dict(
            files=[S + f for f in files],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None),
    ))


prop("C01", "Every existing image backup restores byte for byte",
     "For every history of guest writes, discards, resizes and successful image backups (full or incremental in any mix), restoring any "
     "revision that still exists reproduces exactly the image content at the moment its snapshot was taken: same bytes, same length. "
     "This stays true after any later backups, and for a restore into a new file, over an existing file of any size and content, "
     "and to standard output.",
     ["histories", "inputs", "configurations"],
     "all histories of image changes x backups x full/diff choice x diff granularity x image sizes (chunk-aligned or not), all restore targets",
     "The tests run three or four fixed smoke-test images with one fixed diff layout; they cannot cover the space of change patterns, "
     "sizes, diff record layouts and revision interleavings under which sharing of chunks must stay invisible.",
     ["rbd/__init__.py", "rbd/rbd.py", "rbd/chunked/file.py", "rbd/chunked/chunk.py", "rbd/chunked/store.py", "utils.py"],
     [("full/diff transfer into the revision", "rbd/__init__.py:CephRBD.full/diff"),
      ("copy of the parent's mapping", "rbd/__init__.py:RBDSource.open"),
      ("restore copy loops", "rbd/__init__.py:RBDSource.restore_file/restore_stdout, utils.py:copy")],
     ["restored file / stdout bytes", "exit status of backup"])

prop("C02", "A stored revision behaves like an ordinary byte file",
     "Any sequence of open, seek, read, write, hole punching, truncate, flush, close and reopen on a stored revision gives the results of an ordinary byte "
     "file: reads return what was last written, gaps read as zeros, size and position agree (deliberately, seeking past the end "
     "already extends the file with zeros and end-relative offsets count backwards). This holds across chunk boundaries, partial "
     "chunks and cache eviction, and for a revision started as a copy of another one, whose own content never changes.",
     ["histories", "inputs"],
     "all operation sequences and offsets/lengths over several 4 MiB chunks, any cache limit, any reopening pattern, any number of revisions sharing one store",
     "The unit tests use a handful of fixed sequences; the chunk boundary, partial chunk, eviction and sharing cases multiply.",
     ["rbd/chunked/file.py", "rbd/chunked/chunk.py", "rbd/chunked/store.py"],
     [("position/size bookkeeping and zero fill", "rbd/chunked/file.py:File.seek/read/write/truncate"),
      ("chunk cache eviction", "rbd/chunked/file.py:File._flush_chunks"),
      ("content addressed chunk write", "rbd/chunked/chunk.py:Chunk.flush")],
     ["File API results", "bytes after reopen"])

prop("C03", "Damaged stored data is never served as good data",
     "Whatever happens to stored chunk files (bit flips, truncation, extension, replacement by another valid chunk, deletion), no read "
     "or restore ever returns wrong bytes: it returns the original bytes or fails with an error and a nonzero exit status. "
     "A backup that has to read damaged data does not count as successful, leaves no new revision, and afterwards none of the "
     "repository's own revisions is left merely trusted, or verified although its data is damaged.",
     ["fault_sequences", "inputs"],
     "all corruptions of any chunk at any position, all reads/restores/partial overwrites that touch it, mixed with healthy chunks",
     "One test overwrites a chunk with fixed garbage; compressed containers, header fields, swapped valid chunks and partial overwrites are not covered.",
     ["rbd/chunked/chunk.py", "rbd/chunked/file.py", "rbd/__init__.py"],
     [("decompress + content hash check on first access", "rbd/chunked/chunk.py:Chunk._read_existing"),
      ("distrust everything on a backend error", "rbd/__init__.py:RBDSource.backup")],
     ["bytes returned", "exceptions / exit status", "trust state in *.rev"])

prop("C04", "Verification verdicts are sound and complete",
     "Verifying a revision records it as verified exactly when every piece of its data is intact on disk, where pieces already covered by a "
     "verified revision may be skipped; otherwise that revision and no other is removed, and the damaged piece is "
     "taken out of the store so that it is written again by a later backup. Intact revisions keep restoring exactly, and "
     "distrusting changes exactly the selected own revisions.",
     ["histories", "fault_sequences"],
     "all combinations of revisions sharing chunks, trust states, damaged/missing chunks and orders of verify/distrust",
     "Tests verify one revision with one damaged chunk; which revisions share the damage and in which order they are verified is what matters.",
     ["rbd/__init__.py", "repository.py", "revision.py"],
     [("per-chunk verification", "rbd/__init__.py:RBDSource.verify"), ("distrust", "repository.py:Repository.distrust")],
     ["trust state in *.rev", "files left in the store", "restores"])

prop("C05", "Garbage collection removes exactly the unreferenced data",
     "After any history of finished or interrupted backups, removals, expiry and tag edits, garbage collection deletes exactly the stored chunks that no remaining "
     "own revision references, whichever process or stale in-memory view runs it. Every remaining revision still restores its exact content, running it again "
     "changes nothing, and a pending-purge mark is cleared only by a run that completed.",
     ["histories"],
     "all histories of backup/rm/expire/tags/verify/gc over revisions with arbitrary sharing, foreign files in the store, several repository handles",
     "The test has two tiny revisions; sharing patterns, histories with removals in between and stale handles are not explored.",
     ["rbd/__init__.py", "rbd/chunked/store.py", "repository.py"],
     [("used-set computation", "rbd/__init__.py:RBDSource.gc"), ("deletion", "rbd/chunked/store.py:Store.purge")],
     ["files in chunks/", "restores", ".purge_pending"])

prop("C06", "Distrust makes backups heal the repository",
     "While own revisions are distrusted, a backup never builds on a distrusted revision and writes every piece of data it transfers anew "
     "instead of reusing what is on disk, so that a successful backup restores exactly even when all data stored before was "
     "damaged. Each successful backup in that state also verifies at least one distrusted revision, so repeated backups end with "
     "no distrusted revision.",
     ["fault_sequences", "histories"],
     "all sets of distrusted revisions, all damage to existing chunks, all image contents shared with or different from the damaged data",
     "No test combines distrust, damaged chunks of identical content and a following backup; reuse of a damaged chunk is invisible until restore.",
     ["repository.py", "rbd/__init__.py", "rbd/chunked/chunk.py", "revision.py"],
     [("force-write switch", "rbd/__init__.py:RBDSource.open, repository.py:contains_distrusted"),
      ("parent choice skips distrusted", "revision.py:Revision.get_parent")],
     ["restores", "store files", "trust state"])

prop("C07", "Incremental streams are applied exactly or rejected",
     "Applying any well-formed Ceph diff stream to a revision yields exactly the old content, resized as stated, with the stream's data and "
     "zero records applied in order, whatever their sizes, offsets, overlap or number. A stream that ends early at any byte, has a "
     "wrong header or unknown record type, carries metadata after data, or names other snapshots is rejected with an error.",
     ["inputs"],
     "all base contents x all record sequences x all truncation points and byte mutations of framing",
     "Tests parse one recorded sample and a few hand-written broken streams.",
     ["rbd/rbd.py", "utils.py", "rbd/chunked/file.py"],
     [("stream parser and integration", "rbd/rbd.py:RBDDiffV1"), ("zeroing", "utils.py:punch_hole")],
     ["target content", "exceptions"])

prop("C08", "Source failures never produce a false backup",
     "If any step of a backup fails (a source command exits with an error or hangs up mid-stream, its output is cut off, or comparison with the source "
     "finds a difference), the backup reports failure or, if it reports success, the new revision is complete and exact. "
     "A failed backup leaves no revision counted as complete with wrong content and does not harm existing revisions. "
     "Once the source works again, the next backup succeeds and restores exactly without manual repair.",
     ["fault_sequences"],
     "every source command of a full or incremental backup x every kind of failure x every cut-off point, in sequences of several backups",
     "The tests mock the client with success outputs; failures of single commands in the middle of a backup are not injected.",
     ["rbd/__init__.py", "rbd/rbd.py", "source.py", "repository.py", "utils.py"],
     [("backup bracket and removal on failed verification", "rbd/__init__.py:RBDSource.backup"),
      ("comparison with the source", "utils.py:files_are_roughly_equal"),
      ("exit status", "source.py:Source.main")],
     ["exit status", "complete revisions", "restores"])

prop("C09", "Backups leave the source's snapshots tidy and foreign ones alone",
     "Backups create and delete only snapshots carrying backy's own prefix on the configured image; other snapshots, other images and the live "
     "image are never modified, and every image mapping is undone. Unless creating or deleting one fails, a finished backup leaves at most one own "
     "snapshot: after a success that of the newest own revision, so that the next backup can be incremental, and none in "
     "always-full mode; snapshot requests via Consul are withdrawn, those of other machines or tools stay.",
     ["histories", "configurations", "fault_sequences"],
     "all initial snapshot sets, names, histories of successful and failing backups, always-full and Consul modes, garbage in the Consul key space",
     "Tests check one clean-up with three snapshots and one Consul exchange.",
     ["rbd/__init__.py", "rbd/rbd.py"],
     [("snapshot clean-up", "rbd/__init__.py:CephRBD._delete_old_snapshots"), ("Consul requests", "rbd/__init__.py:CephRBD.create_snapshot")],
     ["snapshots/mappings of the pool", "Consul key space"])

prop("C10", "Killing any operation at any instant loses nothing",
     "If a backup, verification, expiry, removal, tag edit, distrust or garbage collection is killed at any instant, every revision that was complete "
     "before and was not meant to be deleted still restores exactly, every metadata file is readable, and no half-made revision "
     "counts as complete. After the normal next run (clean-up, backup, garbage collection) the repository works again without "
     "manual repair, and the new backup is exact.",
     ["crash_points", "histories"],
     "every filesystem effect or source command of every operation as kill point, over generated repositories",
     "No test interrupts an operation.",
     ["repository.py", "revision.py", "utils.py", "rbd/__init__.py", "rbd/chunked/file.py", "rbd/chunked/chunk.py"],
     [("temporary file + rename", "utils.py:SafeFile, rbd/chunked/chunk.py:Chunk.flush"),
      ("completeness mark written last", "rbd/__init__.py:RBDSource.backup"), ("clean-up of incomplete revisions", "repository.py:Repository._clean")],
     ["restores after restart", "*.rev files"])

prop("C11", "Completed revisions and metadata survive power loss",
     "At every instant of every operation, if power is lost and only explicitly synchronised data survives, each revision that is on record as "
     "complete has its metadata and all its data durably stored, and an image backup is not reported successful before that is durable. Every metadata, configuration and report file is then either "
     "entirely the previous or entirely the new version, never a mixture, empty or missing. When the power is back, complete revisions restore exactly, and the next backup succeeds and restores exactly "
     "whatever an interrupted one has left behind.",
     ["crash_points"],
     "every prefix of filesystem effects of backups, tag edits, distrust, verify, config and report writes, with unsynchronised file data dropped; several power losses in a row",
     "Tests never look at synchronisation; losing an fsync is invisible without a model of what survives.",
     ["utils.py", "revision.py", "rbd/__init__.py", "rbd/chunked/file.py", "source.py", "report.py"],
     [("fsync before rename", "utils.py:SafeFile.__exit__"), ("global sync", "rbd/__init__.py:RBDSource.backup"),
      ("fsync of the mapping", "rbd/chunked/file.py:File.flush")],
     ["modelled durable state of the repository directory"])

prop("C12", "Conflicting operations on one repository never overlap",
     "Backups, removals, expiry, tag edits, distrust and metadata synchronisation of one repository exclude each other, and garbage "
     "collection excludes running backups, restores and verifications, across processes, for the whole duration of the operation. "
     "A refused operation fails at once, changes nothing and, like every finished or failed one, leaves no lock behind; restores may run beside backups and each other.",
     ["schedules"],
     "all pairs of operations (and handles/processes) overlapping at any point, including failing and asynchronous ones",
     "No test runs two operations at the same time.",
     ["repository.py", "rbd/__init__.py", "daemon/scheduler.py"],
     [("flock based locks", "repository.py:Repository.lock/locked")],
     ["exceptions", "directory contents", "order of effects"])

prop("C13", "Revision metadata and history survive storing and reloading",
     "Saving a revision's metadata and loading it again, from disk or through the JSON interface, preserves identity, time, tags, original tags, trust, "
     "origin server and statistics for all legal values. A repository's history always lists each stored revision exactly once, oldest "
     "first, ignores symbolic links and unrelated files, and classifies complete, own and foreign revisions accordingly.",
     ["inputs", "histories"],
     "all legal field values (any Unicode tags, timestamps, numbers), any set of files and links in the directory, any order of creation",
     "Tests round-trip two fixed revisions.",
     ["revision.py", "repository.py", "utils.py", "daemon/api.py"],
     [("YAML form", "revision.py:Revision.to_dict/from_dict/load/write_info"), ("scan", "repository.py:Repository.scan/get_history"),
      ("JSON form", "utils.py:BackyJSONEncoder")],
     ["loaded revisions", "history lists"])

prop("C14", "Revision specifications select exactly what they describe",
     "Every revision specification (numbers, ids, first/last/latest, tag:, trust:, server:, local/remote/clean/all, dates, ranges, unions, intersections, "
     "parentheses, first/last/not/reverse) selects exactly the revisions, in the order, that its documented meaning gives for the "
     "current history. Anything malformed or matching nothing where one is required raises an error and never selects something else.",
     ["inputs", "histories"],
     "all specification expressions up to bounded nesting x all histories (sizes, tags, trust, servers, timestamps)",
     "Tests evaluate a few dozen fixed strings against one four-revision history.",
     ["repository.py", "utils.py"],
     [("parser/evaluator", "repository.py:Repository.find_revisions/find/index_by_token/index_by_date")],
     ["returned revisions", "stdout of rev-parse"])

prop("C15", "Tag edits are all-or-nothing and do exactly what was asked",
     "A tag edit (set, add, remove) changes exactly the selected revisions to exactly the requested tags, and with auto-remove deletes exactly those left "
     "without tags. If a stated expectation differs from any selected revision's current tags, or a tag to be set or added is unknown to the schedule "
     "and not manual (unless forced), nothing at all changes and failure is reported.",
     ["inputs", "histories"],
     "all histories, selections, actions, tag sets, expectations, flags, and concurrent edits since the caller last looked",
     "Tests cover one revision and fixed tags for each action.",
     ["repository.py", "revision.py", "cli/__init__.py"],
     [("tags operation", "repository.py:Repository.tags/validate_tags"), ("CLI parsing", "cli/__init__.py:Command.tags")],
     ["tags in *.rev", "exit status"])

prop("C16", "Expiry keeps what the schedule promises and drops the rest",
     "Expiry takes a schedule tag off a revision exactly when at least `keep` newer revisions carry that tag and the revision is older than keep times "
     "the tag's interval; manual tags are never touched and tags unknown to the schedule are dropped. Exactly the revisions left "
     "without any tag are deleted (those owned by another server are only emptied of tags), so the newest `keep` copies per tag always survive.",
     ["histories", "configurations"],
     "all schedules (intervals, keep counts) x all histories of timestamps, tags, servers x all current times",
     "Tests expire three hand-made histories.",
     ["schedule.py", "repository.py", "revision.py"],
     [("expire", "schedule.py:Schedule.expire")],
     ["remaining *.rev files and their tags"])

prop("C17", "Scheduling is periodic, spread, and catches up on missed backups",
     "For every schedule, time and job the computed next backup lies in the future, at most one interval away, on a fixed grid per tag that is "
     "shifted by the job's stable spread, with exactly the tags that are due then plus all overdue ones. If tags are overdue, some history exists and the "
     "regular run is more than five minutes away, a backup of exactly the overdue tags is due now.",
     ["inputs", "configurations", "histories"],
     "all intervals, spreads, times, job names and histories (including incomplete, foreign and ad-hoc tagged revisions)",
     "Tests check a few fixed dates with two intervals.",
     ["schedule.py", "daemon/scheduler.py", "repository.py"],
     [("grid", "schedule.py:next_in_interval/Schedule.next/_missed"), ("spread", "daemon/scheduler.py:Job.spread")],
     ["next_time/next_tags"])

prop("C18", "Status and check tell the truth about backup freshness",
     "A job counts as overdue exactly when its newest complete revision is older than one and a half times the schedule's shortest interval; "
     "incomplete revisions never count, and a job without any complete revision is not reported overdue. `check` exits with 2 when overdue, 1 when only problem reports exist, "
     "0 otherwise, taking the worst over all jobs, and status reports the matching time, tags, duration, counts for every job.",
     ["histories", "configurations"],
     "all histories, schedules, current times, report sets and numbers of jobs",
     "Tests use one fixed clock and single revision.",
     ["repository.py", "cli/__init__.py", "daemon/__init__.py"],
     [("SLA", "repository.py:Repository.sla/sla_overdue"), ("check", "cli/__init__.py:Command.check"), ("status", "daemon/__init__.py:BackyDaemon.status")],
     ["exit status", "status records"])

prop("C19", "The job loop retries with backoff, respects worker limits and never dies",
     "Every job runs its backups in order of deadlines for as long as the daemon lives: after a failure of any step it retries after 2, 4, 8 ... up to 360 minutes, after a "
     "success the backoff is reset and the schedule applies again. Never more than the configured number of backups run at once per "
     "speed class, no failure of one job stops another, and a stopped job starts nothing further.",
     ["schedules", "fault_sequences", "configurations"],
     "all sequences of step outcomes and durations over several jobs, worker limits, manual triggers and stops, in virtual time",
     "Tests run the loop once or twice with mocks for one job.",
     ["daemon/scheduler.py", "daemon/__init__.py"],
     [("loop", "daemon/scheduler.py:Job.run_forever"), ("semaphores", "daemon/__init__.py:BackyDaemon._apply_config")],
     ["start/end of backups in virtual time", "job status"])

prop("C20", "Reloading converges to exactly the configured jobs",
     "After any sequence of configuration changes and reloads, the daemon runs exactly the configured jobs, each with its current source and schedule, and API "
     "settings, peers and defaults equal those of a daemon freshly started with the last configuration. Unchanged jobs keep "
     "running undisturbed, removed jobs are stopped and listed as dead backups, an invalid configuration terminates the daemon "
     "instead of leaving it half configured.",
     ["histories", "configurations"],
     "all sequences of configurations differing in jobs, schedules, sources, limits, tokens, peers",
     "Tests reload once with one fixed change each.",
     ["daemon/__init__.py", "daemon/scheduler.py", "source.py"],
     [("read/apply", "daemon/__init__.py:BackyDaemon._read_config/_apply_config"), ("job configuration", "daemon/scheduler.py:Job.configure")],
     ["daemon state vs. a fresh daemon", "config files written for jobs"])

prop("C21", "The HTTP interface authenticates every request and changes only what it says",
     "Every request without a currently configured token is refused with 401 whatever its method, path or headers, reveals nothing and changes nothing. Authorised requests "
     "answer with the documented status and data; requests naming unknown or active backups where only dead ones are allowed "
     "get 404 or 403, and tag updates are compare-and-swap: they apply only if the stated old tags still hold (else 412), 503 while locked, and malformed ones are refused with 400 and change nothing.",
     ["inputs", "histories"],
     "all requests (methods, paths, names, headers, bodies) against all combinations of active and dead backups, token changes and lock states",
     "Tests use one valid and one invalid token and a fixed set of calls.",
     ["daemon/api.py", "repository.py"],
     [("auth middleware", "daemon/api.py:BackyAPI.require_auth"), ("handlers", "daemon/api.py:BackyAPI")],
     ["HTTP status and body", "repository directories"])

prop("C22", "Metadata of peer servers is mirrored and local edits reach their owner",
     "Pulling makes a job's local view of each reachable peer equal to the complete revisions the peer itself owns, drops those of peers no longer configured, and "
     "never alters own revisions or those of peers that cannot be reached (a peer that answers with an error status may count as having nothing); a peer's backup that is used is marked as in use there. Pushing applies locally edited tags at the owner only if "
     "the owner's tags have not changed meanwhile, deletes revisions left without tags there, and never overwrites a change made by the owner.",
     ["histories", "schedules", "fault_sequences"],
     "all interleavings of edits, expiries, pulls and pushes between servers, with unreachable peers and HTTP errors",
     "Tests run one push and one pull against fixed peers.",
     ["daemon/scheduler.py", "daemon/api.py", "repository.py", "revision.py"],
     [("pull/push", "daemon/scheduler.py:Job.pull_metadata/push_metadata"), ("tag compare-and-swap", "daemon/api.py:BackyAPI.put_tags")],
     ["*.rev files on all servers"])

prop("C23", "A job yields to a leading server but never starves",
     "With several servers backing up the same job, a server leaves a due backup to a peer only if that peer owns more complete revisions and is active for it, and gives "
     "up waiting when the peer finishes (no own backup then), stops, becomes unreachable, errs, or is not scheduled soon, or when a run is triggered "
     "manually. While it waits it asks that peer at least every five minutes and stops waiting as soon as one of these answers arrives; whatever peers answer, the job keeps running.",
     ["fault_sequences", "schedules", "inputs"],
     "all sequences of peer status answers, errors and malformed data over virtual time, all revision counts, manual triggers at any time",
     "Tests play a few fixed status sequences.",
     ["daemon/scheduler.py", "daemon/api.py"],
     [("leader choice and wait", "daemon/scheduler.py:Job._wait_for_leader")],
     ["decision and time of decision"])

prop("C24", "The daemon deletes only directories untouched for three months",
     "The periodic clean-up deletes a directory below the base directory only if neither it nor anything inside was changed within the last 93 days, never follows symbolic "
     "links, never touches plain files or anything outside, and does delete such stale directories. Dead backups with a pending purge are garbage "
     "collected; a failure with one entry keeps neither the others from being cleaned up nor the clean-up from running again.",
     ["inputs", "histories"],
     "all directory trees, modification times (around the limit), links, and pending-purge marks",
     "Tests use two directories with fixed times.",
     ["daemon/__init__.py", "utils.py"],
     [("purge", "daemon/__init__.py:BackyDaemon.purge_old_files/purge_pending_backups"), ("change detection", "utils.py:has_recent_changes")],
     ["paths deleted", "paths garbage collected"])

prop("C25", "File backups restore exactly and survive garbage collection",
     "For the plain file source every successful backup restores the exact content the file had, for any later history of changes, backups, removals, expiry, "
     "verification and garbage collection. Garbage collection never removes the metadata or data of an existing revision, and verification "
     "of an existing, stored revision never alters it.",
     ["histories"],
     "all histories of file changes, backup, tags, rm, expire, verify, gc, restore through the command line",
     "Tests back up and restore one file once and never run garbage collection with revisions.",
     ["file/__init__.py", "source.py", "repository.py"],
     [("file source", "file/__init__.py:FileSource")],
     ["restored files", "*.rev files"])

prop("C26", "Old repository layouts are migrated without loss",
     "Opening a repository in the older chunk store layout converts it so that every revision restores exactly as before and nothing else is lost, also when the conversion is "
     "interrupted at any point and resumed by the next start. Metadata written by older versions loads with safe defaults.",
     ["crash_points", "inputs"],
     "all old-layout stores (mixtures of layouts, stray files), every interruption point, all subsets of optional metadata fields",
     "The migration is only exercised on empty stores by the tests.",
     ["rbd/chunked/store.py", "revision.py"],
     [("conversion", "rbd/chunked/store.py:Store.convert_to_v2"), ("defaults", "revision.py:Revision.from_dict")],
     ["files in chunks/", "restores"])

prop("C27", "Detected differences are quarantined with complete evidence",
     "Whenever comparing a new backup with its source finds a difference, the backup is rejected and a report is stored with the offset and exact copies "
     "of both differing pieces; it is listed, shown and deleted exactly on request and keeps `check` warning until deleted. Comparing equal content never "
     "reports anything, and a comparison of everything never misses a difference.",
     ["inputs", "fault_sequences"],
     "all contents and differences (position, size, length), repeated differences, any order of list/show/delete",
     "Tests store one fixed report.",
     ["report.py", "utils.py", "repository.py", "cli/__init__.py", "rbd/__init__.py"],
     [("comparison", "utils.py:files_are_equal/files_are_roughly_equal"), ("report", "report.py:ChunkMismatchReport"), ("CLI", "cli/__init__.py:reports_*")],
     ["quarantine directory", "exit status and output of the reports commands"])

prop("C28", "Commands report the truth and read-only commands change nothing",
     "For every command line invocation the exit status is zero exactly if the requested effect was achieved, what is printed agrees with the "
     "repository (and for the daemon's commands with the daemon), and a failing command leaves complete revisions untouched and nothing half-made "
     "behind, per repository and except for what `gc --expire` had already expired. Commands that only look (log, rev-parse, check, reports list/show, restore), and all "
     "commands with --dry-run, never modify a repository.",
     ["inputs", "histories"],
     "all sequences of command lines over generated repositories, including invalid specifications, locked repositories and failing sources",
     "Tests call single commands with mocked functions and compare fixed output.",
     ["cli/__init__.py", "source.py", "repository.py"],
     [("command dispatch", "cli/__init__.py:Command.__call__"), ("source process", "source.py:Source.main/CmdLineSource.run")],
     ["exit status", "stdout", "repository directory"])

prop("C29", "Overwriting and replacing files keeps exactly the intended bytes",
     "Copying onto an existing target always leaves exactly the source's bytes and length, whatever was there before, and the sparing copy does not write regions "
     "that are already identical. Zeroing a range changes exactly that range, and replacing a file through a temporary one either "
     "yields the complete new content or, on any error, leaves the old file and no leftovers.",
     ["inputs", "fault_sequences"],
     "all pairs of source/target contents and sizes around block boundaries, all zero ranges, all error points while replacing",
     "Tests copy two fixed files.",
     ["utils.py"],
     [("copies", "utils.py:copy/copy_overwrite/punch_hole"), ("replacement", "utils.py:SafeFile")],
     ["file contents", "writes issued", "directory listing"])

prop("C30", "Several servers together keep a job backed up",
     "When a job is configured on several servers that know each other as peers, then whatever combination of servers, connections and backups fails, as long as one of the "
     "servers runs the job and can make backups, a new complete revision appears at the latest one interval (plus the time that running backups, retries and polling take) after "
     "the last one; a server that follows a healthy leader makes no backups of its own; no server gives up a revision "
     "unless as many newer revisions with its tag as the schedule keeps exist on all servers together; and once things are quiet, every server's view of the others' revisions is "
     "what they really have.",
     ["histories", "fault_sequences", "schedules", "configurations"],
     "all sequences of server stops and restarts, broken connections, failing backups, reconfigurations and triggers over several days on 2-3 servers",
     "Tests look at one decision or one request between two servers at a time; the guarantee emerges from loops of several servers over days.",
     ["daemon/scheduler.py", "daemon/api.py", "daemon/__init__.py", "schedule.py", "repository.py"],
     [("leaders", "daemon/scheduler.py:Job._wait_for_leader"), ("loop", "daemon/scheduler.py:Job.run_forever"), ("synchronisation", "daemon/scheduler.py:pull_metadata/push_metadata"),
      ("expiry", "schedule.py:Schedule.expire/next")],
     ["times of all complete backups", "revisions of all servers", "mirrored metadata"])

prop("C31", "Logging never gets in the way and loses nothing",
     "Logging an event never raises and never changes the outcome of an operation or stops a job: not when the log file or the console cannot be written (disk full, "
     "reader gone), and not because of unusual names, values, exceptions or callback output. Every event is appended completely and in order to the log file with its "
     "time, task, level, job, name, values, outputs and exception, and to the console exactly if it is more severe than a debug message or verbose output was asked for; "
     "one unusable destination does not affect the other, and logging goes on when a destination works again.",
     ["inputs", "fault_sequences"],
     "all events (values, names, outputs, exceptions), all combinations of working, full, broken and temporarily full destinations, under all operations and daemon histories",
     "Tests replace the log destinations by a list and log a few well-behaved events; the effect of an unusable destination on a backup or a job loop is never seen.",
     ["logging.py", "daemon/scheduler.py", "source.py", "cli/__init__.py"],
     [("rendering", "logging.py:ConsoleFileRenderer"), ("exceptions", "logging.py:process_exc_info/format_exc_info"), ("distribution", "logging.py:MultiOptimisticLogger"),
      ("callback output", "daemon/scheduler.py:Job.run_callback")],
     ["log file", "standard error", "exit status and effect of operations", "processes started by the daemon"])

prop("C32", "A daemon is alone, obeys signals and ends cleanly",
     "At most one daemon works on a base directory: a second one that is started meanwhile (also at the same moment, or with another configuration of the same base directory) ends "
     "with status 69 without having touched anything, and once the first has ended or was killed a new one starts. SIGHUP takes over the current configuration (jobs, API tokens, "
     "API port): running processes of unchanged jobs go on, those of removed jobs end. SIGTERM, SIGINT and SIGQUIT end it soon with exit status 0, and so does (with any status) "
     "a SIGHUP with an invalid configuration; afterwards its API does not answer, no process that it started (backup, expiry, callback) goes on, and no new one starts.",
     ["histories", "schedules", "configurations"],
     "all sequences of starts, second starts, signals, valid and invalid configurations, triggers and kills with any combination of running backups, expiries and callbacks",
     "Tests call the signal-independent methods in the test's own event loop; no test starts, signals or ends a real daemon with running processes.",
     ["daemon/__init__.py", "daemon/scheduler.py"],
     [("lock", "daemon/__init__.py:BackyDaemon.lock/start"), ("signals", "daemon/__init__.py:BackyDaemon.start/reload/terminate"), ("end", "daemon/__init__.py:BackyDaemon.shutdown_loop"),
      ("processes", "daemon/scheduler.py:Job.run_backup/run_expiry/run_callback")],
     ["exit status", "processes", "API", "base directory"])

prop("C33", "The completion callback is told about every finished backup",
     "After each backup that the daemon has completed, and after a leading server has completed one instead, the configured callback is started exactly once, with the job's name "
     "as its only argument. Its standard input is the list of all revisions of that job, own ones and those just fetched from reachable peers, exactly as the repository has them at "
     "that moment. It is not started when no backup was completed, and whatever it does (fails, cannot be started, takes long, prints anything) the job goes on.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of backups, failures, expiry, tag edits, peers' backups, network failures and reconfigurations on one or several servers, and all behaviours of the callback",
     "Tests call the callback once by hand after one backup on a single server.",
     ["daemon/scheduler.py"],
     [("callback", "daemon/scheduler.py:Job.run_callback"), ("when it is called", "daemon/scheduler.py:Job.run_forever")],
     ["processes started by the daemon and their standard input", "*.rev files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
