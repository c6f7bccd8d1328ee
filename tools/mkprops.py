#!/usr/bin/env python3
"""Write properties.jsonl (the properties, stated once, here)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mechanism], "observe_at": observe, "hook_needed": None}})

SYNC = ["zielen/commands/sync.py", "zielen/filelogic.py"]
TREES = ["the trees of the local and the remote directory before and after each command"]

prop("C01", "No version of a file is ever lost by syncing",
     "Any content that a user put into a local directory or into the remote directory since the last sync still exists after a sync, under its own name, under a conflict name or in the trash, unless a deletion of that same unchanged file was propagated. A file that neither side touched is never removed or changed by a sync. This holds for any number of clients and any sequence of edits and syncs.",
     ["histories", "inputs"], "all sequences of edits (create, modify, replace, rename, delete, swap a file for a directory) on any client or in the remote directory, interleaved with syncs, over all file names and sizes",
     "The tests sync a handful of fixed trees once with one client; loss shows after particular multi-step histories of several clients.",
     SYNC + ["zielen/fstools.py"], [("deletions, conflicts, pushes and pulls in that order", "SyncCommand.main"), ("conflict handling", "FilesManager.handle_conflicts"), ("deletion detection", "FilesManager.compute_deleted")], TREES)

prop("C02", "After a sync, local and remote show the same files with the same content",
     "After a successful sync, every synced path in the remote directory appears locally at the same relative path, as a directory, as an identical copy or as a symlink to the remote file, and every new or modified local file appears identically in the remote directory; nothing else appears or disappears on either side. Once editing stops, syncing each client a few times makes all clients show the same tree.",
     ["histories", "inputs"], "all histories of edits and syncs of up to three clients, and all names, nesting depths, file types and sizes",
     "The tests compare a few fixed trees; they never run two clients, a second sync after edits on both sides, or unusual names.",
     SYNC, [("computing what is new or modified", "FilesManager.compute_added / compute_modified"), ("pushing and pulling", "FilesManager.update_remote / update_local")], TREES)

prop("C03", "Syncing again when nothing has changed changes nothing",
     "If nothing was edited since the last sync, another sync leaves the local directory, the remote directory, the trash, the recorded priorities and the databases as they are, copies no remote file again and creates no conflict copies. This holds however complicated the history before it was.",
     ["histories", "inputs", "configurations"], "all histories followed by a repeated sync, with any storage limit, exclude patterns and options",
     "No test syncs twice; spurious changes appear only after particular histories (equal mtimes, conflicts, limits that do not fit everything).",
     SYNC, [("time of the last sync and scan", "SyncCommand.main"), ("mtime and content comparison", "FilesManager.compute_modified")], TREES + ["both sqlite databases before and after"])

prop("C04", "Conflicting edits keep both versions and rename the older one",
     "When a path was changed both locally and in the remote directory since the last sync, the version with the newer mtime keeps the name, and the other is kept next to it as '<stem>_conflict-<YYYYmmdd-HHMMSS><ext>' in local time, with its content and mtime. Identical files and directories on both sides are not conflicts; a file against a directory renames the file; no existing file is ever overwritten by a conflict copy.",
     ["histories", "inputs"], "all pairs of concurrent edits on a path (create, modify, replace by a directory or symlink), all orders of mtimes including equal ones, all file names",
     "The tests check one conflict on one name; ties, extensions, names already taken, kind changes and several clients are not reached.",
     SYNC, [("conflict resolution", "FilesManager.handle_conflicts"), ("renaming", "FilesManager._rename_files")], TREES)

prop("C05", "Deletions propagate both ways, but never beat an edit",
     "A path that was synced and then deleted on one side is removed from the other side by the next sync, together with everything below it that was deleted too. A path that was modified or created on the other side since then is not removed and neither are the directories that contain it, and local files that are excluded are never removed.",
     ["histories", "inputs"], "all histories in which files or whole directories are deleted on any side, with or without concurrent edits below or above them",
     "The tests delete single files from fixed trees; deletions racing with edits in the same subtree by another client are not tested.",
     SYNC, [("deletion detection", "FilesManager.compute_deleted"), ("removal", "FilesManager.rm_local_files / rm_remote_files / trash_files")], TREES)

prop("C06", "Files that exist only in the remote directory go to the trash when deleted",
     "When a deletion is propagated to the remote directory and the deleted files were only symlinks in the deleting client, the files are moved to the trash with their content, without overwriting anything there, and not unlinked (unless UseTrash is off). Files leave the trash only when they have been there for longer than TrashCleanupPeriod, or by empty-trash, which deletes all and only what is in the trash and reports how many.",
     ["histories", "inputs", "configurations"], "all histories of deletions of kept and unkept files and directories, names that collide in the trash, every cleanup period and age",
     "The tests trash a few files with distinct names; colliding names, whole directories, mixed directories and ages around the cleanup period are not covered.",
     SYNC + ["zielen/commands/empty_trash.py"], [("trash", "FilesManager.trash_files"), ("cleanup", "FilesManager.cleanup_trash")], TREES + ["the trash directory before and after"])

prop("C07", "Kept files and symlinks never exceed the storage limit",
     "After a sync, the disk usage of the synced files kept in the local directory, plus that of the symlinks standing for the others, plus that of excluded local files, does not exceed StorageLimit whenever any file is kept. Limits may be given in any documented unit and may change between syncs.",
     ["histories", "inputs", "configurations"], "all trees, file sizes around block boundaries, priorities, limits and units, and histories in which sizes or the limit change",
     "The tests sync a small tree under a few limits; sizes next to a block boundary, directories, excluded files and changing limits are not explored.",
     SYNC + ["zielen/userdata.py"], [("selection", "FilesManager.prioritize_dirs / prioritize_files"), ("limit parsing", "ProfileConfigFile")], TREES)

prop("C08", "Which files are kept is decided by priority as documented",
     "Directories are considered before files, in order of priority (per byte when AccountForSize is set), and whatever fits into the remaining space is kept, so a file is not left out while one of lower rank takes up space it would fit in. A sync carries priorities over unchanged, gives new local files the highest existing priority when InflatePriority is set and 0 otherwise, and gives files that arrive from the remote directory 0; directories have the sum of their files' priorities.",
     ["histories", "inputs", "configurations"], "all assignments of priorities and sizes to trees, all limits, and both settings of AccountForSize and InflatePriority",
     "The tests check a few hand-made selections; optimality of the choice for arbitrary trees and the life of priorities through histories are not checked.",
     SYNC + ["zielen/userdata.py"], [("selection", "FilesManager._prioritize / prioritize_dirs / prioritize_files"), ("priorities", "ProfileDBFile.add_paths / add_inflated")], TREES + ["the priorities in the profile database"])

prop("C09", "Excluded files stay local, and leave the remote only if all clients exclude them",
     "Local files matching a client's exclude patterns (and anything below a matching directory) are never copied to the remote directory when new, and are never changed or removed locally. A file already in the remote directory that becomes excluded is copied to the client in full and is removed from the remote directory only once every client excludes it. Patterns follow the documented globbing rules.",
     ["histories", "inputs", "configurations"], "all exclude pattern sets per client, changing over time, and all trees and histories",
     "The tests exclude one name with one pattern; patterns with anchors, **, classes, changes over time and disagreement between clients are not tested.",
     SYNC + ["zielen/userdata.py", "zielen/utils.py"], [("pattern matching", "ProfileExcludeFile.all_matches"), ("removal once agreed", "RemoteDirectory.check_excluded / FilesManager.rm_excluded_files")], TREES + ["the stored exclude files"])

prop("C10", "A sync killed at any point loses nothing and the next sync completes it",
     "If the program is killed at any moment of a sync, every file content that existed before still exists in the local directory, the remote directory or the trash, and no file is left incomplete under a synced name. Running sync again succeeds without manual repair and ends in the same synced state as an uninterrupted sync, and leaves no temporary files behind locally.",
     ["crash_points", "histories"], "every system call that changes the file system during a sync (before it, after it, half-way through a write), after any history",
     "The tests never interrupt anything.",
     SYNC + ["zielen/fstools.py", "zielen/containerbase.py"], [("atomic replacement", "fstools._replace_file"), ("databases committed last", "SyncCommand.main")], ["every mutating system call of the process", "both trees after the kill and after the retry"])

prop("C11", "I/O errors and a vanishing remote directory never damage files",
     "If reading or writing fails at any point of a sync (no space, I/O error, permission denied), if the remote directory disappears during it, or if the program is told to terminate, no file content is lost and a missing remote directory is never mistaken for deleted files. Once the fault is gone, the next sync succeeds and ends in the same synced state as an undisturbed one.",
     ["fault_sequences", "histories"], "every system call of a sync failing with every plausible errno, once or persistently; the remote directory being unmounted before any system call; SIGTERM at any point",
     "The tests never inject a fault.",
     SYNC + ["zielen/fstools.py"], [("remote check before deletions", "RemoteDirectory.check"), ("atomic replacement", "fstools._replace_file"), ("signal handling", "zielen/cli.py")], ["every system call of the process and its injected result", "both trees after the fault and after the retry"])

prop("C12", "Initialization is faithful, validates its input and can be interrupted",
     "init moves every local file to the remote directory and represents it (or, with an existing remote directory, its contents) locally, loses nothing, and records exactly those files; it refuses directories that do not exist, that another profile uses or that are not both usable, profile names already in use and unsafe combinations, without changing anything. An init killed at any point loses nothing, and running it again completes it.",
     ["inputs", "configurations", "crash_points"], "all local and remote trees, option combinations (-a, -e, -t), invalid arguments and kill points",
     "The tests initialize one fixed tree and never interrupt it or give invalid input.",
     ["zielen/commands/init.py", "zielen/filelogic.py", "zielen/profile.py"], [("initial copies", "FilesManager.setup_from_local / setup_from_remote"), ("status recorded in the profile", "ProfileInfoFile")], TREES + ["profile files", "exit status and messages"])

prop("C13", "Reset brings back everything and leaves a plain directory",
     "After reset, the local directory contains every file of the remote directory and every local file, with both versions of files changed on both sides, contains no symlinks into the remote directory, and the profile is gone; the remote directory is emptied unless told to keep it, in which case all it contained is still there. With --no-retrieve only the symlinks are removed. If reset is killed at any point nothing is lost and it can be run again.",
     ["histories", "crash_points", "configurations"], "all histories before the reset, all three modes, and all kill points",
     "The tests reset one fixed tree without local changes, other clients or interruptions.",
     ["zielen/commands/reset.py", "zielen/filelogic.py"], [("merging and retrieving", "ResetCommand.main")], TREES)

prop("C14", "No two commands work on one profile at the same time",
     "While a command works on a profile, any other command on that profile fails with a clear error and without changing anything, and commands on other profiles are unaffected. The profile becomes available again as soon as the first command ends, however it ends.",
     ["schedules", "crash_points"], "all pairs of commands, the second started at any point of the first, and all ways in which the first one ends",
     "The tests run one command at a time in one process.",
     ["zielen/commandbase.py", "zielen/utils.py"], [("lock", "Command.lock / unlock")], ["exit status of the second command", "trees, profile and databases before and after it"])

prop("C15", "Nothing outside the two directories is ever written or followed",
     "No command creates, changes or deletes any file outside the local directory, the remote directory, the profile directory and the configuration template, whatever symlinks, names or patterns the directories contain. Symlinks that are absolute or lead out of their directory are never synced and never followed, and the content of the files they point to never ends up on the other side.",
     ["inputs", "histories"], "all placements of symlinks (absolute, relative, dangling, looping, to directories, replacing synced files and directories) and hostile names, on either side, over all histories",
     "The tests contain no hostile symlinks replacing synced files or directories.",
     SYNC + ["zielen/fstools.py", "zielen/commands/reset.py", "zielen/commands/init.py"], [("unsafe symlinks", "fstools.is_unsafe_symlink"), ("scans that do not follow symlinks", "fstools.scan_tree")], ["the path of every mutating system call", "decoy files outside"])

prop("C16", "Without the remote directory, commands fail cleanly and change nothing",
     "If the remote directory is missing, is an empty mount point or is not an initialized remote directory, sync, reset (unless it is told not to retrieve files), empty-trash and init of an existing profile fail with an error message and a non-zero exit status, and change neither the local directory, the profile nor what is at the remote path. When the remote directory is back, syncing continues as if nothing had happened.",
     ["histories", "fault_sequences"], "all histories before the disconnection, all kinds of absence (missing, empty, a file, unreadable), all commands",
     "The tests always have the remote directory in place.",
     SYNC + ["zielen/userdata.py"], [("check", "RemoteDirectory.check")], ["exit status, stderr", "all trees before and after"])

prop("C17", "The databases always describe the synced tree consistently",
     "The profile and remote databases contain exactly the synced paths, with the right kind, each with all its parent directories; a directory's priority is the sum of its children's and it counts as kept only if all its children are. Any sequence of database operations (adding, updating, removing, incrementing, adjusting, renaming through conflicts) preserves this, for any number and naming of paths.",
     ["histories", "inputs", "programs"], "all sequences of the operations of both databases and all histories of syncs, over all path names and batch sizes",
     "The tests check each database operation on one small tree; combinations of operations, special characters and large batches are not covered.",
     ["zielen/userdata.py", "zielen/containerbase.py"], [("closure table and triggers", "ProfileDBFile.create / RemoteDBFile.create")], ["database contents through the API and with SQL"])

prop("C18", "The daemon counts accesses, lets priorities decay and syncs on schedule",
     "While the daemon runs, every read of a synced file raises the recorded priority of that file and its parents, and of no other path, and repeated reads within the cooldown count once. Priorities decay exponentially with the configured half-life while the daemon runs, and syncs are started at SyncInterval. The daemon survives failing syncs, edits, deletions and replaced directories, and ends cleanly when told to.",
     ["schedules", "histories", "configurations"], "all interleavings of file accesses, edits and syncs with the daemon, all half-lives and intervals",
     "The daemon has no tests.",
     ["zielen/daemon.py", "zielen/userdata.py"], [("file access monitoring", "zielen/daemon.py"), ("adjustment", "ProfileDBFile.adjust_all")], ["real inotify events", "priorities in the profile database", "commands that the daemon starts"])

prop("C19", "Configuration values are parsed as documented and invalid ones rejected",
     "Every documented form of every configuration value (directories with ~, sizes in all units, yes/no values in any case, numbers, empty values for defaults) is read with its documented meaning, and any other value is rejected with an error naming the problem before anything is changed. Rewriting the configuration keeps comments and unknown lines and changes no other value.",
     ["inputs", "configurations"], "all strings as values of all options, and all template and config file layouts",
     "The tests check a few valid values of two options.",
     ["zielen/userdata.py", "zielen/containerbase.py"], [("parsing and checking", "ProfileConfigFile / ConfigFile")], ["parsed values through the API", "exit status and stderr of the commands"])

prop("C20", "Syncing preserves metadata: mtimes, permissions and symlink targets",
     "Copies made by init, sync, conflict handling, retrieval and reset have the mtime and the permission bits of the original, at sub-second precision, and symlinks are copied as symlinks with their exact target.",
     ["histories", "inputs"], "all file modes, mtimes (including old ones and sub-second ones), symlink targets, umasks and histories",
     "The tests do not compare modes, and mtimes only where they are the subject of the test.",
     ["zielen/fstools.py", "zielen/filelogic.py"], [("copying", "fstools.copy_file / transfer_tree")], TREES)

prop("C21", "Profiles are found by name or by directory, and failures are reported cleanly",
     "Every command accepts the name of a profile or the path of its local directory (relative, absolute or through symlinks), acts on exactly that profile, and leaves all others alone; list shows every profile with its directories. Whatever the arguments, a failure is reported as a short message on stderr with a non-zero exit status, and never as a traceback.",
     ["inputs", "configurations"], "all sets of profiles (including corrupted and partially initialized ones), all forms of naming one and all command-line arguments",
     "The tests use the command classes with one profile and never the command line.",
     ["zielen/cli.py", "zielen/commandbase.py", "zielen/profile.py", "zielen/commands/list.py"], [("selection of the profile", "Command.select_profile"), ("error handling", "zielen/cli.py")], ["stdout, stderr, exit status", "all profiles and trees before and after"])

prop("C22", "Edits and other clients' syncs during a sync lose nothing",
     "If a user edits local or remote files, or other clients sync, at any moment while a sync is running, no version of a file is lost: edits that the running sync could not take into account are picked up by a later one. After all of them have synced again, all clients show the same tree.",
     ["schedules", "histories"], "an edit or another client's sync at any system call of a running sync, after any history",
     "The tests never run anything concurrently with a sync.",
     SYNC + ["zielen/fstools.py"], [("scan time recorded before scanning", "SyncCommand.main"), ("keep_since when replacing files", "fstools._replace_file")], ["every system call of the running sync", "all trees"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
