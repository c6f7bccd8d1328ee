"""What each check is, for the driver and the manifest (runs under any Python 3)."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "file names are valid UTF-8; both directories are on a POSIX file system with sub-second mtimes (tmpfs here)",
    "the program runs under the PyPy 3.9 interpreter the repository's tests use",
]
HISTRULE = ("random multi-client histories (edits on every side, option and exclude changes, real CLI commands), each command observed through "
            "an LD_PRELOAD monitor and full snapshots of local, remote, trash and databases, judged against an independent reference model; ")

MODEL = "LD_PRELOAD syscall monitor + snapshots judged against an independent reference model, over random multi-client histories"
HNOTE = ("Held on the histories that were run; the oracle is an independent model of one sync (vz/model.py) and a ledger of file contents. "
         "Trusts the snapshot code, the model and that tmpfs behaves as other POSIX file systems do.")


def hist(nontrivial, **kw):
    d = {"level": "exploration", "rule": HISTRULE + "non-trivial: " + nontrivial, "technique": MODEL, "note": HNOTE}
    d.update(kw)
    return d


CHECKS = {
    "C01": hist("local changes were pushed"),
    "C02": hist("remote changes were pulled"),
    "C03": hist("a sync was repeated at once and compared"),
    "C04": hist("there was a conflict"),
    "C05": hist("deletions were propagated"),
    "C06": hist("files went to the trash"),
    "C07": hist("the storage limit was measured"),
    "C08": hist("only part of the files fitted"),
    "C09": hist("files were excluded"),
    "C10": {"level": "fault_enumeration", "rule": "a random history, then one sync killed (SIGKILL before, after or half-way through) at a sampled mutating system call; what is left is compared with what was there, then the sync is run again and compared with an undisturbed run, then all clients sync on under the model; non-trivial: distinct histories whose sync was killed",
            "technique": "fault injection (SIGKILL at system calls) with state oracles against an undisturbed run", "note": "Held at the kill points tried. A kill is a process death: what the kernel has accepted stays (no power failure)."},
    "C11": {"level": "fault_enumeration", "rule": "a random history, then one sync in which sampled system calls fail (ENOSPC, EIO, EACCES, EDQUOT, EROFS; once or from then on; writes, opens and listings), or whose remote directory becomes unreachable or is replaced by an empty mount point, or which is sent SIGTERM or SIGINT; what is left is compared with what was there, then the sync is run again and compared with an undisturbed run; non-trivial: distinct histories whose sync was disturbed",
            "technique": "fault injection (errno, unmounting, signals at system calls) with state oracles against an undisturbed run", "note": "Held at the fault points tried. Only calls that go through libc can be made to fail."},
    "C12": {"level": "exploration", "rule": "part 'arguments': one init with random names, directories, templates, exclude files and answers to the prompts next to an existing profile, judged against the documented rules: refused cleanly with nothing changed anywhere, or done exactly as the reference model says; part 'killed': an init killed (SIGKILL) at a sampled mutating system call, examined, then resumed and compared with an undisturbed one; non-trivial: distinct argument combinations and distinct killed cases",
            "technique": "snapshot and syscall monitors on real init commands with random arguments, plus fault injection (SIGKILL at system calls)", "note": "Held on the argument combinations and kill points tried."},
    "C13": hist("there was a reset, or a reset was killed at a system call and run again", technique=MODEL + "; resets killed at system calls"),
    "C14": {"level": "exploration", "rule": "a random history, then one command (sync, reset, empty-trash, init) stopped with SIGSTOP at a sampled read or change; meanwhile other commands on the same profile (by name or path) must be refused without changing anything and another profile must sync; then the first one goes on or is ended by a signal, and the profile must be available again with the result of an undisturbed run; also several commands started at once; non-trivial: distinct histories whose command was stopped",
            "technique": "schedule control (SIGSTOP at system calls) and races of real processes, with snapshot oracles", "note": "Held for the pairs of commands and the points tried."},
    "C15": {"level": "exploration", "rule": "histories full of hostile symlinks (to files and directories outside, to other places inside, in place of synced files and of whole directories with files of the same names behind them, in the trash, on either side) and patterns that lead outside; after every command everything outside the two directories is compared, the directories are searched for the contents of files outside, and for unsafe symlinks that got across; non-trivial: distinct histories with hostile links",
            "technique": "LD_PRELOAD syscall monitor, snapshots of everything outside and unique file contents as taint, over random histories of hostile links", "note": "Held on the histories tried. Reads through links are seen by the contents that get across."},
    "C16": hist("commands were run while the remote directory was missing, empty, a file, a wrong link, unreadable or not initialised"),
    "C17": hist("part 'operations': random sequences of operations on both database classes, compared with a plain tree after every one; part 'histories': syncs whose databases are compared with the trees", technique=MODEL + "; random operation sequences against a model tree"),
    "C18": {"level": "exploration", "workers": 16, "rule": "the real daemon with real inotify events on random trees: bursts of reads, reads around the cooldown, reads of placeholders, of new and excluded files, moving the clock to adjustments and syncs, failing syncs, moved and replaced directories, mistakes in the config file, more events than the kernel keeps, locked databases, restarts; after every step the recorded priorities must be exactly those worked out from the reads and the clock, the syncs that were started must be those that were due, and SIGTERM must end it cleanly; non-trivial: distinct sequences of steps",
            "technique": "runtime monitoring of the real daemon under a moved clock (LD_PRELOAD), with an exact model of the priorities", "note": "Held for the sequences tried. The pauses between its rounds are shortened; the cooldown is real time, so cases on an overloaded machine are set aside."},
    "C19": {"level": "exploration", "rule": "part 'values': random config files read by the real profile object, every value compared with its documented meaning worked out independently; part 'refuse': commands run with wrong config files must fail cleanly, name the option and change nothing; part 'template': init with random templates and interactive answers, the resulting config file compared with the template; non-trivial: distinct sets of files",
            "technique": "differential monitoring of the real parser and commands against an independent reading of the documentation", "note": "Held for the files tried."},
    "C20": hist("local changes were pushed"),
    "C21": {"level": "exploration", "rule": "random sets of profiles (some half initialised, damaged or without a config file, names that look like paths, local directories reached through symlinks); random commands with a profile named in every way there is and ways that mean nothing, wrong command lines, list and help; the command must act on exactly the profile that an independent resolver finds, everything else must stay byte for byte, and failures must be a message and exit status 1; non-trivial: distinct sequences of commands",
            "technique": "snapshot monitors and an independent resolver over random profiles and command lines of the real command", "note": "Held for the command lines and sets of profiles tried. --debug is documented to print a stack trace."},
    "C22": {"level": "exploration", "rule": "a random history, then one sync stopped with SIGSTOP at a sampled read or change; meanwhile local and remote files are edited, or another client edits and syncs; then it goes on: everything that was written meanwhile and everything an undisturbed sync keeps must survive, the next syncs must succeed, and after four rounds all clients must show the tree of the remote directory; non-trivial: distinct histories whose sync was stopped",
            "technique": "schedule control (SIGSTOP at system calls) of a real sync with edits and other real syncs in between, with content and convergence oracles", "note": "Held for the interleavings tried. Edits made between the last look at a file and the system call that replaces it are out of reach of any program and left out."},
}



def known_findings(prop):
    """The listed findings of a property (lines 'known: property=<id> <what>')."""
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    out.append(line.split(" ", 2)[2].strip())
    except OSError:
        pass
    return out
