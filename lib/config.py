"""What each property's check builds and runs."""
WAIT_HINT = ("wait/*", "Formatter.cpp", "exception/*", "time/*")
MEM_HINT = ("exception/*", "Formatter.cpp")
POOL_HINT = ("thread_pool/*", "wait/*", "Formatter.cpp", "exception/*", "time/*", "utils.cpp")
EVENT_HINT = ("event/Multiple*", "event/Periodic*", "Formatter.cpp", "exception/*", "utils.cpp")
LOG_HINT = ("event/logging/*", "testing/*", "logging/*", "Formatter.cpp", "exception/*", "utils.cpp", "time/*")
FILE_HINT = ("event/FileWatcherHandler.cpp", "Formatter.cpp", "exception/*", "utils.cpp")
STDIN_HINT = ("event/Stdin*", "history/*", "wait/*", "Formatter.cpp", "exception/*", "utils.cpp", "time/*")
TEXT_HINT = ("utils.cpp", "Formatter.cpp", "exception/*", "math/math_extension.cpp")
MISC_HINT = ("utils.cpp", "Formatter.cpp", "exception/*", "time/*", "file/*", "ReturnCode.cpp")
NAMES_HINT = ("ros2_mangling.cpp", "qos/*", "logging/*", "Formatter.cpp", "exception/*", "utils.cpp")
SMISC_HINT = ("Formatter.cpp", "exception/*", "time/*", "math/random/*")
SCHED = "stateful property-based testing: generated thread programs under a controlled random scheduler, results checked against a sequential model, failures shrunk"
SCHED_ASSUME = ["sequentially consistent interleavings at synchronisation and memory accesses (weak-memory effects are left to ThreadSanitizer's race detection)"]
CHECKS = {
    "C01": {"src": "memory.cpp", "flavours": ["asan", "tsan"], "hint": MEM_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["lifetime_schedules", "lifetime_star_calls"]},
    "C02": {"src": "memory.cpp", "flavours": ["asan"], "hint": MEM_HINT, "subs": ["ownership_history"]},
    "C03": {"src": "memory.cpp", "flavours": ["asan"], "hint": MEM_HINT, "subs": ["heritable_history"]},
    "C04": {"src": "db.cpp", "flavours": ["asan", "tsan"], "hint": MEM_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["db_sequential", "db_move_only", "db_concurrent"]},
    "C05": {"src": "db.cpp", "flavours": ["asan", "tsan"], "hint": MEM_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["iterator_locks", "iterator_traversals"]},
    "C06": {"src": "wait.cpp", "flavours": ["asan", "tsan"], "hint": WAIT_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["bool_values", "int_values", "generic_values"]},
    "C07": {"src": "wait.cpp", "flavours": ["asan", "tsan"], "hint": WAIT_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": {"asan": ["bool_disable", "int_disable", "destroy_with_waiters", "disabled_returns_at_once"],
                      "tsan": ["bool_disable", "int_disable"]}},
    "C08": {"src": "waitq.cpp", "flavours": ["asan", "tsan"], "hint": WAIT_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["counter_permits", "counter_disable"]},
    "C09": {"src": "waitq.cpp", "flavours": ["asan", "tsan"], "hint": WAIT_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["queue_delivery", "queue_volume"]},
    "C10": {"src": "waitq.cpp", "flavours": ["asan", "tsan"], "hint": WAIT_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["queue_control", "queue_sequential"]},
    "C11": {"src": "waitq.cpp", "flavours": ["asan", "tsan"], "hint": WAIT_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["dbqueue_sequential", "dbqueue_concurrent"]},
    "C12": {"src": "pool.cpp", "flavours": ["asan", "tsan"], "hint": POOL_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["slot_pool"]},
    "C13": {"src": "pool.cpp", "flavours": ["asan", "tsan"], "hint": POOL_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["task_ids"]},
    "C14": {"src": "event.cpp", "flavours": ["asan", "tsan"], "hint": EVENT_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["event_history", "event_destroy"]},
    "C15": {"src": "event.cpp", "flavours": ["asan", "tsan"], "hint": EVENT_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME + ["virtual clock: time passes only when every thread waits"],
            "subs": ["periodic_times", "periodic_schedules"]},
    "C18": {"src": "log.cpp", "flavours": ["asan", "tsan"], "hint": LOG_HINT, "scale": {"tsan": 0.4}, "technique": SCHED,
            "assumptions": SCHED_ASSUME + ["Fast DDS' log is a stand-in: a queue and one thread that hands entries to the consumers under a mutex"],
            "subs": ["log_history"]},
    "C50": {"src": "log.cpp", "flavours": ["asan", "tsan"], "hint": LOG_HINT, "scale": {"tsan": 0.4}, "technique": SCHED,
            "assumptions": SCHED_ASSUME + ["Fast DDS' log is a stand-in: a queue and one thread that hands entries to the consumers under a mutex"],
            "subs": ["log_checkers"]},
    "C19": {"src": "event.cpp", "flavours": ["asan", "tsan"], "hint": EVENT_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["multiple_events"]},
    "C16": {"src": "signal.cpp", "flavours": ["asan", "tsan"], "hint": EVENT_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME + ["signals are raised by threads of the process, not sent from outside; a delivery is given ten seconds of virtual time"],
            "subs": {"asan": ["signal_history", "signal_exit"], "tsan": ["signal_history"]}},
    "C17": {"src": "stdin.cpp", "flavours": ["asan", "tsan"], "hint": STDIN_HINT, "scale": {"tsan": 0.4}, "technique": SCHED,
            "assumptions": SCHED_ASSUME + ["the input is a stream the harness types on; the terminal calls (ioctl, tcgetattr, tcsetattr) are stand-ins"],
            "subs": ["stdin_history"]},
    "C52": {"src": "logmac.cpp", "flavours": ["asan", "plain", "tsan"], "hint": (), "memory": False, "subs": ["log_macros"],
            "assumptions": ["Fast DDS' log is a stand-in: a queue and one thread that hands entries to the consumers under a mutex"]},
    "C51": {"src": "stdin.cpp", "flavours": ["asan"], "hint": STDIN_HINT, "technique": SCHED,
            "assumptions": SCHED_ASSUME + ["the terminal is an emulator that executes what is written on std::cout: cursor movement, erasing, wrapping in the last column as VT100 and xterm do"],
            "subs": ["terminal_display"]},
    "C20": {"src": "file.cpp", "flavours": ["asan", "tsan"], "hint": FILE_HINT, "scale": {"tsan": 0.4}, "technique": SCHED,
            "assumptions": SCHED_ASSUME + ["watch_schedules: inotify is a stand-in (events of the mask, merging of equal unread events, removal of watches); watch_real_files: the kernel reports a write within 8 s"],
            "subs": {"asan": ["watch_schedules", "watch_real_files"], "tsan": ["watch_schedules"]}},
    "C21": {"src": "stdin.cpp", "flavours": ["asan"], "hint": STDIN_HINT, "subs": ["history_model"]},
    "C22": {"src": "stdin.cpp", "flavours": ["asan"], "hint": STDIN_HINT, "subs": ["command_lines"]},
    "C23": {"src": "text.cpp", "flavours": ["asan"], "hint": TEXT_HINT, "memory": False, "subs": ["bytes_parse", "bytes_print"]},
    "C49": {"src": "options.cpp", "flavours": ["asan"], "hint": ("exception/*",), "memory": False, "subs": ["command_lines", "linked_options", "usage_text"]},
    "C24": {"src": "text.cpp", "flavours": ["asan"], "hint": TEXT_HINT, "memory": False, "subs": ["base64_roundtrip", "base64_any_text"]},
    "C25": {"src": "text.cpp", "flavours": ["asan"], "hint": TEXT_HINT, "memory": False, "subs": ["replace_texts", "split_texts", "case_and_padding"]},
    "C26": {"src": "text.cpp", "flavours": ["asan"], "hint": TEXT_HINT, "memory": False, "subs": ["wildcards"]},
    "C28": {"src": "text.cpp", "flavours": ["asan"], "hint": TEXT_HINT, "memory": False, "subs": ["sets_of_pointers", "conversions"]},
    "C32": {"src": "text.cpp", "flavours": ["asan"], "hint": TEXT_HINT, "memory": False, "subs": ["integers"]},
    "C27": {"src": "misc.cpp", "flavours": ["asan"], "hint": MISC_HINT, "memory": False, "subs": ["file_contents", "file_access"]},
    "C29": {"src": "misc.cpp", "flavours": ["asan"], "hint": MISC_HINT, "memory": False, "subs": ["texts"]},
    "C30": {"src": "misc.cpp", "flavours": ["asan"], "hint": MISC_HINT, "memory": False, "subs": ["timestamp_text", "timestamp_bad_text", "timestamp_dates"]},
    "C34": {"src": "misc.cpp", "flavours": ["asan"], "hint": MISC_HINT, "memory": False, "subs": ["fuzzy_history"]},
    "C37": {"src": "misc.cpp", "flavours": ["asan"], "hint": MISC_HINT, "memory": False, "subs": ["trees", "builders"]},
    "C38": {"src": "misc.cpp", "flavours": ["asan"], "hint": MISC_HINT, "memory": False, "subs": ["pools"]},
    "C40": {"src": "misc.cpp", "flavours": ["asan"], "hint": MISC_HINT, "memory": False, "subs": ["return_codes"]},
    "C41": {"src": "names.cpp", "flavours": ["asan"], "hint": NAMES_HINT, "memory": False, "subs": ["ros_round_trip", "ros_any_text"]},
    "C42": {"src": "names.cpp", "flavours": ["asan"], "hint": NAMES_HINT, "memory": False, "subs": ["qos_masks"],
            "assumptions": ["Fast DDS' policy identifiers are a stand-in with the names and numbers of version 3"]},
    "C43": {"src": "names.cpp", "flavours": ["asan"], "hint": NAMES_HINT, "memory": False, "subs": ["log_consumer"],
            "assumptions": ["Fast DDS' log is a stand-in: a queue and one thread that hands entries to the consumers"]},
    "C31": {"src": "sched_misc.cpp", "flavours": ["asan"], "hint": SMISC_HINT, "subs": ["timer_history"], "assumptions": ["virtual clock that never steps back"]},
    "C33": {"src": "sched_misc.cpp", "flavours": ["asan", "tsan"], "hint": SMISC_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": {"asan": ["random_history", "random_threads", "random_own"], "tsan": ["random_threads", "random_own"]}},
    "C35": {"src": "sched_misc.cpp", "flavours": ["asan", "tsan"], "hint": SMISC_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": {"asan": ["singleton_first_access", "singleton_initialize", "singleton_static"], "tsan": ["singleton_first_access", "singleton_initialize"]}},
    "C36": {"src": "sched_misc.cpp", "flavours": ["asan", "tsan"], "hint": SMISC_HINT, "scale": {"tsan": 0.4}, "technique": SCHED, "assumptions": SCHED_ASSUME,
            "subs": ["atomicable_sections"]},
}

CHECKS["C30"]["parts"] = [{"part": True, "src": "sched_misc.cpp", "flavours": ["asan", "tsan"], "hint": SMISC_HINT, "scale": {"tsan": 0.4},
                           "subs": ["timestamp_threads"]}]
CHECKS["C44"] = {"py": "waits", "technique": SCHED, "assumptions": ["the threads change at lines, byte codes and lock operations of the code, one at a time; time is virtual"]}

CHECKS["C39"] = {"py": "enums"}
CHECKS["C45"] = {"py": "pytools", "assumptions": ["the clocks never step back"]}
CHECKS["C46"] = {"py": "version"}
CHECKS["C47"] = {"py": "cmconfig"}
CHECKS["C53"] = {"py": "headers"}
CHECKS["C48"] = {"py": "cmbuild"}

NOT_APPLICABLE = {}
