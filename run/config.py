"""Which scenario file decides which property, and how long each tier runs."""
SECONDS = {"quick": 35, "thorough": 240}
WATCHDOG = 5  # seconds of processor time per simulated run, and eight times that of real time, twice

CHECKS = {
    "C01": {
        "src": "c01_delivery.cpp",
        "nontrivial": "a task accepted by one thread ran on another",
    },
    "C02": {
        "src": "c02_fifo.cpp",
        "nontrivial": "at least two tasks for the same thread were sent and started",
    },
    "C03": {
        "src": "c03_wakeup.cpp",
        "nontrivial": "a thread executed a task or returned from a wait while blocked in the library",
    },
    "C04": {
        "src": "c04_exit.cpp",
        "nontrivial": "a thread was notified for exit while blocking, processing or being sent to",
    },
    "C05": {
        "src": "c05_shutdown.cpp",
        "nontrivial": "a final shutdown met other registered or just ended threads, or the list was read while threads were registered",
    },
    "C06": {
        "src": "c06_promise.cpp",
        "nontrivial": "several setters competed, a promise was abandoned, or a result changed threads",
    },
    "C07": {
        "src": "c07_timed.cpp",
        "nontrivial": "a timed wait overlapped with the result being set",
    },
    "C08": {
        "src": "c08_then.cpp",
        "nontrivial": "a continuation was attached while the result was being set, or had to change threads",
    },
    "C09": {
        "src": "c09_when_all.cpp",
        "nontrivial": "at least two inputs were combined",
    },
    "C10": {
        "src": "c10_when_any.cpp",
        "nontrivial": "inputs were outstanding or completing when when_any fired",
    },
    "C11": {
        "src": "c11_cv.cpp",
        "nontrivial": "a notification met threads waiting, timing out or nesting on the variable",
    },
    "C12": {
        "src": "c12_mutex.cpp",
        "nontrivial": "several threads competed for the mutex, waited for it or misused it",
    },
    "C13": {
        "src": "c13_pool.cpp",
        "nontrivial": "several jobs were scheduled, also by jobs, or waits met unfinished jobs",
    },
    "C14": {
        "src": "c14_priority.cpp",
        "nontrivial": "workers had to choose among pending jobs or stay reserved",
    },
    "C15": {
        "src": "c15_stop.cpp",
        "nontrivial": "jobs were stopped, or their pool destroyed or moved, while pending or running",
    },
    "C16": {
        "src": "c16_time.cpp",
        "nontrivial": "a timed call met tasks, notifications or the end of its time",
    },
    "C18": {
        "src": "c18_counts.cpp",
        "nontrivial": "tasks were pending or executing when the count or depth was read",
    },
    "C20": {
        "src": "c20_throw.cpp",
        "nontrivial": "a task threw out of the blocking or processing call executing it",
    },
    "C19": {
        "src": "c19_identity.cpp",
        "nontrivial": "a thread went through a registration period observed by others",
    },
    "C21": {
        "src": "c21_async.cpp",
        "nontrivial": "a call went to another thread and was run, or its target was gone",
    },
    "C22": {
        "src": "c22_alloc.cpp",
        "nontrivial": "an allocation failed inside one of the calls",
    },
    "C17": {
        "src": "c17_random.cpp",
        "nontrivial": "more than ten operations of a random program were performed",
    },
    "C23": {
        "src": "c23_callbacks.cpp",
        "nontrivial": "a named thread was started and announced, or threads met a running init",
    },
    "C24": {
        "src": "c24_handles.cpp",
        "nontrivial": "handles travelled between threads or were observed by another one",
    },
    "C25": {
        "src": "c25_exhausted.cpp",
        "nontrivial": "an allocation or the creation of a thread failed in a call of the pool",
    },
    "C26": {
        "src": "c26_graph.cpp",
        "nontrivial": "a graph of at least three futures was evaluated to the end",
    },
    "C27": {
        "src": "c27_steady.cpp",
        "nontrivial": "a kind of work was repeated and the memory in use compared",
    },
    "C28": {
        "src": "c28_capacity.cpp",
        "nontrivial": "a burst larger than the threshold was executed, or the queue was configured while tasks were sent",
    },
    "C29": {
        "src": "c29_idle.cpp",
        "nontrivial": "threads were blocked while a long time passed without any event",
    },
    "C30": {
        "src": "c30_throwing_types.cpp",
        "nontrivial": "a copy or move of a user object threw inside a call of the library",
    },
    "C31": {
        "src": "c31_reach.cpp",
        "nontrivial": "code of the user, called by the library, waited for another thread to use the same objects",
    },
}
NOT_APPLICABLE = {}
