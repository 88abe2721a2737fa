HOOK_COMMITS = ["717355ba07768cee41d5d9eebb3cb8c38edce8cc", "28bcedf5ac9e3f6de02a4ea11bca9ecc5d359ee2", "2384dbe219811294e143c76cfa19d75c445a12ec"]
EV = "stateless model checking of the real runtime: exhaustive enumeration of operation sequences and of job orders (deviation-bounded) under a controlled executor and manual clock"
NOTE_EV = "Every operation sequence up to the stated depth and every job order within the deviation bound is executed on the real code and compared with a reference model; assumes handlers are atomic with respect to other components (thread interleavings are covered by the thread-level scenarios where listed)."
TH = "stateless model checking of the real runtime under a controlled thread scheduler: exhaustive enumeration of the interleavings of its synchronisation operations up to a bound on context switches"
NOTE_TH = "The real code runs on coroutines that may be switched at every operation on its atomics, queues, locks, promises and park tokens and inside handlers; every schedule within the bound is executed. Sequential consistency is assumed; third-party queues and mutexes are trusted as linearizable."
SEQ = "bounded-exhaustive model checking of the real code: every input and operation sequence up to the stated bounds is executed and compared with a reference model"
NOTE_SEQ = "Sequential code; every operation sequence and input up to the stated bounds is executed on the real implementation and compared step by step with an executable reference model; values are drawn from fixed boundary sets."
NET = "stateless model checking of the real runtime on a simulated network: exhaustive enumeration of operation histories, of fault and partial-I/O placements and of thread and event orders up to a deviation bound"
NOTE_NET = "Complete Kompact systems with their real dispatchers and network threads run on coroutines under the explorer; only mio and the kernel's sockets are replaced, by a simulated network whose every decision is enumerated. Threads are switched where they wait for events (coarse) and, where noted, at every socket operation; simulated sockets follow edge-triggered epoll semantics."
CHECKS = {
 "C01": ("ev", EV, NOTE_EV),
 "C02": ("ev", TH, NOTE_TH),
 "C03": ("ev", EV, NOTE_EV),
 "C04": ("ev", EV, NOTE_EV),
 "C05": ("ev", EV, NOTE_EV),
 "C06": ("ev", EV, NOTE_EV),
 "C07": ("ev", EV, NOTE_EV),
 "C08": ("ev", EV, NOTE_EV),
 "C09": ("ev", EV, NOTE_EV),
 "C10": ("ev", EV, NOTE_EV),
 "C11": ("ev", EV, NOTE_EV),
 "C12": ("evn", TH, NOTE_TH),
 "C13": ("ev", EV, NOTE_EV),
 "C14": ("seq", SEQ, NOTE_SEQ),
 "C15": ("seq", SEQ, NOTE_SEQ),
 "C16": ("seq", SEQ, NOTE_SEQ),
 "C17": ("seq", SEQ, NOTE_SEQ),
 "C18": ("seq", SEQ, NOTE_SEQ),
 "C19": ("ev", SEQ, NOTE_SEQ),
 "C20": ("ev", EV, NOTE_EV),
 "C21": ("ev", EV, NOTE_EV),
 "C22": ("ev", SEQ, NOTE_SEQ),
 "C23": ("seq", SEQ, NOTE_SEQ),
 "N01": ("net", NET, NOTE_NET),
 "N02": ("net", NET, NOTE_NET),
 "N03": ("net", NET, NOTE_NET),
 "N04": ("net", NET, NOTE_NET),
 "N05": ("net", NET, NOTE_NET),
 "N06": ("net", NET, NOTE_NET),
 "N07": ("net", NET, NOTE_NET),
 "N08": ("net", NET, NOTE_NET),
}
NA = {}
