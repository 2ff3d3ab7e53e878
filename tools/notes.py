R = "Holds for the executions that were observed; nothing is proved about others. "
NOTES = {
    "C01": ("runtime monitoring: answers compared online with a reference Dijkstra", R + "Every observed answer is compared "
            "with an independent search in 128 bit arithmetic. Trusts the harness' own graph model."),
    "C02": ("runtime monitoring: every returned path checked against the input edges", R + "Trusts the harness' own graph "
            "model."),
    "C03": ("runtime monitoring: list queries compared online with a reference search", R + "Trusts the harness' own graph "
            "model."),
    "C04": ("runtime monitoring: history monitor, used calculator against fresh calculator", R + "The comparison is with a "
            "fresh calculator of the library; that this one is right is C01 to C03. Counter limits are reached by a guarded "
            "hook, or really (16.8 million queries; thorough: 40 million)."),
    "C05": ("runtime monitoring: reference-model monitor under hostile parameters", R),
    "C06": ("runtime monitoring: reference-model monitor under generated orders", R),
    "C07": ("runtime monitoring: byte comparison of repeated executions, threads and processes", R + "Determinism across "
            "library versions or platforms is only covered by C21."),
    "C08": ("runtime monitoring: online state-machine monitor of operation histories", R),
    "C09": ("runtime monitoring: round-trip monitor over several formats", R + "bincode, JSON, RON and an own format stand "
            "for all serde formats."),
    "C10": ("runtime monitoring: exact-or-refused monitor at the 32-bit boundary", R + "Node and edge counts beyond 2^32 are "
            "not executed, only weights; the conversion of ids is seen through serde with modified values."),
    "C11": ("runtime monitoring: write/read round trips with an independent parser", R),
    "C12": ("runtime monitoring: grammar-generated files with known meaning", R),
    "C13": ("runtime monitoring under fault injection into every write call", "Complete for the write calls of the graphs that "
            "are used: every call, with every kind of fault, in turn. Errors that the system reports only at close or fsync are "
            "outside."),
    "C14": ("ThreadSanitizer, and a monitor of concurrent results against sequential ones", R + "The schedules are those that "
            "8 cores, random delays and oversubscription produce, the number seen is in the evidence."),
    "C15": ("AddressSanitizer, MemorySanitizer, Miri, checked unsafe preconditions, allocation counter", R + "The instruments "
            "see all executed code of the library and its dependencies."),
    "C16": ("runtime monitoring: hostile calls with a rejection oracle", R),
    "C17": ("runtime monitoring: structural invariant checker on every prepared graph", R),
    "C18": ("runtime monitoring: 128-bit reference and overflow checks", R),
    "C19": ("runtime monitoring: process-death monitor on deep executions", R + "Depths up to 1.1 million."),
    "C20": ("runtime monitoring: witness checker replaying the contraction", R),
    "C21": ("runtime monitoring: differential execution on a native 32-bit build", R),
    "C22": ("runtime monitoring: instruction counts of observed executions", R),
    "C23": ("runtime monitoring: instruction counts of observed executions", R),
    "C24": ("runtime monitoring: counting allocator, bounds on held and peak memory", R + "The constants of the bounds are at "
            "least twice what the current implementation needs; smaller waste is not noticed. Memory on the stack or obtained "
            "otherwise than by the allocator is not seen."),
    "C25": ("runtime monitoring: instruction counts of growing inputs", R + "Decides proportionality between the sizes that are "
            "measured, with a factor of two for logarithms. Work of the system (zeroing pages, I/O) is not counted."),
    "C26": ("runtime monitoring: results of equivalent calls compared online", R + "That the results are right is C01 to C03."),
}
