# for each property: bounds of what is decided, and what is left out (used by mkdesign.py)
N = {
"C01": "Bounds: none on capacity, head, tail, number of producers (the other threads' moves are over-approximated by havocking shared state between atomic steps). Memory orders are obligations of the instructions themselves. Not covered: progress (lock freedom).",
"C02": "Bounds: none on head, tail, capacity; callbacks are opaque. Relies on C01's invariant tail <= head <= tail + capacity - 1.",
"C03": "Bounds: none. Relies on C02's contracts of the buffer (shadow class) and C05's of the stream.",
"C04": "Per-path counting effects; holds for every interleaving because the counter is only changed by atomic read-modify-write steps. Counts lost by an exception out of a user's transporter are outside (the transporter API is no-throw by contract).",
"C05": "Bounds: none; streams are opaque (assume/guarantee: each stream kind's own seek and clear are separate obligations). Totals beyond 2^31 bytes in one write are excluded by assumption (noted in the evidence).",
"C06": "Bounds: none; the system call may return anything from -1 to the batch's size. Same 2^31 assumption.",
"C07": "Bounds: none.",
"C08": "Bounds: none on pieces and sizes (block size as compiled).",
"C09": "protobuf's own primitives are trusted to do what their documentation says (they are outside the repository). The varint's shape is decided for all 64-bit values by interval splitting at its byte boundaries.",
"C10": "Every access with a constant or computed index into an object of fixed size (stack, global table, member array), with interval and linear facts of everything inlined; accesses into heap blocks are covered where their length is a parameter ('given'), and by C02/C08/C31 for the repository's own containers.",
"C11": "Owners: Socket, Event, EventBase, AresLibraryHandle, the c-ares channel, threads' RAII members. Allocation failures are paths.",
"C12": "The list of fallible functions is in the check; a new external call that returns an error code and is on that list is picked up wherever it is made.",
"C13": "Whole program. That the kernel honours O_NONBLOCK is assumed.",
"C14": "Exception types are over-approximated from throw sites, known throwing library functions and operator new; out-of-memory is tracked separately. Virtual calls into user code are assumed to honour their documented noexcept.",
"C15": "Lock sets per member over the call graph, entry points = public API, thread entries, C callbacks. Members only written in constructors are exempt; event-loop-only members are assigned to the loop's thread.",
"C16": "Held-lock sets propagated over the call graph, per lock member; user code = virtual calls of user-implementable interfaces and std::function.",
"C17": "That a wait *can* end follows from its condition being changed under its lock and announced on every path; fairness of the scheduler is assumed.",
"C19": "List shapes up to 4 recorders with arbitrary insertions and removals (bounded, exhaustive); handlers' effects on every path without bound.",
"C20": "The generator's step is decided exactly (linear algebra over GF(2), order of the 128-bit transition). Quality of std::random_device is assumed.",
"C21": "Per-path, for both span classes; the competing thread may finish at any point between atomic steps.",
"C22": "Bits are exact; text lengths up to a bound (base64: up to 4 groups of every character class pattern; hex and headers: every length up to the field sizes and beyond them), beyond which the loop is periodic. Carriers: every sequence of up to three headers (four in the thorough tier), which header each is and whether its text is well formed being left open; up to three propagators (five).",
"C23": "Bits are exact; content lengths up to 260 bytes at the boundaries of a byte counter (thorough: more), every value of the numbers and fields. Header names are compared as the places or constants they come from, not letter by letter. Baggage and OpenTracing carriers themselves (stubbed here) are outside.",
"C24": "Every path of every handler, with exceptions from every call that may throw. Out-of-memory in the scheduling itself is recorded as a known finding.",
"C25": "As C24; c-ares' own promise to report every query once is assumed.",
"C26": "Per option of the protobuf message: dataflow from its accessor to the assignment. A new option of the message without an assignment is reported.",
"C27": "Whole program: every store, capture and return of a FunctionRef; locals used after their lifetime markers end.",
"C28": "Taint over memory objects and call graph (flow-insensitive for members, flow-sensitive for locals).",
"C31": "Bounds: none on n.",
"C32": "Linear arithmetic over the integers; overflow of 64-bit nanoseconds (years 1677 to 2262) is excluded by assumption.",
"C33": "Opaque key type; std::lower_bound, sort, unique by their standard contracts.",
"C34": "Byte-exact over the address object; inet_pton/ntop by their documented contracts.",
}
