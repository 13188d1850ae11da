CHECKS.update({
    "C04": (ENGINE, "Every movement command and Lua call is judged on every buffer of the view and on every other client's selections."),
    "C05": (ENGINE, "Judges deletions: deleted texts returned, buffers' texts, the selection left."),
    "C06": (ENGINE, "The invariant is evaluated for every client, view and buffer after every request."),
    "C07": (ENGINE, "Views, buffers and client contexts are compared with the model after every request; unreferenced buffers must be gone."),
    "C08": (ENGINE, "Every view notification is decoded and compared with text and selection of its receiver, cell by cell."),
    "C09": (ENGINE, "The last view notification each client received is compared with a rendering of the state after every request."),
    "C10": (ENGINE, "Every line sent is matched with exactly one response of the right kind and code."),
    "C11": (ENGINE, "Hostile histories; a probe request by each client follows the hostile steps."),
    "C12": (MODEL, "Menus are filtered through the public menu type and compared with an independent implementation of the stated search."),
    "C13": (ENGINE, "Menus' entries are compared with the state and the directory; selections with the equivalent direct request."),
    "C14": (ENGINE, "Each key's effect on mode, status, hints, selections and text is judged for all clients."),
    "C15": (ENGINE, "Echo notifications and the three log buffers are compared with the expected messages."),
    "C16": (ENGINE, "Files are created, changed, truncated, made unreadable between opens; buffers compared with the content read independently and the directory tree compared after every step."),
    "C27": (ENGINE, "Scripts generated from the documented functions; results, errors and effects judged."),
    "C29": (ENGINE, "Joins and leaves at every point; contexts of joiners and silence of leavers judged."),
    "C20": (MODEL, "Names of every form are parsed, printed and parsed again by the library; directories with real sockets are listed by the library and the program."),
    "C21": (MODEL, "All Unicode characters and named keys under all modifiers (exhaustive), plus batches over the wire encoding."),
    "C22": (MODEL, "Every encoded message is read back by the decoders and by a generic JSON reader; arbitrary texts are judged on the generic reading."),
    "C23": ("runtime monitoring: the real client connection against a scripted fake server, every event, state and request compared with a model after each line and call", "Held on the connections generated (Unix and TCP sockets, batched, cut and malformed lines)."),
    "C18": ("runtime monitoring: real server processes and raw socket clients under fault injection (cut socket calls via LD_PRELOAD, resets, half closes, descriptor limits); every remaining client is probed after each event", "Held on the crowds, departures and failures generated."),
    "C19": ("runtime monitoring: real server process, several raw clients sending fragmented and batched requests, socket calls cut short by LD_PRELOAD; every received line is parsed and matched with what its client is owed", "Held on the fragmentations and interleavings observed."),
    "C26": ("runtime monitoring: the real program is run in script, standalone and json modes with generated scripts, files, inputs and a fake or real session; exit status and every output line judged", "Held on the runs generated, including failing scripts, unreadable files, broken lines, cut socket calls and early ends."),
    "C25": ("runtime monitoring: the real terminal client in a pseudo terminal; an independent terminal model interprets its output and is compared with what a fake server announced, requests with the keys typed", "Held on the sizes, contents, resizes and keys generated; places of characters judged for printable single-cell ones only."),
    "C24": ("runtime monitoring with AddressSanitizer: a host program calling the C functions (library, standard library and harness instrumented), connected to fake servers; every reachable object compared with what was sent, objects released in random order, allocation checked at each access", "Held on the streams and release orders generated. Trusts the C layout written out in the harness; menu entries and the lines of a lens have no C accessor."),
    "C30": ("sanitizers: the program, its standard library and the Lua interpreter built with AddressSanitizer, ThreadSanitizer and MemorySanitizer and driven by the workloads of the other checks", "No report on the workloads run. The terminal client is not run under ThreadSanitizer (it holds back the resize signal)."),
    "C31": ("runtime monitoring: real clients of every kind (json, terminal, C interface, daemon) start real servers at once, with pauses injected around the system calls by which sessions appear, are found and disappear; servers started are recorded, who shares a session with whom is asked of the servers", "Held on the crowds and churns generated."),
})
