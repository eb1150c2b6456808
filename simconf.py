"""Per-property configuration of the checks (run counts, texts for evidence and manifest)."""
REAL = ["all of src/tsm/*.c and src/shared/*.c and external/wcwidth, compiled from /repo's working tree and driven through the public API"]
STUB = ["client program, user, application and renderer (seeded actors)", "malloc/calloc/realloc/strdup/free (simulated allocator over ASan's)"]
ASSUME = ["sampled, not enumerated: a clean batch is evidence, not proof",
          "gcc -O1 with AddressSanitizer and UBSan (bounds, null, alignment, object-size, divide) as the build under test"]
PTY_STUB = ["kernel: ptmx/pts, pipes, epoll (edge triggered), fork, termios, signals, descriptor table (sim/kernel.cpp)", "client program, allocator"]

GTK_STUB = ["GTK/GDK: main loop, windows, frames, input events, keymap (sim/gtk/seam.cpp)", "pango rendering: synthetic fonts", "kernel: ptmx/pts, epoll, fork, termios, signals, descriptor table (sim/kernel.cpp)", "client programs, user, window system"]
GTK_REAL = ["src/gtktsm/gtktsm-terminal.c", "src/tsm", "src/shared", "external/wcwidth", "glib, gobject, cairo, xkbcommon, pango font descriptions"]


def c(runs, rule, note, level="exploration", **kw):
    d = dict(runs=runs, rule=rule, note=note, level=level)
    d.update(kw)
    return d


CONF = {
    "C01": c(70000, "seeded client streams with user events in between, cut into random fragments (down to single bytes, with empty calls) on one instance and fed whole on another; non-trivial: at least one cut inside the stream",
             "differential: two real instances, same bytes, different fragmentation and delivery times; screen, cursor, modes, scrollback, replies and OSC callbacks must agree"),
    "C02": c(18000, "lines of valid UTF-8 text corrupted by simulated line noise (lost, flipped, duplicated and cut bytes), decoded line by line; non-trivial: a line with an ill-formed run",
             "oracle: NFA over the displayed text derived from Unicode's well-formedness table"),
    "C03": c(50000, "streams with unknown, aborted or malformed sequences injected on one of two instances, and garbage bursts followed by CAN; non-trivial: an injected sequence",
             "differential against the instance that never saw the sequence; recovery probe after garbage"),
    "C04": c(90000, "control streams with cursor movement, margins, origin, wrap, insert, tabs, erase, insert/delete and scrollback views; non-trivial: a wrap or a scroll happened",
             "refinement against a small executable reference terminal after every event"),
    "C05": c(50000, "resizes injected at arbitrary points of client streams incl. alternate screen and pending wraps; non-trivial: at least one resize",
             "refinement against the reference terminal (cells, attributes, cursor, history)"),
    "C06": c(60000, "histories of scrolling, resizes, limit changes, clears and view movement with full history audits; non-trivial: lines dropped while viewing or more than two lines scrolled out",
             "refinement against a reference list of uniquely labelled lines: content, order, count, reported position"),
    "C07": c(100000, "alternate-screen sessions (47/1047/1049) with arbitrary traffic inside; non-trivial: a session was entered",
             "snapshot of main screen, cursor and scrollback before entering compared with the state after leaving"),
    "C08": c(80000, "client output, scrolling views, selections, resizes, palette changes and resets between draws into one to three private frame buffers; non-trivial: at least one cell was skipped as unchanged",
             "differential: a renderer that skips cells by age must end with the picture of a full redraw; the age counter is set just below its limit in some runs", hook=True),
    "C09": c(80000, "selections made at arbitrary (also out-of-range) positions, carried through scrolling, erasing, scrollback trimming and clearing, alternate screen; copies taken at arbitrary points; non-trivial: a copy with an active selection",
             "refinement against a reference selection bound to uniquely identified lines"),
    "C10": c(80000, "as C09, with views, cursor modes and inverse video, draws taken at arbitrary points; non-trivial: a draw with an active selection",
             "refinement against the same reference selection: exactly the selected cells change their inverse attribute"),
    "C17": c(80000, "SGR/palette/erase/scroll histories; non-trivial: at least one comparison",
             "refinement against the reference terminal's attributes and palette resolution"),
    "C19": c(80000, "save/restore placed anywhere in histories of moves, modes, charsets, margins, resizes; non-trivial: at least one save or restore judged",
             "refinement against the reference terminal at each save and restore, plus characters typed right after a restore"),
    "C21": c(100000, "designations, locking and single shifts, 7/8-bit modes and text in random order; non-trivial: at least one event",
             "refinement against independent charset tables"),
    "C11": c(11000, "hostile byte streams (control sequences with extreme parameters, garbage, wide characters), extreme sizes, selection/view/scrollback arguments, keys and mouse events, and direct calls of every public screen operation; memory limited to 64 MB in the simulated machine; non-trivial: input was fed",
             "AddressSanitizer, UBSan and a per-call basic-block budget proportional to screen and arguments; cursor, view and draw-callback invariants and leak check per run"),
    "C12": c(16000, "sessions in which chosen allocations fail (first, n-th, several in a row, all) during construction, resize, scrolling, palette change, copy, input; non-trivial: at least one allocation failed",
             "refinement against the reference terminal: failed calls change nothing and succeed when repeated; a lost history line is the only allowed effect of a failure inside scrolling"),
    "C13": c(84000, "reference counts taken and dropped in random order between all kinds of use, both destruction orders, and repetition of one workload with the memory level sampled at a fixed point; non-trivial: every run",
             "block table of the simulated allocator: nothing left after the last reference, nothing freed twice, level does not grow over repetitions"),
    "C14": c(160000, "queries (device attributes, status, cursor reports, ...) anywhere in client streams with fragmentation, keys and resizes in between; non-trivial: at least one reply expected",
             "refinement: bytes written to the client equal the reference terminal's replies, in order, per event"),
    "C15": c(54000, "key presses with every keysym and modifier combination between client sequences that switch keyboard modes; non-trivial: at least one key",
             "refinement against an independent key encoder; no output when not handled, one write per key"),
    "C16": c(200000, "mouse events (also out-of-range and repeated) between client sequences that switch tracking modes and encodings, resizes and resets; non-trivial: at least one report or callback",
             "refinement against an independent mouse encoder and tracking state; callbacks in step"),
    "C18": c(24000, "an arbitrary history followed by a hard reset (by client or application), then a common continuation compared with a fresh terminal; non-trivial: every run",
             "differential against a freshly created terminal of the same size and palette"),
    "C20": c(12000, "OSC strings of all lengths around the limit, all terminators, cut at arbitrary points, with text around them; non-trivial: at least one OSC string",
             "refinement: callbacks equal the reference parser's strings (truncated prefix when long), and OSC leaves screen and replies alone"),
    "C27": c(13000, "two to four terminals with private sessions interleaved by the scheduler, including allocation failures in one of them; non-trivial: at least two terminals acted",
             "differential: each terminal ends in the same state, replies and callbacks as when its session runs alone"),
    "C22": c(10000, "one or two ptys with client programs that write, read, stall and exit in seeded order; system calls are interrupted, shortened or would block at seeded points; writes of all sizes, allocation failures; non-trivial: bytes moved",
             "bytes carry position-dependent values: the received streams must equal the sent streams; a refused write leaves no byte", stub=PTY_STUB),
    "C23": c(9000, "one to four ptys on a bridge or driven by hand, with flooding, stalled, exiting clients and closing handles, clients acting inside library calls; then faults stop; non-trivial: bytes moved",
             "progress: after faults stop, all pending bytes must move within a bounded number of event-loop rounds, next to flooding and stalled neighbours", stub=PTY_STUB),
    "C24": c(24000, "opens in which system calls and allocations fail in parent or child or the child is killed at arbitrary points (fork really forks; the child runs on the simulated kernel in shared memory), with closed standard streams; uses after close; non-trivial: an open succeeded or failed by a fault",
             "descriptor table and block table of the simulated kernel and allocator compared before and after; success implies a ready child with the terminal on its standard streams and the requested size", stub=PTY_STUB),
    "C25": c(50000, "combinations of characters (fresh, repeated, at the length limit, invalid) in one or two symbol tables with failing allocations; non-trivial: more than three symbols or a failure",
             "refinement against a map from sequences to symbols; every symbol re-expanded throughout", stub=STUB[1:]),
    "C26": c(300000, "insertions, removals, lookups, traversals, clears with seven hash functions (colliding, clustered, wrapping), arbitrary element addresses and failing allocations; non-trivial: a removal or failure",
             "refinement against a reference multimap", stub=STUB[1:]),
    "C30": c(9000, "one or two terminal widgets on one simulated main loop and kernel: client programs, configure/draw/expose, font, size, anti-aliasing, scrollback and highlight properties, keys, mouse with wrapping event time, programs exiting, killed, replaced or leaving background writers, widgets dropped at any point; system calls interrupted, shortened or would block, delayed delivery; non-trivial: output was displayed",
             "differential: the pixels of the window against a repaint from scratch of a twin terminal fed the same history; requested frames, grid and pty sizes, typed bytes, titles and stop notifications against the twin and the simulated kernel; all output displayed once faults stop and after the program ended; leaks, descriptors and children left", stub=GTK_STUB, real=GTK_REAL, flavour="gtk"),
    "C31": c(18000, "direct calls of every public screen operation with ordinary, limiting and huge arguments, attributes incl. protection, resizes, views, history limits, calls without a screen, in a third of the runs interleaved with client streams on the same screen; non-trivial: at least one direct call",
             "refinement against the reference terminal's screen after every call"),
    "C32": c(24000, "text in all attributes, wide and rare characters, direct writes, selections, views, cursor modes and inverse video with draws in between; non-trivial: more than three identifiers",
             "map from identifiers to glyphs and back kept over all draws of a run"),
    "C33": c(18000, "opens under random signal masks and dispositions, closed standard streams and failing or interrupted system calls in parent and child, then resizes, signals and closes of several ptys; non-trivial: a child started",
             "process, session, signal and terminal tables of the simulated kernel at the moment the client program would be executed", stub=PTY_STUB),
    "C34": c(24000, "two terminals with the same session, one silent and one with log, title and mouse callbacks, failing draws and state queries at arbitrary points; built with debug messages; non-trivial: an observer acted",
             "differential: silent against observed terminal; every log message is formatted", flavour="debug"),
    "C35": c(9000, "one to three whole sessions on one event loop: client program, simulated kernel pty, shl_pty and bridge, terminal, user (keys, mouse, resizes, palettes, views, draws); system calls interrupted, shortened or would block, small buffers, delayed delivery, clients acting inside library calls, exits and closes; non-trivial: output arrived",
             "differential: each terminal, its replies and callbacks against a twin fed the same history directly; streams in both directions compared byte by byte; progress and window size after faults stop; leak and descriptor check", stub=PTY_STUB),
    "C36": c(120000, "byte queue: pushes, pulls, peeks, copies, fills to around powers of two, impossible sizes; array: pushes, pops, resizes; failing allocations throughout; non-trivial: wrapped contents, more than eight elements or a failure",
             "refinement against a reference byte string and list; complete contents compared after every call", stub=STUB[1:]),
}
NA = [
    ("C28", "a pure function of one code point: no schedule, time, I/O, history or fault for a simulation to vary"),
    ("C29", "a static property of the shared library's ELF symbol table; nothing executes"),
]
