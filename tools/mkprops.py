#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/tsm/tsm-screen.c"; V="src/tsm/tsm-vte.c"; SEL="src/tsm/tsm-selection.c"; R="src/tsm/tsm-render.c"; U="src/tsm/tsm-unicode.c"; PT="src/shared/shl-pty.c"; RI="src/shared/shl-ring.c"; HT="src/shared/shl-htable.c"
DRAW="tsm_screen_draw callback"; WCB="VTE write callback"

p("C01","Terminal behaviour does not depend on how the input is split",
 "Feeding a byte stream to a terminal gives the same screen, scrollback, cursor, modes, replies to the client and title callbacks however the stream is cut into input calls or short reads from the pty. The cut may fall anywhere, including inside a UTF-8 character or an escape sequence, and may have key presses, resizes and redraws interleaved at the same stream positions.",
 ["schedules","inputs"],"All byte streams (text, valid and malformed sequences, broken UTF-8) x all fragmentations x interleaved user events pinned to stream offsets.",
 "The tests feed whole literal strings in one call each; none compares two fragmentations, and none cuts inside a character or sequence.",
 [V,U,PT],[("byte-wise parser with all state in the VTE object","tsm-vte.c: tsm_vte_input/parse_data"),("incremental UTF-8 machine","tsm-unicode.c: tsm_utf8_mach_feed"),("read loop handing each chunk on","shl-pty.c: pty_read")],[DRAW,WCB,"OSC callback","tsm_screen_get_cursor_x/y","tsm_vte_get_flags"])
p("C02","UTF-8 decoding is exact and safe under corrupted input",
 "Well-formed UTF-8 text is displayed as exactly its characters in order. Bytes that are not well-formed UTF-8 (stray, truncated, overlong, flipped in transit) are never decoded to another valid character, let alone an ASCII character or a control function: they show as replacement characters or not at all, and they cost at most the one character that directly follows them before decoding is exact again.",
 ["inputs","fault_sequences"],"All character streams over U+0020..U+10FFFF encoded to UTF-8 x all byte-level faults (flip, drop, insert, truncate, duplicate, overlong forms) x fragmentations.",
 "test_unicode has a few fixed characters; no test feeds ill-formed bytes through the terminal or checks recovery after them.",
 [U,V],[("decoder state machine with reject/resync","tsm-unicode.c: tsm_utf8_mach_feed"),("replacement character","tsm-unicode.c: tsm_utf8_mach_get")],[DRAW,WCB])
p("C03","Unknown, broken or aborted sequences are inert and the parser recovers",
 "Control sequences that are malformed, unknown, too long, or cancelled by CAN have no effect on the screen, cursor, attributes or replies, and their bytes are never displayed. After any garbage whatsoever, one further plain character followed by CAN brings the parser back to normal, so that what follows is interpreted exactly as from a fresh parser.",
 ["inputs","fault_sequences"],"All garbage prefixes (random bytes, truncated or mutated sequences, unterminated strings) and all placements of inert sequences inside a normal stream.",
 "The parser tests use a handful of well-formed sequences; inertness and recovery quantify over all garbage.",
 [V],[("parser state table with ignore states","tsm-vte.c: parse_data"),("parameter limits","tsm-vte.c: do_param"),("CAN/SUB/ESC from any state","tsm-vte.c: parse_data")],[DRAW,WCB,"OSC callback"])
p("C04","Screen text and cursor follow the control stream exactly",
 "For every stream of text, cursor movement, erase, insert/delete, scroll, margin, tab, origin, insert-mode and auto-wrap functions, the characters on the visible screen and the cursor position equal those of a reference terminal executing the same stream. This holds at every moment a user looks, for every screen size, and regardless of how output, redraws and scrollback viewing interleave.",
 ["histories","schedules"],"All histories of the supported screen functions with all parameters (absent, zero, huge) on all sizes from 1x1 up, observed at arbitrary points.",
 "test_screen checks single operations on one size from one state; interactions (margins x wrap x wide characters x insert mode x origin) are combinatorial.",
 [S,V],[("cell table operations","tsm-screen.c: screen_write, screen_scroll_up/down, screen_erase_region, tsm_screen_*"),("sequence dispatch","tsm-vte.c: do_csi, do_esc, do_execute")],[DRAW,"tsm_screen_get_cursor_x/y"])
p("C05","Resizing at any moment preserves content and leaves a valid screen",
 "Resizing a terminal at any point keeps every visible cell that is in both the old and the new screen (moved up by the number of rows lost when the height shrinks), makes newly exposed cells blank in the default colours of the buffer they belong to, keeps the cursor inside the screen on the row it was on (clamped), resets the margins to the whole screen and tab stops to every 8th column. Rows pushed out by shrinking the height on the main screen enter the scrollback in order; the terminal then behaves as a terminal of the new size.",
 ["histories","schedules"],"All sequences of sizes (1x1 upwards, grow/shrink in either or both directions, repeated) injected between any two input bytes, in main or alternate screen, with any margins, cursor and pending wrap.",
 "Tests do two or three fixed resizes on idle screens; resizes racing with output, margins, pending wrap, alternate screen and scrollback are never explored.",
 [S],[("two-phase resize","tsm-screen.c: tsm_screen_resize"),("row hand-over to scrollback","tsm-screen.c: screen_scroll_up/link_to_scrollback")],[DRAW,"tsm_screen_get_width/height","tsm_screen_get_cursor_x/y"])
p("C06","Scrollback keeps every scrolled-out line once, in order, bounded",
 "Every line scrolled off the main screen enters the scrollback exactly once, unchanged and in order; the scrollback never exceeds the configured maximum and drops only its oldest lines; clearing empties it. Viewing never changes content: the viewed position stays within bounds, reports the index of the line at the top of the view (the line count when not scrolled back), and the view shows consecutive history followed by the screen, staying on the same lines while output arrives until those lines are dropped (or, without fixed position, while the buffer is not full).",
 ["histories","schedules"],"All interleavings of output, scrollback viewing, limit changes, clearing, resizes and alternate-screen use.",
 "Two tests cover count and position in one simple scenario; eviction while viewing, limit changes and interleaved output are not reached.",
 [S,R],[("scrollback list","tsm-screen.c: link_to_scrollback"),("view position","tsm-screen.c: tsm_screen_sb_up/down/reset, sb_pos_num"),("limit","tsm-screen.c: tsm_screen_set_max_sb")],[DRAW,"tsm_screen_sb_get_line_count","tsm_screen_sb_get_line_pos"])
p("C07","The alternate screen is isolated from the main screen and scrollback",
 "Whatever a program does in the alternate screen, when it leaves, the main screen is exactly as it was when the program entered, nothing was added to the scrollback, and with the save-cursor variant the cursor is back where it was. Switching changes no other mode, and entering with the erase variant always starts from a blank screen. Leaving it while the main screen is displayed changes nothing but, with the save-cursor variant, the cursor.",
 ["histories"],"All operation histories inside the alternate screen (printing, scrolling, erasing, insert/delete, margins, repeated enter/leave in any of the variants, redraws and scrollback viewing), without resize or reset.",
 "test_screen covers colours on resize only; arbitrary histories between enter and leave are not sampled.",
 [S,V],[("separate line tables","tsm-screen.c: tsm_screen_set_flags/reset_flags"),("no scrollback from the alternate screen","tsm-screen.c: screen_scroll_up"),("modes 47/1047/1048/1049","tsm-vte.c: csi_mode")],[DRAW,"tsm_screen_sb_get_line_count"])
p("C08","Incremental redraw by age shows the same picture as a full redraw",
 "A renderer that redraws only the cells whose age is zero or newer than the age returned by its previous draw (redrawing all after a returned age of zero) always ends with the same picture as a renderer that redraws every cell. Every draw reports each cell of the screen exactly once, row by row; this includes cursor, selection, scrollback view, inverse mode and resizes, any number of draws skipped, and the age counter wrapping around.",
 ["histories","schedules"],"All histories of terminal input and user events x all draw instants x one or several frame buffers x (with one frame buffer) age counter positions including wrap-around.",
 "No test draws incrementally at all; staleness shows only for particular histories between two draws.",
 [R,S],[("cell/line/screen ages","tsm-screen.c: age_cnt, screen_inc_age"),("age report and overflow reset","tsm-render.c: tsm_screen_draw")],[DRAW,"tsm_screen_draw return value"],None,None)
p("C09","Copying a selection yields exactly the selected text",
 "Copying returns exactly the text between the two selected cells inclusive, whichever end was set first: one line of output per selected row, inner blanks as spaces, trailing blanks dropped, valid UTF-8 without embedded NULs, and the returned length is the string's length. The selected text stays the same while later output scrolls the screen up, into and through the scrollback, or down; rows dropped from the scrollback vanish from the start of the selection, and out-of-range coordinates never read outside the screen.",
 ["histories","schedules"],"All selection start/target positions in any order and scrollback view x all content (blank cells, wide characters, short history lines) x output scrolling, eviction, clearing and limit changes after selecting.",
 "test_selection checks hand-picked selections on static content; tracking under concurrent output and eviction is not covered.",
 [SEL,S],[("anchors on lines","tsm-selection.c: selection_set"),("normalisation and copy","tsm-selection.c: norm_selection, copy_line"),("tracking on scroll/evict","tsm-screen.c: screen_scroll_up, link_to_scrollback")],["tsm_screen_selection_copy"])
p("C10","The highlighted region is exactly the selected region",
 "While a selection is active, a draw highlights (inverts) exactly the cells from the first to the last selected cell in reading order that are visible in the current view, and no others; without a selection nothing is highlighted. This holds for either selection direction, when either end is outside the view or has been dropped from the scrollback, and as output scrolls.",
 ["histories","schedules"],"All selections x scrollback views x output arriving after the selection, drawn at any moment.",
 "No test draws a selection.",
 [R,SEL,S],[("in-selection tracking while drawing","tsm-render.c: tsm_screen_draw"),("line ids","tsm-screen.c: sb_id")],[DRAW])
p("C11","Hostile streams and call histories never corrupt memory or hang",
 "No byte stream from the client and no sequence of public API calls with valid handles and arbitrary numeric arguments makes the library access memory outside its objects or use freed memory, and every call returns after work bounded by the size of its input and of the screen. The cursor row is always inside the screen and the cursor column never further right than just past the last cell written.",
 ["inputs","histories"],"All byte streams and all API histories with extreme arguments (0, 1, 2^31, 2^32-1 coordinates; 1-column screens; zero scrollback), with redraws and copies at any point.",
 "The memcheck test jobs replay the same fixed tests; hostile combinations are unreachable for them.",
 [S,V,SEL,R,U],[("bounds clamping throughout","tsm-screen.c"),("parameter clamps","tsm-vte.c: do_param, csi_attribute")],["process survival under AddressSanitizer/UBSan","tsm_screen_get_cursor_x/y"])
p("C12","A failed allocation never corrupts the terminal",
 "When memory runs out inside any call, the call either reports failure with the visible state unchanged, or completes with the only loss being lines missing from the scrollback. Nothing leaks or is freed twice, and once memory is available again the same call succeeds and the terminal behaves normally.",
 ["fault_sequences","crash_points"],"All allocation-failure points (single, bursts, everything from the n-th on) within creation, resize, output, palette changes, selection copy and pty writes, in all preceding states.",
 "No test injects allocation failures.",
 [S,V,SEL,U,RI],[("allocate-then-commit resize","tsm-screen.c: tsm_screen_resize"),("fallback to line recycling","tsm-screen.c: screen_scroll_up"),("error paths of constructors","tsm_screen_new, tsm_vte_new, tsm_symbol_table_new")],["return values",DRAW,"allocator seam"])
p("C13","Objects release everything when the last reference goes; no growth",
 "Every object stays usable as long as a reference is held, and when the last reference is dropped, in any order among screen and terminal, everything allocated on its behalf has been released exactly once. A long-running terminal with bounded scrollback uses bounded memory: returning to the same size, scrollback fill and settings returns to the same memory use.",
 ["histories"],"All histories of input, resizes, scrollback and palette changes, selection copies, resets and ref/unref orders.",
 "Leak checkers run only over the fixed tests; steady-state growth is never measured.",
 [S,V,U,SEL],[("reference counts","tsm_screen_ref/unref, tsm_vte_ref/unref, tsm_symbol_table_unref"),("line ownership","tsm-screen.c: link_to_scrollback, line_free")],["allocator seam (live blocks and bytes)"])
p("C14","Each client query gets exactly one correct reply, in order",
 "Every status, cursor-position, device-attribute and answerback query in the stream produces exactly one reply with the right content, in the order of the queries, and no other stream content makes the terminal send anything. Cursor reports give the 1-based position of the cell the cursor is on at that point of the stream.",
 ["schedules","inputs"],"All streams with queries anywhere (between and inside text, unusual parameters, after resizes), all fragmentations and concurrent keyboard input.",
 "Only fixed single queries are tested; ordering and the absence of unsolicited output are not.",
 [V],[("replies","tsm-vte.c: csi_dsr, csi_dev_attr, send_primary_da, do_execute"),("write path","tsm-vte.c: vte_write_debug")],[WCB])
p("C15","Keys are encoded according to the modes in force at that moment",
 "A key press is sent to the client exactly once, encoded according to the modes (cursor keys, keypad, newline, backspace setting, character-set width, modifiers) in force when it is pressed; Alt prefixes exactly that key's bytes with one ESC and never leaks into later output. With local echo on, the typed bytes are also interpreted by the terminal once; keys without a meaning send nothing and are reported unhandled.",
 ["schedules","inputs"],"All keys and modifiers x all interleavings with mode changes from the client, resets and queries.",
 "There is no keyboard test beyond backspace; stale-mode and sticky-Alt errors need interleavings.",
 [V],[("key table","tsm-vte.c: tsm_vte_handle_keyboard"),("Alt prefix and local echo","tsm-vte.c: vte_write_debug")],[WCB,"return value of tsm_vte_handle_keyboard"])
p("C16","Mouse reports follow the active protocol and mode switches",
 "A mouse event is reported to the client if and only if the modes in force ask for it, exactly once, in the encoding of the active protocol with correct 1-based coordinates, buttons and modifiers; repeated movement within one cell is reported once. The application's mouse callback always reflects the currently requested tracking.",
 ["schedules","histories"],"All mouse event histories (buttons, wheel, movement, huge coordinates) x mode enable/disable orders x resets in between.",
 "test_vte_mouse checks fixed enable-then-click scenarios.",
 [V],[("mouse encoder","tsm-vte.c: tsm_vte_handle_mouse"),("mode switches","tsm-vte.c: csi_mode")],[WCB,"mouse callback","tsm_vte_get_mouse_mode/event"])
p("C17","Colours and attributes apply to exactly the text written under them",
 "Each displayed character carries exactly the colours and attributes selected by the most recent attribute sequences before it in the stream, resolved through the palette in force, and later attribute changes never alter characters already on screen. Erased and newly scrolled-in cells take the current background colour; changing the palette applies to the default colours at once and clears the screen.",
 ["histories"],"All attribute sequences (all parameters, 256-colour, true colour, truncated and overlong lists) x text x erase/scroll x palette changes.",
 "test_vte covers single SGR cases; history-dependent leakage is not covered.",
 [V,S],[("SGR","tsm-vte.c: csi_attribute, to_rgb"),("background colour erase","tsm_screen_set_def_attr"),("palettes","tsm-vte.c: tsm_vte_set_palette, tsm_vte_set_custom_palette")],[DRAW,"tsm_vte_get_def_attr"])
p("C18","A hard reset makes the terminal indistinguishable from a new one",
 "After a hard reset, requested by the client or the application in the middle of any history, the terminal is indistinguishable from a newly created one of the same size, palette, scrollback limit and callbacks: same blank screen, empty scrollback, default modes and attributes. All later input produces the same screen, replies and key and mouse encodings as on the new terminal.",
 ["histories","crash_points"],"All histories (any modes, partial sequences and characters pending, alternate screen, margins, tabs, charsets, saved cursors, selection) before the reset x all later streams.",
 "Tests reset once from a nearly fresh state.",
 [V,S],[("reset","tsm-vte.c: tsm_vte_reset, tsm_vte_hard_reset, reset_state"),("screen reset","tsm-screen.c: tsm_screen_reset")],[DRAW,WCB,"tsm_vte_get_flags"])
p("C19","Save/restore cursor brings back exactly what was saved",
 "Restoring the cursor brings back the position, attributes, character-set invocation, wrap mode and origin mode as they were at the most recent save, whatever happened in between and whatever modes are active at restore time; without a save it goes home with defaults. Saving itself changes nothing, and the alternate-screen cursor save is independent of it.",
 ["histories"],"All histories between save and restore (movement, modes, margins, attributes, charsets, resize smaller, reset, nested alternate-screen switches).",
 "No test covers save/restore.",
 [V],[("saved state","tsm-vte.c: save_state, restore_state, reset_state"),("alternate cursor","tsm-vte.c: csi_mode 1048/1049")],[DRAW,"tsm_screen_get_cursor_x/y","tsm_vte_get_flags"])
p("C20","Each OSC string is delivered once with its exact payload",
 "Each operating-system-command string terminated by BEL or ST is delivered to the application exactly once with exactly the payload sent, or the longest whole-character prefix that fits the limit of 127 bytes, NUL-terminated with the right length. Consecutive strings never mix, and the payload never reaches the screen.",
 ["inputs","schedules"],"All payloads (empty, long, multi-byte at the limit, embedded controls) x terminators x fragmentation x surrounding traffic.",
 "test_vte has one short OSC string.",
 [V],[("OSC collection","tsm-vte.c: do_osc_collect, do_osc_end, do_clear")],["OSC callback",DRAW])
p("C21","Character-set designation and shifts map exactly the intended characters",
 "Each printed character is translated by the character set designated and invoked for it at that point: locking shifts stay until changed, single shifts apply to exactly the next graphic character, and designations take effect at once for the set already invoked. Characters outside the mapped ranges are never altered.",
 ["histories"],"All interleavings of designations (G0-G3), locking and single shifts, text, and resets.",
 "No test covers shifts in combination.",
 [V,"src/tsm/tsm-vte-charsets.c"],[("mapping","tsm-vte.c: vte_map"),("designation","tsm-vte.c: set_charset, do_esc")],[DRAW])
p("C22","The pty transports bytes in both directions exactly once, in order",
 "Every byte the client program writes reaches the terminal's input callback exactly once and in order, and every byte accepted for writing reaches the client exactly once and in order, under short reads and writes, interrupted and would-block system calls, full buffers any pattern of small and large writes, and a callback that answers or closes this or another pty. A write that cannot be queued is reported and queues nothing.",
 ["schedules","fault_sequences"],"All traffic patterns x kernel behaviours (short transfers, EINTR, EAGAIN, buffer full) x dispatch timings x allocation failures.",
 "There is no pty test; real kernels rarely produce these outcomes on demand.",
 [PT,RI],[("ring buffer","shl-ring.c: shl_ring_push/peek/pull, ring_resize"),("read/write loops","shl-pty.c: pty_read, pty_write")],["input callback","bytes reaching the simulated kernel"])
p("C23","The pty never stalls: pending data moves once the peer is ready",
 "With an event loop that waits on the bridge and flushes after queueing, whenever the client has written data or has room to accept queued data, and system calls stop failing, all pending bytes in both directions are transferred within a bounded number of event-loop rounds. No terminal on a shared bridge can be starved or blocked by the traffic, hang-up or removal of another.",
 ["schedules","fault_sequences"],"All schedules of client writes, client reads, dispatches and faults over one or several ptys on a bridge with edge-triggered readiness.",
 "Needs edge-triggered races (data arriving between reads, interrupted calls) that tests cannot stage.",
 [PT],[("edge re-arming on incomplete dispatch","shl-pty.c: shl_pty_bridge_dispatch_pty"),("two-pass loops returning -EAGAIN","shl-pty.c: pty_read, pty_write")],["bytes moved in the simulated kernel","epoll readiness"])
p("C24","Opening and closing a pty never leaks descriptors or lies about success",
 "If any step of opening a terminal fails, in the parent or in the child, opening reports failure, no descriptor or memory of the attempt remains, and no half-opened handle is returned; on success the parent holds exactly one descriptor and the child's standard streams are the terminal with the requested size. After closing, every operation on the handle fails cleanly and its descriptor is closed exactly once.",
 ["fault_sequences","crash_points"],"All system-call failure points (allocation, open, pipe, fork, each child step, child death before or after the handshake, interrupted handshake) and all close/unref orders.",
 "There is no pty test, and failing individual system calls requires simulation.",
 [PT],[("open handshake","shl-pty.c: shl_pty_open, pty_init_child, pty_setup_child, pty_recv/pty_send"),("close","shl-pty.c: shl_pty_close, shl_pty_unref")],["simulated descriptor table","return values"])
p("C25","Combined symbols stay unique, stable and correct under memory pressure",
 "Combining the same sequence of characters always yields the same symbol, different sequences yield different symbols, and every symbol handed out expands to exactly its sequence for the life of its table. When memory runs out, the unextended symbol is returned and nothing previously handed out changes; a later retry succeeds.",
 ["histories","fault_sequences"],"All append histories (thousands of symbols, up to the length limit, hash collisions, table growth) x allocation failures at any point.",
 "test_symbol appends a handful of symbols without faults.",
 [U,HT,"src/shared/shl-array.h"],[("two-way symbol table","tsm-unicode.c: tsm_symbol_append, tsm_symbol_get")],["tsm_symbol_get"])
p("C26","The hash table behaves as a map even when allocations fail",
 "Lookups, insertions, removals and traversals of the hash table agree with a simple reference multimap for every operation history, including across growth and shrinking, many collisions and deletions. A failed insertion leaves the table unchanged, and clearing visits every element exactly once.",
 ["histories","fault_sequences"],"All operation histories x hash distributions (including constant hashes) x allocation failures during growth.",
 "test_htable has one fixed history without faults.",
 [HT],[("open hashing with deleted markers and rehash","shl-htable.c")],["shl_htable_* return values"])
p("C27","Terminals in one process do not influence each other",
 "Several terminals living in one process behave exactly as each would alone: whatever streams, user events, draws and failures are interleaved on the others, one terminal's screen, replies and callbacks depend only on its own history.",
 ["schedules"],"All interleavings of histories of several terminals, down to single bytes, including creation and destruction of others.",
 "Tests use one terminal at a time.",
 [V,S,U,R],[("no shared mutable state","tsm-vte.c, tsm-screen.c, tsm-unicode.c")],[DRAW,WCB,"OSC callback"])
p("C28","Width lookup and UTF-8 encoding of single characters",
 "The display width of a character and its UTF-8 encoding are pure functions: width is 0, 1 or 2 as given by the Unicode tables, and encoding then decoding returns the same character while invalid code points encode to nothing.",
 ["inputs"],"All 2^21 code points.","Tests sample a few characters.",
 [U,"external/wcwidth/wcwidth.c"],[("tables","wcwidth.c"),("encoder","tsm-unicode.c: tsm_ucs4_to_utf8")],["tsm_ucs4_get_width","tsm_ucs4_to_utf8"])
p("C29","Every public function is exported from the shared library",
 "Every function declared in the public header can be linked from the shared library.",
 ["configurations"],"All public declarations x build configurations.","Tests link a static test library.",
 ["src/tsm/libtsm.h",V,S],[("visibility attributes","libtsm-int.h: SHL_EXPORT")],["dynamic symbol table"])
p("C30","The GTK terminal widget shows exactly what the terminal holds",
 "The bundled GTK terminal widget shows exactly what its terminal holds: every frame it paints, on whatever part of the window was lost and with whatever cells it skips as unchanged, equals a complete repaint of cells, attributes, cursor and selection in the current font, and a frame is requested whenever the picture changes. The character grid and the window size of the pty follow the window and the font. Keys, mouse selection, scrolling keys and titles act as the terminal defines; each key is consumed exactly if it was used. All output of the program, including what it wrote just before it ended, is displayed, everything typed arrives, the end of the program is announced exactly once, a program can be started again, and destroying the widget at any point leaks nothing and leaves no child or timer behind.",
 ["schedules","faults","histories"],"All sequences of window, input and property events, client output, program ends and widget destruction, under short, interrupted and blocking system calls.","No test runs the widget.",
 ["src/gtktsm/gtktsm-terminal.c",V,S,"src/shared/shl-pty.c"],[("renderer","gtktsm-terminal.c: renderer_draw_cell, gtktsm_renderer_draw"),("events","gtktsm-terminal.c: terminal_configure_fn, terminal_key_fn, terminal_button_fn, terminal_motion_fn"),("program","gtktsm-terminal.c: gtktsm_terminal_fork, terminal_child_fn, terminal_bridge_fn")],["window pixels","TIOCSWINSZ","queued frames","signals title, stopped, terminal-changed","bytes read by the program"])
p("C31","Screen operations called directly have exactly their described effect",
 "Every operation of the public screen interface (writing with attributes, moving, tab stops, margins, inserting, deleting, scrolling, erasing with and without regard to protected cells, flags, default attributes, reset, resize, history) has exactly its described effect on cells, attributes, cursor and history, whatever operations preceded it and whether an emulator uses the same screen or not. Counts and positions beyond a limit act like the limit, a count of zero and a missing screen do nothing, and erasing that respects protection, including the client's selective erase, spares exactly the protected cells.",
 ["histories","inputs"],"All histories of screen operations with all arguments (zero, at and beyond each limit, huge), alone and interleaved with an emulator on the same screen, on all sizes.",
 "test_screen calls a few operations once each with small arguments; protection, limits and combinations are not covered.",
 [S,R],[("screen operations","tsm-screen.c: tsm_screen_*"),("protected erase","tsm-screen.c: screen_erase_region"),("clamping","tsm-screen.c: tsm_screen_move_to, tsm_screen_erase_chars")],[DRAW,"tsm_screen_get_cursor_x/y","tsm_screen_get_flags","tsm_screen_sb_get_line_count/pos"])
p("C32","Draw identifiers identify glyphs, so renderers can cache by them",
 "The identifier handed to the draw callback stands for one glyph for the life of the screen: two cells drawn with the same identifier have the same characters, width, bold, italic, underline, inverse and blink, and the same visible glyph always gets the same identifier, across draws, buffers, history, selections, cursor and inverse video.",
 ["histories"],"All histories of output, attributes, selections, views and direct writes, over all draws of a screen.",
 "No test compares identifiers of different cells or draws.",
 [R,U],[("identifier encoding","tsm-render.c: tsm_screen_draw"),("symbols","tsm-unicode.c: tsm_symbol_get")],[DRAW])
p("C33","A program on the pty starts in a clean terminal environment",
 "When opening a pty succeeds, whatever signals the application blocks, ignores or handles and whatever standard streams it has closed, the child starts with none of the standard signals blocked or ignored, leads its own session with the pty as controlling terminal and blocking read-write standard streams, backspace as erase character, UTF-8 input, otherwise unchanged terminal settings, and the requested window size. Resizing and signalling reach exactly that terminal, report failures, and the application's own signals, session and terminal never change.",
 ["fault_sequences","configurations"],"All signal masks and dispositions of the application x sizes x system-call failures in parent and child x histories of opens, resizes, signals and closes of several ptys.",
 "There is no pty test, and the child's environment is invisible to the application.",
 [PT],[("child setup","shl-pty.c: pty_init_child, pty_setup_child"),("resize and signal","shl-pty.c: shl_pty_resize, shl_pty_signal")],["simulated process table","simulated terminal settings"])
p("C34","Observers never influence what they observe",
 "Whether an application installs a log callback, title and mouse callbacks, draws often or never, has failing draw callbacks, or queries state at any time makes no difference to screen, cursor, modes, history or replies. Log messages are handed over with arguments matching their format.",
 ["histories","schedules"],"All streams and user events x all subsets of observers x all placements of draws and queries, also in builds with debug messages.",
 "No test compares an observed with an unobserved terminal.",
 [V,S,R,"src/shared/shl-llog.h"],[("logging","shl-llog.h: llog_format"),("callbacks","tsm-vte.c: do_osc_end, mouse callback"),("drawing","tsm-render.c: tsm_screen_draw")],[DRAW,WCB,"log callback","OSC callback"])
p("C35","A program on a pty is displayed and served exactly, end to end",
 "A program running on a pty behind an emulator is displayed exactly as its complete output prescribes, its queries are answered and the user's input arrives, each byte once and in order, and it sees the size of the screen, whatever short transfers, interrupted or would-block calls, delays, full buffers and bursts lie between, with several sessions sharing an event loop. Everything written before the program exits is still displayed, and closing sessions releases everything.",
 ["schedules","fault_sequences","histories"],"All programs' outputs and user actions x all schedules of kernel, program and event loop x all short, interrupted and would-block transfers, for several sessions at once.",
 "No test connects a pty to a terminal, and none injects short transfers.",
 [PT,V,S],[("pty input and output","shl-pty.c: pty_read, pty_write, shl_pty_dispatch"),("event loop","shl-pty.c: shl_pty_bridge_dispatch"),("terminal","tsm-vte.c: tsm_vte_input")],[DRAW,WCB,"pty input callback","simulated kernel's streams and window size"])
p("C36","The byte queue and the growable array keep exactly what was put in",
 "The shared ring buffer is a byte queue: pushed bytes come out once and in order, whatever sizes are pushed, pulled, peeked and copied, through wrap-around and growth; pulling or copying more than there is takes what there is. The shared array keeps its elements in order through pushes, pops and resizing, and every entry that resizing adds is zero. A push, resize or construction that cannot get memory, or asks for an impossible size, reports it and changes nothing, and clearing or freeing releases everything.",
 ["histories","inputs"],"All sequences of operations with all sizes x all placements of allocation failures.",
 "No test calls the ring buffer or the array directly.",
 ["src/shared/shl-ring.c","src/shared/shl-ring.h","src/shared/shl-array.h","src/shared/shl-macro.h"],[("queue","shl-ring.c: shl_ring_push, shl_ring_pull, shl_ring_peek, shl_ring_copy"),("array","shl-array.h: shl_array_push, shl_array_pop, shl_array_zresize"),("size rounding","shl-macro.h: SHL_ALIGN_POWER2")],["shl_ring_peek","shl_ring_copy","shl_ring_get_size","shl_array_get_array","shl_array_get_length"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
