#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PT = "core/src/editor/piece_table/mod.rs"
CORE = "core/src/editor/core.rs"
MOD = "core/src/editor/mod.rs"
VIEW = "core/src/editor/view.rs"
BUF = "core/src/editor/buffer.rs"
SRV = "core/src/server.rs"

p("C01", "Buffer edits behave exactly like edits of a plain string",
  "After any sequence of inserts, appends, deletions and range replacements (at character boundaries of a non-empty text), a buffer's text, its byte length and every sub-range read from it are exactly what the same sequence of edits produces on a plain string. No edit loses, duplicates, reorders or alters any text outside the edited range.",
  ["inputs", "histories"], "every initial text, every finite sequence of insert/append/delete/replace with any in-range positions and any Unicode payload",
  "the tests edit two or three fixed sentences; the piece bookkeeping (splits, truncation, offset shifts, repacking, tree rebalancing) has an unbounded number of shapes that only long mixed histories reach",
  [PT], [("piece split/truncate/shift and red-black tree of pieces", PT), ("repack of consecutive pieces", PT)],
  ["Buffer.content text/len/text_range through the public library API"], None,
  [("pieces", "ordered pieces referencing the original and added byte stores", PT)])
p("C02", "Undo and redo restore the exact text and line structure",
  "Undoing returns a buffer to exactly the text it had before its most recent group of edits (consecutive edits of one kind form a group; a replacement or a reload is a group of its own), redoing returns it to exactly the text it had before the undo, and a new edit discards what could be redone. After each of these every line, line count and coordinate query agrees with the restored text.",
  ["histories", "inputs"], "every interleaving of edits, undos and redos, to any depth",
  "one unit test walks one short fixed script and looks at the text only, never at the line index",
  [PT], [("snapshots of the piece set pushed on a change of edit kind", PT)],
  ["text, lines and coordinates after undo/redo"], "guarded accessors for undo/redo, which are private",
  [("undos/redos", "stacks of piece snapshots", PT), ("newlines", "line index", PT)])
p("C03", "Line and coordinate queries always agree with the text",
  "At every moment the line count, the text and length of each line, the longest line, and the character found at a position are those of the current text, with columns counted in user-perceived characters (grapheme clusters) starting at 1. Converting the offset of any character to a line/column coordinate and back is the identity, distinct characters have distinct coordinates, and coordinates outside the text are reported as absent.",
  ["inputs", "histories"], "every text (ASCII, multi-byte, combining, empty lines, with and without a final newline) reached through any edit history",
  "tests query a handful of coordinates on fixed texts, mostly ASCII and mostly straight after construction",
  [PT, "core/src/editor/piece_table/position.rs"], [("incrementally maintained newline set", PT), ("offset_to_coord / coord_to_offset", PT)],
  ["line_count, line_text, lines, line_length, longest_line, lines_range, char_at, offset_to_coord, coord_to_offset"], None,
  [("newlines", "byte offsets of every newline", PT)])
p("C04", "Cursor movements land exactly where their definition says",
  "For every buffer of the client's current view: left/right move by one user-perceived character crossing line ends, up/down move by one line to the remembered column or the end of a shorter line, line begin/end go to the first/last character of the line, document begin/end to the first/last character, and a movement that has nowhere to go leaves the cursor in place. A non-extending movement brings the anchor to the cursor, an extending one leaves the anchor, the text is never changed, and no other client's selections and no other view's selections move.",
  ["inputs", "histories"], "every text, every cursor position, every sequence of movements by any number of clients (whether movements in a one-character text count for the remembered column is left open)",
  "scripted tests replay ten fixed ASCII movement scripts in one single-buffer view with one client",
  ["core/src/editor/piece_table/navigator.rs", CORE, "core/scripts/editor.lua", "core/scripts/keys.lua"],
  [("Navigator cursor and target column", "core/src/editor/piece_table/navigator.rs"), ("move_cursor over all buffers of the view", CORE)],
  ["get_context from Lua, selection highlighting in view notifications"], "snapshot of all clients' selections (target column is private)",
  [("target_col", "column remembered by vertical movement", "core/src/editor/selection.rs")])
p("C05", "Deleting the selection removes exactly the selected characters",
  "Deleting the selection removes, in each buffer of the client's current view, exactly the characters from the selection's first to its last inclusive, reports exactly those texts as deleted, and changes nothing else in any buffer; a buffer emptied this way becomes a single empty line. Afterwards the selection starts at the character now found where it started, or at the last character if the text has become shorter than that.",
  ["inputs", "histories"], "every text and selection (forward, backward, single, across lines, whole buffer, multi-byte), any history",
  "one scripted test deletes five times in one six-byte ASCII buffer",
  [CORE, BUF, "core/src/editor/selection.rs"], [("delete_selection and clamping", CORE), ("selection_range", BUF)],
  ["return value of delete_selection in Lua, buffer text, view notifications"], "snapshot of buffers and selections")
p("C06", "Every client's selection always designates text that exists",
  "At every moment each connected client has, for every open view and every buffer of it, a selection whose anchor and cursor each point at the first byte of an existing character of that buffer's current text. This holds whatever other clients do: deleting text, replacing a scratch buffer, reloading a file that shrank, deleting or recombining views.",
  ["histories", "schedules"], "every interleaving of edits, reloads, view operations, joins and leaves by several clients",
  "no test has two clients on one buffer, and none shrinks a buffer under someone else's cursor",
  [CORE, "core/src/editor/selection.rs", BUF], [("selection clamping after modification", CORE), ("selection set-up in add_view/add_client", CORE)],
  ["get_context for every client, snapshot hook"], "snapshot of all clients' selections in all views")
p("C07", "Clients always display an existing view made of existing buffers",
  "There is always at least one view; every connected client displays a registered view, and every view lists only existing buffers. Opening, adding to, removing from and deleting views change only the view concerned: everyone who displayed a replaced or deleted view is moved to the most recently opened surviving one, a buffer disappears exactly when the last view showing it goes away, deleting the last view leaves an empty scratch buffer, and requests naming unknown views or buffers fail without changing anything.",
  ["histories", "schedules"], "every sequence of edit, view, view-add, view-remove, view-delete and Lua equivalents by any number of clients",
  "three tests run three or four fixed view operations with one client",
  [CORE, VIEW, "core/src/stackmap.rs", "core/src/editor/command.rs"],
  [("add_view/delete_view/modify_view", CORE), ("view keys and recency stack", "core/src/stackmap.rs")],
  ["view notifications, view_select menu, responses"], "snapshot of views, buffers and client contexts")
p("C08", "A view notification shows exactly the text and the selection",
  "Every view notification lists the buffers of the client's current view with, for each, its name, its first and last line number, and every line of its current text in order (without its line end, which is shown as one blank cell), nothing missing, added or altered. The cells shown with the selection face are exactly the characters from the first to the last selected one, whatever the characters' encoded length.",
  ["inputs", "histories"], "every text and every selection of the receiving client",
  "tests only compare the list of buffer names in a view",
  [VIEW, BUF], [("to_notification_params", VIEW), ("ornament Decorator", VIEW)],
  ["view notifications"], "snapshot to know the receiving client's text and selection independently")
p("C09", "Every client's screen is up to date after every request",
  "After any request by any client has been processed, the latest view notification each connected client has received equals what a fresh rendering of its current view would show; a client that has just joined has received one. View notifications are only sent to the clients they belong to.",
  ["histories", "schedules"], "every sequence of requests by up to several clients sharing or not sharing views and buffers",
  "tests have a single client, so a missing or misdirected update of somebody else's screen cannot show",
  [CORE, MOD], [("notify_view_update and clients_with_buffer", CORE)],
  ["notifications per client compared with the state"], "snapshot of state")
p("C10", "Each request line gets exactly one correct response, in order",
  "Every line a connected client sends is answered to that client by exactly one response, in the order of the lines, carrying the request's identifier (null when the line is not a request), and either a result or an error. Unknown methods, missing or ill-typed parameters, unknown names and failing scripts or files are answered by errors with the corresponding JSON-RPC code; valid requests are answered by a result.",
  ["inputs", "histories"], "every byte string sent as a line, every request of the protocol with any parameters and identifiers",
  "no test sends a single request line",
  [MOD, "remote/src/jsonrpc.rs", SRV], [("Editor::handle dispatch and response! macro", MOD), ("server event loop", SRV)],
  ["responses on the wire and from the library entry point"], None)
p("C11", "No client input can crash or stop the editor",
  "Whatever sequence of lines clients send (malformed, hostile or valid in any order, including script calls naming unknown clients, unreadable or vanished files, odd names and searches), the editor neither panics nor stops answering: the next valid request of any connected client is processed normally.",
  ["inputs", "histories", "fault_sequences"], "every finite sequence of lines from any number of clients, and every state of the files they name (scripts that never return or that ask the host to exit excluded)",
  "tests send only well-formed calls; a panic in any handler kills every client's session",
  [MOD, CORE, BUF, VIEW, "core/src/editor/menu.rs", SRV], [("error returns instead of panics in handlers", MOD)],
  ["process liveness, probe requests after each hostile step"], None)
p("C12", "Menu search shows exactly the matching entries, best first",
  "For any search text, a menu shows exactly the entries whose label contains the whitespace-separated search words one after the other, ignoring case and taking every character literally; each entry's displayed fragments concatenate to its label and the highlighted ones are the search words in order. Entries are ordered by increasing length of the matched stretch, then alphabetically.",
  ["inputs"], "every set of labels and every search text",
  "three tests use one search phrase on fixed ASCII paths, none with characters special to regular expressions",
  ["core/src/editor/menu.rs"], [("MenuFilter regex, Candidate score and tokenize", "core/src/editor/menu.rs")],
  ["menu notifications, editor::menu public API"], None)
p("C13", "Menus list what exists and selecting an entry does what it says",
  "Opening a menu with an empty search lists: the eight commands for the command menu; every non-hidden, non-ignored file (not the directories) under the working directory for open; every view, and every buffer without a view of its own, for view selection; every buffer for adding to or removing from the view; one prompt line for scratch and exec. Selecting a choice has exactly the effect and outcome of the equivalent direct request, and an unknown menu or choice is refused without effect.",
  ["inputs", "histories"], "every editor state and directory content, every menu and choice",
  "no test opens a menu of the editor or selects an entry",
  ["core/src/editor/command.rs", "core/src/editor/menu.rs", MOD], [("default_commands providers and actions", "core/src/editor/command.rs"), ("command_menu / command_menu_select", MOD)],
  ["menu notifications, responses and effects"], "snapshot to compare with the equivalent request")
p("C14", "Keys drive each client's own modal state machine",
  "Each key sent by a client is interpreted in that client's current mode: normal, insertion, go-to and extend-to, where the documented keys move, extend, delete, print or switch mode, the go-to modes last one key, escape leaves insertion, and other keys do nothing. The status line shows the client's mode and the last handled key, entering a go-to mode shows its hint, and no client's keys change another client's mode or status.",
  ["inputs", "histories", "schedules"], "every key sequence, in any batching, interleaved between any number of clients",
  "no test sends a key",
  ["core/scripts/keys.lua", "core/scripts/editor.lua", MOD], [("ModalHandler", "core/scripts/keys.lua"), ("command_keys", MOD)],
  ["status and hint notifications, selections, buffer text"], "snapshot of selections and text")
p("C15", "Messages reach exactly their client and are logged in order",
  "A message or error addressed to a client is delivered to that client and no other, exactly once, with error styling for errors, and is appended as one entry with the client's number to the messages or errors buffer. These logs and the debug log only ever grow by whole entries, in the order of the events.",
  ["histories", "inputs"], "every sequence of messages, errors and debug lines with any content by any number of clients",
  "one unit test normalises one error text; nothing looks at delivery or at the logs",
  [CORE, MOD, "core/scripts/editor.lua"], [("Core::message/error/debug and Notifier", CORE)],
  ["echo notifications with their addressees, text of *messages*, *errors*, *debug*"], "snapshot of buffer texts")
p("C16", "Opening and reloading a file shows exactly its current content",
  "Opening a file gives a buffer whose text is exactly the file's content (a final newline being supplied if missing), and opening again a file that changed on disk makes every client viewing it see exactly the new content. A file that cannot be read (missing, a directory, not UTF-8, vanished) is refused with an error and leaves buffers and views as they were; the editor never writes to the files.",
  ["inputs", "histories", "fault_sequences"], "every file content and every sequence of on-disk changes between opens, by any client",
  "one test opens Cargo.toml once; nothing reloads, and no test meets a bad file",
  [BUF, CORE, PT, "core/src/editor/diff.rs"], [("new_file / load_from_disk / is_synced", BUF), ("apply_diff", PT)],
  ["edit responses, view notifications, files on disk"], "snapshot of buffer text")
p("C17", "Replacing a text through its differences yields exactly the new text",
  "Comparing any two texts yields a sequence of kept, removed and added stretches that covers both texts completely and whose pieces start and end on character boundaries, every kept stretch being identical in both. Applying it to a buffer makes its text exactly the new text whatever the buffer's edit history, keeps the line index correct, and is undone in one step.",
  ["inputs", "histories"], "every pair of texts, including empty, equal, prefix/suffix-related, multi-byte and large ones",
  "two fixed sentence pairs are compared; pairs differing only at one end, by one byte or inside a multi-byte character are never tried",
  ["core/src/editor/diff.rs", PT], [("diff / find_lcs", "core/src/editor/diff.rs"), ("apply_diff", PT)],
  ["diff result, buffer text after apply_diff"], "guarded access to diff")
p("C18", "The server lives exactly as long as it has clients and cleans up",
  "A server keeps serving the remaining clients when others join, quit or disconnect at any point, even abruptly with unread output or in the middle of a line. When the last client is gone it exits successfully and removes its socket, so that a new server can be started under the same name; a second server for a name in use fails without disturbing the running one.",
  ["schedules", "crash_points", "histories"], "every order of joins, quits, clean and abrupt disconnections, relative to requests in flight",
  "two connection tests connect once and look at the first view; no test disconnects, quits or restarts",
  [SRV, "remote/src/transport/server_listener.rs", "core/src/bin/ced.rs"], [("Join/Leave/Message event loop", SRV)],
  ["process exit status, socket file, responses to the surviving clients"], None)
p("C19", "Every connection gets its own complete, well-framed, ordered stream",
  "Over Unix and TCP sockets, requests cut into arbitrary fragments or sent in bulk are reassembled exactly, every line sent by the server is one complete JSON-RPC message, each client receives exactly its own responses in the order of its requests, and two clients' traffic is never mixed. A line that is not valid text is answered or ends only its own connection, never another one.",
  ["schedules", "inputs"], "every fragmentation and batching of requests, every interleaving of several clients, messages of any size",
  "tests read a few lines from one idle connection",
  [SRV, "remote/src/transport/server_stream.rs", "remote/src/client.rs"], [("read_client line splitting, write_client", SRV)],
  ["bytes on the sockets"], None)
p("C20", "Session names are unambiguous and round-trip",
  "A session name of the form @:port or @address:port denotes the TCP endpoint with that address (127.0.0.1 by default) and port, any other plain name denotes the socket of that name in the user's own session directory, and no name makes the program crash. Printing a session and parsing the result back gives the same session, and listing sessions shows exactly the names of the existing ones.",
  ["inputs", "configurations"], "every plain file name and every address/port text, every content of the session directory",
  "two unit tests parse four names and print four",
  ["remote/src/session.rs"], [("RE_ADDR, FromStr and Display", "remote/src/session.rs")],
  ["Session::from_name, ConnectionMode parse/display, Session::list, ced --list"], None)
p("C21", "Key descriptions parse and print as inverses",
  "Printing any key event and parsing the result gives the same event back (characters being identified with their lower case, as printed), for every combination of modifiers, every character and every named key; distinct key events print differently. Key events also survive being sent over the wire unchanged.",
  ["inputs"], "all modifier combinations with every Unicode character and every named key",
  "one test converts six examples, all of them single characters",
  ["remote/src/keys.rs"], [("Display / FromStr / From<&str>", "remote/src/keys.rs")],
  ["KeyEvent display and parse, serde encoding"], None)
p("C22", "Protocol messages survive the wire unchanged, one per line",
  "Every request, notification and response (successful with any result including none, or failed) encodes to a single line of JSON-RPC 2.0 and decodes back to the same message with the same identifier, method, parameters, result or error; a response always has exactly one of result and error. Any other text is rejected by the decoder with an error, never a crash, and notifications and responses are never mistaken for each other.",
  ["inputs"], "every identifier, method, parameter and result value, and every byte string as decoder input",
  "seven unit tests decode six fixed texts; nothing is encoded and no malformed input is tried",
  ["remote/src/jsonrpc.rs", "remote/src/protocol.rs"], [("serde derives, Response::result", "remote/src/jsonrpc.rs")],
  ["encoder/decoder public API"], None)
p("C23", "A client connection mirrors the server and sends what was asked",
  "The client library's state always equals the last value the server announced for each of client, session, message (a menu may take its place), status, view and menu, whatever other lines arrive in between, and each server line yields exactly one event. Each call sends exactly one request with the stated content and a fresh identifier in call order, menu navigation stays within the entries, and selecting sends the selected entry (or the typed text for a prompt) and closes the menu.",
  ["inputs", "histories", "fault_sequences"], "every stream of server lines (valid, unknown, malformed, cut off) interleaved with every sequence of client calls",
  "no test uses the client connection API",
  ["remote/src/connection.rs", "remote/src/client.rs"], [("ConnectionState::event_update, Connection::*", "remote/src/connection.rs")],
  ["Connection::state, events, bytes received by a fake server"], None)
p("C24", "The C interface hands over the same content with sound memory use",
  "For every event of a session, the data reachable through the C functions (version, text fragments and faces, status items, view items, lenses, their order and line numbers) equals what the server sent with zero bytes left out, and iterators end with a null pointer. Releasing each object once through its destroy function, in any order, touches no invalid memory. Events the interface cannot express and texts with embedded zero bytes never abort the host program.",
  ["inputs", "histories"], "every stream of server notifications and every order of iterating and destroying",
  "there is no automated test of the C interface",
  ["remote-ffi/src/lib.rs", "remote-ffi/src/event.rs", "remote-ffi/src/text.rs", "remote-ffi/src/connection.rs", "remote-ffi-gen/src/lib.rs"],
  [("IndexedIterator, raw!/cstring!, generated destroy/next functions", "remote-ffi/src/lib.rs")],
  ["C API driven by a harness under AddressSanitizer/valgrind"], None)
p("C25", "The terminal client shows the view and survives any screen",
  "In a terminal of any size from tiny to large, with any file names, texts, menus, hints and messages, the terminal client never crashes: it shows each buffer's header and its lines from the top cut to the width and height of the screen, the status line at the bottom and the menu while one is open, and it restores the terminal when it ends. Characters and Escape typed (other than the client's own command keys, and the one that deliberately aborts, Ctrl-x) reach the server as the corresponding key events in order; while a menu is shown they edit its search, and the arrows, Enter, Backspace and Escape navigate, select from, edit and close it.",
  ["inputs", "configurations", "histories"], "every terminal size, view content, menu and key sequence (the place of characters on the screen is only specified for printable single-cell ones)",
  "the terminal client has no test at all",
  ["core/src/tui.rs"], [("draw_view/draw_menu/draw_hint/draw_status and handle_input", "core/src/tui.rs")],
  ["bytes written to a pseudo terminal, interpreted by a screen model; requests seen by a fake server"], None)
p("C26", "Command-line modes process all their input and report failures",
  "Script mode runs the given scripts in order, in one editor with client 1, stopping with a failure status at the first one that fails or cannot be read and with success otherwise; standalone mode opens all the files given, however many, answers every line of text of its input with one response line in order and prints every notification before it ends; json mode relays every complete message between its standard streams and the session, one per line.",
  ["inputs", "configurations"], "every list of scripts and files and every input stream",
  "scripts are only run through a library function, one at a time; no test runs the program in these modes",
  ["core/src/bin/ced.rs", "core/src/script.rs", "core/src/clients.rs"], [("exec_scripts, start_standalone, StdioClient", "core/src/clients.rs")],
  ["exit status, stdout lines"], None)
p("C27", "Scripts run with the right client identity and fail cleanly",
  "A script executed for a client sees that client's number and the session's exact name, can use every editor function on any connected client with the documented effect, and a call naming an unknown client or an unreadable file raises an error the script can catch. A failing script reports its error to the requesting client only, undoes nothing it had already done, and leaves every client able to run further scripts and keys.",
  ["programs", "inputs", "histories"], "every finite sequence of script calls by any clients, any session name",
  "ten fixed scripts run as the only client of a session with an empty name",
  [MOD, "core/scripts/editor.lua", "core/scripts/utils.lua", CORE], [("exec_lua environment, UserData methods", MOD)],
  ["return values inside Lua, responses, notifications"], "snapshot of state")
p("C28", "Recency-ordered maps track the most recently used key exactly",
  "After any sequence of insertions, re-insertions, removals and promotions, the map holds exactly the inserted and not removed entries with their latest values, the latest key is the one most recently inserted or promoted among those still present, and promoting an absent key is refused without effect.",
  ["histories"], "every operation sequence over any key set",
  "one test performs six operations",
  ["core/src/stackmap.rs"], [("StackMap", "core/src/stackmap.rs")],
  ["public StackMap API; through it, which view and context new clients get"], None)
p("C29", "Joining clients take over the latest client's context, leavers vanish",
  "A client that joins gets its own identity, status line and normal mode, the current view of the most recently joined client still connected (or the most recent view if there is none) and independent copies of its selections; what one does later never moves the other's. A client that leaves or quits disappears completely: it receives nothing more, its view and selections influence no one, and its later requests are refused.",
  ["histories", "schedules"], "every interleaving of joins, leaves, quits and requests",
  "tests only ever join one client and remove it at the end",
  [CORE, MOD, SRV, "core/scripts/editor.lua"], [("add_client/remove_client", CORE), ("stopped clients", MOD)],
  ["info, status and view notifications after a join; absence of notifications after leaving"], "snapshot of client contexts")
p("C30", "The unsafe and threaded code paths are free of undefined behaviour",
  "No workload makes the server, the client library or the C interface perform an invalid memory access, use freed memory, read uninitialised memory through its own unsafe code, or race on shared data.",
  ["inputs", "schedules"], "every workload over the library, the server process, the client connection and the C interface",
  "the tests run without any sanitizer",
  ["remote/src/transport/server_stream.rs", CORE, "remote-ffi/src/lib.rs", "remote-ffi/src/connection.rs"],
  [("pin projections in ServerStream, unsafe impl Send for Core, raw pointers of the C interface", "remote/src/transport/server_stream.rs")],
  ["AddressSanitizer, ThreadSanitizer and valgrind reports"], None)
p("C31", "Clients find or start their session's server",
  "A client for a session name without a socket gets a server of that name started and is connected to it once it is ready; where the name is served already the client joins that server and no other stays. Clients starting at the same moment under one new name all end up in one server, sessions of other names starting or ending meanwhile change nothing, and the server stays for the others when the client that started it dies. Daemon mode returns successfully exactly when its server is ready for connections. Without a session name, the program's process number is the name. A client fails with a failure status when no server can be reached or started, as for an unserved TCP endpoint.",
  ["schedules", "fault_sequences", "configurations"], "every interleaving of clients of any kind starting under equal or different names with sessions ending, at any relative speed",
  "no test starts a server process or a client",
  ["remote/src/lib.rs", "remote/src/transport/server_stream.rs", "remote/src/transport/socket.rs", "remote/src/server.rs", "core/src/bin/ced.rs"],
  [("ensure_session, start_daemon, find_bin", "remote/src/lib.rs"), ("SocketListener::bind", "remote/src/transport/socket.rs")],
  ["servers started (recorded), connections made, exit statuses, who shares a server with whom"], None)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
