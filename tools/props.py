#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TD = "src/fora/connectors/tunnel_dispatcher.py"
TC = "src/fora/connectors/tunnel_connector.py"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, level="exploration", note="", claimed=True, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, level=level, note=note, claimed=claimed, na=na))


prop("C01", "Packets survive the wire unchanged",
     "Every protocol packet that can be written to a connection is received as a packet of the same kind with exactly equal field values (integers, byte strings, unicode strings, absent values, lists of any length), in order, "
     "whatever sizes the values have and however the byte stream is fragmented, and reading consumes exactly the bytes that were written. "
     "A packet holding a value that cannot be encoded is refused without putting any byte on the stream, and every written packet is flushed to the peer.",
     ["inputs", "schedules"], "all packet kinds, field values and sizes, packet sequences and fragmentations of the stream",
     "The tests push a handful of short strings through a real dispatcher; boundary sizes, multi-byte text, empty/absent values, negative numbers and fragmented delivery are never sampled.",
     [TD], [("serializers, deserializers, packet read/write helpers", TD)], ["Connection.write_packet", "receive_packet"],
     "property-based round-trip testing (Hypothesis) through fragmenting pipes",
     note="Round-trip over generated packet sequences; trusts Python's io buffering to model a pipe.")

prop("C02", "A broken connection is reported as an error, never as data",
     "If the stream from a remote host ends after any byte of a response, or carries the response to a different kind of request or garbage, the pending call (or opening the connection) fails with an I/O error: it never returns a value, reports a missing file, or raises an unrelated error. "
     "If the stream towards the remote ends anywhere inside a request, that request has no effect on the remote host.",
     ["fault_sequences", "crash_points", "inputs"], "every cut point in the byte streams of every kind of request and response, and every mismatched answer",
     "No test ever breaks a connection in the middle of an exchange.",
     [TD, TC], [("exact-length reads, EOF detection, response type check", TD + ", " + TC)], ["Connector.run/stat/upload/download/..."],
     "fault enumeration over recorded byte streams plus generated cut points (Hypothesis)", level="fault_enumeration",
     note="Every byte of small exchanges is cut; larger ones at generated offsets. Streams are recorded from the real dispatcher of the tree under test.")

prop("C03", "Every request gets its own answer; failures do not derail a session",
     "Over one connection, any sequence of requests - including ones that fail, carry malformed arguments (NUL bytes, bad modes, unknown users, empty or nonexistent commands, unencodable text), run commands that produce large output, read their standard input or are not captured - yields for each request exactly the answer that this request alone would yield on the same host state. "
     "A failing request raises its documented error and leaves the connection usable; commands never see or inject bytes of the protocol stream.",
     ["histories", "inputs"], "request histories of any order and length with arbitrary arguments, via the local and the ssh connector",
     "Tests issue isolated well-formed requests; no test continues using a connection after an unusual failure.",
     [TD, TC, "src/fora/connectors/ssh.py", "src/fora/connectors/local.py"], [("dispatcher main loop answering each request, error packets, isolation of child stdio", TD)], ["Connector methods"],
     "stateful model-based testing of request histories against an independent local oracle (Hypothesis)",
     note="Model: direct OS calls made by the harness on the same scratch tree.")

prop("C04", "Remote commands run exactly as requested",
     "A command run on a host receives exactly the given argument vector (no shell, no splitting or quoting) and exactly the given bytes on standard input, and the caller gets back exactly its standard output, standard error and exit status (negative signal number when killed); a non-zero status raises an error carrying these iff checking is on. "
     "It runs with the requested or default working directory and umask, as the requested user and group (with that user's supplementary groups, none of the connecting user's), and an invalid user, group, umask or directory is rejected without running it.",
     ["inputs", "configurations"], "all argument vectors, inputs, outputs and sizes, exit statuses, identities, umasks and directories",
     "The tests run a few fixed commands with short ASCII arguments and outputs.",
     [TD, TC, "src/fora/connection.py"], [("process execution request", TD), ("defaults applied by the connection", "src/fora/connection.py")], ["Connection.run"],
     "property-based testing against a probe program that reports its own execution environment (Hypothesis)",
     note="The probe reports argv, stdin, cwd, umask, ids and groups from inside the process.")

prop("C05", "Uploads, downloads and stats are faithful",
     "Uploading stores exactly the given bytes at exactly the given path, replacing an existing file, with exactly the requested mode (including set-id bits) and owner and group (the owner's primary group when only the owner is given; a newly created file is 600 when no mode is given); invalid owner, group or mode is rejected without touching the file. "
     "Downloading returns exactly the bytes of the file, and stat reports the type, mode, owner, group, size, times and SHA-512 of the path itself or of the link's target when following links, and reports absence iff the path does not exist.",
     ["inputs", "histories"], "all contents, sizes, modes, owners, path names and file types",
     "Tests upload one short file and stat a few existing ones.",
     [TD, TC], [("upload, download and stat requests", TD)], ["Connector.upload/download/stat"],
     "property-based model testing against direct filesystem inspection (Hypothesis)",
     note="Oracle: os.lstat/os.stat, hashlib and direct reads by the harness.")

prop("C06", "Account, environment and home queries agree with the host",
     "Resolving a user or group accepts a name or a numeric id (names take precedence) and returns the canonical name; querying returns exactly the account's ids, primary group, supplementary groups, members, comment, home and shell, and the password hash only when asked for; an environment query returns exactly the variable's value. "
     "Something that does not exist is reported as such (error from the connector, the given default from the connection), never as another account's data.",
     ["inputs", "configurations"], "all account databases, names, ids and environment contents",
     "Tests query root and one nonexistent name.",
     [TD, TC, "src/fora/connection.py"], [("resolve/query/getenv requests", TD)], ["Connection.resolve_user/resolve_group/query_user/query_group/getenv/home_dir"],
     "property-based testing over generated account databases with a reference lookup (Hypothesis)",
     note="Generated databases are substituted for the C library lookups inside the dispatcher; the real database of the sandbox is checked too.")

prop("C07", "Execution defaults nest, restore and take effect",
     "Inside nested defaults blocks the effective user, group, owner, file group, modes, umask and working directory are exactly the innermost given values over the outer ones over the connection's identity and base settings, in canonical form (names for ids, plain octal modes), and they apply to every command run and file created there. "
     "Leaving a block, normally or by an exception, restores exactly the previous defaults, and a block whose values are invalid on the host (unknown account, missing directory, non-octal mode) raises and changes nothing.",
     ["histories", "inputs", "fault_sequences"], "all nestings of defaults blocks and all points of exceptional exit",
     "Tests use one or two blocks with fixed values and never leave them by an exception.",
     ["src/fora/types.py", "src/fora/remote_settings.py", "src/fora/connection.py"], [("defaults stack and overlay", "src/fora/types.py, src/fora/remote_settings.py"), ("resolution against the host", "src/fora/connection.py")], ["script.defaults", "Connection.run", "file operations"],
     "stateful property-based testing of nested blocks against a reference overlay model (Hypothesis)", note="Model: dictionary overlay with a canonicalisation table.")

prop("C08", "Groups load in dependency order; invalid inventories are rejected",
     "For every host, the modules of exactly its groups plus `all` are loaded exactly once each, `all` first, and every group after all of its groups that it (transitively, by after/before declarations) depends on, then the host's own module; declarations may be strings, dicts or declaration objects in any order. "
     "An inventory is rejected iff it has a duplicate host or group name, an undeclared group reference, a self-dependency or a dependency cycle, an explicitly named module file (of a host or of a group it is in) that does not exist, or a host with neither url nor name.",
     ["inputs", "programs"], "all inventories: declaration forms and orders, dependency graphs, host memberships, present and absent module files",
     "Tests load six fixed inventories.",
     ["src/fora/inventory_wrapper.py", "src/fora/loader.py", "src/fora/utils.py"], [("dependency merge, rank sort, module loading", "src/fora/inventory_wrapper.py, src/fora/utils.py")], ["load_inventory", "module execution order"],
     "property-based testing over generated inventories with a graph reference model (Hypothesis)", note="Loading order is observed by the generated modules themselves.")

prop("C09", "Host variables follow group precedence and stay per-host",
     "After loading, each host's variables are exactly what executing inventory-wide variables, the host's declared variables, its groups' modules in load order and its host module on one shared namespace would leave (inventory-wide variables being constants), so later definitions win and modifications accumulate; the names, urls and groups of hosts are as declared. "
     "No host observes a change to group-defined values made while loading another host, whatever the order of hosts.",
     ["programs", "inputs"], "all inventories with group and host modules that define, override, delete, extend or derive variables",
     "Tests check one fixed inventory with few variables.",
     ["src/fora/inventory_wrapper.py", "src/fora/types.py"], [("variable inheritance through module initialisation", "src/fora/inventory_wrapper.py")], ["vars(host)", "host.<var>"],
     "property-based testing with generated module programs and a reference interpreter (Hypothesis)", note="Reference: the same statements executed on a plain dictionary.")

prop("C10", "Ambiguous variable redefinitions are detected, unambiguous ones accepted",
     "Loading an inventory fails when, for some host, a group completely redefines a variable that another of the host's groups defined or modified and neither of the two depends (transitively) on the other. "
     "It never fails when every redefinition is by a group that depends on all groups that defined or modified the variable before (or by the host module), every modification by a group that depends on all its definers, nor because several unrelated groups merely modify a common object in place.",
     ["programs", "inputs"], "all dependency graphs, memberships and placements of definitions, redefinitions and modifications",
     "Tests cover a single two-group conflict.",
     ["src/fora/inventory_wrapper.py"], [("variable action history and conflict detection", "src/fora/inventory_wrapper.py")], ["load_inventory raising or not"],
     "property-based testing of generated inventories against reachability in the dependency graph (Hypothesis)", note="Oracle: transitive closure of the declared dependencies.")

prop("C11", "Hosts are named, addressed and connected as declared",
     "A host's url is the declared one, with ssh:// added iff it has no schema; its name is the declared name, else the host part of the url without user and port; its module file and connector (explicit connector, else by url schema) are chosen accordingly, and the command that reaches it addresses exactly that url with the configured ssh options. "
     "An unknown schema, or no url and no connector, is an error and never falls back to another connector. "
     "Connecting over ssh needs nothing on the remote host but a POSIX shell with the usual utilities and python3.",
     ["inputs", "configurations"], "all host declarations, urls of the supported forms, host modules overriding url or connector",
     "Tests check three urls.",
     ["src/fora/inventory_wrapper.py", "src/fora/types.py", "src/fora/connectors/ssh.py", "src/fora/connectors/local.py"], [("url qualification, hostname extraction, connector selection", "src/fora/inventory_wrapper.py, src/fora/types.py, src/fora/connectors/ssh.py")], ["loaded_hosts", "create_connector", "TunnelConnector.command"],
     "property-based testing with a url reference parser (Hypothesis)", note="Urls are built from their parts, so the oracle needs no parser.")

prop("C12", "File operations reach the requested state, once, and touch nothing else",
     "For every initial filesystem state, the directory, file, link, upload and upload_content operations either succeed and leave the path in exactly the requested state (existence, type, content, link target, mode including special bits, owner, group) or refuse and leave everything as it was; they report changed iff the state differed, with the true initial and final state, and running the same operation again reports unchanged and modifies nothing. "
     "No other file, and no target of a link at that path, is created, modified or removed, and a path of the wrong type is refused.",
     ["inputs", "histories"], "all initial states, arguments, path names (including ones that look like options or shell syntax) and operation sequences",
     "Tests run a few fixed sequences on fresh paths.",
     ["src/fora/operations/files.py", "src/fora/operations/utils.py", "src/fora/operations/api.py"], [("probe, compare, act in each operation", "src/fora/operations/files.py, src/fora/operations/utils.py")], ["OperationResult", "remote filesystem"],
     "stateful model-based testing on real scratch trees with full snapshots (Hypothesis)", note="Runs the real tools (chmod, ln, ...) through a guarded local connector.")

prop("C13", "Dry runs change nothing and predict the real run",
     "With the dry-run flag, no operation changes any file, account, package, service or repository on the host, in any initial state. "
     "It reports exactly the changed flag and initial and final state that a real run from the same state then reports.",
     ["inputs", "histories", "configurations"], "all operations, arguments and initial host states",
     "Tests never use dry mode on operations.",
     ["src/fora/operations/"], [("dry guard in each operation", "src/fora/operations/*.py")], ["OperationResult", "host state snapshots"],
     "differential property-based testing dry vs real over all operations (Hypothesis)", note="File and git operations on real scratch trees, account/package/service operations on a simulated host.")

prop("C14", "A failed step is never reported as success, and re-running converges",
     "If any request an operation sends to the host fails (command exits non-zero, except where the exit status is the answer to a query; remote OS error; or the connection breaks), the operation raises and does not report success, and no later step of that operation is reported as done. "
     "Running the same operation again without the fault reaches the requested state from whatever partial state was left.",
     ["fault_sequences", "crash_points"], "every operation, initial state and position of the failing request",
     "No test injects a failure into an operation.",
     ["src/fora/operations/"], [("checked commands, state recomputed on each run", "src/fora/operations/*.py, src/fora/operations/api.py")], ["exceptions and OperationResult", "host state"],
     "fault injection at every request index of generated operations (Hypothesis)", level="fault_enumeration", note="Every index of each generated operation's request sequence is failed in turn.")

prop("C15", "The line operation edits exactly the requested line",
     "After the line operation the file contains (present) or does not contain (absent) a matching line - compared literally, ignoring surrounding whitespace, or by regular expression per line as requested - and all other lines keep their exact bytes and order, added lines go to the end, existing mode and owner are kept and missing files are created with the defaults. "
     "A file that already satisfies the request is left untouched and reported unchanged, repeating the operation reports unchanged, and a requested backup holds exactly the previous content, mode and owner under the documented name.",
     ["inputs", "histories"], "all file contents (any bytes, line endings and final newlines), lines, regexes and option combinations",
     "Tests use two or three ASCII files.",
     ["src/fora/operations/files.py"], [("line operation", "src/fora/operations/files.py")], ["file bytes", "OperationResult"],
     "property-based testing against a byte-level reference editor (Hypothesis)", note="Lines are the newline-separated byte sequences of the file.")

prop("C16", "Directory uploads mirror the source tree",
     "upload_dir makes the destination (the named directory, or a child of it named after the source when the destination ends in a slash) contain every directory and file of the source tree with identical relative paths and contents and the requested directory and file modes, owner and group. "
     "Unrelated files in the destination keep content and attributes, a destination entry of the wrong type is refused, and a repeated upload reports unchanged and modifies nothing.",
     ["inputs", "histories"], "all source trees, names and pre-existing destination states",
     "Tests upload one fixed tree.",
     ["src/fora/operations/files.py"], [("tree walk with nested operations", "src/fora/operations/files.py")], ["destination tree", "OperationResult"],
     "property-based testing of generated trees against a tree model (Hypothesis)", note="Source trees without links or special files.")

prop("C17", "User and group operations converge on exactly the requested account",
     "After the user or group operation the account exists or is absent as requested with every given attribute (uid, primary group by name or gid, exactly or at least the given supplementary groups, comment, home, shell, password hash - including empty, zero or cleared values) and attributes that were not given unchanged, or the documented defaults on creation. "
     "Only that account is modified, changed is reported iff something differed, and repeating the operation issues no modification and reports unchanged.",
     ["inputs", "histories", "configurations"], "all account databases and argument combinations",
     "Tests create and modify one user, sequentially, as root on the machine.",
     ["src/fora/operations/system.py"], [("user and group operations", "src/fora/operations/system.py")], ["account database", "OperationResult"],
     "model-based testing against a simulated account host that executes useradd/usermod/... (Hypothesis)", note="Trusts the simulation of the shadow tools' documented options.")

prop("C18", "Package and service operations converge through the right manager",
     "Package operations install exactly the missing (or remove exactly the present) packages of the given list with the system's package manager, whichever of the supported ones the host has, passing the options that were requested and no others, and leave all other packages alone; service operations bring the unit of the right (system or user) manager to the requested running and enabled state, restart and reload always act, and unspecified aspects are untouched. "
     "changed is reported iff something differed, repeating a converging operation issues no modification, and a host without a supported manager is reported as failure.",
     ["inputs", "configurations", "histories"], "all package databases, unit states and argument combinations on hosts with any supported manager",
     "No test runs package or service operations.",
     ["src/fora/operations/system.py", "src/fora/operations/utils.py", "src/fora/operations/apt.py", "src/fora/operations/pacman.py", "src/fora/operations/portage.py", "src/fora/operations/systemd.py"], [("generic package operation, manager lookup, systemd service", "src/fora/operations/*.py")], ["package and unit state", "OperationResult"],
     "model-based testing against a simulated host (Hypothesis)", note="Trusts the simulation of pacman, dpkg-query, apt-get, emerge/qlist and systemctl command lines.")

prop("C19", "git.repo leaves the checkout at the requested revision",
     "After a successful git.repo the path holds a clone of the url whose HEAD is the commit of the requested branch or tag (or of the remote's default branch), cloned when missing, moved forward when the checked out branch advanced on the remote and updating is on, untouched when updating is off; the reported commits are the real ones. "
     "A path that is not a repository, or a clone of a different url that needs updating, is refused and left untouched, and repeating the operation reports unchanged.",
     ["histories", "inputs"], "all remote histories (branches, tags, look-alike ref names, pushes between runs) and option combinations",
     "The only git test needs the network.",
     ["src/fora/operations/git.py"], [("ls-remote, clone, pull", "src/fora/operations/git.py")], ["HEAD of the checkout", "OperationResult"],
     "stateful property-based testing with real local git repositories (Hypothesis)", note="Uses the installed git with local file remotes.")

prop("C20", "Templates see the right variables",
     "A template is rendered with context variables shadowing host variables shadowing script variables, with `host` and `inventory` always the current host and inventory, and exactly the rendered text is uploaded with the requested (or default) mode, owner and group, identically for file and inline templates. "
     "A template that uses an undefined variable raises an error and uploads nothing.",
     ["inputs", "programs"], "all assignments of variables to context, host, groups and script, and templates using them",
     "Tests render one template.",
     ["src/fora/operations/files.py", "src/fora/types.py"], [("template rendering with hierarchical variables", "src/fora/operations/files.py, src/fora/types.py")], ["uploaded bytes"],
     "property-based testing with a reference variable resolution (Hypothesis)", note="Templates are generated from variable references and literal text.")

prop("C21", "Nested scripts run isolated and unwind completely",
     "Running a script executes it with its own directory as working directory, with fresh execution defaults, with exactly the passed parameters (declared defaults otherwise; a missing required parameter is an error), and with host and inventory available; afterwards - also when it raises - the caller's working directory, script, defaults and log indentation are exactly as before. "
     "A script that is already running, under whatever path or link it is named, cannot be started again unless recursion is allowed.",
     ["programs", "histories", "fault_sequences"], "all call trees of scripts, parameters, defaults and points of failure",
     "Tests run one fixed nested deploy.",
     ["src/fora/loader.py", "src/fora/operations/local.py", "src/fora/types.py"], [("run_script, recursion check, Params", "src/fora/loader.py, src/fora/operations/local.py, src/fora/types.py")], ["values observed inside scripts and after them"],
     "property-based testing of generated script call trees against a reference trace (Hypothesis)", note="Scripts report what they see; the trace is predicted by a model.")

prop("C22", "The command line runs the script on exactly the selected hosts",
     "Invoking the program with an inventory and a script runs the script exactly once per selected host - all hosts in inventory order by default, or the given comma-separated list in its order without duplicates - each with that host active and connected; an unknown host or invalid inventory ends the program with a non-zero status before any connection is made. "
     "If a host's script or connection fails, the program fails and later hosts are not touched, and every opened connection is closed.",
     ["inputs", "programs", "fault_sequences"], "all inventories, host selections and positions of failure",
     "Tests invoke main with one host.",
     ["src/fora/main.py", "src/fora/loader.py", "src/fora/connection.py"], [("host selection and deploy loop", "src/fora/main.py")], ["process exit status", "order of connections and script runs"],
     "property-based testing of command lines against a reference schedule (Hypothesis)", note="Hosts use a recording connector defined by the generated inventory.")

prop("C23", "Printed file contents are faithful and cannot control the terminal",
     "Decoded output text contains only printable characters whatever the bytes, shows printable text unchanged, and shows every other byte or character as a backslash escape. "
     "A printed diff of any two contents transforms the old lines into the new ones when applied, is titled as created, modified or deleted accordingly, and contains no control characters from the contents. "
     "The output of a command whose failure ends a script is shown once, line by line, escaped in the same way.",
     ["inputs"], "all byte strings, pairs of contents and outputs of failing commands",
     "Tests never print hostile content.",
     ["src/fora/logger.py", "src/fora/utils.py"], [("decode_escape and diff, print_process_error", "src/fora/logger.py, src/fora/utils.py")], ["logger.decode_escape", "logger.diff", "printed output"],
     "property-based and differential testing (Hypothesis)", note="The diff is applied by an independent patcher.")

prop("C24", "Operation outcomes follow the check contract",
     "Every operation either returns a result whose success, changed, initial and final fields are consistent (changed iff initial differs from final on success), or raises. "
     "With checking on, a failure raises an operation error with the failure message; with checking off, a failed operation returns an unsuccessful, unchanged result with the message and the script continues; misuse of the operation API (missing or repeated state, missing result, no active host) raises or yields a failed result instead of reporting success.",
     ["inputs", "programs"], "all operations and user-defined operations, outcomes and check settings",
     "Tests exercise failing operations only with the default setting.",
     ["src/fora/operations/api.py", "src/fora/operations/utils.py", "src/fora/utils.py"], [("operation wrapper", "src/fora/operations/api.py")], ["OperationResult", "exceptions"],
     "property-based testing of generated operation bodies against the documented contract (Hypothesis)", note="Operation bodies are generated sequences of API calls.")

prop("C25", "Inspecting an inventory shows what would be used",
     "For every inventory that loads, --inspect-inventory terminates successfully and lists every group in a valid load order, every host with its url, and for every host every variable with its actual value and the module that defined it. "
     "It connects to no host and runs no script; for an inventory that does not load it fails with the loading error.",
     ["inputs", "programs"], "all loadable and unloadable inventories and variable values",
     "Tests inspect one inventory and ignore the output.",
     ["src/fora/main.py", "src/fora/utils.py"], [("show_inventory, table printing", "src/fora/main.py, src/fora/utils.py")], ["standard output", "exit status"],
     "property-based testing over generated inventories with output parsing (Hypothesis)", note="Output is parsed as the documented table.")

prop("C26", "Connections end cleanly whatever happens to the remote",
     "Opening a connection to a remote that fails, exits or answers wrongly (or with an error), or being interrupted while opening, raises an error and leaves no process running; closing ends and reaps the remote process, whether it is idle, has died, was killed in the middle of a request or still has to answer an interrupted request, and a closed connection can be opened anew. "
     "After leaving a connection block, normally or by an exception, the host has no active connection and an error raised inside is not replaced by a closing error.",
     ["fault_sequences", "histories"], "all points at which the remote process dies or misbehaves, and all exits from the connection block",
     "Tests only open and close healthy connections.",
     [TC, "src/fora/connection.py"], [("open/close of the tunnel, context manager", TC + ", src/fora/connection.py")], ["process table", "exceptions"],
     "fault injection over connection histories with process accounting (Hypothesis)", level="fault_enumeration", note="Remote behaviours are scripted; child processes are tracked by the harness.")

prop("C27", "Initialising a deploy never destroys data, and what it creates works",
     "`fora --init LAYOUT` writes without asking only into an empty directory; elsewhere it writes only after the confirmation was answered with y or yes, and otherwise (any other answer, end of input) changes nothing and exits with an error. "
     "It never touches files that are not part of the layout, and creates the same files whatever was there before. "
     "The created inventories load and the created deploys run as they are (given the sources a dotfiles deploy names), in dry runs without effect and repeatedly with the same result.",
     ["inputs", "histories"], "all layouts, directory contents, answers and host states",
     "No test runs --init.",
     ["src/fora/example_deploys.py", "src/fora/main.py"], [("init_deploy_structure and the layouts", "src/fora/example_deploys.py")], ["the directory", "exit status", "host state after running the created deploy"],
     "property-based testing over generated directories, answers and simulated hosts (Hypothesis)", note="The created deploys run on simulated hosts whose files live in a scratch directory.")

prop("C28", "The run log reports every operation and exactly its changes",
     "Every executed operation appears in the output as one line with its operation name, description, given name and whether it is a dry run, indented by nesting and, when color is on, colored by outcome (changed, unchanged, failed); a failed one is followed by its failure message. "
     "A successful one is followed by exactly the state values that have a final value and changed, as `key: old → new` (`key: new` if there was none), shortened only when not verbose, plus unchanged values when verbose, and nothing with --no-changes. "
     "File contents are printed only with --diff, which shows the difference of every content that an operation changed, and no escape sequences when color is off (--no-color, NO_COLOR, not a terminal).",
     ["inputs", "programs"], "all operation sequences, state values, nestings and output flags",
     "Tests ignore what is printed.",
     ["src/fora/logger.py", "src/fora/operations/api.py", "src/fora/main.py"], [("print_operation, print_operation_title, indent", "src/fora/logger.py")], ["standard output"],
     "property-based testing of generated operations with output parsing against a reference renderer (Hypothesis)", note="Layout details (spacing, colors of keys) are not part of the property.")

prop("C29", "What an inventory overrides is what is used",
     "Functions and directories an inventory module overrides (qualify_url, extract_hostname, group_module_file, host_module_file, base_dir, base_remote_settings, groups_dir, hosts_dir) are what is used for every host: names, urls, the modules loaded for hosts and groups, and the execution defaults are those the overriding functions yield. "
     "Modules at the default places are then not loaded, explicitly given files take precedence, and other functions of the inventory are exported to groups and hosts like variables.",
     ["inputs", "programs"], "all subsets of overrides, inventories and host declarations",
     "Tests override nothing.",
     ["src/fora/inventory_wrapper.py", "src/fora/loader.py", "src/fora/connection.py"], [("overridable inventory functions", "src/fora/inventory_wrapper.py")], ["loaded modules", "hosts", "execution defaults"],
     "property-based testing over generated inventories with decoy modules (Hypothesis)", note="Each module records that it was loaded.")

prop("C30", "Output options never change what is done",
     "What an operation, command or whole run does to the hosts, what it returns or raises, and the exit status do not depend on options that only concern the output: verbosity, --diff, --no-changes, --no-color, --debug, the width of the terminal and the encoding of the output. "
     "In particular text that cannot be represented in the output encoding is still shown in some form and never aborts a deploy.",
     ["inputs", "configurations", "programs"], "all operations and commands from all host states, under all combinations of output options, terminal widths and encodings",
     "Tests run with one fixed set of options and ignore the output.",
     ["src/fora/logger.py", "src/fora/main.py", "src/fora/operations/api.py", TC, TD], [("printing of operations, diffs and debug messages next to the actions they describe", "src/fora/logger.py, src/fora/operations/api.py, " + TC)], ["results of operations", "state of the host", "exit status"],
     "metamorphic property-based testing: the same deploy with and without output options (Hypothesis)", note="Both runs start from identically prepared states.")

prop("C31", "Failures are reported where the user's code caused them",
     "When a script, group, host or inventory module fails, the program fails and its error output names the exception and the file and line of the failing statement in the user's code - for a failing operation, the statement that called it - preceded by the call site of every nested script on the way, outermost first. "
     "Exceptions that were wrapped or replaced on the way are reported in order with their own statements, failures that a script handled are not reported, and no statement after the failing one and no further host is run.",
     ["programs", "inputs", "fault_sequences"], "all call trees of scripts, kinds and positions of failures, and ways in which they are handled on the way",
     "Tests check at most that an exception of some type is raised.",
     ["src/fora/utils.py", "src/fora/loader.py", "src/fora/operations/api.py", "src/fora/operations/local.py", "src/fora/main.py"],
     [("script stack, exception hook, traceback of failing operations", "src/fora/utils.py, src/fora/loader.py, src/fora/operations/api.py")], ["standard error", "exit status"],
     "property-based testing with generated failing scripts of known line numbers (Hypothesis)", note="The position of every statement is known from generation; layout of the report is not part of the property.")

prop("C32", "The same deploy does the same in every run",
     "Loading the same inventory, or performing the same operation on a host in the same state, gives the same result whichever process does it: the order in which groups are loaded, the variables and groups of every host, what is reported and printed, and the requests that are sent to the host and their order "
     "do not depend on the hash seed, the umask, the working directory, the time zone, the user or the signal settings of the process that runs the deploy. "
     "What depends on the environment by definition (paths shown relative to the working directory, names that contain the time) is excepted.",
     ["inputs", "configurations", "schedules"], "all inventories (valid, conflicting or broken) and operations, in all processes that may run them",
     "Tests run in one process with one hash seed and environment; a list that went through a set often happens to keep its order.",
     ["src/fora/inventory_wrapper.py", "src/fora/loader.py", "src/fora/operations/utils.py", "src/fora/operations/system.py", "src/fora/connectors/connector.py"],
     [("groups of hosts, group order, conflicts", "src/fora/inventory_wrapper.py"), ("order of actions on packages and accounts", "src/fora/operations/utils.py, src/fora/operations/system.py"), ("session that does not inherit local settings", TC + ", " + TD)],
     ["load order", "attributes of hosts", "requests to the host", "standard output"],
     "differential property-based testing across processes (Hypothesis)", note="Three processes with different settings do the same work side by side.")

prop("C33", "Requests and connections leave nothing behind",
     "After a request was answered - successfully or with an error - neither side of the connection has more open files, child processes, threads or temporary files than before, and memory does not grow with the number of requests. "
     "After a connection ended, or failed to open, or its block ended with an exception, nothing of it is left on either side. So a deploy may use any number of requests and hosts.",
     ["histories", "fault_sequences", "inputs"], "all histories of requests of every kind, successful, failing or malformed, and of connections that work or fail, over local and remote connectors",
     "Leaks need long or failing histories to have an effect and never change a single answer.",
     [TD, TC, "src/fora/connection.py", "src/fora/connectors/ssh.py", "src/fora/connectors/local.py"], [("request handlers of the dispatcher", TD), ("end of connections", TC + ", src/fora/connection.py")], ["open files, processes and memory of both sides", "directories of temporary files"],
     "stateful property-based testing with process inspection (Hypothesis)", note="Processes that a command itself leaves in the background belong to the command.")


def main():
    built = {f.split("_")[0].upper() for f in os.listdir(os.path.join(HERE, "vf", "checks")) if f.startswith("c") and f.endswith(".py")}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
           "notes": "No hooks: every check drives /repo's working tree through its public interfaces. See DESIGN.md."}
    for p in P:
        if p["id"] in built and p["claimed"]:
            man["checks"].append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./run_check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./run_check.sh {p['id']}",
                                  "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"],
                                  "level_note": "Searched, not proved: held on every generated case of the run (counts in the evidence). " + p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        n = p["statement"].count(". ") + 1
        if n > 3:
            print("statement too long:", p["id"], n)


main()
