#!/usr/bin/env python3
"""Writes /verif/properties.jsonl: the properties, in one place and easy to edit."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                    "observe_at": observe, "hook_needed": hook},
    })


CORE = "stuart-core/src/"
CLI = "stuart/src/"

prop("C01", "No input makes a command crash or hang",
     "Whatever the bytes of a project's templates, markdown, JSON, manifest and file names are, `stuart build` ends by itself, "
     "with exit code 0 or with exit code 1 and a message starting with `error:` on standard error. "
     "It never panics, aborts, is killed by a signal or runs forever, in the whole build including the printing of errors. "
     "A build that exits 0 has written the output directory, and one that exits 1 has printed why.",
     ["inputs", "configurations"],
     "every project tree: arbitrary bytes, mutated valid templates, hostile markdown, JSON and TOML, nesting of up to 150 blocks",
     "The tests build 14 small well-formed projects; no malformed, truncated, non-UTF-8 or hostile input is ever given to the program.",
     [CORE + "parse/", CORE + "process/", CORE + "functions/parsers/", CORE + "fs/mod.rs", CLI + "error.rs", CLI + "main.rs"],
     [("errors are values (TracebackError, Error), printed by StuartError::print", CORE + "error.rs, " + CLI + "error.rs"),
      ("panics of the date parser are caught", CORE + "functions/parsers/dateformat.rs")],
     ["exit status, signal, CPU time and standard error of the process"])

prop("C02", "Text outside tags is copied unchanged; an escaped brace pair is literal",
     "Every byte of a template that is not part of a tag appears in the output unchanged and in the same order: all of Unicode, any line endings, "
     "single or closing braces, backslashes, and text of any length. "
     "`\\{{` produces a literal `{{` that does not start a tag, in any number of places and after any other text, further backslashes included. "
     "Whitespace inside the braces of a tag and around the arguments of a function has no effect, and a tag itself leaves nothing but its value.",
     ["inputs"], "every sequence of literal text, escapes and tags, for every length and position",
     "One test has one escape and a few short ASCII pieces of text; nothing checks other text, positions, lengths or encodings.",
     [CORE + "parse/mod.rs", CORE + "parse/parser.rs", CORE + "process/mod.rs"],
     [("extract_until with escapes", CORE + "parse/parser.rs"), ("parse_html", CORE + "parse/mod.rs")],
     ["the bytes of the built pages"])

prop("C03", "Pages are the nearest root template with the page's sections inserted",
     "A page's output is the `root.html` of its own directory, or else of the nearest directory above it, with each `insert(\"name\")` replaced by the "
     "output of the page's section of that name, as often as it is inserted; text of the page outside of sections does not appear. "
     "A section nested in another also appears in the enclosing one; of several sections with the same name, the first to end is inserted. "
     "If a section that the root inserts is not defined by the page, or there is no root template, the build fails; a section the root does not insert is ignored.",
     ["inputs", "configurations"], "every tree of directories with roots at any subset of levels, every set of sections in pages and roots",
     "The tests use a single directory with one root that inserts one or two sections.",
     [CORE + "lib.rs", CORE + "process/mod.rs", CORE + "functions/parsers/begin.rs", CORE + "functions/parsers/end.rs", CORE + "functions/parsers/insert.rs"],
     [("Environment::update_from_children", CORE + "lib.rs"), ("sections pushed by `end`, read by `insert`", CORE + "functions/parsers/")],
     ["the bytes of the built pages, and the exit status"])

prop("C04", "Conditionals render exactly the branch that is taken",
     "`ifeq`, `ifne`, `ifgt`, `ifge`, `iflt` and `ifle` compare two operands that are numbers or strings (numbers in full precision and by value, equality of strings exactly; "
     "different types are unequal), and `ifdefined` tests that a variable exists and is not null. "
     "Exactly the taken branch is rendered: nothing in the other branch has any effect, including nested blocks of any kind with their own `else`, undefined variables, and imports. "
     "A missing `else` renders nothing, and comparing an undefined variable fails the build.",
     ["inputs"], "every nesting of conditionals, loops and sections in both branches, every pair of operand values",
     "The tests cover a handful of flat conditions with small integers and no nested block in a branch that is not taken.",
     [CORE + "functions/parsers/if.rs", CORE + "functions/parsers/ifdefined.rs", CORE + "functions/parsers/else.rs", CORE + "functions/mod.rs"],
     [("skipping of tokens with a depth count", CORE + "functions/parsers/if.rs"), ("Input's PartialEq/PartialOrd", CORE + "functions/mod.rs")],
     ["the bytes of the built pages"])

prop("C05", "Loops visit exactly the selected items in the defined order",
     "`for` renders its body once for each item of a JSON array file, an array in a variable, or the markdown files directly in a directory (in order of file name), with the loop variable bound to the item. "
     "`sortby` orders the items stably by the given key (strings alphabetically, numbers numerically, items without such a key first), `order=\"desc\"` reverses the resulting order, then `skip` drops and `limit` caps the items. "
     "A loop that selects no items renders nothing and has no effect, and the loop variable does not exist after the loop.",
     ["inputs"], "every array or directory, every combination of skip, limit, sortby and order, loops nested in any block",
     "The tests have a few loops over three items; sorting, empty loops, ties, numeric keys and combinations are not covered.",
     [CORE + "functions/parsers/for.rs", CORE + "process/iter.rs", CORE + "process/stack.rs", CORE + "fs/mod.rs"],
     [("sort, reverse, skip and take", CORE + "functions/parsers/for.rs"), ("TokenIter waypoints", CORE + "process/iter.rs")],
     ["the bytes of the built pages"])

prop("C06", "Variables resolve lexically and never leak between pages",
     "A variable tag outputs the string that its dotted path denotes in the innermost enclosing scope that defines its first name; keys of objects and indices of arrays can both be used. "
     "A variable imported or bound in a section, conditional, loop iteration or page is visible only from there to the end of it, never in other pages, the root template or later iterations, and importing the same name twice in one scope fails. "
     "`$env` holds the environment of the build with `STUART_ENV` set to `production`, and using an undefined, null or non-string value as text fails the build.",
     ["inputs", "configurations"], "every nesting of scopes that define, shadow and use variables, every JSON value, every environment",
     "The tests import two files into single pages and never shadow a variable, leave a scope or build several pages that could interfere.",
     [CORE + "process/mod.rs", CORE + "process/stack.rs", CORE + "functions/parsers/import.rs", CORE + "lib.rs"],
     [("stack of frames searched from the innermost", CORE + "process/mod.rs"), ("get_value", CORE + "process/stack.rs"), ("environment captured in the base frame", CORE + "lib.rs")],
     ["the bytes of the built pages, and the exit status"])

prop("C07", "Markdown pages render through md.html and root.html",
     "A file `name.md` is output as `name.html`: its tags are evaluated, the result is converted from markdown to HTML, and the nearest `md.html` is rendered into the nearest `root.html` with `$self` holding "
     "every frontmatter entry, the HTML as `content` and the body source as `markdown` (whatever entries have those names). "
     "Frontmatter values are kept exactly (including quotes, colons and Unicode inside them), a file without frontmatter is all body, and loops over the directory see the same values. "
     "Frontmatter that is malformed or not closed fails the build.",
     ["inputs"], "every frontmatter, markdown body with tags in it, line ending and nesting of md.html templates",
     "One test loops over two markdown files; the bodies, frontmatter syntax, line endings and template inheritance are hardly touched.",
     [CORE + "parse/markdown.rs", CORE + "process/mod.rs", CORE + "lib.rs"],
     [("parse_markdown", CORE + "parse/markdown.rs"), ("preprocess_markdown, process_markdown", CORE + "process/mod.rs")],
     ["the bytes of the built pages"])

prop("C08", "Dates, excerpts and reading times are computed correctly",
     "`dateformat` outputs the instant that its input denotes (dates, times and offsets converted to UTC, timestamps), formatted by the given strftime format, and fails the build for something that is not a date. "
     "`excerpt` outputs the text of its input without HTML tags, cut after the given number of (ASCII) characters, with `...` appended exactly when text was cut off. "
     "`timetoread` outputs the number of whole minutes at 200 words per minute, and at least 1.",
     ["inputs"], "every date in the supported notations and format string, every text and length",
     "One date, one excerpt and one text are tested.",
     [CORE + "functions/parsers/dateformat.rs", CORE + "functions/parsers/excerpt.rs", CORE + "functions/parsers/timetoread.rs"],
     [("dateparser and chrono", CORE + "functions/parsers/dateformat.rs"), ("excerpt loop", CORE + "functions/parsers/excerpt.rs")],
     ["the bytes of the built pages"])

prop("C09", "The output tree is exactly what the inputs and settings define",
     "After a successful build the output directory holds exactly: each HTML and markdown page at the same relative path (with `strip_extensions`, `name.html` becomes `name/index.html`, except for `index.html`), "
     "every other content file byte for byte, JSON files of the content only with `save_data_files`, and every file of `static` and `temp` byte for byte under its own name. "
     "Templates (`root.html`, `md.html`) are never output, empty directories are kept, and nothing from an earlier build remains. "
     "The input files are not changed, apart from `temp`, which is removed.",
     ["inputs", "configurations", "histories"], "every tree of content, static and temp files, every combination of the settings, every earlier content of the output directory",
     "The tests that save to disk only check that the build of one small project succeeds or compare one page.",
     [CORE + "fs/mod.rs", CORE + "lib.rs", CLI + "build.rs"],
     [("Node::save, output_path", CORE + "fs/mod.rs"), ("Node::merge", CORE + "fs/mod.rs")],
     ["the tree and bytes of the output directory and of the project after the build"])

prop("C10", "Files that would be saved to the same path fail the build",
     "If two inputs (of content, static or temp) would be saved to the same output path, or a file to the path of a directory, the build fails with a filename conflict that names both. "
     "This includes conflicts that only arise from stripping extensions or from markdown pages being renamed. "
     "Directories of the same name are merged at every level, and inputs with different paths (markdown counting as HTML) that have no common output path never conflict.",
     ["inputs", "configurations"], "every pair of trees, at every depth, with every setting of strip_extensions and save_data_files",
     "No test has a conflict or merges more than one static file.",
     [CORE + "fs/mod.rs", CLI + "build.rs"],
     [("Node::merge", CORE + "fs/mod.rs"), ("check_conflicts", CORE + "fs/mod.rs")],
     ["exit status, standard error, and the output directory"])

prop("C11", "A failing build leaves the previous output and metadata as they were",
     "When a build fails because of its input (parse, processing, plugin or script errors before saving, missing templates or data, conflicts, an invalid manifest), it exits with code 1 and the output directory and "
     "`metadata.json` of the previous build are byte for byte what they were, or still absent. "
     "This holds for whichever of the files contains the error, and the next build after the error is corrected succeeds with the same result as a clean one.",
     ["histories", "inputs"], "every sequence of builds in which some fail, every kind and place of the error",
     "No test performs a failing build, or two builds in the same directory.",
     [CLI + "build.rs", CLI + "main.rs", CORE + "fs/mod.rs", CORE + "lib.rs"],
     [("everything is processed in memory before saving", CLI + "build.rs"), ("conflicts are checked before the old output is removed", CORE + "fs/mod.rs")],
     ["the output directory and metadata.json before and after each build, and the exit status"])

prop("C12", "A build only changes its output directory, temp and metadata.json",
     "Whatever the names and contents of the inputs are, a build creates, changes and removes nothing except the output directory that was asked for (`dist` by default) and what is in it, `temp`, and `metadata.json` if it is enabled. "
     "It never removes or overwrites an input: an output directory that contains, is or lies in `content`, `static` or `scripts` is refused. "
     "`import` and `for` only read files within `content`.",
     ["inputs", "configurations"], "every file name, template, manifest and output argument, in the presence of files outside the project",
     "The tests use well-behaved names in a fixed directory and never look at what is around it.",
     [CORE + "fs/mod.rs", CORE + "lib.rs", CLI + "build.rs", CORE + "functions/parsers/import.rs", CORE + "functions/parsers/for.rs"],
     [("get_at_path only accepts normal components", CORE + "fs/mod.rs"), ("output_path keeps pages in their directory", CORE + "fs/mod.rs")],
     ["every mutating file system call of the process (preloaded recorder), and the tree around the project before and after"])

prop("C13", "Interrupted or failing writes are reported and repaired by the next build",
     "If a file system operation of the build fails (reading an input, creating or writing an output), the build exits with code 1 and an error, or its result is nevertheless complete; it never reports success for an incomplete output. "
     "If the build is killed at any moment, all inputs are intact, and the next build gives exactly the result of a clean build.",
     ["crash_points", "fault_sequences"], "every file system call of the build as the point of a fault or of the kill",
     "No test injects a fault or kills a build.",
     [CORE + "fs/mod.rs", CORE + "lib.rs", CLI + "build.rs"],
     [("errors of read, create_dir and write are mapped to Error::Fs", CORE + "fs/mod.rs"), ("the output directory is removed and recreated by every build", CORE + "fs/mod.rs")],
     ["exit status and the output directory after the faulty build and after the next one; the recorder's log of the calls"])

prop("C14", "Builds are deterministic",
     "The output tree and metadata depend only on the project's files, its configuration and the environment variables that it uses: building again, elsewhere, with the directory entries returned in another order, "
     "with files created in another order or with another previous output gives the same bytes. "
     "Which of several errors is reported first does not vary either.",
     ["inputs", "histories", "schedules"], "every order of directory entries and every history of the directory",
     "Each test builds once, on one file system, whose order of entries is whatever it is.",
     [CORE + "fs/mod.rs", CORE + "lib.rs"],
     [("entries are sorted", CORE + "fs/mod.rs")],
     ["output trees, metadata.json and errors of repeated builds with shuffled readdir results"])

prop("C15", "Build scripts run at the right time, once, and their failure fails the build",
     "The `onPreBuild` scripts run once before the inputs are read and the `onPostBuild` scripts once after output and metadata are completely written, in `scripts` with either a `.sh` or no extension, "
     "with the documented `STUART_*` variables holding the absolute paths and the environment of the build. "
     "What a pre-build script writes to `temp`, `content` or `static` is part of this build, and `temp` is gone afterwards. "
     "A script that exits with a non-zero status fails the build with its exit code and output in the message, and a failing pre-build script leaves the previous output as it was.",
     ["histories", "configurations"], "every set of scripts, working directory, output directory and exit status",
     "No test has a build script.",
     [CLI + "scripts.rs", CLI + "build.rs"],
     [("Scripts::execute", CLI + "scripts.rs"), ("StuartContext::build", CLI + "build.rs")],
     ["an event log written by the scripts themselves (state of the trees they see, environment), and exit status"])

prop("C16", "metadata.json describes the build faithfully",
     "With `save_metadata`, a successful build writes `metadata.json` next to the manifest: valid JSON with the site's `name` and `author` and, under `data`, the tree of the built files and directories (content and static), in which markdown files carry exactly "
     "their frontmatter and JSON files their value. "
     "Every string and number survives, whatever characters it contains, and without `save_metadata` the file is not written.",
     ["inputs", "configurations"], "every tree, frontmatter, JSON value, site name and author",
     "No test saves metadata.",
     [CORE + "fs/mod.rs", CORE + "lib.rs", CORE + "parse/contents.rs", CORE + "parse/markdown.rs"],
     [("save_metadata_recur", CORE + "fs/mod.rs"), ("ParsedContents::to_json", CORE + "parse/contents.rs")],
     ["the parsed metadata.json, compared with the project"])

prop("C17", "Errors name the file and line where the problem is",
     "When a tag in a page, template or markdown file, or a line of frontmatter, makes the build fail, the message says what is wrong and gives the path of the file containing it and the number of its line, followed by that very line of the source (only the file for a section that is never closed). "
     "This holds for errors while parsing and while processing, at any depth of blocks, for lines after frontmatter, any line endings, long and multibyte lines, and for errors in a root or md template used by another page. "
     "Syntax errors in the manifest give its line.",
     ["inputs"], "every kind of error at every position of every kind of file",
     "No test looks at an error.",
     [CORE + "parse/parser.rs", CORE + "parse/mod.rs", CORE + "parse/markdown.rs", CORE + "process/mod.rs", CORE + "error.rs", CLI + "error.rs", CLI + "build.rs"],
     [("LocatableToken and Parser::location", CORE + "parse/"), ("TracebackError's display", CLI + "error.rs")],
     ["standard error of failing builds"])

prop("C18", "Native plugins work, cannot shadow built-ins and are used memory-safely",
     "The functions of a native plugin can be called by name and as `plugin::name` with the arguments written in the template, their output and variables appear as for built-ins, built-in functions win over plugin functions of the same name, and an unknown function fails the build. "
     "Node parsers get the bytes and path of each content file with their extension, and the file's new contents, name, metadata and errors are those that the plugin returns. "
     "Plugin objects are only used while their library is loaded and each is freed exactly once: the process makes no invalid memory access, in success and in failure.",
     ["inputs", "programs", "histories"], "every set of plugins, calls, arguments and outcomes, including plugins that fail to load",
     "No test loads a native plugin, and no sanitizer is run.",
     [CLI + "plugins/mod.rs", CORE + "plugins/mod.rs", CORE + "parse/mod.rs", CORE + "process/mod.rs"],
     [("load_binary; plugins are dropped before libraries", CLI + "plugins/mod.rs"), ("lookup after the built-ins", CORE + "parse/mod.rs"), ("NodeParser, NodeProcessor", CORE + "plugins/mod.rs")],
     ["built pages, the plugin's own event log, AddressSanitizer's reports"])

prop("C19", "JavaScript plugins get and return faithful values and cannot break the build",
     "A JavaScript plugin function gets its arguments as JavaScript values equal to the template's (variables as their JSON value), its result becomes text by JavaScript's rules (`undefined` outputs nothing), `STUART.get` returns the value of a variable or `undefined`, "
     "and what `STUART.set` stores is visible to later tags of the scope as the equal JSON value. "
     "Plugins do not see each other's globals, but keep their own between calls. "
     "A function that throws, is not a function, or a plugin that does not compile fails the build with an error, and no JavaScript value crashes it.",
     ["inputs", "programs"], "every JSON value passed in either direction, every kind of JavaScript value returned or stored, several plugins and calls in any order",
     "Two tests call two functions with one kind of argument each.",
     [CLI + "plugins/js/mod.rs", CLI + "plugins/js/json.rs", CLI + "plugins/js/context.rs"],
     [("json_to_js, js_to_json", CLI + "plugins/js/json.rs"), ("one V8 context per plugin", CLI + "plugins/js/mod.rs"), ("CURRENT_SCOPE", CLI + "plugins/js/context.rs")],
     ["built pages, compared with the values as node's or Python's JSON gives them; exit status"])

prop("C20", "The development server serves exactly the files of the built site",
     "For every request path that names a file of the output directory the server answers 200 with the bytes of that file and the content type of its extension, for a directory with a trailing slash its `index.html`, for one without it a redirect to the path with the slash, and otherwise 404; paths containing `..` or `:` are refused with 404. "
     "HTML pages with a `</body>` get exactly one reload script directly before it and are otherwise unchanged; other files are byte for byte the same. "
     "No request, however malformed, gives access to a file outside the output directory or stops the server, and connections that stay open without a request do not keep others from being answered. If the port is in use, it fails with an error.",
     ["inputs", "schedules"], "every tree, request path (encoded, with dots, malformed) and number of concurrent clients",
     "The development server is not tested at all.",
     [CLI + "serve/mod.rs", CLI + "serve/main.js"],
     [("serve_dir", CLI + "serve/mod.rs")],
     ["HTTP responses of the real server"])

prop("C21", "The development server follows changes and tells every client",
     "After the inputs have changed and the build triggered by that is finished, the output directory is what a clean build of the current inputs (with `STUART_ENV` `development`) gives, and every connected client receives a `reload` message; after a failed build there is none, the error is printed and the server goes on. "
     "Clients that disconnect do not disturb the others. "
     "The server's own writes (output, `temp`, `_build`, `metadata.json`) never trigger a build, so it becomes idle.",
     ["histories", "schedules"], "every sequence of edits, errors, corrections, creations, removals and connecting or leaving clients, in steps that leave the server time to build",
     "The development server is not tested at all.",
     [CLI + "serve/mod.rs", CLI + "build.rs"],
     [("build_watcher", CLI + "serve/mod.rs"), ("websocket_handler and the list of streams", CLI + "serve/mod.rs")],
     ["output directory, log and WebSocket messages of the real server"])

prop("C22", "`stuart new` creates a project that builds, and never touches an existing one",
     "`stuart new NAME` creates a directory with a manifest holding exactly NAME as the site's name (and the Git user as the author, if known), the template's `content` and `static`, and, without `--no-git`, a Git repository and a `.gitignore` in it; the project builds as it is. "
     "This holds for any NAME, with quotes, backslashes, spaces, Unicode, a leading dash after `--`, or an absolute path. "
     "If the path exists or cannot be created it fails with code 1 and changes nothing.",
     ["inputs", "configurations"], "every name, Git configuration and state of the target path",
     "`stuart new` is not tested at all.",
     [CLI + "new.rs", CLI + "config/git.rs"],
     [("toml values written by the toml crate", CLI + "new.rs"), ("create_dir fails for existing paths", CLI + "new.rs")],
     ["the created tree, the parsed manifest, the build of it; exit status"])

prop("C23", "Each plugin is loaded from the first of its sources that works",
     "For every dependency the sources separated by `;` are tried in order, the first that loads is used and later ones are not touched: a file is loaded, a directory with a `Cargo.toml` is compiled and its library loaded, a Git repository is cloned to `_build/plugins/NAME` (or pulled if it is there) and the project named NAME within it is compiled, "
     "anything else is downloaded; sources for other platforms are skipped. "
     "If none of them works, or a compilation or clone fails in the last one, the build fails with an error before anything is built and the previous output stays.",
     ["configurations", "fault_sequences"], "every list of sources and outcome of each step",
     "The tests load two JavaScript files by path; fallbacks, Cargo, Git and downloads are not covered.",
     [CLI + "plugins/mod.rs", CLI + "plugins/source.rs", CLI + "config/git.rs"],
     [("load, load_from_source", CLI + "plugins/mod.rs"), ("find_cargo_project, build_cargo_project, download_plugin", CLI + "plugins/source.rs")],
     ["the log of the stand-ins for `cargo` and `git` and of a local HTTP server, built pages, exit status"])

prop("C24", "The manifest and command line are honoured",
     "The settings of `stuart.toml` have their documented effects and defaults (`strip_extensions` on, `save_data_files` and `save_metadata` off), in every combination; `--manifest-path` and `--output` select the project and the output directory from any working directory, relative ones being relative to the manifest. "
     "`clean` removes exactly the output, build directory and metadata of the project in the current directory, and refuses to run elsewhere; `-q` prints only errors; `bench` builds the given number of times with `STUART_ENV` `benchmark`. "
     "A missing or invalid manifest, or an unknown option, fails without touching anything.",
     ["configurations", "inputs"], "every manifest, working directory, combination of options and commands",
     "The tests construct the configuration in code or use one manifest; the command line is not tested.",
     [CLI + "main.rs", CLI + "build.rs", CLI + "config/mod.rs", CORE + "config.rs"],
     [("config::load and From<RawConfig>", CLI + "config/mod.rs"), ("app, build, bench, clean", CLI + "main.rs"), ("StuartContext::init", CLI + "build.rs")],
     ["output, exit status and the file system after each command"])

prop("C25", "Malformed templates are rejected, never rendered as something else",
     "A template with a tag that is not closed, an empty or invalid name, malformed, missing or superfluous arguments, an argument of the wrong kind, or a function that does not exist fails the build. "
     "So does one whose blocks are not properly nested: an `end` without or with another `begin`, an `else` outside of a conditional or a second one, or a section, loop or conditional that is still open at the end of the file, in pages, root and markdown templates and markdown bodies. "
     "The same template with the defect corrected builds.",
     ["inputs"], "every well-formed template and every single defect of these kinds at any place that is rendered",
     "No test has a malformed template.",
     [CORE + "parse/mod.rs", CORE + "parse/function.rs", CORE + "parse/parser.rs", CORE + "functions/parsers/", CORE + "process/mod.rs"],
     [("parse_function and the parsers' assertions", CORE + "parse/, " + CORE + "functions/parsers/"), ("names of stack frames checked by `end` and at the end of files", CORE + "functions/parsers/end.rs, " + CORE + "process/mod.rs")],
     ["exit status and standard error of the build"])

prop("C26", "`stuart_core` can be used as a library, repeatedly and concurrently",
     "Through stuart_core's public interface, a `Stuart` can be built, merged with further trees, saved and given another configuration any number of times and in any order, beside others and in several threads. "
     "Each successful `build` makes the output exactly that of the current inputs, configuration, plugins and the given `STUART_ENV`, whatever happened before; a failed one leaves the previous output. `save` and `save_metadata` write exactly the current output; before the first successful build they and `merge_output` fail with `NotBuilt` (or `MetadataNotEnabled`) and write nothing, and saving over the inputs or a directory of them is refused. "
     "`Node::new` gives the tree of a directory with its names, contents and sources, ordered by name; `get_at_path` finds exactly the nodes that relative paths without `..` name; `merge` gives the union, or a `Conflict` naming both sources.",
     ["inputs", "histories", "schedules"], "every directory tree, history of calls and failures, and set of concurrent builds",
     "The tests build each site once with a new `Stuart`, and merge nothing.",
     [CORE + "lib.rs", CORE + "fs/mod.rs", CORE + "plugins/mod.rs", CORE + "config.rs"],
     [("Stuart::build, merge_output, save, save_metadata", CORE + "lib.rs"), ("Node::new, get_at_path, merge, save", CORE + "fs/mod.rs"), ("Manager implementations", CORE + "plugins/mod.rs")],
     ["results of the calls of a program linked to stuart_core, the output tree, the file system after each call"])

prop("C27", "The shipped plugins and the example site do what they say",
     "With the plugin `demo`, `demo()` and `demo::demo()` output exactly `<p>This was written by the demo function!</p>` at any place of a template where a function may be called, and a call with arguments fails the build. "
     "With `imgopt`, each content file with the extension `.png` is output under its name as what the optimizer makes of its bytes, and nothing else changes: other files, pages and static files come out as without it. An image that cannot be optimized fails the build with the optimizer's message and leaves the previous output. "
     "The example site builds with every combination of settings, and its page is its root template filled with the sections of its content.",
     ["inputs", "configurations"], "every site that uses the plugins, every image, intact or broken, and every setting",
     "Neither the plugins nor the example are built by any test.",
     ["plugins/demo/src/", "plugins/imgopt/src/lib.rs", "example/", CORE + "plugins/mod.rs"],
     [("DemoFunction", "plugins/demo/src/"), ("the node parser for png", "plugins/imgopt/src/lib.rs"), ("declare_plugin!", CORE + "plugins/mod.rs")],
     ["the output tree of the real program with the compiled plugins, exit status, standard error"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
