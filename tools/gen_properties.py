#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

JS = "The repository's stable tests execute no JavaScript at all (the JS is only parsed); even the upstream mocha tests sample a handful of happy paths with a real clock and network. "
PY = "The stable tests are 29 single-input unit tests of helpers; none runs gyp end to end. "

prop("C01", "A successful header install is complete and verified",
 "When `node-gyp install` (or the install inside `configure`) reports success, the version's directory holds exactly the header and gypi files of the published tarball (and, on Windows, the node.lib of the target arch), byte for byte, and every downloaded file matched the SHA-256 published in SHASUMS256.txt of the same release. "
 "Whatever the network or disk does (error status, missing or wrong checksum, corrupted, truncated, stalled or reset bodies, extraction, write or close errors), content that does not verify is never reported as installed. "
 "Without faults the install succeeds.",
 ["fault_sequences", "inputs", "configurations"],
 "every release layout and version, platform (POSIX, Windows), local --tarball or download, and every sequence of network, tar and file-system faults at any operation",
 JS + "The number of (operation, fault) placements in one install is in the hundreds and their outcome depends on the order in which the parallel downloads complete.",
 ["lib/install.js", "lib/download.js", "lib/process-release.js"],
 [("SHA-256 of every download compared with SHASUMS256.txt before success", "lib/install.js go(), ShaSum"),
  ("status checks and extract error/emptiness checks", "lib/install.js go(), downloadShasums, downloadNodeLib"),
  ("only .h/.gypi entries extracted", "lib/install.js valid()")],
 [("<devdir>/<version>/installVersion", "marks a usable install", "lib/install.js")],
 ["exit status of the CLI", "content of <devdir>/<version>"])

prop("C02", "A failed or interrupted install is never trusted later",
 "If a header install fails, it leaves no directory for that version behind, and if it is killed at any point, whatever it leaves is never accepted as installed: the next `install --ensure` or `configure` of that version either ends with complete verified headers or reports failure. "
 "An already complete install is accepted by --ensure without any download, and an install that is missing, outdated or (on Windows) lacks the arch's node.lib is redone or completed. "
 "A re-install over an existing version that is killed part-way is not trusted either.",
 ["crash_points", "fault_sequences", "histories"],
 "every crash point (any file-system or network operation) of an install or re-install, every failing operation, followed by any later ensure-install on the surviving state",
 JS + "No test kills an install; the crash point and what had reached the disk by then decide the outcome.",
 ["lib/install.js", "lib/remove.js", "lib/configure.js"],
 [("rollback removes the version's directory on any error", "lib/install.js rollback()"),
  ("installVersion marker compared with the package's installVersion", "lib/install.js --ensure branch")],
 [("installVersion", "marker that --ensure trusts", "lib/install.js")],
 ["<devdir>/<version> after each run", "requests made by an --ensure run"])

prop("C03", "Concurrent installs of the same version all succeed",
 "Any number of node-gyp processes that install (or configure against) the same version into one devdir at the same time, with no fault other than each other's presence and (on Windows) files briefly busy in another process, all report success, and when they are done the directory holds the complete verified headers. "
 "This includes different target architectures on Windows and runs that start while others are part-way. "
 "No process disturbs other versions' directories.",
 ["schedules"],
 "every interleaving of the file-system and network operations of 2 to 4 concurrent processes, with and without --ensure, POSIX and Windows",
 JS + "Interleavings of separate processes are never controlled by tests.",
 ["lib/install.js"],
 [("private temp dir then copy on Windows", "lib/install.js tarExtractDir/copyDirectory"),
  ("exponential backoff on busy destination files", "lib/install.js copyDirectory"),
  ("recursive mkdir tolerating existing directories", "lib/install.js go()")],
 [], ["exit status of each process", "<devdir>/<version> at the end"])

prop("C04", "An unwritable devdir falls back once to a temporary devdir",
 "When the devdir cannot be read or created for lack of permission, install retries exactly once with <tmpdir>/.node-gyp, later steps of the same run (configure, remove, list) use that directory, and on success the headers there satisfy the same guarantees as any install. "
 "If the temporary directory is not permitted either, the command fails with the error; it never loops and never leaves files in the original devdir. "
 "When the working directory is the temporary directory itself, the installed headers are removed at the end of the run.",
 ["fault_sequences", "configurations"],
 "every operation at which permission is denied (stat, mkdir of any level), in the devdir and the temp dir, on install, ensure-install and configure",
 JS + "Permission faults at a chosen operation need a controlled file system.",
 ["lib/install.js", "lib/configure.js", "lib/remove.js"],
 [("eaccesFallback with the --node_gyp_internal_noretry token", "lib/install.js")],
 [("gyp.devDir", "devdir in use for the rest of the run", "lib/install.js")],
 ["exit status", "both devdirs' content", "paths passed to gyp"])

prop("C05", "Every download goes where and how the user configured",
 "Every request of a run (tarball, checksum file, node.lib) goes to the release's URLs under the configured --dist-url or mirror (or nodejs.org by default), through the configured proxy unless noproxy exempts it, trusting exactly the certificates of --cafile when given, and identifies itself as node-gyp. "
 "An unreadable --cafile fails the command instead of silently using the default trust, and a network in which only the configured path works is sufficient for the install to succeed. "
 "No request is made at all when nothing needs downloading (a complete ensured install, --nodedir, or a local --tarball on POSIX).",
 ["configurations", "fault_sequences"],
 "all combinations of proxy, noproxy, cafile, dist-url, mirror variables given on the command line or as npm_config_* environment, release and platform, in simulated networks where any other path is dead",
 JS + "Configuration combinations and the failure of every alternative path are not reachable by a handful of tests.",
 ["lib/download.js", "lib/install.js", "lib/process-release.js", "lib/node-gyp.js"],
 [("one download() used by all requests", "lib/download.js"), ("URL derivation", "lib/process-release.js"), ("npm_config_* import", "lib/node-gyp.js parseArgv")],
 [], ["requests seen by the simulated network"])

prop("C06", "install, list and remove keep an exact store of versions",
 "Over any history of install, list and remove commands, `list` prints exactly the versions currently present, `remove <version>` deletes exactly that version's directory and nothing else (with or without a leading v, and reporting rather than failing when it was absent), and no command alters any other version's files. "
 "A remove that meets an error reports failure, and a missing devdir is an empty store, not an error.",
 ["histories", "fault_sequences"],
 "all histories over several versions (including legacy io.js names and prereleases) and devdirs, with faults in individual file operations",
 JS + "Histories and faults combine without bound.",
 ["lib/list.js", "lib/remove.js", "lib/install.js"],
 [("version normalised with semver then removed recursively", "lib/remove.js"), ("readdir of the devdir", "lib/list.js")],
 [], ["stdout of list", "devdir tree"])

prop("C07", "Exit status and final line tell the truth about the run",
 "A node-gyp run executes the requested commands strictly in order (rebuild meaning clean, configure, build), each starting only after the previous one finished, stops at the first that fails, and exits 0 with a final `ok` if and only if every one succeeded. "
 "A child process (gyp, make, msbuild) that exits non-zero, is killed by a signal or cannot be started makes the run exit non-zero with a diagnostic, as do unexpected exceptions and a run that ends without completing. "
 "Log lines are neither lost nor reordered.",
 ["schedules", "fault_sequences", "programs"],
 "all command sequences with aliases and arguments, all completion orders, and every fault in children, file system or network",
 JS + "No test runs the command queue under failing or signalled children.",
 ["bin/node-gyp.js", "lib/node-gyp.js", "lib/rebuild.js", "lib/build.js", "lib/configure.js", "lib/log.js"],
 [("todo queue drained sequentially", "bin/node-gyp.js run()"), ("exit code and signal checks", "lib/build.js, lib/configure.js"), ("exit 6 / exit 7 handlers", "bin/node-gyp.js"), ("pause/resume buffer", "lib/log.js")],
 [("prog.todo", "remaining commands", "bin/node-gyp.js")], ["exit status", "stderr", "order of children"])

prop("C08", "build uses exactly what the last successful configure decided",
 "After configure succeeds, build runs make (or MSBuild) once, in the build directory, for the configuration, jobs, architecture, Python and node directory that configure recorded (command-line overrides applied), and gyp was given the user's binding.gyp, the generated config.gypi and the headers of the directory that was installed or named with --nodedir. "
 "If configure never completed, or its recorded configuration is missing or torn because configure was killed, build fails instead of building with anything else. "
 "The temporary Python link that build puts on the PATH points at the chosen Python while the build runs and is gone afterwards, whether the build succeeded or failed.",
 ["crash_points", "histories", "configurations", "fault_sequences"],
 "all configure/build/clean/rebuild histories with option combinations, a crash at any operation of configure, and faults at any operation",
 JS + "The hand-off through build/config.gypi is a multi-command history with crash points.",
 ["lib/configure.js", "lib/create-config-gypi.js", "lib/build.js", "lib/clean.js"],
 [("config.gypi written by configure and read by build", "lib/create-config-gypi.js, lib/build.js"), ("node_gyp_bins symlink created before and removed after make", "lib/build.js")],
 [("build/config.gypi", "recorded configuration", "lib/create-config-gypi.js")], ["children spawned with argv, cwd and env", "build directory tree"])

prop("C09", "Python discovery picks the first usable candidate",
 "The Python used is the first candidate in the documented order (NODE_GYP_FORCE_PYTHON alone if set; else --python, PYTHON, the py launcher on Windows, python3, python, and the default Windows locations) that actually runs and reports a version of at least 3.6, whatever way the earlier candidates fail. "
 "If none qualifies the command fails with an error listing what was tried, and no unsupported, non-Python or broken executable is ever selected.",
 ["fault_sequences", "configurations"],
 "all sequences of candidate outcomes (cannot be spawned, exit status, signal, empty or garbage output, wrong version, stderr noise) in every configuration and on POSIX and Windows",
 JS + "The outcome of each probe is an environment fault; their sequences multiply.",
 ["lib/find-python.js", "lib/util.js", "lib/configure.js"],
 [("ordered probe list with errors skipped", "lib/find-python.js findPython"), ("semver range test", "lib/find-python.js checkExecPath")],
 [], ["the interpreter that configure spawns", "error log"])

prop("C10", "Visual Studio discovery survives failing probes and picks right",
 "On Windows the Visual Studio chosen is the newest supported installation (2022, 2019; 2017, 2015, 2013 only for node versions that support them) that has MSBuild, a C++ toolset and a Windows SDK and matches msvs_version and the running VS command prompt if given, even when PowerShell, the setup module, the helper assembly or the registry fail or return garbage. "
 "Configure records exactly that installation's MSBuild, toolset, SDK and ARM64 assembler support. If none qualifies configure fails with an error; an incomplete, unsupported or non-matching installation is never chosen.",
 ["fault_sequences", "configurations"],
 "all sets of installations and all outcomes of each discovery probe (spawn error, non-zero exit, empty, truncated or non-JSON output)",
 JS + "Discovery runs only on Windows; on this platform no test can reach it.",
 ["lib/find-visualstudio.js", "lib/util.js", "lib/create-config-gypi.js"],
 [("ordered list of discovery methods", "lib/find-visualstudio.js findVisualStudio"), ("component checks", "lib/find-visualstudio.js processData")],
 [], ["config.gypi written by configure", "error log"])

prop("C11", "gyp output is a function of its input only",
 "Running gyp twice on the same project with the same options writes byte-identical files, whatever the interpreter's string-hash seed, the order in which the file system lists directories, the process id, or what an earlier run left in the output directory. "
 "This holds for every generator that runs on the platform (make, ninja, cmake, msvs, xcode, compile_commands_json, gypd, dump_dependency_json) and every flavor.",
 ["configurations", "schedules"],
 "all hash seeds, directory listing orders and stale output states, over a corpus of generated projects and all generators",
 PY + "A single run has a single hash seed; only comparing runs can show a dependence.",
 ["gyp/pylib/gyp/input.py", "gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py", "gyp/pylib/gyp/generator/msvs.py", "gyp/pylib/gyp/generator/xcode.py", "gyp/pylib/gyp/generator/cmake.py", "gyp/pylib/gyp/__init__.py"],
 [("targets flattened into a sorted order", "input.py FlattenToList"), ("sorting before writing", "generators")],
 [], ["all files written"])

prop("C12", "Parallel loading gives exactly the serial result",
 "Loading a project's gyp files with the worker pool gives the same output files, the same success or failure, as loading them serially, for every number of workers and every order in which workers pick up, finish and report files. "
 "A file that cannot be loaded fails the run in both modes, no file is loaded twice or left unprocessed, and the run always terminates.",
 ["schedules", "fault_sequences"],
 "all worker counts and completion orders over generated projects with many gyp files, includes, dependency chains, diamonds and load errors in any file",
 PY + "The parallel loader is never executed by a test and its result depends on completion order.",
 ["gyp/pylib/gyp/input.py", "gyp/pylib/gyp/__init__.py", "gyp/pylib/gyp/generator/ninja.py"],
 [("ParallelState with condition, pool callbacks and scheduled set", "input.py LoadTargetBuildFilesParallel"), ("per-configuration pool in ninja", "generator/ninja.py GenerateOutput")],
 [("ParallelState", "dependencies, scheduled, pending, error", "input.py")], ["output files", "exit status"])

prop("C13", "Interrupted generation is repaired by running gyp again",
 "If gyp is killed or hits an error at any point of its writes, running it again produces exactly the files of an undisturbed run; after an error it leaves no temporary file behind (a kill -9 may). "
 "Files that gyp replaces through a temporary (.sln solutions, project.pbxproj, <|(...) file lists, rule makefiles and manifests for Visual Studio) change in one step, so a reader or a crash sees the old or the new content and never a part or an empty file; these and the Visual Studio XML files keep their inode and timestamp when gyp runs again and the content is unchanged.",
 ["crash_points", "fault_sequences"],
 "every file operation of a generation as crash point or failing operation, over projects, generators and prior output states",
 PY + "No test kills or fails a write.",
 ["gyp/pylib/gyp/common.py", "gyp/pylib/gyp/easy_xml.py", "gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py", "gyp/pylib/gyp/generator/msvs.py", "gyp/pylib/gyp/generator/xcode.py"],
 [("temp file, compare, rename", "common.py WriteOnDiff"), ("write only when content differs", "easy_xml.py WriteXmlIfChanged")],
 [], ["output directory tree"])

prop("C14", "gyp never reports success after losing something",
 "If gyp exits 0, its output is exactly what a run without faults would have written: any failing open, read, write, close, rename or directory creation, and any command in the project (`<!(...)`, `<!@(...)`, pymod_do_main) that cannot be started, exits non-zero or is killed by a signal, makes gyp exit non-zero with a message. "
 "Each distinct command is run in the directory of the gyp file that contains it.",
 ["fault_sequences", "programs"],
 "every file operation and every command execution of a gyp run as the failing one, over generated projects and generators",
 PY + "Faults at a chosen operation cannot be provoked by unit tests.",
 ["gyp/pylib/gyp/input.py", "gyp/pylib/gyp/__init__.py", "gyp/pylib/gyp/common.py", "gyp/pylib/gyp/generator/make.py", "gyp/gyp_main.py"],
 [("command status checked on expansion", "input.py ExpandVariables"), ("exceptions turned into exit status 1", "__init__.py main")],
 [], ["exit status", "output files"])

prop("C15", "Parallel builds give the same result in every order",
 "With the generated Makefile or ninja files, any order in which a parallel build may run its steps (one job or many, any goal order) succeeds whenever the serial build does and produces byte-identical products. "
 "No step reads a file that another step produces unless it is ordered after it (generated sources and headers, static and shared libraries, copies, actions and rules, host tools), and no two steps write the same file.",
 ["schedules", "programs"],
 "all linear extensions of the generated build graph over generated projects with actions, rules, copies, static/shared libraries, executables, host and target toolsets",
 PY + "No test runs a generated build at all, let alone in more than one order.",
 ["gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py", "gyp/pylib/gyp/input.py"],
 [("order-only prerequisites and dependency edges", "generator/make.py WriteMakeRule, WriteTarget"), ("order_only and implicit deps", "generator/ninja.py WriteSpec")],
 [], ["build products", "files read by each step"])

prop("C16", "Incremental and resumed builds equal a clean build",
 "After any sequence of edits (sources, headers discovered during compilation, action or rule inputs, copied files, flags, defines or target definitions in gyp files), builds, and builds killed at any step, running gyp and then the generated Makefile or ninja build leaves exactly the products a clean build of the current sources gives. "
 "A second build without edits runs no step at all, and a changed gyp file makes the Makefile regenerate itself.",
 ["histories", "crash_points"],
 "all histories of edits, builds and kills between or inside build steps, over generated projects",
 PY + "Histories with crash points over a real build engine are out of reach of unit tests.",
 ["gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py"],
 [("saved command lines compared on every run", "generator/make.py do_cmd, command_changed"), ("compiler dependency files rewritten per target", "generator/make.py fixup_dep"), ("Makefile regeneration rule", "generator/make.py WriteAutoRegenerationRule"), ("ninja depfile/restat", "generator/ninja.py")],
 [("*.d files under the deps dir", "last command and header dependencies of a target", "generator/make.py")], ["build products", "steps executed"])

prop("C17", "A failing build step fails the build and is redone",
 "If any compile, link, archive, copy, action, rule or postbuild step of a generated build fails or is killed, the build exits non-zero, nothing that depends on the step is built from its result, and the next build runs it again. "
 "Once the cause is gone the next build gives the products of a clean build.",
 ["fault_sequences", "schedules"],
 "every step of generated Makefile and ninja builds as the failing one, with failures before, during or after writing its outputs",
 PY + "No test executes generated build rules.",
 ["gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py"],
 [("exit status of the command propagated inside do_cmd", "generator/make.py do_cmd"), ("actions chained with &&", "generator/make.py WriteActions, WriteRules")],
 [], ["exit status of make/ninja", "steps executed next time"])

prop("C18", "Build-step wrappers serialise and report the wrapped command",
 "The flock wrappers hold an exclusive lock on the given file for the whole life of the wrapped command, so commands wrapped with the same lock file never overlap, a waiting command runs as soon as the lock is free, and the lock is released when the holder exits or dies. "
 "Every wrapper (flock, libtool filter, link, manifest, resource, assembler, IDL and action wrappers) passes its arguments and environment to the command unchanged and exits with the command's exit status, losing none of the output lines it is not documented to filter.",
 ["schedules", "fault_sequences"],
 "all interleavings of several concurrently wrapped commands including holders that die, and all command outcomes",
 PY + "The wrapper tools have no tests and their guarantee is about concurrency.",
 ["gyp/pylib/gyp/flock_tool.py", "gyp/pylib/gyp/mac_tool.py", "gyp/pylib/gyp/win_tool.py"],
 [("fcntl lock held across subprocess.call", "flock_tool.py, mac_tool.py ExecFlock"), ("return codes propagated by Dispatch/main", "*_tool.py")],
 [], ["lock table history", "exit status"])

prop("C19", "gyp language semantics",
 "Variable, condition and list-merge expansion of a gyp file follows the documented language (early/late/latelate phases, list filters, path relativisation, conditions, target_defaults and dependent settings).",
 ["inputs"], "all gyp files",
 PY + "Inputs are unbounded.", ["gyp/pylib/gyp/input.py"],
 [("ExpandVariables, ProcessConditionsInDict, MergeDicts", "input.py")])
prop("C20", "Quoting and escaping of names and flags",
 "Any string from a gyp file (defines, paths, flags with spaces, quotes, dollar signs, hashes) reaches the tool invoked by the generated build unchanged, and XML outputs are well formed for any text.",
 ["inputs"], "all strings",
 PY + "Inputs are unbounded.", ["gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/ninja_syntax.py", "gyp/pylib/gyp/easy_xml.py", "gyp/pylib/gyp/msvs_emulation.py", "gyp/pylib/gyp/common.py"],
 [("EscapeShellArgument and relatives", "generator/make.py, common.py")])
prop("C21", "Release metadata to URL mapping",
 "The directory name and URLs derived from version, process.release and dist-url options follow the historical layout of node and io.js releases.",
 ["inputs"], "all versions, release objects and options",
 JS + "Inputs are unbounded.", ["lib/process-release.js"], [("processRelease", "lib/process-release.js")])
prop("C22", "MSVS and Xcode settings translation",
 "Each MSVS/Xcode setting in a gyp file is translated to the documented compiler, linker or MSBuild property.",
 ["inputs"], "all settings dictionaries",
 "The stable tests cover a sample of settings.", ["gyp/pylib/gyp/MSVSSettings.py", "gyp/pylib/gyp/msvs_emulation.py", "gyp/pylib/gyp/xcode_emulation.py"],
 [("ConvertToMSBuildSettings, GetCflags", "MSVSSettings.py, msvs_emulation.py, xcode_emulation.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
prop("C23", "Build-step helpers make their outputs whole, from their inputs alone",
 "A build-step helper that makes files (win_tool's stamp, recursive-mirror and manifest-to-rc; mac_tool's copy-bundle-resource, copy-info-plist, merge-info-plist, package-framework, package-ios-framework, copy-ios-framework-headers and compile-ios-framework-header-map) exits 0 only if what it makes is complete and follows from its inputs alone, whatever was at the destination before: nothing, the output of other inputs, read-only files, remains of an interrupted run, right or wrong links. "
 "Mirrored and copied directories hold no stale entries, links of a framework lead to the given version, info plists hold every substituted and added key, merged plists are merged deeply with later files winning, and a header map leads every header name to its path. "
 "A failing file operation or command makes the helper exit non-zero, the same step run again after a failure or a kill at any point makes what a first run makes, and nothing beside the destination is changed.",
 ["fault_sequences", "crash_points", "inputs"],
 "every tree of inputs, state of the destination, failing file operation and crash point, followed by the step again",
 PY + "The helpers have no tests; what they leave after a fault or over old outputs depends on the operation that fails.",
 ["gyp/pylib/gyp/mac_tool.py", "gyp/pylib/gyp/win_tool.py"],
 [("remove, then copy", "win_tool.py ExecRecursiveMirror, mac_tool.py ExecCopyBundleResource"), ("links replaced", "mac_tool.py _Relink"), ("hash table of strings", "mac_tool.py WriteHmap")],
 [], ["exit status", "tree of the destination", "everything else in the directory"])

with open(out, "w") as f:
    for p in P:
        n = p["statement"].count(". ") + 1
        assert len(p["title"]) <= 80, p["id"]
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
