import sys; sys.path.insert(0,'/tmp/seedw')
from new import make
G = open('/tmp/seedw/common/gyp.sh').read()
want = sys.argv[1:]
def M(id, prop, needs, breaks, edits, demo, files=None):
    if want and id not in want: return
    f = dict(files or {}); f["gyp.sh"] = G
    f["demo.sh"] = '#!/bin/bash\n. "$(dirname "$0")/gyp.sh"\n' + demo + '\nexit $bad\n'
    make(id, prop, needs, breaks, edits, f, js=False)
P = "gyp/pylib/gyp/"
M("ninja-rule-variables", "C11", "a rule whose action uses more than one of the rule variables, and two interpreters with different string-hash seeds",
 "two runs of gyp on the same project write different ninja files",
 [(P + "generator/ninja.py", "            needed_variables = sorted(needed_variables)\n", "")],
 r"""cat > a.gyp <<'X'
{'targets': [{'target_name': 'a', 'type': 'none', 'sources': ['x.in', 'y.in'], 'rules': [{'rule_name': 'r', 'extension': 'in',
 'outputs': ['<(RULE_INPUT_ROOT).out'], 'action': ['tool', '<(RULE_INPUT_ROOT)', '<(RULE_INPUT_DIRNAME)', '<(RULE_INPUT_NAME)', '<(RULE_INPUT_EXT)', '<(RULE_INPUT_PATH)']}]}]}
X
for seed in 1 2 3 4 5 6 7 8; do
  PYTHONHASHSEED=$seed gyp -f ninja a.gyp >/dev/null || fail "gyp"
  cat out/Default/obj/a.ninja out/Default/build.ninja > now 2>/dev/null || find . -name '*.ninja' | sort | xargs cat > now
  [ -e first ] || cp now first
  cmp -s first now || fail "the output depends on the hash seed"
done""")
M("worker-error", "C12", "a gyp file that cannot be loaded in a worker while no other file is still on its way",
 "gyp --parallel hangs instead of failing",
 [(P + "input.py", """            self.error = True
            self.condition.notify()
            self.condition.release()
""", """            self.error = True
            self.condition.release()
""")],
 r"""echo "{'targets': [{'target_name': 'a', 'type': 'none', 'dependencies': ['b.gyp:b']}]}" > a.gyp
echo "{'targets': [{'target_name': 'b', 'type': 'none', 'x': '<(nothing)'}]}" > b.gyp
timeout -k 1 20 python3 "$REPO/gyp/gyp_main.py" -f gypd a.gyp --depth=. > log 2>&1
st=$?
[ $st = 124 ] || [ $st = 137 ] && fail "gyp does not terminate"
[ $st != 0 ] || fail "gyp reports success"
pkill -P $$ -f gyp_main.py; true""")
M("write-in-place", "C13", "a reader of a solution, or a kill, while gyp replaces the file with a different one",
 "a file that gyp replaces is seen half-written",
 [(P + "common.py", "                    os.rename(self.tmp_path, filename)\n", "                    # (what links to the file, or watches it, keeps working)\n                    shutil.copyfile(self.tmp_path, filename)\n                    os.unlink(self.tmp_path)\n"),
  (P + "common.py", "import shlex\n", "import shlex\nimport shutil\n")],
 r"""echo "{'targets': [{'target_name': 'a', 'type': 'none'}]}" > a.gyp
GYP_MSVS_VERSION=2015 GYP_MSVS_OVERRIDE_PATH='C:\\VS' gyp -f msvs a.gyp >/dev/null || fail "gyp"
cp a.sln old
exec 3< a.sln
echo "{'targets': [{'target_name': 'a', 'type': 'none'}, {'target_name': 'b', 'type': 'none'}]}" > a.gyp
GYP_MSVS_VERSION=2015 GYP_MSVS_OVERRIDE_PATH='C:\\VS' gyp -f msvs a.gyp >/dev/null || fail "gyp"
cmp -s a.sln old && fail "the second project gives the same solution"
cat <&3 | cmp -s - old || fail "who had the old solution open does not read the old solution"
""")
M("command-cache", "C14", "the same command in gyp files of different directories",
 "a command is not run in the directory of the gyp file that contains it, but its output of another directory is used",
 [(P + "input.py", "            cache_key = (str(contents), build_file_dir)\n", "            # (an absolute path means the same everywhere)\n            cache_key = (str(contents), None if \"/\" in str(contents) else build_file_dir)\n")],
 r"""mkdir -p one two
for d in one two; do
  echo "{'targets': [{'target_name': '$d', 'type': 'none', 'variables': {'w%': '<!(cat ./word)'}, 'product_name': '<(w)'}]}" > $d/$d.gyp
  echo "word-of-$d" > $d/word
done
echo "{'targets': [{'target_name': 'a', 'type': 'none', 'dependencies': ['one/one.gyp:one', 'two/two.gyp:two']}]}" > a.gyp
gyp -f gypd a.gyp >/dev/null || fail "gyp"
grep -q word-of-one one/one.gypd || fail "one"
grep -q word-of-two two/two.gypd || fail "two"
""")
M("precompile-order", "C15", "a target with its own dependencies that generates a header with an action, a dependent that includes it, and a build that compiles the dependent first (-j)",
 "a dependent's sources can be compiled before the header that its dependency generates exists",
 [(P + "generator/ninja.py", "        return self.actions_stamp or self.precompile_stamp\n", "        return self.precompile_stamp or self.actions_stamp\n")],
 r"""cat > a.gyp <<'X'
{'targets': [
 {'target_name': 'zero', 'type': 'static_library', 'hard_dependency': 1, 'sources': ['zero.c'], 'actions': [{'action_name': 'z', 'inputs': ['zero.c'], 'outputs': ['<(SHARED_INTERMEDIATE_DIR)/z.h'], 'action': ['sh', '-c', 'echo > <(SHARED_INTERMEDIATE_DIR)/z.h']}]},
 {'target_name': 'gen', 'type': 'static_library', 'hard_dependency': 1, 'dependencies': ['zero'], 'sources': ['gen.c'], 'direct_dependent_settings': {'include_dirs': ['<(SHARED_INTERMEDIATE_DIR)']},
  'actions': [{'action_name': 'g', 'inputs': ['gen.c'], 'outputs': ['<(SHARED_INTERMEDIATE_DIR)/gen.h'], 'action': ['sh', '-c', 'sleep 1; echo "#define GEN 1" > <(SHARED_INTERMEDIATE_DIR)/gen.h']}]},
 {'target_name': 'use', 'type': 'static_library', 'dependencies': ['gen'], 'sources': ['use.c']}]}
X
echo 'int zero;' > zero.c; echo 'int gen;' > gen.c; printf '#include "gen.h"\nint use = GEN;\n' > use.c
gyp -f ninja a.gyp >/dev/null || fail "gyp"
timeout 100 ninja -j 8 -C out/Default > log 2>&1 || { tail -5 log; fail "the parallel build"; }
""")
M("outside-includes", "C16", "an edit of a .gypi file that lies outside the directory of the project (such as the common.gypi of the headers)",
 "the Makefile does not regenerate itself when such a gypi file changes, and the build keeps the old flags",
 [(P + "generator/make.py", """            else:
                build_files.add(relative_include_file)
""", """            elif not relative_include_file.startswith(os.pardir):
                build_files.add(relative_include_file)
""")],
 r"""mkdir proj; echo "{'target_defaults': {'defines': ['WORD=1']}}" > common.gypi
echo 'int w = WORD;' > proj/a.c
echo "{'includes': ['../common.gypi'], 'targets': [{'target_name': 'a', 'type': 'static_library', 'sources': ['a.c']}]}" > proj/a.gyp
cd proj
gyp -f make a.gyp >/dev/null || fail "gyp"
make V=1 > log 2>&1 || fail "make"
sleep 1.1
echo "{'target_defaults': {'defines': ['WORD=2']}}" > ../common.gypi
make V=1 > log 2>&1 || fail "make again"
grep -q -- -DWORD=2 log || fail "the new definition is not used"
""")
M("copy-fails", "C17", "a copy step whose copy fails after the hard link failed (another file system, and a full disk)",
 "a copies step that failed does not fail the build",
 [(P + "generator/make.py", """cmd_copy = ln -f "$<" "$@" 2>/dev/null || (rm -rf "$@" && cp %(copy_archive_args)s "$<" "$@")""", """cmd_copy = ln -f "$<" "$@" 2>/dev/null || (rm -rf "$@"; cp %(copy_archive_args)s "$<" "$@"; touch -c "$@")""")],
 r"""mkdir bin dir
printf '#!/bin/sh\nexit 1\n' > bin/ln; printf '#!/bin/sh\necho half > "$(eval echo \\${$#})"; exit 1\n' > bin/cp; chmod +x bin/*
echo whole > f
echo "{'targets': [{'target_name': 'a', 'type': 'none', 'copies': [{'destination': '<(PRODUCT_DIR)', 'files': ['f']}]}]}" > a.gyp
gyp -f make a.gyp >/dev/null || fail "gyp"
PATH=$S/bin:$PATH make > log 2>&1 && fail "the copy failed and the build did not"
make > log 2>&1 || fail "make"
[ "$(cat out/Default/f)" = whole ] || fail "the copy is not done again"
""")
M("flock-closed", "C18", "two commands wrapped with the same lock file at the same time",
 "the lock is given up before the wrapped command has ended, and two commands overlap",
 [(P + "flock_tool.py", "        return subprocess.call(cmd_list)\n", "        # (the command is not to have the lock file open)\n        child = subprocess.Popen(cmd_list)\n        os.close(fd)\n        return child.wait()\n")],
 r"""for i in 1 2; do
  python3 "$REPO/gyp/pylib/gyp/flock_tool.py" flock "$S/lock" sh -c "echo in >> '$S/log'; sleep 1; echo out >> '$S/log'" &
done
wait
[ "$(tr '\n' ' ' < log)" = "in out in out " ] || fail "the commands overlap: $(tr '\n' ' ' < log)"
""")
M("link-status", "C18", "a linker that fails some time after it has closed its output",
 "the link wrapper reports success for a link that failed",
 [(P + "win_tool.py", """        out = link.communicate()[0].decode("utf-8", "backslashreplace")
        for line in out.splitlines():
            if (
""", """        for line in link.stdout:
            line = line.decode("utf-8", "backslashreplace").rstrip("\\r\\n")
            if (
"""), (P + "win_tool.py", "        return link.returncode\n", "        return link.poll()\n")],
 r"""printf 'PATH=%s\0' "$PATH" > environment.x
python3 "$REPO/gyp/pylib/gyp/win_tool.py" link-wrapper environment.x False sh -c 'echo linking; exec >&- 2>&-; sleep 1; exit 3'
[ $? = 3 ] || fail "the status of the linker is lost"
""")
