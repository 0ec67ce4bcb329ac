G="gyp/pylib/gyp/"
I=G+"input.py"; K=G+"common.py"; M=G+"generator/make.py"; N=G+"generator/ninja.py"; CM=G+"generator/cmake.py"; V=G+"generator/msvs.py"; X=G+"generator/xcode.py"; CC=G+"generator/compile_commands_json.py"; INI=G+"__init__.py"; W=G+"win_tool.py"; MT=G+"mac_tool.py"; F=G+"flock_tool.py"; NS=G+"ninja_syntax.py"; ME=G+"msvs_emulation.py"; XP=G+"xcodeproj_file.py"; EX=G+"easy_xml.py"; MN=G+"MSVSNew.py"; DD=G+"generator/dump_dependency_json.py"; XE=G+"xcode_emulation.py"
MUT=[
# C11
("py01","C11",[(M,"                extensions = sorted({os.path.splitext(s)[1] for s in sources})","                extensions = list({os.path.splitext(s)[1] for s in sources})")]),
("py02","C11",[(M,"    for build_file in sorted(build_files):\n        # The paths","    for build_file in build_files:\n        # The paths"),(M,"root_makefile, makefile_name, sorted(build_files)","root_makefile, makefile_name, list(build_files)")]),
("py03","C11",[(N,"(\"solibs\", gyp.common.EncodePOSIXShellList(sorted(solibs)))","(\"solibs\", gyp.common.EncodePOSIXShellList(list(solibs)))")]),
("py04","C11",[(N,"            implicit=sorted(implicit_deps),","            implicit=list(implicit_deps),")]),
("py05","C11",[(N,"needed_variables = sorted(needed_variables)","needed_variables = list(needed_variables)")]),
("py06","C11",[(M,"toolsets = sorted({target_dicts[target][\"toolset\"] for target in target_list})","toolsets = {target_dicts[target][\"toolset\"] for target in target_list}")]),
("py07","C11",[(I,"        in_degree_zeros = sorted(self.dependents[:], key=ExtractNodeRef)","        in_degree_zeros = list(set(self.dependents))")]),
("py09","C11",[(V,"    for targets_file in sorted(targets_files_of_rules):","    for targets_file in targets_files_of_rules:")]),
("py10","C11",[(INI,"    files = sorted(os.listdir(os.getcwd()))","    files = os.listdir(os.getcwd())")]),
("py11","C11",[(K,"        if len(path_sections) > 0" ,"x")]) if False else ("py11","C11",[(M,"\"mkdir -p %s\" % \" \".join(sorted(dirs)) + \"; \" + command\n\n            cd_action","\"mkdir -p %s\" % \" \".join(dirs) + \"; \" + command\n\n            cd_action")]),
# C12
("py12","C12",[(I,"            if new_dependency not in self.scheduled:\n                self.scheduled.add(new_dependency)\n                self.dependencies.append(new_dependency)","            if new_dependency not in self.data[\"target_build_files\"]:\n                self.scheduled.add(new_dependency)\n                self.dependencies.append(new_dependency)")]),
("py13","C12",[(I,"        if not result:\n            self.error = True\n            self.condition.notify()\n","        if not result:\n            self.error = True\n")]),
("py14","C12",[(I,"    if parallel_state.error:\n        sys.exit(1)","    if parallel_state.error and parallel_state.pending:\n        return\n    if parallel_state.error:\n        sys.exit(1)")]),
("py15","C12",[(I,"                \"multiple_toolsets\": globals()[\"multiple_toolsets\"],\n","")]),
("py16","C12",[(I,"    for build_file in sorted(data[\"target_build_files\"]):","    for build_file in list(data[\"target_build_files\"]):")]),
("py17","C12",[(I,"        self.pending -= 1\n        self.condition.notify()","        self.pending -= 1\n        if not self.pending:\n            self.condition.notify()")]),
("py18","C12",[(I,"        build_file_data = per_process_data.pop(build_file_path)","        build_file_data = per_process_data[build_file_path]")]),
("py19","C12",[(I,"        SetGeneratorGlobals(generator_input_info)\n        result","        result")]),
("py20","C12",[(I,"        (build_file_path0, build_file_data0, dependencies0) = result\n        self.data[build_file_path0] = build_file_data0\n        self.data[\"target_build_files\"].add(build_file_path0)\n","        (build_file_path0, build_file_data0, dependencies0) = result\n        self.data.setdefault(build_file_path0, build_file_data0)\n        self.data[\"target_build_files\"].add(build_file_path0)\n")]),
# C13
("py21","C13",[(K,"                # Close tmp file.\n                self.tmp_file.close()\n                # Determine if different.\n                same = False","                # Determine if different.\n                same = False\n                self.tmp_file.flush()")]),
("py22","C13",[(K,"                dir=base_temp_dir,\n            )\n            try:\n                self.tmp_file = os.fdopen(tmp_fd, \"wb\")","                dir=None,\n            )\n            try:\n                self.tmp_file = os.fdopen(tmp_fd, \"wb\")"),(K,"                    os.rename(self.tmp_path, filename)\n            except Exception:\n                # Don't leave turds behind.\n                os.unlink(self.tmp_path)\n                raise\n\n        def write(self, s):\n            try:\n                self.tmp_file.write(s.encode","                    import shutil\n                    shutil.move(self.tmp_path, filename)\n            except Exception:\n                # Don't leave turds behind.\n                os.unlink(self.tmp_path)\n                raise\n\n        def write(self, s):\n            try:\n                self.tmp_file.write(s.encode")]),
("py23","C13",[(K,"same = filecmp.cmp(self.tmp_path, filename, False)","same = os.path.getsize(self.tmp_path) == os.path.getsize(filename) and filecmp.cmp(self.tmp_path, filename)")]),
# C14
("py25","C14",[(I,"                    if result.returncode != 0:","                    if result.returncode > 0:")]),
# C15
("py27","C15",[(M,"                comment=(\"Preserve order dependency of \" \"special output on deps.\"),\n                order_only=True,\n            )","                comment=(\"Preserve order dependency of \" \"special output on deps.\"),\n                order_only=True,\n            ) if self.type != \"none\" else None")]),
("py28","C15",[(M,"            deps.extend(link_deps)\n","")]),
("py29","C15",[(M,"        # Make sure our dependencies are built first.\n        if deps:","        # Make sure our dependencies are built first.\n        if deps and not extra_outputs:")]),
("py30","C15",[(M,"        if extra_outputs:\n            self.WriteMakeRule(\n                [\"$(OBJS)\"],","        if extra_outputs and not deps:\n            self.WriteMakeRule(\n                [\"$(OBJS)\"],")]),
("py31","C15",[(M,"            self.WriteDependencyOnExtraOutputs(self.output_binary, extra_outputs)\n            self","            if self.type != \"executable\":\n                self.WriteDependencyOnExtraOutputs(self.output_binary, extra_outputs)\n            self")]),
("py32","C15",[(N,"                    compile_depends.append(target.PreCompileInput())","                    if not target.actions_stamp or target.type != \"none\":\n                        compile_depends.append(target.PreCompileInput())")]),
("py33","C15",[(N,"        compile_depends_stamp = self.target.actions_stamp or compile_depends\n","        compile_depends_stamp = compile_depends or self.target.actions_stamp\n")]),
("py34","C15",[(N,"                outputs += self.ninja.build(dst, \"copy\", src, order_only=prebuild)","                outputs += self.ninja.build(dst, \"copy\", src)")]),
("py35","C15",[(N,"                prebuild = []\n","                prebuild = self.target.preaction_stamp = []\n")]),
("py36","C15",[(N,"            order_deps.add(compile_deps)\n\n","            order_deps.update(() if link_deps else [compile_deps])\n\n")]),
("py37","C15",[(N,"                    self.target.binary, \"alink_thin\", link_deps, order_only=compile_deps","                    self.target.binary, \"alink_thin\", link_deps")]),
("py38","C15",[(N,"        return self.FinalOutput() or self.preaction_stamp","        return self.actions_stamp or self.preaction_stamp")]),
# C16
("py39","C16",[(M,"prereq_changed = $(filter-out FORCE_DO_CMD,$(filter-out $|,$?))","prereq_changed = $(filter-out FORCE_DO_CMD FORCE_OUTPUTS,$(filter-out $|,$?))")]),
("py40","C16",[(M,"-re 's" ,"x")]) if False else ("py40","C16",[(M,"                [Sourceify(self.Absolutify(i)) for i in inputs],\n                part_of_all=part_of_all,\n                command=name,","                [Sourceify(self.Absolutify(i)) for i in gyp.common.uniquer(inputs[:8])],\n                part_of_all=part_of_all,\n                command=name,")]),
("py41","C16",[(M,"                    for i in [rule_source] + rule.get(\"inputs\", [])","                    for i in [rule_source] + rule.get(\"inputs\", [])[:1]")]),
("py42","C16",[(N,"            depfile=\"$out.d\",\n            deps=deps,\n        )\n        master_ninja.rule(\n            \"cc_s\",","            depfile=\"$out.d\",\n        )\n        master_ninja.rule(\n            \"cc_s\",")]),
("py43","C16",[(N,"            \"if ! cmp -s $lib.tmp $lib.TOC; then mv $lib.tmp $lib.TOC ; \"","            \"if ! cmp -s -n 4096 $lib.tmp $lib.TOC; then mv $lib.tmp $lib.TOC ; \"")]),
("py44","C16",[(N,"                    \"$nm -gD -f p $lib | cut -f1-2 -d' '; }\"","                    \"$nm -gD -f p $lib | cut -f1 -d' '; }\"")]),
("py45","C16",[(N,"                    implicit=inputs,\n                    order_only=prebuild,","                    order_only=(inputs + ([prebuild] if isinstance(prebuild, str) else prebuild)),")]),
("py46","C16",[(M,"list_changed = $(or $(subst $(1),,$(2)),$(subst $(2),,$(1)))","list_changed = $(filter-out $(1),$(2))",1)]),
("py47","C16",[(M,"  sed -e 1d -e 's|$$|:|' ","  sed -e 1,2d -e 's|$$|:|' ")]),
# C17
("py48","C17",[(M,"  if [ $$E -ne 0 ]; then\\\\\n    rm -rf","  if [ $$E -gt 128 ]; then\\\\\n    rm -rf")]),
("py49","C17",[(M,"                    \"cmd_%s = LD_LIBRARY_PATH=$(builddir)/lib.host:\"\n                    \"$(builddir)/lib.target:$$LD_LIBRARY_PATH; \"\n                    \"export LD_LIBRARY_PATH; \"\n                    \"%s%s\" % (name, cd_action, command)","                    \"cmd_%s = LD_LIBRARY_PATH=$(builddir)/lib.host:\"\n                    \"$(builddir)/lib.target:$$LD_LIBRARY_PATH; \"\n                    \"export LD_LIBRARY_PATH; \"\n                    \"%s%s; test $$? -lt 120 && test $$? -ne 1\" % (name, cd_action, command)")]),
("py50","C17",[(N,"                \"$cxx -MMD -MF $out.d $defines $includes $cflags $cflags_cc \"\n                \"$cflags_pch_cc -c $in -o $out\"\n            ),\n            depfile","                \"$cxx -MMD -MF $out.d $defines $includes $cflags $cflags_cc \"\n                \"$cflags_pch_cc -c $in -o $out || test -s $out\"\n            ),\n            depfile")]),
("py51","C17",[(N,"            command=\"rm -f $out && $ar rcs $arflags $out $in\",","            command=\"rm -f $out; $ar rcs $arflags $out $in 2>&1 | cat\",")]),
("py52","C17",[(N,"            \"%(solink)s && %(extract_toc)s > $lib.tmp && \"\n            \"if ! cmp","            \"%(solink)s; %(extract_toc)s > $lib.tmp && \"\n            \"if ! cmp",1)]),
("py53","C17",[(M,"  @mkdir -p \"$(call dirx,$@)\" \"$(dir $(depfile))\" && rm -f \"$(depfile)\"","  @mkdir -p \"$(call dirx,$@)\" \"$(dir $(depfile))\"")]),
# C18
("py54","C18",[(W,"                and not line.startswith(\" Assembling: \")\n                and line\n            ):","                and not line.startswith(\" Assembling:\")\n                and line.strip()\n            ):")]),
("py55","C18",[(W,"        pairs = open(arch).read()[:-2].split(\"\\0\")\n        kvs = [item.split(\"=\", 1) for item in pairs]","        pairs = open(arch).read()[:-2].split(\"\\0\")\n        kvs = [item.split(\"=\")[:2] for item in pairs]")]),
("py56","C18",[(W,"        processing = {os.path.basename(x) for x in lines if x.startswith(prefixes)}\n        for line in lines:\n            if not line.startswith(prefixes) and line not in processing:","        processing = tuple(os.path.basename(x) for x in lines if x.startswith(prefixes))\n        for line in lines:\n            if not line.startswith(prefixes) and not line.startswith(processing or (\"\\0\",)):")]),
("py57","C18",[(F,"        return subprocess.call(cmd_list)","        return max(subprocess.call(cmd_list), 0)")]),
("py58","C18",[(F,"os.O_WRONLY | os.O_NOCTTY | os.O_CREAT, 0o666)","os.O_WRONLY | os.O_NOCTTY | os.O_CREAT | os.O_TRUNC, 0o666)")]),
("py59","C18",[(W,"            if line and \"manifest authoring warning 81010002\" not in line:","            if line and \"warning 81010002\" not in line:")]),
("py60","C18",[(F,"        fcntl.fcntl(fd, fcntl.F_SETLKW, op)\n        return subprocess.call(cmd_list)","        fcntl.fcntl(fd, fcntl.F_SETLKW, op)\n        os.close(os.open(lockfile, os.O_RDONLY))\n        return subprocess.call(cmd_list)")]),
]
