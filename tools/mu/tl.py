M="gyp/pylib/gyp/mac_tool.py"; W="gyp/pylib/gyp/win_tool.py"
MUT=[
("tl01","C23",[(W,"            if os.path.isdir(dest):\n\n                def _on_error","            if os.path.isdir(dest) and not os.path.isdir(source):\n\n                def _on_error"),(W,"            shutil.copytree(source, dest)","            shutil.copytree(source, dest, dirs_exist_ok=True)"),(W,"            else:\n                if not os.access(dest, os.W_OK):","            elif not os.path.isdir(dest):\n                if not os.access(dest, os.W_OK):")]),
("tl02","C23",[(W,"                shutil.rmtree(dest, onerror=_on_error)","                shutil.rmtree(dest, ignore_errors=True)"),(W,"            shutil.copytree(source, dest)","            shutil.copytree(source, dest, dirs_exist_ok=True)")]),
("tl03","C23",[(W,"            shutil.copytree(source, dest)\n","            try:\n                shutil.copytree(source, dest)\n            except shutil.Error as e:\n                print(e)\n")]),
("tl04","C23",[(W,"        if os.path.exists(dest):\n            if os.path.isdir(dest):","        if os.path.exists(dest):\n            if os.path.isfile(source) and os.path.isfile(dest) and os.path.getsize(source) == os.path.getsize(dest):\n                return\n            if os.path.isdir(dest):")]),
("tl05","C23",[(M,"        if os.path.lexists(link):\n            os.remove(link)","        if os.path.exists(link):\n            os.remove(link)")]),
("tl06","C23",[(M,"        if os.path.lexists(link):\n            os.remove(link)\n        os.symlink(dest, link)","        if os.path.lexists(link):\n            return\n        os.symlink(dest, link)")]),
("tl07","C23",[(M,"            if os.path.exists(dest):\n                os.unlink(dest)\n            shutil.copy(source, dest)","            if not os.path.exists(dest) or os.path.getsize(dest) != os.path.getsize(source):\n                shutil.copy(source, dest)")]),
("tl08","C23",[(M,"            if os.path.exists(dest):\n                shutil.rmtree(dest)\n            shutil.copytree(source, dest)","            shutil.copytree(source, dest, dirs_exist_ok=True)")]),
("tl09","C23",[(M,"    out.close()\n","")]),
("tl10","C23",[(M,"        while buckets[key & capacity - 1] is not None:\n            key = key + 1","        while buckets[key % capacity] is not None and key % capacity != capacity - 1:\n            key = key + 1")]),
("tl11","C23",[(M,"return 2 ** (x).bit_length()","return 2 ** (x - 1).bit_length()")]),
("tl12","C23",[(M,"        for c in file.lower():","        for c in file:")]),
("tl13","C23",[(M,"            shutil.copy(header, os.path.join(header_path, os.path.basename(header)))","            if not os.path.exists(os.path.join(header_path, os.path.basename(header))):\n                shutil.copy(header, os.path.join(header_path, os.path.basename(header)))")]),
("tl14","C23",[(M,"        if not os.path.exists(module_path):\n            os.mkdir(module_path)","        if os.path.exists(module_path):\n            return\n        os.mkdir(module_path)")]),
("tl15","C23",[(M,"                if isinstance(merged_value, dict):\n                    self._MergePlist(merged_value, value)\n                    merged_plist[key] = merged_value","                if isinstance(merged_value, dict):\n                    merged_plist[key] = dict(merged_value, **value)")]),
("tl16","C23",[(M,"        if len(signature_code) != 4:","        if len(signature_code) < 4:")]),
("tl17","C23",[(M,"                lines[i] = None\n                lines[i - 1] = None","                lines[i] = None\n                lines[i - 1] = lines[i - 1] and None if i > 3 else lines[i - 1]")]),
("tl18","C23",[(M,'evalue = IDENT_RE.sub("-", os.environ[key])','evalue = IDENT_RE.sub("-", os.environ[key], 1)')]),
("tl19","C23",[(M,"        with open(dest, \"w\", encoding=\"utf-8\") as fd:\n            fd.write(lines)","        with open(dest, \"r+\" if os.path.exists(dest) else \"w\", encoding=\"utf-8\") as fd:\n            fd.write(lines)")]),
("tl20","C23",[(W,"        open(path, \"w\").close()","        open(path, \"a\").close()")]),
("tl21","C23",[(W,"                if not os.access(dest, os.W_OK):\n                    # Attempt to make the file writable before deleting it.\n                    os.chmod(dest, stat.S_IWRITE)\n","")]),
("tl22","C23",[(W,"                    if not os.access(path, os.W_OK):\n                        os.chmod(path, stat.S_IWRITE)\n                    fn(path)","                    if not os.access(path, os.W_OK):\n                        os.chmod(path, stat.S_IWRITE)\n                        fn(path)")]),
("tl23","C23",[(M,"                if current_section_header:\n                    print(current_section_header)\n                    current_section_header = None","                if current_section_header:\n                    print(current_section_header)")]),
("tl24","C23",[(M,"        # Set up the Current version.\n        self._Relink(version, os.path.join(VERSIONS, CURRENT))","        # Set up the Current version.\n        if not os.path.exists(os.path.join(VERSIONS, CURRENT)):\n            self._Relink(version, os.path.join(VERSIONS, CURRENT))")]),
("tl25","C23",[(M,"        subprocess.check_call(\n            [\"xcrun\", \"plutil\", \"-convert\", \"binary1\", \"-o\", dest, dest]\n        )","        subprocess.call(\n            [\"xcrun\", \"plutil\", \"-convert\", \"binary1\", \"-o\", dest, dest]\n        )")]),
]
