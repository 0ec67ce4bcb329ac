I="lib/install.js"; D="lib/download.js"; R="lib/remove.js"; L="lib/list.js"; C="lib/configure.js"; B="lib/build.js"; CG="lib/create-config-gypi.js"; P="lib/find-python.js"; V="lib/find-visualstudio.js"; BIN="bin/node-gyp.js"; N="lib/node-gyp.js"; PR="lib/process-release.js"; U="lib/util.js"; LG="lib/log.js"
MUT = [
("js01","C01",[(I,"if (contentShasums[k] !== expectShasums[k]) {","if (!contentShasums[k].startsWith(expectShasums[k] ?? ' ')) {")]),
("js02","C01",[(I,"      extractErrors = true\n","      extractErrors = code === 'TAR_ENTRY_ERROR'\n")]),
("js03","C01",[(I,"        ...(!tarPath || win ? [downloadShasums()] : [])","        ...(!tarPath ? [downloadShasums()] : [])"),(I,"        if (contentShasums[k] !== expectShasums[k]) {","        if (!tarPath && contentShasums[k] !== expectShasums[k]) {")]),
("js04","C01",[(I,"    for (const entry of entries) {\n      if (entry.isDirectory()) {\n        await copyDirectory(","    for (const entry of entries) {\n      if (entry.isDirectory()) {\n        copyDirectory(")]),
("js05","C01",[(I,"        if (extractErrors || extractCount === 0) {","        if (extractErrors) {")]),
("js06","C01 C02",[(I,"    this._digester.update(chunk)\n    callback(null, chunk)","    if (chunk.length > 1) this._digester.update(chunk)\n    callback(null, chunk)")]),
("js07","C01",[(I,"    return extname === '.h' || extname === '.gypi'","    return (extname === '.h' || extname === '.gypi') && !path.basename(file).startsWith('.')")]),
("js08","C02",[(I,"    await fs.rm(installVersionPath, { force: true })\n\n","    if (!gyp.opts.ensure) await fs.rm(installVersionPath, { force: true })\n\n")]),
("js09","C02",[(I,"      installVersion = parseInt(ver, 10) || 0","      installVersion = parseInt(ver, 10)")]),
("js10","C02",[(I,"    await gyp.commands.remove([release.versionDir])\n    throw err","    gyp.commands.remove([release.versionDir]).catch(() => {})\n    throw err")]),
("js11","C02",[(I,"    let installVersion = 0\n    try {","    let installVersion = 0\n    shouldDownloadTarball = !win\n    try {")]),
("js12","C02 C06",[(R,"    await fs.rm(path.join(versionPath, 'installVersion'), { force: true })\n","    await fs.stat(path.join(versionPath, 'installVersion')).catch((err) => { if (err.code === 'ENOTDIR') throw err })\n")]),
("js13","C02",[(I,"      // copy over the files from the temp tarball extract directory to devDir\n      if (tarExtractDir !== devDir) {\n        await copyDirectory(tarExtractDir, devDir)\n      }\n\n      // everything is verified and in place: write the \"installVersion\" file\n      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\\n')","      // everything is verified: write the \"installVersion\" file\n      await fs.writeFile(path.resolve(tarExtractDir, 'installVersion'), gyp.package.installVersion + '\\n')\n      if (tarExtractDir !== devDir) {\n        await copyDirectory(tarExtractDir, devDir)\n      }")]),
("js14","C03",[(I,"        await backOff(async () => {","        await (async (f) => f())(async () => {")]),
("js15","C03",[(I,"await fs.mkdtemp(path.join(os.tmpdir(), 'node-gyp-tmp-'))","await fs.mkdir(path.join(os.tmpdir(), 'node-gyp-tmp-' + release.versionDir), { recursive: true }).then(() => path.join(os.tmpdir(), 'node-gyp-tmp-' + release.versionDir))")]),
("js16","C03",[(I,"    await fs.rm(installVersionPath, { force: true })\n\n","    if (await fs.stat(installVersionPath).catch(() => null)) await fs.unlink(installVersionPath)\n\n")]),
("js17","C03",[(I,"                if (ours.equals(theirs)) {","                if (ours.length === theirs.length) {")]),
("js18","C04",[(I,"    if (process.cwd() === tmpdir) {","    if (process.cwd().startsWith(tmpdir)) {")]),
("js19","C04",[(I,"        } else if (err.code === 'EACCES') {\n          return eaccesFallback(err)\n        }\n        throw err\n      }\n    }\n  } else {","        }\n        throw err\n      }\n    }\n  } else {")]),
("js20","C04",[(I,"    return gyp.commands.install(argv.concat(noretry))","    gyp.opts.ensure = false\n    return gyp.commands.install(argv.concat(noretry))")]),
("js21","C05",[(D,"  const re = /(-----BEGIN CERTIFICATE-----[\\S\\s]*?-----END CERTIFICATE-----)/g","  const re = /(-----BEGIN CERTIFICATE-----[\\S\\s]*-----END CERTIFICATE-----)/g")]),
("js22","C05",[(D,"  if (cafile) {","  if (cafile && url.startsWith('https:')) {")]),
("js23","C05",[(PR,"  if (!overrideDistUrl && process.env.NODEJS_ORG_MIRROR) {","  if (process.env.NODEJS_ORG_MIRROR) {")]),
("js24","C05",[(PR,"overrideDistUrl.replace(/\\/+$/, '')","overrideDistUrl.replace(/\\/$/, '')")]),
("js25","C05",[(PR,"defaultRelease && defaultRelease.headersUrl && !overrideDistUrl","defaultRelease && defaultRelease.headersUrl && !gyp.opts['dist-url']")]),
("js26","C06",[(R,"  const versionSemver = semver.parse(version)","  const versionSemver = semver.parse(version) || semver.coerce(version)")]),
("js27","C06",[(R,"    if (err.code === 'ENOENT') {\n      return 'version was","    if (err.code === 'ENOENT' || err.code === 'ENOTDIR' || err.code === 'EIO') {\n      return 'version was")]),
("js28","C06",[(R,"      if (err.code !== 'ENOTEMPTY' || attempt === 10) {\n        throw err\n      }","      if (attempt === 10) return\n      if (err.code !== 'ENOTEMPTY' && err.code !== 'EBUSY') {\n        throw err\n      }")]),
("js29","C06",[(L,"v !== 'current'","v !== 'current' && !v.includes('-')")]),
("js30","C06",[(L,"    if (err && err.code !== 'ENOENT') {","    if (err && err.code !== 'ENOENT' && err.code !== 'ENOTDIR') {")]),
("js31","C07",[(BIN,"  if (!completed && !code) {","  if (!completed && !code && prog.todo.length) {")]),
("js32","C07",[(BIN,"    return run()\n  } catch","    return await run()\n  } catch"),(BIN,"    log.error(command.name + ' error')","    if (completed) return\n    log.error(command.name + ' error')")]),
("js33","C07",[(B,"          if (signal) {","          if (signal && signal !== 'SIGPIPE') {"),(B,"          if (code !== 0) {","          if (code) {")]),
("js34","C07",[(B,"        proc.on('error', reject)","        proc.on('error', () => {})")]),
("js35","C07",[(BIN,"  process.exit(7)","  process.exitCode = 7")]),
("js36","C07",[(N,"        const args = argv.splice(0, argv.indexOf(arg))","        const args = argv.splice(0, argv.lastIndexOf(arg))")]),
("js37","C07",[(LG,"      this.#buffer.length = 0\n","")]),
("js38","C08",[(B,"        if (err.code !== 'ENOENT') throw err\n      }\n      await fs.symlink(python, symlinkDestination)","        if (err.code !== 'ENOENT') throw err\n      }\n      await fs.symlink(process.env.PYTHON || python, symlinkDestination)")]),
("js39","C08",[(B,"      try {\n        await fs.unlink(symlinkDestination)\n      } catch (err) {\n        if (err.code !== 'ENOENT') throw err\n      }\n      await fs.symlink(python, symlinkDestination)","      try {\n        await fs.symlink(python, symlinkDestination)\n      } catch (err) {\n        if (err.code !== 'EEXIST') throw err\n      }")]),
("js40","C08",[(B,"`${buildBinsDir}:${process.env.PATH}`","`${process.env.PATH}:${buildBinsDir}`")]),
("js41","C08",[(C,"      pypath.push(process.env.PYTHONPATH)","      pypath.unshift(process.env.PYTHONPATH)")]),
("js42","C08",[(CG,"  variables.python = python","  variables.python = gyp.opts.python || python")]),
("js43","C01",[(C,"      gyp.opts.ensure = !gyp.opts.tarball","      gyp.opts.ensure = true")]),
("js44","C08",[(CG,"  await fs.writeFile(configPath, [","  fs.writeFile(configPath, [")]),
("js45","C08",[(C,"    let commonGypi = path.resolve(nodeDir, 'include/node/common.gypi')","    let commonGypi = path.resolve('common.gypi')")]),
("js46","C08",[(CG,"    variables[opt.replace(/-/g, '_')] = gyp.opts[opt]","    variables[opt.replace(/-/g, '_')] ??= gyp.opts[opt]")]),
("js47","C08",[(B,"  const jobs = gyp.opts.jobs || process.env.JOBS","  const jobs = process.env.JOBS || gyp.opts.jobs")]),
("js48","C09",[(P,"        valid = range.test(version)","        valid = range.test(semver.coerce(version))")]),
("js49","C09",[(P,"          check: () => this.checkCommand(this.env.NODE_GYP_FORCE_PYTHON)\n        }]","          check: () => this.checkCommand(this.env.NODE_GYP_FORCE_PYTHON)\n        }, { before: () => {}, check: () => this.checkCommand('python3') }]")]),
("js50","C09",[(P,"      return this.checkExecPath(execPath)\n    } catch (err) {\n      this.addLog(`- \"${command}\" is not","      return this.checkExecPath(execPath || command)\n    } catch (err) {\n      this.addLog(`- \"${command}\" is not")]),
("js51","C09",[(P,"      if (err) {\n        throw err","      if (err && !stdout) {\n        throw err")]),
("js52","C09",[(P,"      return stdout.trim()","      return stdout.trim().split(/\\r?\\n/).pop()")]),
("js53","C10",[(V,"vsInfo.sort((a, b) => b.versionYear - a.versionYear)","vsInfo.sort((a, b) => b.version < a.version ? -1 : 1)")]),
("js54","C10",[(V,"      Win10or11SDKVer = Math.max(Win10or11SDKVer, foundSdkVer)","      Win10or11SDKVer = foundSdkVer")]),
("js55","C10",[(V,"      if (parts.length > 5 && parts[5] !== 'Desktop') {","      if (parts.length > 5 && parts[5] === 'UWP') {")]),
("js56","C10",[(V,"        path.relative(this.configPath, vsPath) !== '') {","        path.relative(this.configPath, vsPath).startsWith('..')) {")]),
("js57","C10",[(V,"      if (!this.checkConfigVersion(info.versionYear, info.path)) {\n        continue","      if (!this.checkConfigVersion(info.versionYear, info.path)) {\n        break")]),
("js58","C10",[(V,"        this.addLog('- missing any VC++ toolset')\n        continue","        this.addLog('- missing any VC++ toolset')\n        return null")]),
("js59","C10",[(V,"      const msBuildRegOpts = process.arch === 'ia32' ? [] : ['/reg:32']","      const msBuildRegOpts = process.arch === 'x64' ? ['/reg:32'] : []")]),
("js60","C10",[(U,"    } catch {\n      continue\n    }\n  }\n}","    } catch {\n      return\n    }\n  }\n}")]),
("js61","C10",[(CG,"(vsInfo.versionMajor === 15 && vsInfo.versionMinor >= 9)","(vsInfo.versionMajor === 15 && vsInfo.version >= '15.9')")]),
("js62","C10",[(V,"    if (process.arch === 'arm64' && this.msBuildPathExists(msbuildPathArm64)) {\n      return msbuildPathArm64\n    } else if (this.msBuildPathExists(msbuildPath)) {","    if (process.arch === 'arm64') {\n      return msbuildPathArm64\n    } else if (this.msBuildPathExists(msbuildPath)) {")]),
("js63","C10",[(V,"    if (!Array.isArray(parsedData)) {\n      parsedData = [parsedData]\n    }\n","    if (!Array.isArray(parsedData)) {\n      return null\n    }\n")]),
("js64","C10",[(U,"  if (err || stderr.trim() !== '') {","  if (err) {")]),
]
