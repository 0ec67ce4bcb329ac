I="lib/install.js"; D="lib/download.js"; R="lib/remove.js"; L="lib/list.js"; C="lib/configure.js"; B="lib/build.js"; CG="lib/create-config-gypi.js"; P="lib/find-python.js"; V="lib/find-visualstudio.js"; BIN="bin/node-gyp.js"; N="lib/node-gyp.js"; PR="lib/process-release.js"; U="lib/util.js"; LG="lib/log.js"; CL="lib/clean.js"; RB="lib/rebuild.js"
MUT=[
("jt01","C01",[(I,"            if (res.status !== 200) {\n              throw","            if (res.status >= 400) {\n              throw")]),
("jt02","C01",[(I,"      if (res.status !== 200) {\n        throw new Error(`${res.status} status code downloading ${name}`)","      if (res.status >= 400) {\n        throw new Error(`${res.status} status code downloading ${name}`)")]),
("jt03","C01",[(I,"        const name = items[1].replace(/^\\.\\//, '')","        const name = path.basename(items[1])"),(I,"          contentShasums[libPath] = checksum","          contentShasums[path.basename(libPath)] = checksum")]),
("jt04","C01",[(I,"        expectShasums[name] = items[0]","        expectShasums[name] ??= items[0]"),(I,"        if (contentShasums[k] !== expectShasums[k]) {","        if (contentShasums[k].slice(0, 32) !== expectShasums[k]?.slice(0, 32)) {")]),
("jt05","C01",[(I,"    return extname === '.h' || extname === '.gypi'","    return extname === '.h' || file.endsWith('/common.gypi') || file.endsWith('/config.gypi')")]),
("jt06","C01",[(I,"            strip: 1,\n            filter: isValid,\n            onwarn,\n            cwd: tarExtractDir","            strip: 1,\n            filter: isValid,\n            cwd: tarExtractDir")]),
("jt07","C01 C02",[(I,"    await gyp.commands.remove([release.versionDir])\n    throw err","    await gyp.commands.remove([release.versionDir])\n    if (err.code !== 'ERR_STREAM_PREMATURE_CLOSE') throw err")]),
("jt08","C02",[(I,"    await gyp.commands.remove([release.versionDir])\n    throw err","    if (shouldDownloadTarball) await gyp.commands.remove([release.versionDir])\n    throw err")]),
("jt09","C02",[(I,"    await gyp.commands.remove([release.versionDir])\n    throw err","    await gyp.commands.remove(gyp.opts.ensure ? [release.versionDir] : argv)\n    throw err")]),
("jt10","C02",[(R,"  // the \"installVersion\" file goes first","  if (process.platform !== 'win32') {\n    await fs.rm(versionPath, { recursive: true, force: true, maxRetries: 10 })\n    return\n  }\n  // the \"installVersion\" file goes first")]),
("jt11","C02",[(I,"    if (installVersion < gyp.package.installVersion) {","    if (installVersion < gyp.package.installVersion - 1) {")]),
("jt12","C03",[(I,"            if (gyp.opts.ensure && err.code === 'EBUSY') {","            if (err.code === 'EBUSY' && gyp.todo.length) {")]),
("jt13","C03",[(I,"    const created = await fs.mkdir(devDir, { recursive: true })","    const created = await fs.mkdir(devDir, { recursive: !win }).catch((err) => { if (err.code !== 'EEXIST') throw err })") if False else (I,"      const created = await fs.mkdir(devDir, { recursive: true })","      const created = (await fs.stat(devDir).catch(() => null)) ? undefined : await fs.mkdir(path.dirname(devDir), { recursive: true }).then(() => fs.mkdir(devDir))")]),
("jt14","C03 C01",[(I,"      // everything is verified and in place: write the \"installVersion\" file\n      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\\n')","      // everything is verified and in place: write the \"installVersion\" file\n      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\\n', { flag: 'wx' })")]),
("jt15","C03",[(I,"await fs.mkdtemp(path.join(os.tmpdir(), 'node-gyp-tmp-'))","path.join(os.tmpdir(), 'node-gyp-tmp-' + Date.now())"),(I,"    try {\n      if (shouldDownloadTarball) {","    await fs.mkdir(tarExtractDir, { recursive: true })\n    try {\n      if (shouldDownloadTarball) {")]),
("jt16","C04",[(I,"      gyp.todo.push({ name: 'remove', args: [release.versionDir] })","      gyp.todo.push({ name: 'remove', args: [release.version] })")]),
("jt17","C04",[(I,"      gyp.todo.push({ name: 'remove', args: [release.versionDir] })","      gyp.todo.unshift({ name: 'remove', args: [release.versionDir] })")]),
("jt18","C04",[(I,"    if (argv.indexOf(noretry) !== -1) {\n      throw err\n    }","    if (argv.indexOf(noretry) !== -1 && gyp.opts.ensure) {\n      throw err\n    }")]),
("jt19","C04",[(I,"      if (err.code === 'EACCES') {\n        return eaccesFallback(err)\n      }\n\n      throw err","      if (err.code === 'EACCES') {\n        return eaccesFallback(err)\n      }\n\n      throw err"),(I,"    gyp.devDir = path.resolve(tmpdir, '.node-gyp')","    gyp.devDir = path.resolve(tmpdir, '.node-gyp', gyp.opts.ensure ? '' : '.')\n    gyp.opts.devdir = undefined"),(I,"    return gyp.commands.install(argv.concat(noretry))","    await gyp.commands.install(argv.slice(0, 1).concat(noretry))")]),
("jt20","C05",[(D,"    proxy: gyp.opts.proxy,","    proxy: gyp.opts.proxy || process.env.npm_config_https_proxy,")]),
("jt21","C05",[(D,"    noProxy: gyp.opts.noproxy","    noProxy: gyp.opts.noproxy || process.env.no_proxy")]),
("jt22","C05",[(D,"  if (!certs) {","  if (!certs && ca.trim()) {")]),
("jt23","C05",[(D,"    requestOpts.ca = await readCAFile(cafile)","    requestOpts.ca = (await readCAFile(cafile)).concat(require('tls').rootCertificates)")]),
("jt24","C05",[(PR,"    distBaseUrl = overrideDistUrl.replace(/\\/+$/, '')","    distBaseUrl = overrideDistUrl.replace(/[?#].*$/, '').replace(/\\/+$/, '').toLowerCase()")]),
("jt25","C05",[(PR,"    shasumsUrl: url.resolve(baseUrl, 'SHASUMS256.txt'),","    shasumsUrl: url.resolve(distBaseUrl, 'SHASUMS256.txt'),")]),
("jt26","C05",[(PR,"  let overrideDistUrl = gyp.opts['dist-url'] || gyp.opts.disturl","  let overrideDistUrl = gyp.opts.disturl || gyp.opts['dist-url']")]),
("jt27","C05",[(PR,"  if (!isDefaultVersion) {\n    defaultRelease = null","  if (!isDefaultVersion && argv[0]) {\n    defaultRelease = null")]),
("jt28","C05",[(PR,"  return defaultUrl.replace(versionMajor === 3 ? bitsreV3 : bitsre, '/win-' + arch + '/')","  return defaultUrl.replace(bitsre, '/win-' + arch + '/')")]),
("jt29","C05",[(I,"        ...(!tarPath || win ? [downloadShasums()] : [])","        downloadShasums()")]),
("jt30","C06",[(R,"  let version = argv[0] || gyp.opts.target","  let version = gyp.opts.target || argv[0]")]),
("jt31","C06",[(R,"    version = versionSemver.version","    version = `${versionSemver.major}.${versionSemver.minor}.${versionSemver.patch}`")]),
("jt32","C06",[(L,"      versions = dir.filter((v) => v !== 'current')","      versions = dir.filter((v) => v !== 'current' && /\\d/.test(v))")]),
("jt33","C06",[(R,"  if (versionPath !== path.join(path.resolve(gyp.devDir), path.basename(versionPath))) {","  if (!versionPath.startsWith(path.resolve(gyp.devDir))) {")]),
("jt34","C06",[(R,"    if (err.code !== 'ENOTDIR') {\n      throw err\n    }","    if (err.code !== 'ENOTDIR' && err.code !== 'EPERM') {\n      throw err\n    }")]),
("jt35","C07",[(RB,"  gyp.todo.unshift(","  gyp.todo.push(")]),
("jt36","C07",[(BIN,"    const args = await prog.commands[command.name](command.args) ?? []","    const args = await Promise.race([prog.commands[command.name](command.args), new Promise((resolve) => process.once('SIGINT', resolve))]) ?? []")]),
("jt37","C07",[(C,"        if (code !== 0) {","        if (code !== 0 && code !== 2) {")]),
("jt38","C07",[(N,"        commands.push({ name: arg, args: [] })","        if (commands.at(-1)?.name !== arg) commands.push({ name: arg, args: [] })")]),
("jt39","C07",[(LG,"      this.#buffer.forEach((b) => this.#log(...b))","      this.#buffer.slice(-20).forEach((b) => this.#log(...b))")]),
("jt40","C07",[(BIN,"  if (!completed && !code) {","  if (!completed && !code && prog.todo[0]?.name !== 'build') {")]),
("jt41","C07",[(CL,"  await fs.rm(buildDir, { recursive: true, force: true })","  await fs.rm(buildDir, { recursive: true, force: true }).catch((err) => log.warn('clean', err.message))")]),
("jt42","C07",[(B,"    const execPath = await which(command)","    const execPath = await which(command).catch(() => command)")]),
("jt43","C08",[(B,"    if ('debug' in gyp.opts) {","    if (gyp.opts.debug) {")]),
("jt44","C08",[(B,"        j = parseInt(jobs, 10)\n        if (!isNaN(j) && j > 0) {\n          argv.push('/m:' + j)","        j = parseInt(jobs, 10)\n        if (!isNaN(j) && j > 1) {\n          argv.push('/m:' + j)")]),
("jt45","C08",[(B,"  const makeCommand = gyp.opts.make || process.env.MAKE || platformMake","  const makeCommand = process.env.MAKE || gyp.opts.make || platformMake")]),
("jt46","C08",[(B,"      try {\n        await fs.unlink(symlinkDestination)","      try {\n        if ((await fs.stat(symlinkDestination).catch(() => null))) await fs.unlink(symlinkDestination)")]),
("jt47","C08",[(B,"        await fs.rm(buildBinsDir, { recursive: true, force: true })","        await fs.unlink(path.join(buildBinsDir, 'python3'))\n        await fs.rmdir(buildBinsDir)")]),
("jt48","C08",[(B,"    guessedSolution = files[0]","    guessedSolution = files.sort().pop()")]),
("jt49","C08",[(C,"      nodeDir = gyp.opts.nodedir.replace(/^~/, os.homedir())","      nodeDir = gyp.opts.nodedir.replace(/~/, os.homedir())")]),
("jt50","C08",[(C,"      if (availVersion === release.version) {","      if (availVersion?.split('.')[0] === release.version.split('.')[0]) {")]),
("jt51","C08",[(C,"    argv.push('-I', addonGypi)\n    argv.push('-I', commonGypi)","    argv.push('-I', commonGypi)\n    argv.push('-I', addonGypi)")]),
("jt52","C08",[(C,"      if (err.code !== 'ENOENT') {\n        throw err\n      }\n    }\n\n    return findConfigs()","    }\n\n    return findConfigs()")]),
("jt53","C08",[(C,"    let nodeLibFile = path.join(nodeDir,\n      !gyp.opts.nodedir ?","    let nodeLibFile = path.join(nodeDir,\n      !gyp.opts.nodedir || gyp.opts.ensure ?")]),
("jt54","C08",[(CG,"  variables.target_arch = gyp.opts.arch || process.arch || 'ia32'","  variables.target_arch = gyp.opts.target_arch || gyp.opts.arch || process.arch || 'ia32'")]),
("jt55","C08",[(CG,"    if (typeof v === 'boolean') {","    if (typeof v === 'boolean' && k !== 'napi_build_version' && !k.startsWith('v8_')) {")]),
("jt56","C08",[(C,"      gyp.opts.ensure = !gyp.opts.tarball","      gyp.opts.ensure = !gyp.opts.tarball && !gyp.opts.target")]),
("jt57","C09",[(P,"      return this.checkExecPath(execPath)\n    } catch (err) {\n      this.addLog(`- \"${this.pyLauncher}\"","      return this.succeed(execPath)\n    } catch (err) {\n      this.addLog(`- \"${this.pyLauncher}\"")]),
("jt58","C09",[(P,"  semverRange = '>=3.6.0'","  semverRange = '>=3.6.0 <3.13 || >3.13'")]),
("jt59","C09",[(P,"      if (this.env.NODE_GYP_FORCE_PYTHON) {","      if (this.env.NODE_GYP_FORCE_PYTHON && !this.configPython) {")]),
("jt60","C09",[(P,"            if (!this.env.PYTHON) {","            if (!this.env.PYTHON || this.configPython) {")]),
("jt61","C09",[(P,"for (const majorMinor of ['311', '310', '39', '38']) {","for (const majorMinor of ['38', '39', '310', '311']) {")]),
("jt62","C09",[(P,"  execFile = execFile\n","  execFile = (...a) => Promise.race([execFile(...a), new Promise((resolve) => setTimeout(() => resolve([null, '', '']), 20000).unref())])\n")]),
("jt63","C10",[(V,"    if (this.configMsvsVersion) {\n      this.addLog('msvs_version was set","    if (this.configMsvsVersion && !process.env.VCINSTALLDIR) {\n      this.addLog('msvs_version was set")]),
("jt64","C10",[(V,"    const filterArg = vcInstallDir !== undefined ? ","    const filterArg = vcInstallDir !== undefined && supportedYears.length > 1 ? ")]),
("jt65","C10",[(V,"    } catch (e) {\n      this.log.silly('PS stdout = %j', stdout)\n      this.log.silly(e)\n      return failPowershell()","    } catch (e) {\n      this.log.silly('PS stdout = %j', stdout)\n      vsInfo = JSON.parse(stdout.replace(/,[^,]*$/, ']'))")]),
("jt66","C10",[(CG,"    if (vsInfo.sdk) {\n      defaults.msvs_windows_target_platform_version = vsInfo.sdk","    if (vsInfo.sdk) {\n      defaults.msvs_windows_target_platform_version = process.env.WindowsSDKVersion?.replace(/\\\\$/, '') || vsInfo.sdk")]),
("jt67","C10",[(V,"    if (this.nodeSemver.major >= 22) {","    if (this.nodeSemver.major > 22) {",1)]),
]
