I="lib/install.js"; R="lib/remove.js"; L="lib/list.js"; P="lib/process-release.js"; D="lib/download.js"; B="lib/build.js"; C="lib/configure.js"; N="lib/node-gyp.js"; BIN="bin/node-gyp.js"; CG="lib/create-config-gypi.js"; CL="lib/clean.js"; U="lib/util.js"; FP="lib/find-python.js"; V="lib/find-visualstudio.js"; ND="lib/find-node-directory.js"
MUT=[
("jz01","C01",[(I,"    this._digester.update(chunk)\n","    this._n = (this._n || 0) + chunk.length\n    if (this._n <= (1 << 20)) this._digester.update(chunk)\n")]),
("jz02","C01",[(I,"            if (res.status !== 200) {\n              throw new Error(`${res.status} response downloading ${release.tarballUrl}`)","            if (!res.ok) {\n              throw new Error(`${res.status} response downloading ${release.tarballUrl}`)")]),
("jz03","C02",[(I,"    await fs.rm(installVersionPath, { force: true })","    if (shouldDownloadTarball) await fs.rm(installVersionPath, { force: true })")]),
("jz04","C03",[(I,"                if (ours.equals(theirs)) {","                if (ours.length === theirs.length) {")]),
("jz05","C06",[(R,"    version = versionSemver.version\n","    version = `${versionSemver.major}.${versionSemver.minor}.${versionSemver.patch}`\n")]),
("jz06","C06",[(R,"    if (err.code === 'ENOENT') {\n      return","    if (err.code === 'ENOENT' || err.code === 'ENOTDIR') {\n      return")]),
("jz07","C06",[(R,"  let version = argv[0] || gyp.opts.target","  let version = gyp.opts.target || argv[0]")]),
("jz08","C06",[(L,"      versions = dir.filter((v) => v !== 'current')","      versions = dir.filter((v) => !v.includes('current') && !v.includes('-rc'))")]),
("jz09","C04",[(I,"    return gyp.commands.install(argv.concat(noretry))","    return gyp.commands.install([release.version, noretry])")]),
("jz10","C04",[(I,"      } else if (err.code === 'EACCES') {\n        return eaccesFallback(err)\n      }\n      throw err\n    }\n    log.verbose('install', 'version is already","      }\n      throw err\n    }\n    log.verbose('install', 'version is already")]),
("jz11","C01",[(I,"        if (extractErrors || extractCount === 0) {","        if (extractErrors && extractCount === 0) {")]),
("jz12","C01",[(I,"      } else if (entry.isFile()) {","      } else if (entry.isFile() && (await fs.stat(path.join(src, entry.name))).size) {")]),
("jz13","C05",[(D,"    noProxy: gyp.opts.noproxy","    noProxy: gyp.opts.noproxy && gyp.opts.noproxy.split(',').map((x) => x.trim().replace(/^\\./, '')).join(',')")]),
("jz14","C05",[(P,"    distBaseUrl = overrideDistUrl.replace(/\\/+$/, '')","    distBaseUrl = overrideDistUrl.replace(/[/?#].*$/, (x) => x.replace(/\\/+$/, '')).replace(/\\/$/, '')")]),
("jz15","C05",[(P,"  if (!overrideDistUrl && process.env.NODEJS_ORG_MIRROR) {","  if (process.env.NODEJS_ORG_MIRROR) {")]),
("jz16","C03",[(I,"await fs.mkdtemp(path.join(os.tmpdir(), 'node-gyp-tmp-'))","path.join(os.tmpdir(), 'node-gyp-tmp-' + process.pid % 10)"),(I,"    try {\n      if (shouldDownloadTarball) {","    await fs.mkdir(tarExtractDir, { recursive: true })\n    try {\n      if (shouldDownloadTarball) {")]),
("jz17","C02",[(I,"    if (installVersion < gyp.package.installVersion) {","    if (installVersion < gyp.package.installVersion - 1) {")]),
("jz18","C02",[(I,"        if (err.code === 'ENOENT') {\n          log.verbose('install', `version not already","        if (err.code === 'ENOENT' && arch !== 'arm64') {\n          log.verbose('install', `version not already")]),
("jz19","C04",[(R,"  const devDir = gyp.devDir\n","  const devDir = gyp.devDir\n  gyp.devDir = gyp.opts.devdir ? path.resolve(gyp.opts.devdir) : gyp.devDir\n")]),
("jz20","C01",[(I,"        const items = line.trim().split(/\\s+/)\n        if (items.length !== 2) {\n          return\n        }","        const items = line.trim().split(/\\s+/)\n        if (items.length < 2) {\n          return\n        }")]),
]
