From eedc2b17d77f769b74c41f971d964b2f6ad51c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 01/40] fix: write installVersion last and remove it first, so
 that an interrupted install is never trusted

---
 lib/install.js | 11 ++++++++---
 lib/remove.js  |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index 7196a31..036c8ae 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -171,6 +171,11 @@ async function install (gyp, argv) {
       throw err
     }
 
+    // whatever an earlier install left is about to change: it must not be taken
+    // for a complete install if this one is interrupted
+    const installVersionPath = path.resolve(devDir, 'installVersion')
+    await fs.rm(installVersionPath, { force: true })
+
     // now download the node tarball
     const tarPath = gyp.opts.tarball
     let extractErrors = false
@@ -257,12 +262,9 @@ async function install (gyp, argv) {
         log.verbose('tarball', 'done parsing tarball')
       }
 
-      const installVersionPath = path.resolve(tarExtractDir, 'installVersion')
       await Promise.all([
       // need to download node.lib
         ...(win ? [downloadNodeLib()] : []),
-        // write the "installVersion" file
-        fs.writeFile(installVersionPath, gyp.package.installVersion + '\n'),
         // Only download SHASUMS.txt if we downloaded something in need of SHA verification
         ...(!tarPath || win ? [downloadShasums()] : [])
       ])
@@ -280,6 +282,9 @@ async function install (gyp, argv) {
       if (tarExtractDir !== devDir) {
         await copyDirectory(tarExtractDir, devDir)
       }
+
+      // everything is verified and in place: write the "installVersion" file
+      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\n')
     } finally {
       if (tarExtractDir !== devDir) {
         try {
diff --git a/lib/remove.js b/lib/remove.js
index 7efdb01..c122987 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -36,6 +36,9 @@ async function remove (gyp, argv) {
     throw err
   }
 
+  // the "installVersion" file goes first, so that what is left of an interrupted
+  // removal is not taken for a complete install
+  await fs.rm(path.join(versionPath, 'installVersion'), { force: true }).catch(() => {})
   await fs.rm(versionPath, { recursive: true, force: true })
 }
 
-- 
2.43.0


From 630185e59f4fc26ee47444abfcdb27aa71b2ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 02/40] fix: retry the removal of a failed install while its
 last files are still being extracted

---
 lib/remove.js | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/remove.js b/lib/remove.js
index c122987..c42350a 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -1,6 +1,7 @@
 'use strict'
 
 const fs = require('graceful-fs').promises
+const { setTimeout } = require('timers/promises')
 const path = require('path')
 const log = require('./log')
 const semver = require('semver')
@@ -39,7 +40,19 @@ async function remove (gyp, argv) {
   // the "installVersion" file goes first, so that what is left of an interrupted
   // removal is not taken for a complete install
   await fs.rm(path.join(versionPath, 'installVersion'), { force: true }).catch(() => {})
-  await fs.rm(versionPath, { recursive: true, force: true })
+  for (let attempt = 1; ; attempt++) {
+    try {
+      await fs.rm(versionPath, { recursive: true, force: true })
+      return
+    } catch (err) {
+      // when a failed install is rolled back, a file that was still being extracted
+      // can turn up in a directory that was just emptied
+      if (err.code !== 'ENOTEMPTY' || attempt === 10) {
+        throw err
+      }
+      await setTimeout(attempt * 50)
+    }
+  }
 }
 
 module.exports = remove
-- 
2.43.0


From efc03c9cbe9b6f41fe2391cca69cc060bc070e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 03/40] fix: with --ensure, a busy file is good enough only
 when it has the right content

---
 lib/install.js | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index 036c8ae..8c10c6f 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -137,11 +137,14 @@ async function install (gyp, argv) {
           try {
             await fs.copyFile(path.join(src, entry.name), path.join(dest, entry.name))
           } catch (err) {
-            // if ensure, check if file already exists and that's good enough
+            // if ensure, check if the same file already exists and that's good enough
             if (gyp.opts.ensure && err.code === 'EBUSY') {
               try {
-                await fs.stat(path.join(dest, entry.name))
-                return
+                const ours = await fs.readFile(path.join(src, entry.name))
+                const theirs = await fs.readFile(path.join(dest, entry.name))
+                if (ours.equals(theirs)) {
+                  return
+                }
               } catch {}
             }
             throw err
-- 
2.43.0


From ff58d80ff30aea5223319961f05a6029f395d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 04/40] fix: the EACCES fallback installs the requested version
 and removes what it installed

---
 lib/install.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index 8c10c6f..599f938 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -395,9 +395,9 @@ async function install (gyp, argv) {
     log.warn('EACCES', 'attempting to reinstall using temporary dev dir "%s"', gyp.devDir)
     if (process.cwd() === tmpdir) {
       log.verbose('tmpdir == cwd', 'automatically will remove dev files after to save disk space')
-      gyp.todo.push({ name: 'remove', args: argv })
+      gyp.todo.push({ name: 'remove', args: [release.versionDir] })
     }
-    return gyp.commands.install([noretry].concat(argv))
+    return gyp.commands.install(argv.concat(noretry))
   }
 }
 
-- 
2.43.0


From 6493eee1cbe8bf2025b245b93e03162e1327223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 05/40] fix: a removal that cannot drop installVersion fails
 instead of leaving a trusted remainder

---
 lib/remove.js | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/remove.js b/lib/remove.js
index c42350a..9ad542f 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -39,7 +39,13 @@ async function remove (gyp, argv) {
 
   // the "installVersion" file goes first, so that what is left of an interrupted
   // removal is not taken for a complete install
-  await fs.rm(path.join(versionPath, 'installVersion'), { force: true }).catch(() => {})
+  try {
+    await fs.rm(path.join(versionPath, 'installVersion'), { force: true })
+  } catch (err) {
+    if (err.code !== 'ENOTDIR') {
+      throw err
+    }
+  }
   for (let attempt = 1; ; attempt++) {
     try {
       await fs.rm(versionPath, { recursive: true, force: true })
-- 
2.43.0


From eba8f94f9f86196ef64417521a9621d2c092e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 06/40] fix: remove deletes nothing but an entry of the devdir

---
 lib/remove.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/remove.js b/lib/remove.js
index 9ad542f..e2daca9 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -25,6 +25,10 @@ async function remove (gyp, argv) {
   }
 
   const versionPath = path.resolve(gyp.devDir, version)
+  // never anything but one of the entries of the devDir
+  if (versionPath !== path.join(path.resolve(gyp.devDir), path.basename(versionPath))) {
+    throw new Error('Invalid version number: ' + version)
+  }
   log.verbose('remove', 'removing development files for version:', version)
 
   // first check if its even installed
-- 
2.43.0


From 9bd4c110c98823c06999a269f1276e727e70434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 07/40] fix: print the message of a command as it is

---
 bin/node-gyp.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/node-gyp.js b/bin/node-gyp.js
index f8317b4..fb8dcaa 100755
--- a/bin/node-gyp.js
+++ b/bin/node-gyp.js
@@ -86,6 +86,8 @@ async function run () {
       } else {
         log.stdout('No node development files installed. Use `node-gyp install` to install a version.')
       }
+    } else if (typeof args === 'string') {
+      log.stdout(args)
     } else if (args.length >= 1) {
       log.stdout(...args.slice(1))
     }
-- 
2.43.0


From ec2464228c9fd970990680347fe6d5de6dc698cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 08/40] fix: a cafile without certificates is an error instead
 of meaning the default trust

---
 lib/download.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/download.js b/lib/download.js
index ed0aa37..c2e420f 100644
--- a/lib/download.js
+++ b/lib/download.js
@@ -30,7 +30,12 @@ async function readCAFile (filename) {
   // boundaries.  [\S\s]*? is used to match everything including newlines.
   const ca = await fs.readFile(filename, 'utf8')
   const re = /(-----BEGIN CERTIFICATE-----[\S\s]*?-----END CERTIFICATE-----)/g
-  return ca.match(re)
+  const certs = ca.match(re)
+  // without any certificate the default trust would be used instead
+  if (!certs) {
+    throw new Error('No certificates found in the cafile: ' + filename)
+  }
+  return certs
 }
 
 module.exports = {
-- 
2.43.0


From b5a5387510d653eb0785ab0b56baed953d631b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 09/40] fix: --ensure looks for the library that was installed
 (iojs.lib for io.js)

---
 lib/install.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/install.js b/lib/install.js
index 599f938..8c33f9b 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -93,7 +93,7 @@ async function install (gyp, argv) {
     log.verbose('install', 'version is good')
     if (win) {
       log.verbose('on Windows; need to check node.lib')
-      const nodeLibPath = path.resolve(devDir, arch, 'node.lib')
+      const nodeLibPath = path.resolve(devDir, arch, release.name + '.lib')
       try {
         await fs.stat(nodeLibPath)
       } catch (err) {
-- 
2.43.0


From fc8f4b2eb51f6538d0d5e1efb983f4a603262ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 10/40] fix: rebuild runs clean, configure and build before the
 commands after it

---
 lib/rebuild.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rebuild.js b/lib/rebuild.js
index 6098176..e5de786 100644
--- a/lib/rebuild.js
+++ b/lib/rebuild.js
@@ -1,7 +1,7 @@
 'use strict'
 
 async function rebuild (gyp, argv) {
-  gyp.todo.push(
+  gyp.todo.unshift(
     { name: 'clean', args: [] }
     , { name: 'configure', args: argv }
     , { name: 'build', args: [] }
-- 
2.43.0


From 51479b473dba663922b4a21a652cadd42965f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 11/40] fix: the Python link is removed when make cannot be
 started, too

---
 lib/build.js | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/build.js b/lib/build.js
index ae38d22..946a102 100644
--- a/lib/build.js
+++ b/lib/build.js
@@ -206,21 +206,26 @@ async function build (gyp, argv) {
       log.verbose('bin symlinks', `created symlink to "${python}" in "${buildBinsDir}" and added to PATH`)
     }
 
-    const proc = gyp.spawn(command, argv)
-    await new Promise((resolve, reject) => proc.on('exit', async (code, signal) => {
+    try {
+      await new Promise((resolve, reject) => {
+        const proc = gyp.spawn(command, argv)
+        proc.on('error', reject)
+        proc.on('exit', (code, signal) => {
+          if (code !== 0) {
+            return reject(new Error('`' + command + '` failed with exit code: ' + code))
+          }
+          if (signal) {
+            return reject(new Error('`' + command + '` got signal: ' + signal))
+          }
+          resolve()
+        })
+      })
+    } finally {
       if (buildBinsDir) {
-        // Clean up the build-time dependency symlinks:
-        await fs.rm(buildBinsDir, { recursive: true })
-      }
-
-      if (code !== 0) {
-        return reject(new Error('`' + command + '` failed with exit code: ' + code))
-      }
-      if (signal) {
-        return reject(new Error('`' + command + '` got signal: ' + signal))
+        // Clean up the build-time dependency symlinks, however the build ended:
+        await fs.rm(buildBinsDir, { recursive: true, force: true })
       }
-      resolve()
-    }))
+    }
   }
 }
 
-- 
2.43.0


From fa22a7450acd80bbd5c532e77f89da58d824195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 12/40] fix: a Python that exits with an error is not a Python
 to use

---
 lib/find-python.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/find-python.js b/lib/find-python.js
index a71c00c..2125e27 100644
--- a/lib/find-python.js
+++ b/lib/find-python.js
@@ -266,6 +266,9 @@ class PythonFinder {
       this.log.silly('execFile result: err = %j', (err && err.stack) || err)
       this.log.silly('execFile result: stdout = %j', stdout)
       this.log.silly('execFile result: stderr = %j', stderr)
+      if (err) {
+        throw err
+      }
       return stdout.trim()
     } catch (err) {
       this.log.silly('execFile: threw:\n%s', err.stack)
-- 
2.43.0


From 31703822975df3cca44214bf8bfa7ac61e5d4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 13/40] fix: a Visual Studio probe that fails in an unexpected
 way does not end the search

---
 lib/find-visualstudio.js | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/find-visualstudio.js b/lib/find-visualstudio.js
index e9aa7fa..90aaf5d 100644
--- a/lib/find-visualstudio.js
+++ b/lib/find-visualstudio.js
@@ -65,7 +65,14 @@ class VisualStudioFinder {
     ]
 
     for (const check of checks) {
-      const info = await check()
+      let info = null
+      try {
+        info = await check()
+      } catch (err) {
+        // a probe that cannot be run or answers nonsense finds nothing
+        this.log.silly('check failed: %s', (err && err.stack) || err)
+        this.addLog(`could not use the result of a check: ${err && err.message}`)
+      }
       if (info) {
         return this.succeed(info)
       }
-- 
2.43.0


From c38a1241d40aa8f28cab27d901356b39bd9291ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 14/40] fix: ARM64 assembly is enabled from Visual Studio 2017
 version 15.9 on

---
 lib/create-config-gypi.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 01a820e..bdaf3ec 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -88,7 +88,7 @@ async function getCurrentConfigGypi ({ gyp, nodeDir, vsInfo, python }) {
     }
     if (variables.target_arch === 'arm64') {
       if (vsInfo.versionMajor > 15 ||
-          (vsInfo.versionMajor === 15 && vsInfo.versionMajor >= 9)) {
+          (vsInfo.versionMajor === 15 && vsInfo.versionMinor >= 9)) {
         defaults.msvs_enable_marmasm = 1
       } else {
         log.warn('Compiling ARM64 assembly is only available in\n' +
-- 
2.43.0


From 63be65858f3879a3b0642de2bea5154f73a5540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 15/40] fix: DEPTH in late expansions is that of the target's
 file, with parallel loading as well

Files loaded by worker processes left DEPTH undefined in the main process, so >(DEPTH)
failed; files loaded serially left it at the value of whichever file was loaded last.
---
 gyp/pylib/gyp/input.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 5e71fda..284dc4d 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -356,6 +356,20 @@ def ProcessToolsetsInDict(data):
                         ProcessToolsetsInDict(condition_dict)
 
 
+def SetDepthVariable(variables, build_file_path, depth):
+    # If depth is set, predefine the DEPTH variable to be a relative path from
+    # this build file's directory to the directory identified by depth.
+    if depth:
+        # TODO(dglazkov) The backslash/forward-slash replacement at the end is a
+        # temporary measure. This should really be addressed by keeping all paths
+        # in POSIX until actual project generation.
+        d = gyp.common.RelativePath(depth, os.path.dirname(build_file_path))
+        if d == "":
+            variables["DEPTH"] = "."
+        else:
+            variables["DEPTH"] = d.replace("\\", "/")
+
+
 # TODO(mark): I don't love this name.  It just means that it's going to load
 # a build file that contains targets and is expected to provide a targets dict
 # that contains the targets...
@@ -369,17 +383,7 @@ def LoadTargetBuildFile(
     check,
     load_dependencies,
 ):
-    # If depth is set, predefine the DEPTH variable to be a relative path from
-    # this build file's directory to the directory identified by depth.
-    if depth:
-        # TODO(dglazkov) The backslash/forward-slash replacement at the end is a
-        # temporary measure. This should really be addressed by keeping all paths
-        # in POSIX until actual project generation.
-        d = gyp.common.RelativePath(depth, os.path.dirname(build_file_path))
-        if d == "":
-            variables["DEPTH"] = "."
-        else:
-            variables["DEPTH"] = d.replace("\\", "/")
+    SetDepthVariable(variables, build_file_path, depth)
 
     # The 'target_build_files' key is only set when loading target build files in
     # the non-parallel code path, where LoadTargetBuildFile is called
@@ -3070,6 +3074,9 @@ def Load(
     for target in flat_list:
         target_dict = targets[target]
         build_file = gyp.common.BuildFile(target)
+        # DEPTH is relative to the file that the target comes from, and has been set
+        # only in the worker processes if the files were loaded in parallel.
+        SetDepthVariable(variables, build_file, depth)
         ProcessVariablesAndConditionsInDict(
             target_dict, PHASE_LATE, variables, build_file
         )
@@ -3088,6 +3095,7 @@ def Load(
     for target in flat_list:
         target_dict = targets[target]
         build_file = gyp.common.BuildFile(target)
+        SetDepthVariable(variables, build_file, depth)
         ProcessVariablesAndConditionsInDict(
             target_dict, PHASE_LATELATE, variables, build_file
         )
-- 
2.43.0


From 98d16c6be01a447dd331048be0fe6b8f7f1a6fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:00 +0000
Subject: [PATCH 16/40] fix: write XML files in every locale, and leave
 unchanged ones alone

In a UTF-8 locale the text was not encoded before it was written to a binary file, and
in others the old content, read as text, never equalled the new content.
---
 gyp/pylib/gyp/easy_xml.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index 02567b2..b27aee7 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -5,7 +5,6 @@
 import sys
 import re
 import os
-import locale
 from functools import reduce
 
 
@@ -121,17 +120,12 @@ def WriteXmlIfChanged(content, path, encoding="utf-8", pretty=False,
     if win32 and os.linesep != "\r\n":
         xml_string = xml_string.replace("\n", "\r\n")
 
-    try:  # getdefaultlocale() was removed in Python 3.11
-        default_encoding = locale.getdefaultlocale()[1]
-    except AttributeError:
-        default_encoding = locale.getencoding()
-
-    if default_encoding and default_encoding.upper() != encoding.upper():
-        xml_string = xml_string.encode(encoding)
+    # The file is written and compared as bytes, whatever the default encoding is.
+    xml_string = xml_string.encode(encoding)
 
     # Get the old content
     try:
-        with open(path) as file:
+        with open(path, "rb") as file:
             existing = file.read()
     except OSError:
         existing = None
-- 
2.43.0


From ecf86a86e491d47e80c9124aaeb34dde48ae0c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 17/40] fix: gyp output does not depend on the string hash seed
 or directory order

---
 gyp/pylib/gyp/__init__.py          |  8 ++++----
 gyp/pylib/gyp/common.py            |  2 +-
 gyp/pylib/gyp/generator/android.py |  4 ++--
 gyp/pylib/gyp/generator/cmake.py   |  4 ++--
 gyp/pylib/gyp/generator/make.py    | 14 ++++++++------
 gyp/pylib/gyp/generator/msvs.py    |  2 +-
 gyp/pylib/gyp/input.py             |  4 ++--
 7 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/gyp/pylib/gyp/__init__.py b/gyp/pylib/gyp/__init__.py
index 8933d0c..e8c2f97 100755
--- a/gyp/pylib/gyp/__init__.py
+++ b/gyp/pylib/gyp/__init__.py
@@ -56,7 +56,7 @@ def DebugOutput(mode, message, *args):
 
 def FindBuildFiles():
     extension = ".gyp"
-    files = os.listdir(os.getcwd())
+    files = sorted(os.listdir(os.getcwd()))
     build_files = []
     for file in files:
         if file.endswith(extension):
@@ -640,9 +640,9 @@ def gyp_main(args):
     if DEBUG_GENERAL in gyp.debug:
         DebugOutput(DEBUG_GENERAL, "generator_flags: %s", generator_flags)
 
-    # Generate all requested formats (use a set in case we got one format request
-    # twice)
-    for format in set(options.formats):
+    # Generate all requested formats, in order (but only once in case we got one
+    # format request twice)
+    for format in dict.fromkeys(options.formats):
         params = {
             "options": options,
             "build_files": build_files,
diff --git a/gyp/pylib/gyp/common.py b/gyp/pylib/gyp/common.py
index 762ae02..06d1af5 100644
--- a/gyp/pylib/gyp/common.py
+++ b/gyp/pylib/gyp/common.py
@@ -676,7 +676,7 @@ def TopologicallySorted(graph, get_edges):
             return
         visited.add(node)
         visiting.add(node)
-        for neighbor in get_edges(node):
+        for neighbor in sorted(get_edges(node)):
             Visit(neighbor)
         visiting.remove(node)
         ordered_nodes.insert(0, node)
diff --git a/gyp/pylib/gyp/generator/android.py b/gyp/pylib/gyp/generator/android.py
index 64da385..b55dad4 100644
--- a/gyp/pylib/gyp/generator/android.py
+++ b/gyp/pylib/gyp/generator/android.py
@@ -289,7 +289,7 @@ class AndroidMkWriter:
             else:
                 quiet_cmd = "Gyp action: %s ($@)" % name
             if len(dirs) > 0:
-                command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
             cd_action = "cd $(gyp_local_path)/%s; " % self.path
             command = cd_action + command
@@ -415,7 +415,7 @@ class AndroidMkWriter:
                 cd_action = "cd $(gyp_local_path)/%s; " % self.path
                 command = cd_action + command
                 if dirs:
-                    command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                    command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
                 # We set up a rule to build the first output, and then set up
                 # a rule for each additional output to depend on the first.
diff --git a/gyp/pylib/gyp/generator/cmake.py b/gyp/pylib/gyp/generator/cmake.py
index 8720a3d..d9adfb2 100644
--- a/gyp/pylib/gyp/generator/cmake.py
+++ b/gyp/pylib/gyp/generator/cmake.py
@@ -287,7 +287,7 @@ def WriteActions(target_name, actions, extra_sources, extra_deps, path_to_gyp, o
         output.write("\n")
 
         if len(dirs) > 0:
-            for directory in dirs:
+            for directory in sorted(dirs):
                 output.write("  COMMAND ${CMAKE_COMMAND} -E make_directory ")
                 output.write(directory)
                 output.write("\n")
@@ -394,7 +394,7 @@ def WriteRules(target_name, rules, extra_sources, extra_deps, path_to_gyp, outpu
                 output.write(out)
                 output.write("\n")
 
-            for directory in dirs:
+            for directory in sorted(dirs):
                 output.write("  COMMAND ${CMAKE_COMMAND} -E make_directory ")
                 output.write(directory)
                 output.write("\n")
diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 634da89..f756b8f 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -938,7 +938,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             sources = [x for x in all_sources if Compilable(x)]
             if sources:
                 self.WriteLn(SHARED_HEADER_SUFFIX_RULES_COMMENT1)
-                extensions = {os.path.splitext(s)[1] for s in sources}
+                extensions = sorted({os.path.splitext(s)[1] for s in sources})
                 for ext in extensions:
                     if ext in self.suffix_rules_srcdir:
                         self.WriteLn(self.suffix_rules_srcdir[ext])
@@ -1060,7 +1060,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             else:
                 self.WriteLn(f"quiet_cmd_{name} = ACTION {name} $@")
             if len(dirs) > 0:
-                command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
             cd_action = "cd %s; " % Sourceify(self.path or ".")
 
@@ -1225,7 +1225,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 ]
                 mkdirs = ""
                 if len(dirs) > 0:
-                    mkdirs = "mkdir -p %s; " % " ".join(dirs)
+                    mkdirs = "mkdir -p %s; " % " ".join(sorted(dirs))
                 cd_action = "cd %s; " % Sourceify(self.path or ".")
 
                 # action, cd_action, and mkdirs get written to a toplevel variable
@@ -2433,7 +2433,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
     # away when we add verification that all targets have the
     # necessary configurations.
     default_configuration = None
-    toolsets = {target_dicts[target]["toolset"] for target in target_list}
+    toolsets = sorted({target_dicts[target]["toolset"] for target in target_list})
     for target in target_list:
         spec = target_dicts[target]
         if spec["default_configuration"] != "Default":
@@ -2697,7 +2697,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
 
     # Write out per-gyp (sub-project) Makefiles.
     depth_rel_path = gyp.common.RelativePath(options.depth, os.getcwd())
-    for build_file in build_files:
+    for build_file in sorted(build_files):
         # The paths in build_files were relativized above, so undo that before
         # testing against the non-relativized items in target_list and before
         # calculating the Makefile path.
@@ -2738,7 +2738,9 @@ def GenerateOutput(target_list, target_dicts, data, params):
     if not generator_flags.get("standalone") and generator_flags.get(
         "auto_regeneration", True
     ):
-        WriteAutoRegenerationRule(params, root_makefile, makefile_name, build_files)
+        WriteAutoRegenerationRule(
+            params, root_makefile, makefile_name, sorted(build_files)
+        )
 
     root_makefile.write(SHARED_FOOTER)
 
diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index bea6e64..329b7d1 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -2116,7 +2116,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
             configs.add(config_name)
             if config_name == "Release|arm64":
                 configs.add("Release|x64")
-    configs = list(configs)
+    configs = sorted(configs)
 
     # Figure out all the projects that will be generated and their guids
     project_objects = _CreateProjectObjects(
diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 284dc4d..2332c12 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1457,7 +1457,7 @@ def BuildTargetsDict(data):
   """
 
     targets = {}
-    for build_file in data["target_build_files"]:
+    for build_file in sorted(data["target_build_files"]):
         for target in data[build_file].get("targets", []):
             target_name = gyp.common.QualifiedTarget(
                 build_file, target["target_name"], target["toolset"]
@@ -2977,7 +2977,7 @@ def Load(
     data = {"target_build_files": set()}
     # Normalize paths everywhere.  This is important because paths will be
     # used as keys to the data dict and for references between input files.
-    build_files = set(map(os.path.normpath, build_files))
+    build_files = list(dict.fromkeys(map(os.path.normpath, build_files)))
     if parallel:
         LoadTargetBuildFilesParallel(
             build_files, data, variables, includes, depth, check, generator_input_info
-- 
2.43.0


From 25c8c27013a6bf4796457c55baf99b18900ee2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 18/40] fix: a pymod_do_main module that exits is an error, not
 the end of gyp or of a worker

---
 gyp/pylib/gyp/input.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 2332c12..9d0bf1a 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -947,9 +947,17 @@ def ExpandVariables(input, phase, variables, build_file):
                                 "Error importing pymod_do_main"
                                 "module (%s): %s" % (parsed_contents[0], e)
                             )
-                        replacement = str(
-                            py_module.DoMain(parsed_contents[1:])
-                        ).rstrip()
+                        try:
+                            replacement = str(
+                                py_module.DoMain(parsed_contents[1:])
+                            ).rstrip()
+                        except SystemExit as e:
+                            # It must end neither gyp, least of all successfully,
+                            # nor a worker process, whose result is waited for.
+                            raise GypError(
+                                "pymod_do_main module %s exited (%s) while in %s"
+                                % (parsed_contents[0], e, build_file)
+                            )
                     finally:
                         sys.path.pop()
                         os.chdir(oldwd)
-- 
2.43.0


From 42eb79238f5fc5393315491cb5aad8e1662bbcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 19/40] fix: a command killed by a signal fails gyp like one
 that exits with an error

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 9d0bf1a..45fd035 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -985,7 +985,7 @@ def ExpandVariables(input, phase, variables, build_file):
                             % (e, contents, build_file)
                         )
 
-                    if result.returncode > 0:
+                    if result.returncode != 0:
                         raise GypError(
                             "Call to '%s' returned exit status %d while in %s."
                             % (contents, result.returncode, build_file)
-- 
2.43.0


From d56a9f8289c6a24e0a4f6312248d01b2e7a9060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 20/40] fix: pymod_do_main uses the module of the gyp file's
 directory, not one of the same name loaded earlier

---
 gyp/pylib/gyp/input.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 45fd035..8260103 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -744,6 +744,8 @@ latelate_variable_re = re.compile(
 # Global cache of results from running commands so they don't have to be run
 # more then once.
 cached_command_results = {}
+# Modules loaded by pymod_do_main, by name and directory.
+pymod_modules = {}
 
 
 def FixupPlatformCommand(cmd):
@@ -940,8 +942,18 @@ def ExpandVariables(input, phase, variables, build_file):
                     try:
 
                         parsed_contents = shlex.split(contents)
+                        module_key = (parsed_contents[0], os.getcwd())
+                        if module_key not in pymod_modules and any(
+                            key[0] == parsed_contents[0] for key in pymod_modules
+                        ):
+                            # Loaded for another directory, and maybe from there.
+                            sys.modules.pop(parsed_contents[0], None)
                         try:
-                            py_module = __import__(parsed_contents[0])
+                            if module_key not in pymod_modules:
+                                pymod_modules[module_key] = __import__(
+                                    parsed_contents[0]
+                                )
+                            py_module = pymod_modules[module_key]
                         except ImportError as e:
                             raise GypError(
                                 "Error importing pymod_do_main"
-- 
2.43.0


From 1c48c3c4f2ae8485dcb98c22d73375276d14f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 21/40] fix: a file written on difference removes its temporary
 when a write fails

---
 gyp/pylib/gyp/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/common.py b/gyp/pylib/gyp/common.py
index 06d1af5..60b3c8e 100644
--- a/gyp/pylib/gyp/common.py
+++ b/gyp/pylib/gyp/common.py
@@ -411,7 +411,12 @@ def WriteOnDiff(filename):
                 raise
 
         def write(self, s):
-            self.tmp_file.write(s.encode("utf-8"))
+            try:
+                self.tmp_file.write(s.encode("utf-8"))
+            except Exception:
+                # Don't leave turds behind.
+                os.unlink(self.tmp_path)
+                raise
 
     return Writer()
 
-- 
2.43.0


From 4a697a5e5a3f594158d3433009df595c3b094116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 22/40] fix: ninja files hold the flags and headers, not the
 address of an iterator over them

---
 gyp/pylib/gyp/generator/ninja.py | 6 +++---
 gyp/pylib/gyp/msvs_emulation.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index ae3dded..dbe2b06 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -868,12 +868,12 @@ class NinjaWriter:
         copy_headers = spec["mac_framework_headers"]
         output = self.GypPathToUniqueOutput("headers.hmap")
         self.xcode_settings.header_map_path = output
-        all_headers = map(
-            self.GypPathToNinja, filter(lambda x: x.endswith(".h"), all_sources)
+        all_headers = list(
+            map(self.GypPathToNinja, filter(lambda x: x.endswith(".h"), all_sources))
         )
         variables = [
             ("framework", framework),
-            ("copy_headers", map(self.GypPathToNinja, copy_headers)),
+            ("copy_headers", list(map(self.GypPathToNinja, copy_headers))),
         ]
         outputs.extend(
             self.ninja.build(
diff --git a/gyp/pylib/gyp/msvs_emulation.py b/gyp/pylib/gyp/msvs_emulation.py
index adda5a0..5e53fd8 100644
--- a/gyp/pylib/gyp/msvs_emulation.py
+++ b/gyp/pylib/gyp/msvs_emulation.py
@@ -1061,7 +1061,7 @@ class PrecompiledHeader:
             pch_output = ["/Yc" + self._PchHeader()]
             if command == "cxx":
                 return (
-                    [("cflags_cc", map(expand_special, cflags_cc + pch_output))],
+                    [("cflags_cc", list(map(expand_special, cflags_cc + pch_output)))],
                     self.output_obj,
                     [],
                 )
-- 
2.43.0


From 8846778c204261bbf60d623fab2f6f68775c3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 23/40] fix: rules can be generated with ninja on Windows

---
 gyp/pylib/gyp/generator/ninja.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index dbe2b06..d0b61a1 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -813,7 +813,7 @@ class NinjaWriter:
                 if self.flavor == "win":
                     # WriteNewNinjaRule uses unique_name to create a rsp file on win.
                     extra_bindings.append(
-                        ("unique_name", hashlib.md5(outputs[0]).hexdigest())
+                        ("unique_name", hashlib.md5(outputs[0].encode("utf-8")).hexdigest())
                     )
 
                 self.ninja.build(
-- 
2.43.0


From 23318ea0829bdcfb46676070aa4028175aad1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 24/40] fix: compile_commands.json is closed, so that a full
 disk is noticed

---
 gyp/pylib/gyp/generator/compile_commands_json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/compile_commands_json.py b/gyp/pylib/gyp/generator/compile_commands_json.py
index 5d7f14d..92f41b0 100644
--- a/gyp/pylib/gyp/generator/compile_commands_json.py
+++ b/gyp/pylib/gyp/generator/compile_commands_json.py
@@ -119,8 +119,8 @@ def GenerateOutput(target_list, target_dicts, data, params):
     for configuration_name, commands in per_config_commands.items():
         filename = os.path.join(output_dir, configuration_name, "compile_commands.json")
         gyp.common.EnsureDirExists(filename)
-        fp = open(filename, "w")
-        json.dump(commands, fp=fp, indent=0, check_circular=False)
+        with open(filename, "w") as fp:
+            json.dump(commands, fp=fp, indent=0, check_circular=False)
 
 
 def PerformBuild(data, configurations, params):
-- 
2.43.0


From ff859b9a7f11fca58a385381f02be22057e5ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 25/40] fix: gyp-flock-tool exits with the status of the
 command

---
 gyp/pylib/gyp/flock_tool.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/flock_tool.py b/gyp/pylib/gyp/flock_tool.py
index 0754aff..46ec8a9 100755
--- a/gyp/pylib/gyp/flock_tool.py
+++ b/gyp/pylib/gyp/flock_tool.py
@@ -15,7 +15,9 @@ import sys
 
 def main(args):
     executor = FlockTool()
-    executor.Dispatch(args)
+    exit_code = executor.Dispatch(args)
+    if exit_code is not None:
+        sys.exit(exit_code)
 
 
 class FlockTool:
@@ -27,7 +29,7 @@ class FlockTool:
             raise Exception("Not enough arguments")
 
         method = "Exec%s" % self._CommandifyName(args[0])
-        getattr(self, method)(*args[1:])
+        return getattr(self, method)(*args[1:])
 
     def _CommandifyName(self, name_string):
         """Transforms a tool name like copy-info-plist to CopyInfoPlist"""
-- 
2.43.0


From 7dc0395a8c2e02f8c172f989ddc31eb73c5a12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 26/40] fix: gyp-flock-tool waits for the lock instead of
 failing when it is taken

---
 gyp/pylib/gyp/flock_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/flock_tool.py b/gyp/pylib/gyp/flock_tool.py
index 46ec8a9..33a3d11 100755
--- a/gyp/pylib/gyp/flock_tool.py
+++ b/gyp/pylib/gyp/flock_tool.py
@@ -40,7 +40,7 @@ class FlockTool:
         # Rely on exception handling to report errors.
         # Note that the stock python on SunOS has a bug
         # where fcntl.flock(fd, LOCK_EX) always fails
-        # with EBADF, that's why we use this F_SETLK
+        # with EBADF, that's why we use this F_SETLKW
         # hack instead.
         fd = os.open(lockfile, os.O_WRONLY | os.O_NOCTTY | os.O_CREAT, 0o666)
         if sys.platform.startswith("aix") or sys.platform == "os400":
@@ -49,7 +49,7 @@ class FlockTool:
             op = struct.pack("hhIllqq", fcntl.F_WRLCK, 0, 0, 0, 0, 0, 0)
         else:
             op = struct.pack("hhllhhl", fcntl.F_WRLCK, 0, 0, 0, 0, 0, 0)
-        fcntl.fcntl(fd, fcntl.F_SETLK, op)
+        fcntl.fcntl(fd, fcntl.F_SETLKW, op)
         return subprocess.call(cmd_list)
 
 
-- 
2.43.0


From e397ddea70ec35a7c01b17c06534f9226f418804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 27/40] fix: output filters pass on tool output that is not
 UTF-8 instead of failing

---
 gyp/pylib/gyp/mac_tool.py |  2 +-
 gyp/pylib/gyp/win_tool.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gyp/pylib/gyp/mac_tool.py b/gyp/pylib/gyp/mac_tool.py
index 59647c9..6cd85e2 100755
--- a/gyp/pylib/gyp/mac_tool.py
+++ b/gyp/pylib/gyp/mac_tool.py
@@ -275,7 +275,7 @@ class MacTool:
         # epoch=0, e.g. 1970-1-1 or 1969-12-31 depending on timezone.
         env["ZERO_AR_DATE"] = "1"
         libtoolout = subprocess.Popen(cmd_list, stderr=subprocess.PIPE, env=env)
-        err = libtoolout.communicate()[1].decode("utf-8")
+        err = libtoolout.communicate()[1].decode("utf-8", "backslashreplace")
         for line in err.splitlines():
             if not libtool_re.match(line) and not libtool_re5.match(line):
                 print(line, file=sys.stderr)
diff --git a/gyp/pylib/gyp/win_tool.py b/gyp/pylib/gyp/win_tool.py
index 171d729..e7a13b4 100755
--- a/gyp/pylib/gyp/win_tool.py
+++ b/gyp/pylib/gyp/win_tool.py
@@ -139,7 +139,7 @@ class WinTool:
             stdout=subprocess.PIPE,
             stderr=subprocess.STDOUT,
         )
-        out = link.communicate()[0].decode("utf-8")
+        out = link.communicate()[0].decode("utf-8", "backslashreplace")
         for line in out.splitlines():
             if (
                 not line.startswith("   Creating library ")
@@ -252,7 +252,7 @@ class WinTool:
         popen = subprocess.Popen(
             args, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT
         )
-        out = popen.communicate()[0].decode("utf-8")
+        out = popen.communicate()[0].decode("utf-8", "backslashreplace")
         for line in out.splitlines():
             if line and "manifest authoring warning 81010002" not in line:
                 print(line)
@@ -296,7 +296,7 @@ class WinTool:
         popen = subprocess.Popen(
             args, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT
         )
-        out = popen.communicate()[0].decode("utf-8")
+        out = popen.communicate()[0].decode("utf-8", "backslashreplace")
         # Filter junk out of stdout, and write filtered versions. Output we want
         # to filter is pairs of lines that look like this:
         # Processing C:\Program Files (x86)\Microsoft SDKs\...\include\objidl.idl
@@ -315,7 +315,7 @@ class WinTool:
         popen = subprocess.Popen(
             args, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT
         )
-        out = popen.communicate()[0].decode("utf-8")
+        out = popen.communicate()[0].decode("utf-8", "backslashreplace")
         for line in out.splitlines():
             if (
                 not line.startswith("Copyright (C) Microsoft Corporation")
@@ -333,7 +333,7 @@ class WinTool:
         popen = subprocess.Popen(
             args, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT
         )
-        out = popen.communicate()[0].decode("utf-8")
+        out = popen.communicate()[0].decode("utf-8", "backslashreplace")
         for line in out.splitlines():
             if (
                 not line.startswith("Microsoft (R) Windows (R) Resource Compiler")
-- 
2.43.0


From 90e09ab5e2600bce7e296468706909d63b85723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 28/40] fix: make runs an action with several outputs when it
 has to, not on every build

---
 gyp/pylib/gyp/generator/make.py | 41 +++++++++++++--------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index f756b8f..2e98eab 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -31,7 +31,6 @@ import gyp.common
 import gyp.xcode_emulation
 from gyp.common import GetEnvironFallback
 
-import hashlib
 
 generator_default_variables = {
     "EXECUTABLE_PREFIX": "",
@@ -585,6 +584,10 @@ endef
 .PHONY: FORCE_DO_CMD
 FORCE_DO_CMD:
 
+# A prerequisite that has changed: for the rules whose outputs are not all there.
+.PHONY: FORCE_OUTPUTS
+FORCE_OUTPUTS:
+
 """  # noqa: E501
 )
 
@@ -1204,9 +1207,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 # accidentally writing duplicate dummy rules for those outputs.
                 self.WriteLn("%s: obj := $(abs_obj)" % outputs[0])
                 self.WriteLn("%s: builddir := $(abs_builddir)" % outputs[0])
-                self.WriteMakeRule(
-                    outputs, inputs, actions, command="%s_%d" % (name, count)
-                )
+                self.WriteMakeRule(outputs, inputs, actions)
                 # Spaces in rule filenames are not supported, but rule variables have
                 # spaces in them (e.g. RULE_INPUT_PATH expands to '$(abspath $<)').
                 # The spaces within the variables are valid, so remove the variables
@@ -2097,7 +2098,6 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             inputs,
             actions=[f"$(call do_cmd,{command}{suffix})"],
             comment=comment,
-            command=command,
             force=True,
         )
         # Add our outputs to the list of targets we read depfiles from.
@@ -2116,7 +2116,6 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         order_only=False,
         force=False,
         phony=False,
-        command=None,
     ):
         """Write a Makefile rule, with some extra tricks.
 
@@ -2130,7 +2129,6 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         force: if true, include FORCE_DO_CMD as an order-only dep
         phony: if true, the rule does not actually generate the named output, the
                output is just a name to run the rule
-        command: (optional) command name to generate unambiguous labels
         """
         outputs = [QuoteSpaces(o) for o in outputs]
         inputs = [QuoteSpaces(i) for i in inputs]
@@ -2154,26 +2152,19 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             self.WriteLn("{}: {}{}".format(outputs[0], " ".join(inputs), force_append))
         else:
             # Regular rule, more than one output: Multiple outputs are tricky in
-            # make. We will write three rules:
-            # - All outputs depend on an intermediate file.
-            # - Make .INTERMEDIATE depend on the intermediate.
-            # - The intermediate file depends on the inputs and executes the
-            #   actual command.
-            # - The intermediate recipe will 'touch' the intermediate file.
-            # - The multi-output rule will have an do-nothing recipe.
-
-            # Hash the target name to avoid generating overlong filenames.
-            cmddigest = hashlib.sha1(
-                (command or self.target).encode("utf-8")
-            ).hexdigest()
-            intermediate = "%s.intermediate" % cmddigest
-            self.WriteLn("{}: {}".format(" ".join(outputs), intermediate))
-            self.WriteLn("\t%s" % "@:")
-            self.WriteLn("{}: {}".format(".INTERMEDIATE", intermediate))
+            # make. We will write two rules:
+            # - The first output depends on the inputs and executes the actual
+            #   command.
+            # - The other outputs depend on the first one and have an empty recipe.
+            # The command runs for the first output, which is the one that has a
+            # depfile. If any of the others is missing, it has to run again.
+            self.WriteLn("{}: {} ;".format(" ".join(outputs[1:]), outputs[0]))
+            others = " ".join(outputs[1:])
             self.WriteLn(
-                "{}: {}{}".format(intermediate, " ".join(inputs), force_append)
+                "{}: {} $(if $(filter-out $(wildcard {}),{}),FORCE_OUTPUTS){}".format(
+                    outputs[0], " ".join(inputs), others, others, force_append
+                )
             )
-            actions.insert(0, "$(call do_cmd,touch)")
 
         if actions:
             for action in actions:
-- 
2.43.0


From 40581a970914b77565396aaba91c169869bde2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 29/40] fix: make runs a rule again when its command changes

---
 gyp/pylib/gyp/generator/make.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 2e98eab..21fc4bf 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1186,6 +1186,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     for i in [rule_source] + rule.get("inputs", [])
                 ]
                 actions = ["$(call do_cmd,%s_%d)" % (name, count)]
+                force = True
 
                 if name == "resources_grit":
                     # HACK: This is ugly.  Grit intentionally doesn't touch the
@@ -1195,6 +1196,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     # discussion, hacking around it here seems like the least
                     # amount of pain.
                     actions += ["@touch --no-create $@"]
+                    force = False
 
                 # See the comment in WriteCopies about expanding env vars.
                 outputs = [gyp.xcode_emulation.ExpandEnvVars(o, env) for o in outputs]
@@ -1207,7 +1209,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 # accidentally writing duplicate dummy rules for those outputs.
                 self.WriteLn("%s: obj := $(abs_obj)" % outputs[0])
                 self.WriteLn("%s: builddir := $(abs_builddir)" % outputs[0])
-                self.WriteMakeRule(outputs, inputs, actions)
+                self.WriteMakeRule(outputs, inputs, actions, force=force)
                 # Spaces in rule filenames are not supported, but rule variables have
                 # spaces in them (e.g. RULE_INPUT_PATH expands to '$(abspath $<)').
                 # The spaces within the variables are valid, so remove the variables
-- 
2.43.0


From d0f5eea44460ebf7d9381ebaf4f20d5b3cf4e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 30/40] fix: make builds a static library again when a source
 was removed from it

---
 gyp/pylib/gyp/generator/make.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 21fc4bf..beac95f 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -170,16 +170,26 @@ endef
 
 OBJ_FILE_LIST := ar-file-list
 
+# Helpers that are non-empty when an archive is out of date, which it also is
+# when the objects it was made of are not the ones it is to be made of now.
+list_changed = $(or $(subst $(1),,$(2)),$(subst $(2),,$(1)))
+archived_objs = $(shell cat $(1).$(OBJ_FILE_LIST) 2>/dev/null)
+archive_changed = $(or $(prereq_changed),$(call list_changed,$(call archived_objs,$(1)),$(2)))
+
 define create_archive
+$(if $(call archive_changed,$(1),$(filter %.o,$(2))),
         rm -f $(1) $(1).$(OBJ_FILE_LIST); mkdir -p `dirname $(1)`
         $(call write-to-file,$(1).$(OBJ_FILE_LIST),$(filter %.o,$(2)))
         $(AR.$(TOOLSET)) crs $(1) @$(1).$(OBJ_FILE_LIST)
+)
 endef
 
 define create_thin_archive
+$(if $(call archive_changed,$(1),$(filter %.o,$(2))),
         rm -f $(1) $(OBJ_FILE_LIST); mkdir -p `dirname $(1)`
         $(call write-to-file,$(1).$(OBJ_FILE_LIST),$(filter %.o,$(2)))
         $(AR.$(TOOLSET)) crsT $(1) @$(1).$(OBJ_FILE_LIST)
+)
 endef
 
 # We support two kinds of shared objects (.so):
@@ -239,16 +249,26 @@ endef
 
 OBJ_FILE_LIST := ar-file-list
 
+# Helpers that are non-empty when an archive is out of date, which it also is
+# when the objects it was made of are not the ones it is to be made of now.
+list_changed = $(or $(subst $(1),,$(2)),$(subst $(2),,$(1)))
+archived_objs = $(shell cat $(1).$(OBJ_FILE_LIST) 2>/dev/null)
+archive_changed = $(or $(prereq_changed),$(call list_changed,$(call archived_objs,$(1)),$(2)))
+
 define create_archive
+$(if $(call archive_changed,$(1),$(filter %.o,$(2))),
         rm -f $(1) $(1).$(OBJ_FILE_LIST); mkdir -p `dirname $(1)`
         $(call write-to-file,$(1).$(OBJ_FILE_LIST),$(filter %.o,$(2)))
         $(AR.$(TOOLSET)) crs $(1) @$(1).$(OBJ_FILE_LIST)
+)
 endef
 
 define create_thin_archive
+$(if $(call archive_changed,$(1),$(filter %.o,$(2))),
         rm -f $(1) $(OBJ_FILE_LIST); mkdir -p `dirname $(1)`
         $(call write-to-file,$(1).$(OBJ_FILE_LIST),$(filter %.o,$(2)))
         $(AR.$(TOOLSET)) crsT $(1) @$(1).$(OBJ_FILE_LIST)
+)
 endef
 
 # Due to circular dependencies between libraries :(, we wrap the
@@ -1889,6 +1909,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                         [self.output_binary],
                         link_deps,
                         actions=["$(call create_thin_archive,$@,$^)"],
+                        force=True,
                     )
                 else:
                     self.WriteDoCmd(
@@ -1904,6 +1925,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                         [self.output_binary],
                         link_deps,
                         actions=["$(call create_archive,$@,$^)"],
+                        force=True,
                     )
                 else:
                     self.WriteDoCmd(
-- 
2.43.0


From 341b160de8e01f87d3f5cf8f6600353af50d8147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 31/40] fix: make does not take what a failed or killed command
 left behind for up to date

---
 gyp/pylib/gyp/generator/make.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index beac95f..8fad243 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -464,9 +464,9 @@ define fixup_dep
 touch $(depfile).raw
 # Fixup path as in (1).""" +
     (r"""
-sed -e "s|^$(notdir $@)|$@|" -re 's/\\\\([^$$])/\/\1/g' $(depfile).raw >> $(depfile)"""
+sed -e "s|^$(notdir $@)|$@|" -re 's/\\\\([^$$])/\/\1/g' $(depfile).raw >> $(depfile).tmp"""
     if sys.platform == 'win32' else r"""
-sed -e "s|^$(notdir $@)|$@|" $(depfile).raw >> $(depfile)""") +
+sed -e "s|^$(notdir $@)|$@|" $(depfile).raw >> $(depfile).tmp""") +
     r"""
 # Add extra rules as in (2).
 # We remove slashes and replace spaces with new lines;
@@ -479,7 +479,7 @@ sed -e 's|\\\\||' -e 'y| |\\n|' $(depfile).raw |\\""") +
     r"""
   grep -v '^$$'                             |\
   sed -e 1d -e 's|$$|:|'                     \
-    >> $(depfile)
+    >> $(depfile).tmp
 rm $(depfile).raw
 endef
 """
@@ -564,6 +564,8 @@ endef
 
 # do_cmd: run a command via the above cmd_foo names, if necessary.
 # Should always run for a given target to handle command-line changes.
+# The depfile is there only while the output is that of a command that succeeded:
+# what a failed or killed command left behind is not up to date.
 # Second argument, if non-zero, makes it do asm/C/C++ dependency munging.
 # Third argument, if non-zero, makes it do POSTBUILDS processing.
 # Note: We intentionally do NOT call dirx for depfile, since it contains """
@@ -575,17 +577,18 @@ endef
 define do_cmd
 $(if $(or $(command_changed),$(prereq_changed)),
   @$(call exact_echo,  $($(quiet)cmd_$(1)))
-  @mkdir -p "$(call dirx,$@)" "$(dir $(depfile))"
+  @mkdir -p "$(call dirx,$@)" "$(dir $(depfile))" && rm -f "$(depfile)"
   $(if $(findstring flock,$(word %(flock_index)d,$(cmd_$1))),
     @$(cmd_$(1))
     @echo "  $(quiet_cmd_$(1)): Finished",
     @$(cmd_$(1))
   )
-  @$(call exact_echo,$(call escape_vars,cmd_$(call replace_spaces,$@) := $(cmd_$(1)))) > $(depfile)
+  @$(call exact_echo,$(call escape_vars,cmd_$(call replace_spaces,$@) := $(cmd_$(1)))) > "$(depfile).tmp"
   @$(if $(2),$(fixup_dep))
   $(if $(and $(3), $(POSTBUILDS)),
     $(call do_postbuilds)
   )
+  @mv "$(depfile).tmp" "$(depfile)"
 )
 endef
 
-- 
2.43.0


From 340c397d2af9c844283ae8ba8743461d6749cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 32/40] fix: an interrupted regeneration leaves make with
 makefiles that it can read and that it knows to be out of date

---
 gyp/pylib/gyp/common.py         | 27 +++++++++++++++++++++++++++
 gyp/pylib/gyp/generator/make.py |  8 +++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/common.py b/gyp/pylib/gyp/common.py
index 60b3c8e..7f46306 100644
--- a/gyp/pylib/gyp/common.py
+++ b/gyp/pylib/gyp/common.py
@@ -421,6 +421,33 @@ def WriteOnDiff(filename):
     return Writer()
 
 
+def WriteAtomically(filename):
+    """Write a file that is replaced, as a whole, when it is closed.
+
+  Until then, or if it is never closed, the old file stays what it was.
+
+  Arguments:
+    filename: name of the file to write to.
+  Returns:
+    A file like object.
+  """
+
+    class Writer:
+        def __init__(self):
+            self.path = os.path.realpath(filename)
+            self.tmp_path = self.path + ".gyp.tmp"
+            self.tmp_file = open(self.tmp_path, "w")
+
+        def __getattr__(self, attrname):
+            return getattr(self.tmp_file, attrname)
+
+        def close(self):
+            self.tmp_file.close()
+            os.replace(self.tmp_path, self.path)
+
+    return Writer()
+
+
 def EnsureDirExists(path):
     """Make sure the directory for |path| exists."""
     try:
diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 8fad243..b73a2c1 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -867,7 +867,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         """
         gyp.common.EnsureDirExists(output_filename)
 
-        self.fp = open(output_filename, "w")
+        self.fp = gyp.common.WriteAtomically(output_filename)
 
         self.fp.write(header)
 
@@ -1018,7 +1018,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
           build_dir: build output directory, relative to the sub-project
         """
         gyp.common.EnsureDirExists(output_filename)
-        self.fp = open(output_filename, "w")
+        self.fp = gyp.common.WriteAtomically(output_filename)
         self.fp.write(header)
         # For consistency with other builders, put sub-project build output in the
         # sub-project dir (see test/subdirectory/gyptest-subdir-all.py).
@@ -2631,7 +2631,9 @@ def GenerateOutput(target_list, target_dicts, data, params):
     header_params["make_global_settings"] = make_global_settings
 
     gyp.common.EnsureDirExists(makefile_path)
-    root_makefile = open(makefile_path, "w")
+    # make reads the old files again if the generation does not complete: they have
+    # to stay usable, and the root Makefile out of date, until all of them are there.
+    root_makefile = gyp.common.WriteAtomically(makefile_path)
     root_makefile.write(SHARED_HEADER % header_params)
     # Currently any versions have the same effect, but in future the behavior
     # could be different.
-- 
2.43.0


From 5c47659902435c9d522c21ba41b9465b00f09225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 33/40] fix: make makes an output that is gone again when it
 has no prerequisites

---
 gyp/pylib/gyp/generator/make.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index b73a2c1..8ee1283 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -546,6 +546,10 @@ command_changed = $(or $(subst $(cmd_$(1)),,$(cmd_$(call replace_spaces,$@))),\\
 #   $| -- order-only dependencies
 prereq_changed = $(filter-out FORCE_DO_CMD,$(filter-out $|,$?))
 
+# Helper that is non-empty when the target is not there: without prerequisites that
+# is no change of a prerequisite either.
+target_missing = $(if $(wildcard $(subst $(space),\\$(space),$@)),,$@)
+
 # Helper that executes all postbuilds until one fails.
 define do_postbuilds
   @E=0;\\
@@ -575,7 +579,7 @@ endef
     + SPACE_REPLACEMENT
     + """ characters.
 define do_cmd
-$(if $(or $(command_changed),$(prereq_changed)),
+$(if $(or $(command_changed),$(prereq_changed),$(target_missing)),
   @$(call exact_echo,  $($(quiet)cmd_$(1)))
   @mkdir -p "$(call dirx,$@)" "$(dir $(depfile))" && rm -f "$(depfile)"
   $(if $(findstring flock,$(word %(flock_index)d,$(cmd_$1))),
-- 
2.43.0


From efb9689972db005c9666963e0eb4462efbcfcf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 34/40] fix: interrupting make while it regenerates the
 Makefile does not delete it

---
 gyp/pylib/gyp/generator/make.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 8ee1283..4e513f1 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -2400,6 +2400,8 @@ def WriteAutoRegenerationRule(params, root_makefile, makefile_name, build_files)
     root_makefile.write(
         "quiet_cmd_regen_makefile = ACTION Regenerating $@\n"
         "cmd_regen_makefile = cd $(srcdir); %(cmd)s\n"
+        "# Interrupting make must not delete it: it is always complete.\n"
+        ".PRECIOUS: %(makefile_name)s\n"
         "%(makefile_name)s: %(deps)s\n"
         "\t$(call do_cmd,regen_makefile)\n\n"
         % {
-- 
2.43.0


From 6d842bf3eefdd1bc5cb759ed10593536cd0de1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 35/40] fix: a pymod_do_main is not answered with the output of
 a command of the same words

---
 gyp/pylib/gyp/input.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 8260103..74626d4 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -918,6 +918,9 @@ def ExpandVariables(input, phase, variables, build_file):
             # arises, the syntax should be extended to support no caching off a
             # command's output so it is run every time.
             cache_key = (str(contents), build_file_dir)
+            if command_string:
+                # The words of a pymod_do_main may be those of a command, too.
+                cache_key += (command_string,)
             cached_value = cached_command_results.get(cache_key, None)
             if cached_value is None:
                 gyp.DebugOutput(
-- 
2.43.0


From 711275b410ee6b794074e041361cf8e601f5ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:39 +0000
Subject: [PATCH 36/40] fix: mac_tool's plist steps work with the plistlib of
 Python 3.9 and later

---
 gyp/pylib/gyp/mac_tool.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/gyp/pylib/gyp/mac_tool.py b/gyp/pylib/gyp/mac_tool.py
index 6cd85e2..c6d7aa4 100755
--- a/gyp/pylib/gyp/mac_tool.py
+++ b/gyp/pylib/gyp/mac_tool.py
@@ -176,14 +176,13 @@ class MacTool:
     def ExecCopyInfoPlist(self, source, dest, convert_to_binary, *keys):
         """Copies the |source| Info.plist to the destination directory |dest|."""
         # Read the source Info.plist into memory.
-        with open(source) as fd:
-            lines = fd.read()
+        with open(source, "rb") as fd:
+            plist = plistlib.load(fd)
 
         # Insert synthesized key/value pairs (e.g. BuildMachineOSBuild).
-        plist = plistlib.readPlistFromString(lines)
         if keys:
             plist.update(json.loads(keys[0]))
-        lines = plistlib.writePlistToString(plist)
+        lines = plistlib.dumps(plist).decode("utf-8")
 
         # Go through all the environment variables and replace them as variables in
         # the file.
@@ -193,7 +192,7 @@ class MacTool:
                 continue
             evar = "${%s}" % key
             evalue = os.environ[key]
-            lines = lines.replace(lines, evar, evalue)
+            lines = lines.replace(evar, evalue)
 
             # Xcode supports various suffices on environment variables, which are
             # all undocumented. :rfc1034identifier is used in the standard project
@@ -203,11 +202,11 @@ class MacTool:
             # in a URL either -- oops, hence :rfc1034identifier was born.
             evar = "${%s:identifier}" % key
             evalue = IDENT_RE.sub("_", os.environ[key])
-            lines = lines.replace(lines, evar, evalue)
+            lines = lines.replace(evar, evalue)
 
             evar = "${%s:rfc1034identifier}" % key
             evalue = IDENT_RE.sub("-", os.environ[key])
-            lines = lines.replace(lines, evar, evalue)
+            lines = lines.replace(evar, evalue)
 
         # Remove any keys with values that haven't been replaced.
         lines = lines.splitlines()
@@ -218,7 +217,7 @@ class MacTool:
         lines = "\n".join(line for line in lines if line is not None)
 
         # Write out the file with variables replaced.
-        with open(dest, "w") as fd:
+        with open(dest, "w", encoding="utf-8") as fd:
             fd.write(lines)
 
         # Now write out PkgInfo file now that the Info.plist file has been
@@ -230,7 +229,8 @@ class MacTool:
 
     def _WritePkgInfo(self, info_plist):
         """This writes the PkgInfo file from the data stored in Info.plist."""
-        plist = plistlib.readPlist(info_plist)
+        with open(info_plist, "rb") as fp:
+            plist = plistlib.load(fp)
         if not plist:
             return
 
@@ -437,7 +437,8 @@ class MacTool:
         for path in inputs:
             plist = self._LoadPlistMaybeBinary(path)
             self._MergePlist(merged_plist, plist)
-        plistlib.writePlist(merged_plist, output)
+        with open(output, "wb") as fp:
+            plistlib.dump(merged_plist, fp)
 
     def ExecCodeSignBundle(self, key, entitlements, provisioning, path, preserve):
         """Code sign a bundle.
@@ -585,7 +586,7 @@ class MacTool:
     def _LoadPlistMaybeBinary(self, plist_path):
         """Loads into a memory a plist possibly encoded in binary format.
 
-    This is a wrapper around plistlib.readPlist that tries to convert the
+    This is a wrapper around plistlib.load that tries to convert the
     plist to the XML format if it can't be parsed (assuming that it is in
     the binary format).
 
@@ -599,13 +600,15 @@ class MacTool:
             # First, try to read the file using plistlib that only supports XML,
             # and if an exception is raised, convert a temporary copy to XML and
             # load that copy.
-            return plistlib.readPlist(plist_path)
+            with open(plist_path, "rb") as fp:
+                return plistlib.load(fp)
         except Exception:
             pass
         with tempfile.NamedTemporaryFile() as temp:
             shutil.copy2(plist_path, temp.name)
             subprocess.check_call(["plutil", "-convert", "xml1", temp.name])
-            return plistlib.readPlist(temp.name)
+            with open(temp.name, "rb") as fp:
+                return plistlib.load(fp)
 
     def _GetSubstitutions(self, bundle_identifier, app_identifier_prefix):
         """Constructs a dictionary of variable substitutions for Entitlements.plist.
@@ -663,7 +666,8 @@ class MacTool:
             for key in overrides:
                 if key not in data:
                     data[key] = overrides[key]
-        plistlib.writePlist(data, target_path)
+        with open(target_path, "wb") as fp:
+            plistlib.dump(data, fp)
         return target_path
 
     def _ExpandVariables(self, data, substitutions):
-- 
2.43.0


From 6ef72ab820f5967908d5685b6aa9ae26523ea94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:39 +0000
Subject: [PATCH 37/40] fix: mac_tool reads the output of ibtool as text

---
 gyp/pylib/gyp/mac_tool.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/mac_tool.py b/gyp/pylib/gyp/mac_tool.py
index c6d7aa4..08a5f06 100755
--- a/gyp/pylib/gyp/mac_tool.py
+++ b/gyp/pylib/gyp/mac_tool.py
@@ -115,7 +115,9 @@ class MacTool:
         ibtool_section_re = re.compile(r"/\*.*\*/")
         ibtool_re = re.compile(r".*note:.*is clipping its content")
         try:
-            stdout = subprocess.check_output(args)
+            stdout = subprocess.check_output(
+                args, encoding="utf-8", errors="backslashreplace"
+            )
         except subprocess.CalledProcessError as e:
             print(e.output)
             raise
-- 
2.43.0


From 9e20c770a51f2b59807d32ca5e4d067a2de6be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:45 +0000
Subject: [PATCH 38/40] fix: mac_tool writes header maps as bytes and closes
 them

---
 gyp/pylib/gyp/mac_tool.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gyp/pylib/gyp/mac_tool.py b/gyp/pylib/gyp/mac_tool.py
index 08a5f06..b1b4555 100755
--- a/gyp/pylib/gyp/mac_tool.py
+++ b/gyp/pylib/gyp/mac_tool.py
@@ -714,6 +714,8 @@ def WriteHmap(output_name, filelist):
     magic = 1751998832
     version = 1
     _reserved = 0
+    # The strings of a header map are bytes.
+    filelist = {os.fsencode(k): os.fsencode(v) for k, v in filelist.items()}
     count = len(filelist)
     capacity = NextGreaterPowerOf2(count)
     strings_offset = 24 + (12 * capacity)
@@ -737,8 +739,8 @@ def WriteHmap(output_name, filelist):
     buckets = [None] * capacity
     for file, path in filelist.items():
         key = 0
-        for c in file:
-            key += ord(c.lower()) * 13
+        for c in file.lower():
+            key += c * 13
 
         # Fill next empty bucket.
         while buckets[key & capacity - 1] is not None:
@@ -753,7 +755,8 @@ def WriteHmap(output_name, filelist):
             (file, path) = bucket
             key_offset = next_offset
             prefix_offset = key_offset + len(file) + 1
-            suffix_offset = prefix_offset + len(os.path.dirname(path) + os.sep) + 1
+            base = os.path.dirname(path) + os.fsencode(os.sep)
+            suffix_offset = prefix_offset + len(base) + 1
             next_offset = suffix_offset + len(os.path.basename(path)) + 1
             out.write(struct.pack("<LLL", key_offset, prefix_offset, suffix_offset))
 
@@ -764,13 +767,14 @@ def WriteHmap(output_name, filelist):
         if bucket is not None:
             (file, path) = bucket
             out.write(struct.pack("<%ds" % len(file), file))
-            out.write(struct.pack("<s", "\0"))
-            base = os.path.dirname(path) + os.sep
+            out.write(struct.pack("<s", b"\0"))
+            base = os.path.dirname(path) + os.fsencode(os.sep)
             out.write(struct.pack("<%ds" % len(base), base))
-            out.write(struct.pack("<s", "\0"))
+            out.write(struct.pack("<s", b"\0"))
             path = os.path.basename(path)
             out.write(struct.pack("<%ds" % len(path), path))
-            out.write(struct.pack("<s", "\0"))
+            out.write(struct.pack("<s", b"\0"))
+    out.close()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From b4b4b6b93c89bcd3a5e443d308babdd270459567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:27 +0000
Subject: [PATCH 39/40] fix: analyzer fails when its output cannot be written

---
 gyp/pylib/gyp/generator/analyzer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 64573ad..2b1f63f 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -582,11 +582,10 @@ def _WriteOutput(params, **values):
         print(json.dumps(values))
         return
     try:
-        f = open(output_path, "w")
-        f.write(json.dumps(values) + "\n")
-        f.close()
+        with open(output_path, "w") as f:
+            f.write(json.dumps(values) + "\n")
     except OSError as e:
-        print("Error writing to output file", output_path, str(e))
+        raise gyp.common.GypError(f"Error writing to output file {output_path}: {e}")
 
 
 def _WasGypIncludeFileModified(params, files):
-- 
2.43.0


From 9d9dff7e002985701e2790f74e180ecece567775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:00 +0000
Subject: [PATCH 40/40] fix: ninja closes the files of the single architectures

---
 gyp/pylib/gyp/generator/ninja.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index d0b61a1..e5f37a4 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -232,6 +232,7 @@ class NinjaWriter:
         """
 
         self.hash_for_rules = hash_for_rules
+        self.arch_subninjas = {}
         self.target_outputs = target_outputs
         self.base_dir = base_dir
         self.build_dir = build_dir
@@ -2835,6 +2836,8 @@ def GenerateOutputForConfig(target_list, target_dicts, data, params, config_name
         )
 
         target = writer.WriteSpec(spec, config_name, generator_flags)
+        for arch_subninja in writer.arch_subninjas.values():
+            arch_subninja.output.close()
 
         if ninja_output.tell() > 0:
             # Only create files for ninja files that actually have contents.
-- 
2.43.0

