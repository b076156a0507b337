from common import Corpus

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok
EX = "ade/scripts/examples.py"
LOOP = ("        if os.path.exists(ePath):\n            msg(\"{} already exists\", ePath)\n        else:\n            sPath = os.path.join(sDir, fileName)\n"
        "            if os.path.isfile(sPath):\n                shutil.copy(sPath, ePath)\n                msg(\"{} created\", ePath)\n")
MK = "    if os.path.exists(eDir):\n        msg(\"Subdirectory already exists\")\n    else:\n        os.mkdir(eDir)\n        msg(\"Subdirectory created\")\n"
bug("c25-always", "C25", (EX, "        if os.path.exists(ePath):\n            msg(\"{} already exists\", ePath)\n        else:\n", "        if True:\n"))
bug("c25-isdir", "C25", (EX, "if os.path.exists(ePath)", "if os.path.isdir(ePath)"))
bug("c25-isfile", "C25", (EX, "if os.path.exists(ePath)", "if os.path.isfile(ePath)"))
bug("c25-wrong-path", "C25", (EX, "if os.path.exists(ePath)", "if os.path.exists(fileName)"))
bug("c25-to-dir", "C25", (EX, "shutil.copy(sPath, ePath)", "shutil.copy(sPath, os.path.dirname(eDir))"))
bug("c25-rmtree", "C25", (EX, "        msg(\"Subdirectory already exists\")\n", "        shutil.rmtree(eDir)\n        os.mkdir(eDir)\n        msg(\"Subdirectory already exists\")\n"))
bug("c25-fallthrough", "C25", (EX, "            msg(\"{} already exists\", ePath)\n        else:\n            sPath = os.path.join(sDir, fileName)\n            if os.path.isfile(sPath):\n                shutil.copy(sPath, ePath)\n                msg(\"{} created\", ePath)\n", "            msg(\"{} already exists\", ePath)\n        sPath = os.path.join(sDir, fileName)\n        if os.path.isfile(sPath):\n            shutil.copy(sPath, ePath)\n"))
bug("c25-home", "C25", (EX, "        os.path.join(\"~\", \"-\".join(PKG_DIR)))", "        os.path.join(\"~\", *PKG_DIR[:0]))"))
bug("c25-tree", "C25", (EX, LOOP, "        pass\n    shutil.copytree(sDir, eDir, dirs_exist_ok=True)\n"))
bug("c25-backup", "C25", (EX, "            msg(\"{} already exists\", ePath)\n        else:\n            sPath", "            os.rename(ePath, ePath+'.bak')\n        if not os.path.exists(ePath):\n            sPath"))
bug("c25-open-w", "C25", (EX, LOOP, "        sPath = os.path.join(sDir, fileName)\n        if os.path.isfile(sPath):\n            with open(ePath, 'w') as fh:\n                fh.write(open(sPath).read())\n"))
bug("c25-once", "C25", (EX, "    for fileName in pkg_resources", "    exists = False\n    for fileName in pkg_resources"), (EX, "        if os.path.exists(ePath):\n            msg(\"{} already", "        exists = exists or os.path.exists(ePath)\n        if not os.path.exists(ePath) and exists:\n            msg(\"{} already"), )
bug("c25-newer", "C25", (EX, "        if os.path.exists(ePath):\n", "        if os.path.exists(ePath) and os.path.getmtime(ePath) >= os.path.getmtime(os.path.join(sDir, fileName)):\n"))
bug("c25-return", "C25", (EX, "        msg(\"Subdirectory already exists\")\n", "        msg(\"Subdirectory already exists\")\n        return\n"))

ok("c25-ok-continue", (EX, LOOP, "        if os.path.exists(ePath):\n            msg(\"{} already exists\", ePath)\n            continue\n        sPath = os.path.join(sDir, fileName)\n        if not os.path.isfile(sPath):\n            continue\n        shutil.copy(sPath, ePath)\n        msg(\"{} created\", ePath)\n"))
ok("c25-ok-helper", (EX, LOOP, "        _extractOne(os.path.join(sDir, fileName), ePath)\n\n\ndef _extractOne(sPath, ePath):\n    if os.path.lexists(ePath):\n        msg(\"{} already exists\", ePath)\n    elif os.path.isfile(sPath):\n        shutil.copyfile(sPath, ePath)\n        msg(\"{} created\", ePath)\n"))
ok("c25-ok-listdir", (EX, LOOP, LOOP.replace("os.path.exists(ePath)", "fileName in existing")), (EX, "    for fileName in pkg_resources", "    existing = set(os.listdir(eDir))\n    for fileName in pkg_resources"))
ok("c25-ok-x", (EX, LOOP, "        sPath = os.path.join(sDir, fileName)\n        if os.path.isfile(sPath):\n            try:\n                with open(ePath, 'xb') as fh, open(sPath, 'rb') as fs:\n                    fh.write(fs.read())\n            except FileExistsError:\n                msg(\"{} already exists\", ePath)\n"))
ok("c25-ok-makedirs", (EX, MK, "    os.makedirs(eDir, exist_ok=True)\n"))
ok("c25-ok-pathlib", (EX, "    eDir = os.path.expanduser(\n        os.path.join(\"~\", \"-\".join(PKG_DIR)))\n", "    eDir = pathlib.Path.home() / \"-\".join(PKG_DIR)\n"), (EX, MK, "    if eDir.exists():\n        msg(\"Subdirectory already exists\")\n    else:\n        eDir.mkdir()\n"), (EX, "        ePath = os.path.join(eDir, fileName)\n        if os.path.exists(ePath):", "        ePath = eDir / fileName\n        if ePath.exists():"), (EX, "import re, os", "import pathlib\nimport re, os"))
ok("c25-ok-listcomp", (EX, "    for fileName in pkg_resources.resource_listdir(*PKG_DIR):\n        if not reFile.match(fileName):\n            continue\n", "    names = [\n        x for x in pkg_resources.resource_listdir(*PKG_DIR) if reFile.match(x)]\n    for fileName in sorted(names):\n"))
ok("c25-ok-fstring", (EX, "        ePath = os.path.join(eDir, fileName)\n", "        ePath = f'{eDir}/{fileName}'\n"))
ok("c25-ok-filter", (EX, "    for fileName in pkg_resources.resource_listdir(*PKG_DIR):\n        if not reFile.match(fileName):\n            continue\n", "    for fileName in filter(reFile.match, pkg_resources.resource_listdir(*PKG_DIR)):\n"))
ok("c25-ok-percent", (EX, "        ePath = os.path.join(eDir, fileName)\n", "        ePath = '%s/%s' % (eDir, fileName)\n"))
