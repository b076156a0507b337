from common import Corpus, ABORT

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

bug("c28-no-pop", "C28", (ABORT, "        while self.callbacks:\n            func = self.callbacks.pop(0)\n            func()\n", "        for func in self.callbacks:\n            func()\n"))
bug("c28-last-first", "C28", (ABORT, "self.callbacks.pop(0)", "self.callbacks.pop()"))
bug("c28-one", "C28", (ABORT, "        while self.callbacks:\n            func", "        if self.callbacks:\n            func"))
bug("c28-copy", "C28", (ABORT, "        while self.callbacks:\n            func = self.callbacks.pop(0)\n            func()\n", "        callbacks, self.callbacks = self.callbacks, []\n        for func in callbacks:\n            func()\n"))
bug("c28-set", "C28", (ABORT, "        self.callbacks.append(func)\n", "        self.callbacks.insert(0, func)\n"))
bug("c28-no-shutdown", "C28", (ABORT, "            func()\n        self.shutdown()\n", "            func()\n"))
bug("c28-shutdown-first", "C28", (ABORT, "        while self.callbacks:\n            func = self.callbacks.pop(0)\n            func()\n        self.shutdown()\n", "        self.shutdown()\n        if self.triggerID is None: return\n        while self.callbacks:\n            func = self.callbacks.pop(0)\n            func()\n"))
bug("c28-late-list", "C28", (ABORT, "        if self.KB.triggerID is None:\n", "        if self.KB is None:\n"))
bug("c28-late-now-and-list", "C28", (ABORT, "        else: self.KB.addCallback(func)", "        self.KB.addCallback(func)"))
bug("c28-late-lost", "C28", (ABORT, "            reactor.callLater(0, func)\n", "            pass\n"))
bug("c28-ignore", "C28", (ABORT, "        if self.ignoreAll: return\n", ""))
bug("c28-ignore-late", "C28", (ABORT, "        if not cls.KB: cls.setKB()\n        cls.KB.ignore()", "        if cls.KB: cls.KB.ignore()"))
bug("c28-ignore-new", "C28", (ABORT, "        if not cls.KB: cls.setKB()\n        cls.KB.ignore()", "        cls.setKB()\n        cls.KB.ignore()") if False else
    (ABORT, "        self.ignoreAll = True\n", "        self.callbacks = []\n"))
bug("c28-callable", "C28", (ABORT, "        if not callable(func):\n            raise TypeError(\"Callback not callable\")\n", ""))
bug("c28-callable-skip", "C28", (ABORT, "            raise TypeError(\"Callback not callable\")\n", "            return\n"))
bug("c28-new-each", "C28", (ABORT, "        if self.KB is None:\n            self.setKB()", "        if True:\n            self.setKB()"))
bug("c28-shutdown-guard", "C28", (ABORT, "        if self.triggerID is None: return\n", ""))
bug("c28-trigger-kept", "C28", (ABORT, "        self.triggerID = None\n        self.transport", "        self.transport"))
bug("c28-restart", "C28", (ABORT, "def restart():", "def restart(force=False):\n    if KeyboardHolder.KB and not force: return\ndef _restart():"))
bug("c28-abort-direct", "C28", (ABORT, "    reactor.callLater(0, kbh.abortNow)", "    reactor.callLater(0, kbh.shutdown)"))
bug("c28-instance-kb", "C28", (ABORT, "    @classmethod\n    def setKB(cls):\n        cls.KB = Keyboard()", "    def setKB(self):\n        self.KB = Keyboard()"))

ok("c28-ok-for", (ABORT, "        while self.callbacks:\n            func = self.callbacks.pop(0)\n            func()\n", "        while True:\n            if len(self.callbacks) == 0:\n                break\n            func, self.callbacks[:1] = self.callbacks[0], []\n            func()\n"))
ok("c28-ok-deque", (ABORT, "            func = self.callbacks.pop(0)\n            func()\n", "            func = self.callbacks[0]\n            del self.callbacks[0]\n            func()\n"))
ok("c28-ok-now", (ABORT, "        if self.KB.triggerID is None:\n", "        kb = self.KB\n        if kb.triggerID is None:\n"), (ABORT, "        else: self.KB.addCallback(func)", "        else:\n            kb.addCallback(func)"))
ok("c28-ok-property", (ABORT, "        if self.KB.triggerID is None:\n", "        if self.KB.isShutDown():\n"), (ABORT, "    def ignore(self):\n        \"\"\"\n", "    def isShutDown(self):\n        return self.triggerID is None\n\n    def ignore(self):\n        \"\"\"\n"))
ok("c28-ok-abort", (ABORT, "    kbh = KeyboardHolder()\n    reactor.callLater(0, kbh.abortNow)", "    reactor.callLater(0, KeyboardHolder().KB.dataReceived, None)"))
ok("c28-ok-ignore", (ABORT, "        if self.ignoreAll: return\n        while", "        while not self.ignoreAll and") if False else
   (ABORT, "        if self.ignoreAll: return\n        while self.callbacks:\n            func = self.callbacks.pop(0)\n            func()\n        self.shutdown()\n",
    "        if not self.ignoreAll:\n            while self.callbacks:\n                self.callbacks.pop(0)()\n            self.shutdown()\n"))
