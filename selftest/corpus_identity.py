from common import Corpus

I = "ade/individual.py"
H = "ade/history.py"
C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

SV = "        SV = np.array([float(self.SSE)] + list(self.values), dtype=float) + 0.0\n"
MD5 = "        return int(hashlib.md5(SV.tobytes()).hexdigest()[:15], 16)\n"

bug("c20-salted", "C20", (I, MD5, "        return hash(SV.tobytes())\n"))
bug("c20-salted-repr", "C20", (I, MD5, "        return hash(repr(list(SV)))\n"))
bug("c20-salted-tuple", "C20", (I, MD5, "        return hash(tuple(SV) + ('ade',))\n"))
bug("c20-id", "C20", (I, MD5, "        return id(self)\n"))
bug("c20-no-hash", "C20", (I, MD5, "        return object.__hash__(self)\n"))
bug("c20-no-zero", "C20", (I, SV, SV.replace(" + 0.0", "")))
bug("c20-no-dtype", "C20", (I, SV, "        SV = np.array([self.SSE] + list(self.values))\n"))
bug("c20-values-only", "C20", (I, SV, "        SV = np.array(list(self.values), dtype=float) + 0.0\n"))
bug("c20-sse-only", "C20", (I, SV, "        SV = np.array([float(self.SSE)], dtype=float) + 0.0\n"))
bug("c20-first-values", "C20", (I, SV, SV.replace("list(self.values)", "list(self.values[:2])")))
bug("c20-sorted-values", "C20", (I, SV, SV.replace("list(self.values)", "sorted(self.values)")))
bug("c20-raw", "C20", (I, SV, SV.replace("float(self.SSE)", "float(self._SSE)")))
bug("c20-int-sse", "C20", (I, SV, SV.replace("float(self.SSE)", "int(self.SSE)")))
bug("c20-int-dtype", "C20", (I, SV, SV.replace("dtype=float", "dtype=int")))
bug("c20-own-bytes", "C20", (I, SV + MD5, """        text = self.values.tobytes() + np.float64(self.SSE).tobytes()
        return int(hashlib.md5(text).hexdigest()[:15], 16)
"""))
bug("c20-time", "C20", (I, SV, SV.replace("[float(self.SSE)]", "[float(self.SSE), float(self.dt or 0), "
                                          "time.time()]")))
bug("c20-sum", "C20", (I, MD5, "        return int(SV.sum()*1E6)\n"))
bug("c20-text-values", "C20", (I, SV + MD5, """        text = str(self.SSE) + ','.join([str(x) for x in self.values])
        return int(hashlib.md5(text.encode()).hexdigest()[:15], 16)
"""))
bug("c20-kr-by-id", "C20", (H, "        key = hash(i)\n", "        key = id(i)\n"),
    (H, "        key = hash(x)\n", "        key = id(x)\n"))

ok("c20-ok-sha", (I, "hashlib.md5(", "hashlib.sha256("))
ok("c20-ok-update", (I, MD5, """        h = hashlib.md5()
        h.update(SV.tobytes())
        return int(h.hexdigest()[:15], 16)
"""))
ok("c20-ok-from-bytes", (I, MD5, "        return int.from_bytes(hashlib.md5(SV.tobytes()).digest()[:7], "
                         "'little')\n"))
ok("c20-ok-numbers", (I, MD5, "        return hash(tuple(float(x) for x in SV))\n"))
ok("c20-ok-numbers-list", (I, SV + MD5, "        return hash((float(self.SSE),) + tuple(float(x) for x in "
                           "self.values))\n"))
ok("c20-ok-tuple-values", (I, SV + MD5, "        return hash((float(self.SSE), tuple(self.values)))\n"))
ok("c20-ok-tolist", (I, SV + MD5, "        return hash(tuple([float(self.SSE)] + "
                     "np.asarray(self.values, dtype=float).tolist()))\n"))
ok("c20-ok-empty", (I, SV, """        SV = np.empty(1 + len(self.values))
        SV[0] = self.SSE
        SV[1:] = self.values
        SV += 0.0
"""))
ok("c20-ok-concatenate", (I, SV, "        SV = np.concatenate(([self.SSE], self.values)).astype(float)"
                          " + 0.0\n"))
ok("c20-ok-hstack", (I, SV, "        SV = np.hstack([float(self.SSE), self.values]).astype(float) + 0\n"))
ok("c20-ok-insert", (I, SV, "        SV = np.insert(np.array(self.values, dtype=float), 0, self.SSE) + 0.0\n"))
ok("c20-ok-zeros-first", (I, SV, SV.replace(" + 0.0", "") + "        SV[SV == 0] = 0.0\n"))
ok("c20-ok-where", (I, SV, SV.replace(" + 0.0", "") + "        SV = np.where(SV == 0, 0.0, SV)\n"))
ok("c20-ok-helper", (I, SV + MD5, """        return self._identity(self.SSE, self.values)

    @staticmethod
    def _identity(SSE, values):
        numbers = [float(SSE)]
        for x in values:
            numbers.append(float(x))
        SV = np.array(numbers) + 0.0
        return int(hashlib.md5(SV.tobytes()).hexdigest()[:15], 16)
"""))
ok("c20-ok-crc", (I, MD5, """        import zlib
        return zlib.crc32(SV.tobytes())
"""))
ok("c20-ok-text", (I, MD5, """        text = ' '.join(['{:.17g}'.format(x) for x in SV])
        return int(hashlib.sha1(text.encode('ascii')).hexdigest()[:15], 16)
"""))
ok("c20-ok-repr", (I, MD5, """        text = repr([float(x) for x in SV])
        return int(hashlib.sha1(text.encode('ascii')).hexdigest()[:15], 16)
"""))
ok("c20-ok-struct", (I, MD5, """        import struct
        text = struct.pack('<%dd' % len(SV), *SV)
        return int(hashlib.sha1(text).hexdigest()[:15], 16)
"""))
ok("c20-ok-float", (I, SV, SV.replace("float(self.SSE)", "float(self)")))
