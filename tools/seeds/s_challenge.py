S = []

DE = "ade/de.py"
POP = "ade/population.py"
IND = "ade/individual.py"


def seed(id, property, needs, breaks, edits, demo):
    S.append(dict(id=id, property=property, needs=needs, breaks=breaks,
                  edits=edits, demo=demo))


seed("C01-tie-under-xsse", "C01",
     "a run with xSSE set and an evaluator that, when it gives up early, "
     "returns the very limit it was given",
     "A challenger that merely ties its target replaces it when partial "
     "evaluations are in use, so an abandoned evaluation wins a slot.",
     [(DE, "                        if iChallenger < iTarget:\n",
       "                        if iChallenger < iTarget or (\n"
       "                                self.xSSE and not iTarget < iChallenger):\n")],
     """
def func(values, xSSE=None):
    if values is None:
        return
    SSE = sphere(values)
    # An evaluation that gives up at its limit
    if xSSE is not None and SSE >= xSSE:
        return float(xSSE)
    return SSE

p = ready(func)
de = DifferentialEvolution(p, logHandle=None, maxiter=3, xSSE=True, randomBase=True)
result_of(de())
for i in p:
    expect(abs(sphere(i.values) - float(i.SSE)) < 1e-9,
           "an abandoned evaluation took the slot of an individual that ties it")
done()
""")

seed("C02-best-needs-no-lock", "C02",
     "a challenge whose base is the best individual while another challenge that "
     "targets that very slot is still being evaluated",
     "Slots are no longer waited for when they hold the best individual, so a base "
     "is read while the outcome for its slot is pending.",
     [(POP, "            dList.append(self.dLocks[k].acquire())\n",
       "            if k > 0 and k == self.kBest and k != indices[0]: continue\n"
       "            dList.append(self.dLocks[k].acquire())\n")],
     """
p = ready()
k = p.kBest
if k == 0:
    # Have the best one elsewhere
    i0, i1 = p[0], p[1]
    p[0], p[1] = i1, i0
    k = p.kBest
others = [j for j in range(len(p)) if j != k]
result_of(p.lock(k))
got = []
p.lock(others[0], k, others[1], others[2]).addCallback(got.append)
spin(0.1)
expect(not got, "slot %d granted while someone else is determining it" % k)
p.release(k)
spin(0.1)
expect(got, "slots not granted once they are free")
done()
""")

seed("C03-late-refusal-leak", "C03",
     "a challenge that is refused by a constraint while another one waits for its target",
     "The target's slot stays locked after a challenger fails constraints in a "
     "generation that uses partial evaluations.",
     [(DE, "                    self.p.showFailedConstraint()\n                # Now",
       "                    self.p.showFailedConstraint()\n"
       "                    if self.xSSE and self.p.running: return\n                # Now")],
     """
p = ready()
p.setConstraints(lambda params: False)
de = DifferentialEvolution(p, logHandle=None, maxiter=1, xSSE=True)
de.fm = FManager(de.F, de.CR, p.Np, de.adaptive)
result_of(de.challenge(0, 1))
got = []
p.lock(0).addCallback(got.append)
spin(0.1)
expect(got, "slot 0 is not given back by a challenge that fails constraints")
done()
""")
