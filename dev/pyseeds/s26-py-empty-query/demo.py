import sys, partio
p = partio.create()
a = p.addAttribute("position", partio.VECTOR, 3)
for k in range(4):
    p.addParticle()
    p.set(a, k, (float(k), 0.0, 0.0))
p.sort()
if sorted(p.findPoints((0.5, -1.0, -1.0), (2.5, 1.0, 1.0))) != [1, 2]:
    sys.exit("wrong points")
if p.findPoints((10.0, 10.0, 10.0), (11.0, 11.0, 11.0)) != []:
    sys.exit("wrong points")
