import sys, partio
p = partio.create()
a = p.addAttribute("v", partio.VECTOR, 3)
p.addParticle()
bad = object()
before = sys.getrefcount(bad)
for k in range(1000):
    try:
        p.set(a, 0, (1.0, 2.0, bad))
    except ValueError:
        pass
    else:
        sys.exit("no ValueError")
after = sys.getrefcount(bad)
if after - before > 10:
    sys.exit("references leaked: %d" % (after - before))
