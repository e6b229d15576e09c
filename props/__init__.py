MODULE_OF = {}
for m, lo, hi in (('structure', 1, 11), ('errors', 12, 15), ('text', 16, 25), ('symbols', 26, 32), ('whole', 33, 37), ('signs', 38, 41)):
    for i in range(lo, hi + 1):
        MODULE_OF['C%02d' % i] = m
