from build import RUNTIME
SOURCES = RUNTIME
HARNESS = {'verify_reversedUTF8_%d' % i: {'autounroll': 5, 'cost': 100, 'time': 700} for i in (1, 2, 3)}
HARNESS['verify_reversedUTF8_3']['tier'] = 'thorough'
