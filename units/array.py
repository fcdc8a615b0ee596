from build import RUNTIME
SOURCES = RUNTIME
HARNESS = {'verify_' + h: {'replace': {r'^.*ply::roundUpPowerOf2<unsigned int>\(': 'contract_roundUp'}} for h in
           'shrink grow insert append extend extendMove plain selfAssign adopt plainOps'.split()}
