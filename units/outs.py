from build import RUNTIME
SOURCES = RUNTIME
CB = {r'^ply::BlockList::createBlock\(': 'contract_createBlock'}
OPTS = {'autounroll': 6}
HARNESS = {'verify_' + h: {'replace': CB} for h in 'pipeByte pipeAvail afterFailure memAvail memString2'.split()}
HARNESS['verify_pipeWrite'] = {'replace': {r'^ply::OutStream::tryMakeBytesAvailableInternal\(': 'contract_avail'}, 'autounroll': 0, 'noauto': True, 'time': 700, 'cost': 170}
