from build import RUNTIME
SOURCES = RUNTIME
CB = {r'^ply::BlockList::createBlock\(': 'contract_createBlock'}
AV = {r'^ply::InStream::tryMakeBytesAvailableInternal\(': 'contract_avail'}
OPTS = {'autounroll': 6}
HARNESS = {'verify_' + h: {'replace': CB} for h in 'avail availShared rewound rewoundAtEnd rewoundInside again'.split()}
HARNESS.update({'verify_' + h: {'replace': AV, 'autounroll': 0, 'noauto': True} for h in 'read skip byte'.split()})
for h in 'avail availShared rewoundAtEnd rewoundInside'.split():
    HARNESS['verify_' + h]['noauto'] = True
HARNESS['verify_rewoundInside'].update(tier='thorough', time=1800, noauto=False)
HARNESS['verify_rewoundAtEnd'].update(cost=130)
HARNESS['verify_rewound'].update(cost=120)
HARNESS['verify_avail'].update(cost=90)
HARNESS['verify_availShared'].update(cost=80)
HARNESS['verify_read'].update(cost=90)
