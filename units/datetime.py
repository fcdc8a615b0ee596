from build import RUNTIME
SOURCES = RUNTIME
HARNESS = {'verify_civil%d' % i: {'autounroll': 60, 'divuf': False, 'time': 600, 'cost': 50} for i in range(0, 400, 50)}
HARNESS['verify_timeOfDay'] = {'replace': {r'^ply::setDateFromEpochDays\(': 'contract_setDate', r'^ply::getEpochDaysFromDate\(': 'contract_getDays'}}
HARNESS['verify_weekday'] = {'autounroll': 10, 'cost': 30}
for i in range(0, 400, 100): HARNESS["verify_epochDays%d" % i] = {"divuf": False, "cost": 40}
for i in (100, 200, 300): HARNESS['verify_civil%d' % i]['tier'] = 'thorough'  # quick: the years around every century change
