from build import RUNTIME
SOURCES = RUNTIME
HARNESS = {'verify_operators': {'replace': {r'^ply::compare\(': 'contract_compare'}}}
