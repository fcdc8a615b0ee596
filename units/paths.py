from build import RUNTIME
SOURCES = RUNTIME
HARNESS = {'verify_split': {'difftemplates': True, 'cost': 45}, 'verify_smallExt': {'autounroll': 8, 'cost': 35}, 'verify_smallFull': {'autounroll': 8, 'cost': 80},
           'verify_from': {'replace': {r'^ply::String::String\(ply::StringView\)': 'contract_copy'}}}
