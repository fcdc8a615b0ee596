from build import RUNTIME
SOURCES = RUNTIME
R64 = {r'^ply::fmt::TypeParser<unsigned long(?: long)?>::parse\(': 'contract_parseU64'}
HARNESS = {'verify_parse' + t: {'replace': R64} for t in ('S64', 'U32', 'U16', 'U8', 'S32', 'S16', 'S8')}
for r in ('_8', '_10', '_16', '_36'):
    HARNESS['verify_printU' + r] = {'autounroll': 66, 'cost': 60}
    HARNESS['verify_parseU64' + r] = {'cost': 100, 'time': 500}
RP = {r'^ply::printString\(ply::OutStream\*, unsigned long(?: long)?,': 'contract_printString'}
for t in ('u8', 'u16', 'u32', 'u64', 's8', 's16', 's32', 's64'):
    HARNESS['verify_print_' + t] = HARNESS['verify_printRadix_' + t] = {'replace': RP}
