from seeds_a import H
H2 = H.replace('using namespace ply;', '#include <ply-runtime/time/DateTime.h>\nusing namespace ply;')
SEEDS = [
 dict(id='v12_cycle_century', property='V12', needs='29 February of a year divisible by 400', breaks='the last day of the 400-year cycle becomes 0 March/1 March',
      edits=[('runtime/ply-runtime/time/DateTime.cpp', 'doe / 146096) / 365', 'doe / 146097) / 365')],
      demo=H2 + 'int main() { DateTime t = DateTime::fromEpochMicroseconds(951782400ll * 1000000); CHECK(t.year == 2000 && t.month == 2 && t.day == 29); return 0; }\n'),
 dict(id='v12_prefix_days', property='V12', needs='a date before year 0', breaks='day numbers of years before the first cycle',
      edits=[('runtime/ply-runtime/time/DateTime.cpp', '(y >= 0 ? y : y - 399) / 400', '(y >= 0 ? y : y - 400) / 400')],
      demo=H2 + 'int main() { DateTime t; t.year = -400; t.month = 3; t.day = 1; t.hour = t.minute = t.second = 0; t.microseconds = 0; CHECK(t.toEpochMicroseconds() == (-719468ll - 146097) * 86400000000ll); return 0; }\n'),
]
