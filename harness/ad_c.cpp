#include "adapter_int.h"
#include "src/parsers/en/ENTimeLaterParser.hpp"
FAMFN(5) { return execFam<parser::ENTimeLaterParser>(text, text, t, fresh); }
#include "src/parsers/en/ENMonthNameParser.hpp"
FAMFN(6) { return execFam<parser::ENMonthNameParser>(text, text, t, fresh); }
#include "src/parsers/en/ENTimeAgoFormatParser.hpp"
FAMFN(7) { return execFam<parser::ENTimeAgoFormatParser>(text, text, t, fresh); }
