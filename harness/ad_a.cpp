#include "adapter_int.h"
#include "src/parsers/en/ENCasualTimeParser.hpp"
FAMFN(0) { return execFam<parser::ENCasualTimeParser>(text, text, t, fresh); }
#include "src/parsers/en/ENDeadlineFormatParser.hpp"
FAMFN(1) { return execFam<parser::ENDeadlineFormatParser>(text, text, t, fresh); }
#include "src/parsers/en/ENDayOfTheWeekParser.hpp"
FAMFN(2) { return execFam<parser::ENDayOfWeekParser>(text, text, t, fresh); }
