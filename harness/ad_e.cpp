#include "adapter_int.h"
#include "src/parsers/en/ENUSHolidaysParser.hpp"
FAMFN(10) { return execFam<parser::ENHolidayParser>(text, text, t, fresh); }
#include "src/parsers/en/ENWeekExperessionParser.hpp"
FAMFN(11) { return execFam<parser::ENWeekExpressionParser>(text, text, t, fresh); }
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"
FAMFN(12) { return execFam<parser::ENRelativeDateFormatParser>(text, text, t, fresh); }
