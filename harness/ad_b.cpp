#include "adapter_int.h"
#include "src/parsers/en/ENCasualDateParser.hpp"
FAMFN(3) { return execFam<parser::ENCasualDateParser>(text, text, t, fresh); }
#include "src/parsers/en/ENMonthNameMiddleEndianParser.hpp"
FAMFN(4) { return execFam<parser::ENMonthNameMiddleEndianParser>(text, text, t, fresh); }
