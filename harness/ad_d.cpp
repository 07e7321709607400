#include "adapter_int.h"
#include "src/parsers/en/ENTimeExpressionParser.hpp"
FAMFN(8) { return execFam<parser::ENTimeExpressionParser>(text, text, t, fresh); }
#include "src/parsers/en/ENISOFormatParser.hpp"
FAMFN(9) { return execFam<parser::ENISOFormatParser>(text, text, t, fresh); }
