#include "adapter_int.h"
#include "src/refiners/OverlapRemovalRefiner.hpp"
#include "src/refiners/en/ENMergeDateRangeRefiner.hpp"
#include "src/refiners/ExtractTimeZoneAbbreviation.hpp"
#include "src/refiners/en/ENMergeDateAndTimeRefiner.hpp"
Result mcx::refineWith(int which, Result r, const std::string& text) {
    switch (which) {
        case R_OVERLAP: { OverlapRemover x; return x.refine(r, text); }
        case R_ZONE: { ExtractTimeZoneAbbreviation x; return x.refine(r, text); }
        case R_DATETIME: { ENMergeDateAndTime x; return x.refine(r, text); }
        case R_RANGE: { ENMergeDateRange x; return x.refine(r, text); }
    }
    return r;
}
