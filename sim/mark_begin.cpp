// Linked right before the units under test: what lies between this and
// mark_end is the static storage of the code under test.
#include "engine.h"
namespace sim
{
alignas(64) unsigned char g_data_begin[64] = {1};
alignas(64) unsigned char g_bss_begin[64];
}  // namespace sim
