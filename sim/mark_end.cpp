// Linked right after the units under test.
#include "engine.h"
namespace sim
{
alignas(64) unsigned char g_data_end[64] = {1};
alignas(64) unsigned char g_bss_end[64];
}  // namespace sim
