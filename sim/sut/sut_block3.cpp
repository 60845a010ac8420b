// Buffers of more than 4 GB: sizes and offsets past 32 bits.
#include "sut_block.inc"
namespace sut
{
const BlockApi *const kBlockPart3[] = {
    &block_api<300, (1ull << 24)>::api,
    &block_api<6, (1ull << 30)>::api,
};
}  // namespace sut
