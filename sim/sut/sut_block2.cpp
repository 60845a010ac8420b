#include "sut_block.inc"
namespace sut
{
const BlockApi *const kBlockPart2[] = {
    &block_api<64, 2>::api,   &block_api<255, 4>::api,  &block_api<256, 8>::api,   &block_api<257, 8>::api,
    &block_api<12, 256>::api, &block_api<65536, 8>::api, &block_api<65537, 8>::api,
};
}  // namespace sut
