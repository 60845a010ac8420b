#include "sut_block.inc"
namespace sut
{
const BlockApi *const kBlockPart1[] = {
    &block_api<2, 1>::api,   &block_api<4, 8>::api,   &block_api<8, 16>::api, &block_api<16, 64>::api,
    &block_api<32, 8>::api,  &block_api<33, 32>::api, &block_api<5, 4096>::api,
};
}  // namespace sut
