// instantiates the class templates of the tensor and tile layer, so that their member functions have bodies
#include <nntile/tensor/tensor.hh>
namespace nntile { namespace tile {
template class Tile<fp32_t>;
template class Tile<fp64_t>;
}}
namespace nntile { namespace tensor {
template class Tensor<fp32_t>;
template class Tensor<fp64_t>;
}}
