// One instantiation of the FMPC solver per translation unit (SIM_T selects it).
#include "fmpc_impl.h"
#if SIM_T == 4
#  define NN 2
#  define MM 1
#  define KK 3
#elif SIM_T == 5
#  define NN 3
#  define MM 2
#  define KK 4
#elif SIM_T == 6
#  define NN 2
#  define MM Eigen::Dynamic
#  define KK Eigen::Dynamic
#else
#  define NN 3
#  define MM Eigen::Dynamic
#  define KK 2
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace sim
{
std::shared_ptr<IObj> CAT(makeT, SIM_T)(const KV & d, Env & env, IObj * share)
{
  return std::make_shared<FmpcObj<NN, MM, KK>>(d, env, share);
}
} // namespace sim
