// One instantiation of the DDP solver per translation unit (SIM_T selects it).
#include "ddp_impl.h"
#if SIM_T == 0
#  define NN 2
#  define MM 1
#elif SIM_T == 1
#  define NN 3
#  define MM 2
#elif SIM_T == 2
#  define NN 2
#  define MM Eigen::Dynamic
#else
#  define NN 4
#  define MM Eigen::Dynamic
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace sim
{
std::shared_ptr<IObj> CAT(makeT, SIM_T)(const KV & d, Env & env, IObj * share) { return std::make_shared<DdpObj<NN, MM>>(d, env, share); }
} // namespace sim
