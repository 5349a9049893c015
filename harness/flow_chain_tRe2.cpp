#include "flow_chain.hpp"
Box chain_t(const Re2& a, const std::vector<step>& st, unsigned mode, bool w)
{
    return chain::go<2, false, true>(lager::with(a), st, 0, mode, w, 0);
}
