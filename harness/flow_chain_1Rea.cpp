#include "flow_chain.hpp"
Box chain1(const Rea& a, const std::vector<step>& st, unsigned mode, bool w)
{
    return chain::go<3, is_writable<Rea>, false>(lager::with(a), st, 0, mode, w, 0);
}
